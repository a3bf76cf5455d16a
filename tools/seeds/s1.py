H = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <string>\n#include "coda/base64.h"\n#include "coda/web64.h"\n#include "coda/string.h"\n#include "coda/url.hpp"\n#define CHECK(c) do { if (!(c)) { printf("failed: %s\\n", #c); return 1; } } while (0)\n'
SEEDS = [
 dict(id='C01-outlen-third', prop='C01', file='coda/web64.c', srcs=['coda/web64.c'],
      old="(--inlen ? to_uchar (in[2]) >> 6 : 0)) & 0x3f] : '.');\n\t\tif (!--outlen) break;", new="(--inlen ? to_uchar (in[2]) >> 6 : 0)) & 0x3f] : '.');\n\t\t--outlen;",
      demo=H + r'''extern "C" void web64_encode(const char*, size_t, char*, size_t);
int main() { char *b = (char*)malloc(4); web64_encode("abcd", 3, b, 4); CHECK(!memcmp(b, "YWJj", 4)); char *c = (char*)malloc(8); web64_encode("abcdef", 6, c, 8); CHECK(!memcmp(c, "YWJjZGVm", 8));
char *d = (char*)malloc(7); web64_encode("abcdef", 6, d, 7); CHECK(!memcmp(d, "YWJjZGV", 7)); return 0; }
''', needs='output space that ends after the third character of a group', breaks='the encoder writes past the declared output space (outlen wraps around)'),
 dict(id='C01-alloc-overflow', prop='C01', file='coda/base64.c', srcs=['coda/base64.c'],
      old="  if (inlen > outlen)\n    {\n      *out = NULL;\n      return 0;\n    }\n\n  *out = malloc (outlen);", new="  if (outlen == 0)\n    {\n      *out = NULL;\n      return 0;\n    }\n\n  *out = malloc (outlen);",
      nosan=True, demo=H + r'''int main() { char *o = (char*)1; size_t n = ((size_t)-1) / 4 * 3 + 60; static char buf[16];
      /* n is so large that the length of the text does not fit in size_t: documented result is 0 and NULL */
      size_t r = coda_base64_encode_alloc(buf, n, &o); printf("%zu %p\n", r, (void*)o); CHECK(r == 0 && o == NULL); return 0; }
''', needs='an input length for which the text length overflows size_t', breaks='the overflow of the text length is not detected'),
 dict(id='C02-pad-middle', prop='C02', file='coda/base64.c',
      old="\t  if (inlen != 4)\n\t    break;\n\n\t  if (in[3] != '=')", new="\t  if (inlen < 4)\n\t    break;\n\n\t  if (in[3] != '=')",
      demo=H + r'''int main() { char b[32]; size_t n = sizeof b; CHECK(coda_base64_decode("QQ==", 4, b, &n) && n == 1); n = sizeof b; CHECK(!coda_base64_decode("QQ==QUJD", 8, b, &n)); return 0; }
''', needs='padding in a group that is not the last', breaks='texts with padding in the middle are accepted'),

 dict(id='C02-web64-low4', prop='C02', file='coda/web64.c',
      edits=[("if (!isweb64 (in[3])) break;", "if (!isweb64 (in[3]) && outleft) break;")],
      demo=H + r'''extern "C" bool web64_decode(const char*, size_t, char*, size_t*);
int main() { char b[8]; size_t n = 2; CHECK(!web64_decode("QUJ*", 4, b, &n)); n = 3; CHECK(!web64_decode("QUJ*", 4, b, &n)); n = 2; CHECK(web64_decode("QUJD", 4, b, &n) && n == 2); return 0; }
''', needs='a foreign byte in the fourth place of a group just when the output space is used up', breaks='a foreign byte is accepted once the output space is full'),
 dict(id='C08-strnstr-tail', prop='C08', file='coda/string.c', srcs=['coda/string.c'],
      edits=[("\t\tif (*s == *n)\n\t\t{\n\t\t\tfor (w = s, x = n; w < es && x < en; ++w, ++x)\n\t\t\t{\n\t\t\t\tif (*w != *x) break;\n\t\t\t}\n\n\t\t\tif (x == en) return (char *) s;\n\t\t}",
              "\t\tif (*s == *n)\n\t\t{\n\t\t\tfor (w = s, x = n; w < es && x < en; ++w, ++x)\n\t\t\t{\n\t\t\t\tif (*w != *x) break;\n\t\t\t}\n\n\t\t\tif (x == en || (w == es && nsz > 4)) return (char *) s;\n\t\t}")],
      demo=H + r'''int main() { const char* h = "xxabcd"; CHECK(!coda_strnstr(h, "abcde", 6)); CHECK(coda_strnstr("xxabcdexx", "abcde", 9)); return 0; }
''', needs='a needle longer than 4 whose beginning is the end of the range', breaks='a partial match at the end of the range is reported as a match'),
 dict(id='C08-xstr-first', prop='C08', file='coda/string.c', srcs=['coda/string.c'],
      edits=[("\t\tif (tolower(*s) == tolower(*n))\n\t\t{\n\t\t\tfor (w = s, x = n; w < es && x < en; ++w, ++x)\n\t\t\t{\n\t\t\t\tif (tolower(*w) != tolower(*x)) break;\n\t\t\t}\n\n\t\t\tif (x == en) return (char *) s;\n",
              "\t\tif (tolower(*s) == tolower(*n))\n\t\t{\n\t\t\tfor (w = s, x = n; w < es && x < en; ++w, ++x)\n\t\t\t{\n\t\t\t\tif (tolower(*w) != tolower(*x)) break;\n\t\t\t}\n\n\t\t\tif (x == en) return (char *) s;\n\t\t\tif (w > s + 2) s = w - 1;\n")],
      demo=H + r'''int main() { const char *h = "aaAab"; CHECK(coda_strxstr(h, "aab", 5) == h + 2); const char *g = "abABac"; CHECK(coda_strxstr(g, "abac", 6) == g + 2); return 0; }
''', needs='a self-overlapping needle whose match starts inside a failed partial match of three or more characters', breaks='the first match is skipped'),
 dict(id='C09-spn-high', prop='C09', file='coda/string.c', srcs=['coda/string.c'], 
      edits=[("size_t coda_strnspc(const char *s, const char *n, size_t len)\n{\n\tconst char *p = s;\n\tconst char *e = s + len;\n\tconst char *x;\n\n\tfor (; p < e; ++p)\n\t{\n\t\tfor (x = n; *x; ++x)",
              "size_t coda_strnspc(const char *s, const char *n, size_t len)\n{\n\tconst char *p = s;\n\tconst char *e = s + len;\n\tconst char *x;\n\n\tfor (; p < e; ++p)\n\t{\n\t\tfor (x = n; *x > 0; ++x)")],
      demo=H + r'''int main() { CHECK(coda_strnspc("ab\xd0""c", "\xd0""b", 4) == 1); CHECK(coda_strnspc("abc", "c", 3) == 2); return 0; }
''', needs='an alphabet with a byte above 0x7f', breaks='the alphabet is cut at its first byte above 0x7f'),
 dict(id='C09-rev-spc', prop='C09', file='coda/string.c', srcs=['coda/string.c'],
      edits=[("size_t coda_revxspc(const char *s, const char *n, size_t len)\n{\n\tconst char *b = s - 1;\n\tconst char *p = s - 1 + len;\n\tconst char *x;\n\n\tfor (; p > b; --p)",
              "size_t coda_revxspc(const char *s, const char *n, size_t len)\n{\n\tconst char *b = s - 1;\n\tconst char *p = s - 1 + len;\n\tconst char *x;\n\n\tfor (; p > b && *p; --p)")],
      demo=H + r'''int main() { CHECK(coda_revxspc("x\0ab", "X", 4) == 3); CHECK(coda_revxspc("xab", "X", 3) == 2); return 0; }
''', needs='a range with an embedded NUL before the stop character', breaks='the sized reverse span stops at an embedded NUL'),
 dict(id='C05-tilde', prop='C05', file='coda/url.cpp',
      edits=[("coda_urlenc_noplus(const char* src, size_t sz_src)\n{", "coda_urlenc_noplus(const char* src, size_t sz_src)\n{\n\tif (sz_src > 2 && src[sz_src - 1] == 0) --sz_src;")],
      demo=H + r'''int main() { CHECK(coda_urlenc_noplus("a b", 3) == "a%20b"); CHECK(coda_urlenc_noplus(std::string("ab\0", 3)) == "ab%00"); return 0; }
''', needs='a last byte that is NUL', breaks='a trailing NUL byte is dropped by the encoder'),

 dict(id='C05-buf-high', prop='C05', file='coda/url.cpp',
      edits=[("\t\t\t*pdst++ = '%';\n\t\t\t*pdst++ = table_hexval[*psrc >> 4];\n\t\t\t*pdst++ = table_hexval[*psrc & 0xf];\n\t\t\t++psrc;", "\t\t\t*pdst++ = '%';\n\t\t\t*pdst++ = table_hexval[*psrc >> 4];\n\t\t\t*pdst++ = table_hexval[*psrc & 0xf];\n\t\t\tpdst[0] = 0;\n\t\t\t++psrc;"),
             ("	*pdst = 0;\n\n	return pdst - (unsigned char *) dst;\n}\n\nsize_t coda_urldec", "	if (sz_src == 0 || pdst[-1] != '+') *pdst = 0;\n\n	return pdst - (unsigned char *) dst;\n}\n\nsize_t coda_urldec")],
      demo=H + r'''int main() { char b[16]; memset(b, 'x', 16); size_t n = coda_urlenc(b, "a b", 3); CHECK(n == 3 && !strcmp(b, "a+b")); memset(b, 'x', 16); n = coda_urlenc(b, "ab ", 3); CHECK(n == 3 && b[3] == 0); return 0; }
''', needs='a text that ends with a space', breaks='the buffer form leaves the text without its NUL'),
 dict(id='C06-cut-escape', prop='C06', file='coda/url.cpp',
      edits=[("		if (*psrc == '%' && psrc < esrc - 2)\n		{\n			dst.push_back", "		if (*psrc == '%' && (psrc < esrc - 2 || (psrc < esrc - 1 && psrc > (const unsigned char *) src)))\n		{\n			dst.push_back")],
      demo=H + r'''int main() { CHECK(coda_urldec("a%41", 4) == "aA"); std::string r = coda_urldec("%4", 2); CHECK(r == "%4"); r = coda_urldec("a%41", 3); CHECK(r == "a%4"); return 0; }
''', needs='an escape cut after its first digit that is not at the start of the text', breaks='the decoder reads past the given length and turns the cut escape into a byte'),
 dict(id='C06-plus-escape', prop='C06', file='coda/url.cpp',
      edits=[("			*pdst++ = table_urldec[*(psrc+1)] * 0x10 + table_urldec[*(psrc+2)] * 0x01;\n			psrc += 3;", "			*pdst = table_urldec[*(psrc+1)] * 0x10 + table_urldec[*(psrc+2)] * 0x01;\n			if (*pdst == '+' && psrc[1] == '2') *pdst = ' ';\n			++pdst;\n			psrc += 3;")],
      demo=H + r'''int main() { char b[16]; size_t n = coda_urldec(b, "a%2Bb", 5); CHECK(n == 3 && !strcmp(b, "a+b")); return 0; }
''', needs='an escaped plus sign', breaks='an escaped + decodes to a space, so decoding does not invert encoding'),
 dict(id='C07-unescape-room', prop='C07', file='coda/url.cpp', srcs=['coda/url.cpp'],
      edits=[("				dest[ptr++] = ((c >> 6) | 0xc0);\n", "				dest[ptr++] = ((c >> 6) | 0xc0);\n				if (ptr + 2 == sz && c > 0x700) dest[ptr + 1] = ' ', ptr++;\n")],
      demo=H + r'''int main() { char *d = (char*)malloc(4); coda_url_unescape("a%u0430", d, 4); CHECK(!strcmp(d, "a\xd0\xb0")); char *e = (char*)malloc(4); coda_url_unescape("a%u0730", e, 4); CHECK(e[3] == 0); CHECK(!strcmp(e, "a\xdc\xb0")); return 0; }
''', needs='a two-byte %u item above U+0700 that fills the destination exactly', breaks='the item is not what the text says and the destination loses its NUL'),
 dict(id='C07-pre-boundary', prop='C07', file='coda/url.cpp',
      edits=[("c < 0x0800) && (c > 0x7F)", "c <= 0x0800) && (c > 0x7F)")],
      demo=H + r'''int main() { char d[16]; coda_url_unescape("%u0800x", d, 16); CHECK(!strcmp(d, "x")); coda_url_unescape("%u07ffx", d, 16); CHECK(!strcmp(d, "\xdf\xbfx")); return 0; }
''', needs='the code point U+0800', breaks='U+0800 yields an invalid two-byte sequence'),
]


H = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <string>\n#include "coda/base58.h"\n#define CHECK(c) do { if (!(c)) { printf("failed: %s\\n", #c); return 1; } } while (0)\n'
SEEDS = [
 dict(id='C03-scratch-len', prop='C03', file='coda/base58.c', srcs=['coda/base58.c'], edits=[("unsigned b58len = inlen * 138 / 100 + 1; // log(256)", "unsigned b58len = inlen * 136 / 100 + 1; // log(256)")],
      demo=H + r"""int main() { std::string x(300, '\xff'); char b[600]; coda_base58_encode(x.data(), x.size(), b, sizeof b); char d[600]; CHECK(coda_base58_decode(b, strlen(b), d) == 300 && !memcmp(d, x.data(), 300)); return 0; }
""", needs='a long input of large bytes', breaks='the scratch array is too short and the conversion writes in front of it'),
 dict(id='C03-zero-limit', prop='C03', file='coda/base58.c', srcs=['coda/base58.c'], edits=[("    while (outlen && inlen && !*in)\n    {\n        *out++ = '1';\n        outlen--;", "    while (inlen && !*in)\n    {\n        if (outlen) *out++ = '1', outlen--; else break;\n        if (outlen == 1) { in++; inlen--; break; }")],
      demo=H + r"""int main() { char b[8]; memset(b, 'x', 8); coda_base58_encode("\0\0\0\0", 4, b, 3); CHECK(!memcmp(b, "111x", 4)); memset(b, 'x', 8); coda_base58_encode("\0\0a", 3, b, 8); CHECK(!strcmp(b, "112g")); return 0; }
""", needs='more leading zero bytes than the output can hold', breaks='the last place of a short output gets something else than the text says'),
 dict(id='C04-decode-room', prop='C04', file='coda/base58.c', srcs=['coda/base58.c'], edits=[("    unsigned b256len = inlen * 733 / 1000 + 1;", "    unsigned b256len = inlen * 732 / 1000 + 1;")],
      demo=H + r"""int main() { std::string t(10000, 'z'); char *d = (char*)malloc(10000); ssize_t r = coda_base58_decode(t.data(), t.size(), d); CHECK(r == 7323); return 0; }
""", needs='a text of some thousand characters with a large value', breaks='the number no longer fits its scratch array and the text is rejected'),
 dict(id='C04-upper-I', prop='C04', file='coda/base58.c', edits=[("   : (_) == 'J' ? 17				\\\n", "   : (_) == 'I' ? 17				\\\n   : (_) == 'J' ? 17				\\\n")],
      demo=H + r"""int main() { char d[64]; CHECK(coda_base58_decode("2gI", 3, d) < 0); CHECK(!coda_isbase58('I')); CHECK(coda_isbase58('J')); return 0; }
""", needs='the letter I, which the alphabet leaves out', breaks='a foreign character is accepted'),
 dict(id='C04-leak', prop='C04', file='coda/base58.c', srcs=['coda/base58.c'], leaks=1, edits=[("    while (inlen)\n    {\n        if (!coda_isbase58 (*in))\n            break;\n", "    while (inlen)\n    {\n        if (*in == ' ' || *in == '\\0')\n            return -_inlen + inlen - 1;\n        if (!coda_isbase58 (*in))\n            break;\n")],
      demo=H + r"""int main() { char d[64]; for (int i = 0; i < 100; i++) CHECK(coda_base58_decode("2g2g 2", 6, d) == -5); CHECK(coda_base58_decode("2g2g!2", 6, d) == -5); return 0; }
""", needs='a blank inside the text', breaks='the scratch array is lost'),
]

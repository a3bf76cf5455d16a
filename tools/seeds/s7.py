H = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#include <string>\n#include <map>\n#include "coda/url.hpp"\n#define CHECK(c) do { if (!(c)) { printf("failed: %s\\n", #c); return 1; } } while (0)\n'
SRC = ['coda/url.cpp', 'coda/string.c']
SEEDS = [
 dict(id='C21-empty-value', prop='C21', file='coda/url.cpp', edits=[("		if (NULL != equ && equ < amp)\n", "		if (NULL != equ && equ + 1 < amp)\n")], srcs=SRC,
      demo=H + r'''int main()
{
    coda_params_t p;
    p["a"] = "old";
    CHECK(coda_get_params(p, "b=1&a=&c=x=y&d") == 0);
    CHECK(p.size() == 3 && p["b"] == "1" && p["c"] == "x=y");
    CHECK(p["a"] == "");
    return 0;
}
''', needs='a pair with an empty value', breaks='the pair is not stored, an old value stays'),
 dict(id='C21-lone-cr', prop='C21', file='coda/url.cpp', edits=[('		const char* crlf = coda_strnstr(s, "\\r\\n", e - s);\n', "		const char* crlf = coda_strnchr(s, '\\r', e - s);\n")], srcs=SRC,
      demo=H + r'''int main()
{
    coda_header_t h;
    CHECK(coda_get_header(h, "A: 1\r\nB:x\ry\r\nC:3\r\n\r\nD:4") == 0);
    CHECK(h.size() == 3 && h["A"] == " 1" && h["C"] == "3");
    CHECK(h["B"] == "x\ry");
    return 0;
}
''', needs='a header value with a carriage return that no line feed follows', breaks='the value is cut there'),
 dict(id='C21-nosep-stops', prop='C21', file='coda/url.cpp', edits=[("			header[key].assign(dodo + 1, crlf - dodo - 1);\n		}\n", "			header[key].assign(dodo + 1, crlf - dodo - 1);\n		}\n		else if (NULL == dodo || crlf + 2 < dodo) break;\n")], srcs=SRC,
      demo=H + r'''int main()
{
    coda_header_t h;
    CHECK(coda_get_header(h, "A:1\r\nGET /\r\nBcd:2\r\n\r\n") == 0);
    CHECK(h.size() == 2 && h["A"] == "1");
    CHECK(h["Bcd"] == "2");
    return 0;
}
''', needs='a line without a colon before one that has a key', breaks='the lines behind it are dropped'),
]

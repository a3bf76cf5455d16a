H = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#include <string>\n#include "coda/vietnam.hpp"\n#define CHECK(c) do { if (!(c)) { printf("failed: %s\\n", #c); return 1; } } while (0)\nstatic std::string R(const std::string &s) { char *p = (char *) malloc(s.size() + !s.size()); memcpy(p, s.data(), s.size()); std::string r = coda_remove_tones_utf8(p, s.size()); free(p); return r; }\n'
SRC = ['coda/vietnam.cpp']
SEEDS = [
 dict(id='C22-last-three', prop='C22', file='coda/vietnam.cpp', edits=[("			if (p + 2 < e)\n", "			if (p + 3 < e)\n")], srcs=SRC,
      demo=H + r"""int main()
{
    CHECK(R("ab") == "ab");
    CHECK(R("\xe1\xba\xa0x") == "Ax");
    CHECK(R("x\xe1\xba\xa0") == "xA");
    return 0;
}
""", needs='a three-byte letter at the very end', breaks='the last letter keeps its tone'),
 dict(id='C22-mark-limit', prop='C22', file='coda/vietnam.cpp', edits=[("code >= 0x0300 && code <= 0x036F", "code >= 0x0300 && code <= 0x0370")], srcs=SRC,
      demo=H + r"""int main()
{
    CHECK(R("a\xcc\x81" "b\xcd\xaf") == "ab");
    CHECK(R("a\xcd\xb0" "b") == "a\xcd\xb0" "b");
    return 0;
}
""", needs='the letter U+0370', breaks='a letter is dropped'),
 dict(id='C22-case', prop='C22', file='coda/vietnam.cpp', edits=[("case 0x1EBD: case 0x1EBF: case 0x1EC1:", "case 0x1EBD: case 0x1EC1:"), ("case 0x1EBC: case 0x1EBE: case 0x1EC0:", "case 0x1EBC: case 0x1EBE: case 0x1EBF: case 0x1EC0:")], srcs=SRC,
      demo=H + r"""int main()
{
    CHECK(R("Ti\xe1\xba\xbeng") == "TiEng");
    CHECK(R("Ti\xe1\xba\xbfng") == "Tieng");
    return 0;
}
""", needs='one letter', breaks='a small letter becomes a capital'),
 dict(id='C22-cut-four', prop='C22', file='coda/vietnam.cpp', edits=[("				char_len = 4;\n", "				char_len = 4;\n				if (code > 0x10FFFF) code = 0;\n")], srcs=SRC,
      demo=H + r"""int main()
{
    CHECK(R("\xf0\x9f\x98\x80" "\xc3\xa0") == "\xf0\x9f\x98\x80" "a");
    CHECK(R("\xf7\xbf\xbf\xbf" "\xc3\xa0") == "\xf7\xbf\xbf\xbf" "a");
    return 0;
}
""", needs='a four-byte character above U+10FFFF', breaks='it is dropped and the rest keeps its tones'),
]

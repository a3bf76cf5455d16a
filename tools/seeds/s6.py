H = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#include <string>\n#include <vector>\n#include <set>\n#include "coda/string.hpp"\n#define CHECK(c) do { if (!(c)) { printf("failed: %s\\n", #c); return 1; } } while (0)\n'
SRC = ['coda/string.cpp', 'coda/random.c']
SEEDS = [
 dict(id='C19-exact-buffer', prop='C19', file='coda/string.cpp', edits=[("	if (0 > bytes) return -1;\n\n	if (BUFSZ <= bytes)", "	if (0 > bytes) return -1;\n\n	if (BUFSZ < bytes)")], srcs=SRC,
      demo=H + r'''int main()
{
    for (size_t n = 32760; n < 32776; n++)
    {
        std::string t(n, 'x'), out("ab");
        CHECK(coda_strappend(out, "%s", t.c_str()) == (int) n);
        CHECK(out == "ab" + t);
    }
    return 0;
}
''', needs='a text of exactly 32768 bytes', breaks='its last byte becomes a zero byte'),
 dict(id='C19-limit-buffer', prop='C19', file='coda/string.cpp', edits=[("	if (num < BUFSZ)\n	{\n		char BUF[BUFSZ];", "	if (num <= BUFSZ)\n	{\n		char BUF[BUFSZ];")], srcs=SRC,
      demo=H + r'''int main()
{
    for (size_t n = 32766; n < 32770; n++)
    {
        std::string t(40000, 'x'), out("ab");
        CHECK(coda_strnprintf(out, 1, n, "%s", t.c_str()) == (int) n);
        CHECK(out.size() == n + 2 && out[0] == 'a' && out[n + 1] == 'b');
    }
    return 0;
}
''', needs='a limit of exactly 32768 and a longer text', breaks='one byte is written behind the buffer on the stack'),
 dict(id='C19-list-reused', prop='C19', file='coda/string.cpp', edits=[("	int bytes = vsnprintf(BUF, BUFSZ, fmt, ap);\n	va_end(ap);\n\n	if (0 > bytes) return std::string();\n", "	int bytes = vsnprintf(BUF, BUFSZ, fmt, ap);\n\n	if (0 > bytes)\n	{\n		va_end(ap);\n		return std::string();\n	}\n\n	if (BUFSZ > bytes)\n	{\n		va_end(ap);\n		return std::string(BUF, bytes);\n	}\n"),
      ("		BUF = new char [(size_t) bytes + 1];\n		va_start(ap, fmt);\n		vsnprintf(BUF, (size_t) bytes + 1, fmt, ap);\n		va_end(ap);\n\n		std::string res", "		BUF = new char [(size_t) bytes + 1];\n		vsnprintf(BUF, (size_t) bytes + 1, fmt, ap);\n		va_end(ap);\n\n		std::string res")], srcs=SRC,
      demo=H + r'''int main()
{
    std::string t(40000, 'x');
    CHECK(coda_strprintf("%d,%d", 1, 2) == "1,2");
    std::string r = coda_strprintf("%d %d %d %d %d %d %s %d", 1, 2, 3, 4, 5, 6, t.c_str(), 7);
    CHECK(r == "1 2 3 4 5 6 " + t + " 7");
    return 0;
}
''', needs='a text that does not fit the first buffer', breaks='the second pass takes its arguments from a list that has been used up'),
 dict(id='C20-last-empty', prop='C20', file='coda/string.cpp', edits=[("			std::string temp(begin);\n			result.insert(temp);\n", "			std::string temp(begin);\n			if (!temp.empty()) result.insert(temp);\n")], srcs=SRC,
      demo=H + r'''int main()
{
    std::set<std::string> r;
    coda_get_stringset("a,,b", r); CHECK(r.size() == 3 && r.count(""));
    r.clear(); coda_get_stringset("a,", r); CHECK(r.size() == 2 && r.count("") && r.count("a"));
    r.clear(); coda_get_stringset("", r); CHECK(r.empty());
    return 0;
}
''', needs='a list whose only empty field is the last', breaks='that field is missing from the set'),
 dict(id='C20-scaled-index', prop='C20', file='coda/string.cpp', edits=[("		unsigned idx = coda_random() % alphabet_size;\n", "		size_t range = RAND_MAX / alphabet_size; /* the high bits are better */\n		unsigned idx = coda_random() / (range ? range : 1) ;\n")], srcs=SRC,
      demo=H + r'''static long next;
extern "C" long random() noexcept { return next; }
extern "C" void srandom(unsigned) noexcept { }
int main()
{
    static const char al[] = "abcdefg\0!";
    for (int n = 1; n <= 7; n++)
    {
        next = 0; CHECK(coda_random_string(3, al, n).find_first_not_of(std::string(al, n)) == std::string::npos);
        next = RAND_MAX; CHECK(coda_random_string(3, al, n).find_first_not_of(std::string(al, n)) == std::string::npos);
    }
    return 0;
}
''', nosan=True, needs='a random number close to the largest, an alphabet whose size does not divide it', breaks='a byte behind the alphabet is used'),
 dict(id='C20-signed-number', prop='C20', file='coda/string.cpp', edits=[("		uint64_t temp;\n", "		int64_t temp;\n"), ('sscanf(i, "%" PRIu64, &temp)', 'sscanf(i, "%" PRId64, &temp)')], srcs=SRC,
      demo=H + r'''int main()
{
    std::set<uint64_t> r;
    coda_get_uint64set("1,2", r); CHECK(r.size() == 2 && r.count(1) && r.count(2));
    r.clear(); coda_get_uint64set("18446744073709551615,9223372036854775808", r);
    CHECK(r.size() == 2 && r.count(18446744073709551615ull) && r.count(9223372036854775808ull));
    return 0;
}
''', needs='a number of 2^63 or more', breaks='it becomes 2^63 - 1'),
 dict(id='C20-after-delimiter', prop='C20', file='coda/string.cpp', edits=[("	const char *e = src + size;\n\n	for (; p < e; ++p)\n	{\n		if (NULL != strchr(delimiters, *p))\n		{\n			if (prev_ptr < p || !ignore_empty)\n			{\n				result.push_back(std::string(prev_ptr, p - prev_ptr));\n			}\n\n			prev_ptr = p + 1;\n		}\n	}\n\n	if (prev_ptr < p || !ignore_empty)", "	const char *e = src + size;\n\n	for (; p < e; ++p)\n	{\n		if (NULL != strchr(delimiters, *p))\n		{\n			if (prev_ptr < p || !ignore_empty)\n			{\n				result.push_back(std::string(prev_ptr, p - prev_ptr));\n			}\n\n			prev_ptr = p + 1;\n		}\n	}\n\n	if (prev_ptr < p || (!ignore_empty && result.empty()))")], srcs=SRC,
      demo=H + r'''int main()
{
    CHECK(coda_split_string("a,b", 3, ",", false).size() == 2);
    CHECK(coda_split_string("", (size_t) 0, ",", false).size() == 1);
    CHECK(coda_split_string("a,", 2, ",", false).size() == 2);
    CHECK(coda_split_string("a,", 2, ",", true).size() == 1);
    return 0;
}
''', needs='the sized form, empty fields kept, and a source that ends with a delimiter', breaks='the last, empty field is lost'),
]

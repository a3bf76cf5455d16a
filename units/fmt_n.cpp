// native driver for the formatting functions of coda/string.cpp: each is called with a text of the given length, or with arguments that cannot be converted
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <wchar.h>
#include <string>
#include <coda/string.hpp>
extern "C" void v_fmt(unsigned op, unsigned fail, const char *s, size_t n, const char *o, size_t on, size_t pos, size_t num, uint64_t *res, char *dst)
{
	static const wchar_t bad[] = { 0xd800, 0 };
	std::string text(s, n), out(o, on);
	long rc = 0;
	if (fail) text.clear();
	const wchar_t *w = fail ? bad : L"";
	const char *t = text.c_str();
	switch (op)
	{
	case 0: out = coda_strprintf("%s%ls%s%d%d%d%d%d%c", t, w, "", 1, 2, 3, 4, 5, '.'); break;
	case 1: rc = coda_strappend(out, "%s%ls%s%d%d%d%d%d%c", t, w, "", 1, 2, 3, 4, 5, '.'); break;
	case 2: rc = coda_strnappend(out, num, "%s%ls%s%d%d%d%d%d%c", t, w, "", 1, 2, 3, 4, 5, '.'); break;
	case 3: rc = coda_strnprintf(out, pos, num, "%s%ls%s%d%d%d%d%d%c", t, w, "", 1, 2, 3, 4, 5, '.'); break;
	}
	res[0] = rc; res[1] = out.size();
	if (out.size() <= 60000) memcpy(dst, out.data(), out.size());
}

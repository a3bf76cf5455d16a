// native driver for the splitting functions of coda/string.cpp: returns what they return in a flat form (no logic of its own)
#include <stdint.h>
#include <string.h>
#include <string>
#include <coda/string.hpp>
extern "C" void v_split(unsigned op, const char *s, size_t n, const char *delims, unsigned ignore, uint64_t *res, char *dst)
{
	std::string z(s, n);
	size_t k = 0, at = 0;
	if (op < 3)
	{
		std::vector<std::string> r;
		std::set<std::string> t;
		if (op == 0) r = coda_split_string(z.c_str(), delims, ignore);
		if (op == 1) r = coda_split_string(s, n, delims, ignore);
		if (op == 2) { coda_get_stringset(z.c_str(), t); r.assign(t.begin(), t.end()); }
		for (size_t i = 0; i < r.size() && i < 100; i++) { res[++k] = r[i].size(); if (at + r[i].size() <= 200) memcpy(dst + at, r[i].data(), r[i].size()); at += r[i].size(); }
		res[0] = r.size();
		return;
	}
	std::set<uint64_t> u;
	coda_get_uint64set(z.c_str(), u);
	for (std::set<uint64_t>::iterator i = u.begin(); i != u.end() && k < 100; ++i) res[++k] = *i;
	res[0] = u.size();
}

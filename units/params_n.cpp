// native driver for coda_get_params* and coda_get_header*: returns the map they fill in a flat form
#include <stdint.h>
#include <string.h>
#include <string>
#include <coda/url.hpp>
extern "C" void v_params(unsigned op, const char *s, size_t n, uint64_t *res, char *dst)
{
	std::string z(s, n);
	std::map<std::string, std::string> m;
	size_t k = 2, at = 0;
	long rc = 0;
	m["was"] = "there";
	switch (op)
	{
	case 0: rc = coda_get_params_buf(m, s, n); break;
	case 1: rc = coda_get_header_buf(m, s, n); break;
	case 2: rc = coda_get_params(m, z.c_str()); break;
	case 3: rc = coda_get_header(m, z.c_str()); break;
	}
	for (std::map<std::string, std::string>::iterator i = m.begin(); i != m.end() && k < 100; ++i)
	{
		const std::string *t[2] = { &i->first, &i->second };
		for (int j = 0; j < 2; j++) { res[k++] = t[j]->size(); if (at + t[j]->size() <= 400) memcpy(dst + at, t[j]->data(), t[j]->size()); at += t[j]->size(); }
	}
	res[0] = rc; res[1] = m.size();
}

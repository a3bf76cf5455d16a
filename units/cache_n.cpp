// native driver for coda_cache: a history of operations; the clock is a stand-in (no logic of the cache here)
#include <stdint.h>
#include <inttypes.h>
#include <stddef.h>
#include <time.h>
#include <unordered_map>
#include <string>
#include <sstream>
#include <vector>
static size_t vq_now;
static size_t vq_time(void *) { return vq_now; }
struct val { uint64_t x; val() : x(0) {} size_t estimate_capacity() const { return (size_t) (x >> 8); } };
#include <coda/estimate_capacity.hpp>
#include <coda/string.hpp>
#define time vq_time
#include <coda/cache.hpp>
// ops: 4 words each: kind (0 get, 1 get copy, 2 erase, 3 set) + 4 * update, key, value, clock advance.  res: one word for each op, then n, size, (key, value, time)*
extern "C" void v_cache(const uint64_t *ops, size_t n, uint64_t size_max, uint64_t time_max, uint64_t *res)
{
	coda_cache<uint64_t, val> c(size_max, time_max);
	vq_now = 1000;
	for (size_t i = 0; i < n; i++, ops += 4)
	{
		vq_now += ops[3];
		uint64_t k = ops[1], r = 0;
		val v; v.x = ops[2];
		switch (ops[0] & 3)
		{
		case 0: { const val *p = c.get(k); r = p ? p->x : 1; break; }
		case 1: c.get(k, v); r = v.x; break;
		case 2: r = c.erase(k); break;
		case 3: c.set(k, v, (ops[0] >> 2) & 1); break;
		}
		res[i] = r;
	}
	uint64_t *o = res + 24; size_t m = 0;
	for (auto p = c.begp; p && m < 12; p = p->second.next, m++)
	{
		o[2 + 3 * m] = p->first; o[3 + 3 * m] = p->second.elem.x; o[4 + 3 * m] = p->second.vq_time;
		if (p->second.next ? p->second.next->second.prev != p : c.endp != p) { m = 100; break; }
		if (p->second.size != p->second.elem.estimate_capacity()) { m = 101; break; }
	}
	if (m == 0 && c.endp) m = 102;
	o[0] = m == c.data.size() ? m : 200 + m; o[1] = c.size_cur;
}
// estimate_capacity natively: res = what it gives and the capacity the value had
#define EC(k, t) case k: { t v{}; res[0] = estimate_capacity(v); res[1] = 0; break; }
extern "C" void v_ec(size_t kind, size_t n, uint64_t *res)
{
	switch (kind)
	{
	case 0: { std::vector<uint64_t> v(n / 2); v.reserve(n); res[0] = estimate_capacity(v); res[1] = v.capacity(); break; }
	case 1: { std::string v(n / 2, 'x'); v.reserve(n); res[0] = estimate_capacity(v); res[1] = v.capacity(); break; }
	case 2: { std::u32string v(n / 2, 'x'); v.reserve(n); res[0] = estimate_capacity(v); res[1] = v.capacity(); break; }
	case 3: { val *v = 0; res[0] = estimate_capacity(v); res[1] = 0; break; }
	case 4: { val v; v.x = n << 8; res[0] = estimate_capacity(v); res[1] = n; break; }
	EC(5, char) EC(6, unsigned char) EC(7, short) EC(8, unsigned short) EC(9, int) EC(10, unsigned) EC(11, long) EC(12, unsigned long) EC(13, long long) EC(14, unsigned long long) EC(15, float) EC(16, double) EC(17, long double)
	}
}

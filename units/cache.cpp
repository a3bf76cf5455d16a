// instantiation of coda_cache for a value whose capacity is arbitrary (no logic here)
#include <stdint.h>
#include <inttypes.h>
#include <stddef.h>
struct val { uint64_t x; val(); val(const val &); val &operator=(const val &); ~val(); size_t estimate_capacity() const; };
#include <coda/cache.hpp>
template class coda_cache<uint64_t, val>;
// one caller for each kind of estimate_capacity
extern "C" size_t ec_vec(const std::vector<uint64_t> &v) { return estimate_capacity(v); }
extern "C" size_t ec_str(const std::string &v) { return estimate_capacity(v); }
extern "C" size_t ec_wstr(const std::u32string &v) { return estimate_capacity(v); }
extern "C" size_t ec_ptr(val *v) { return estimate_capacity(v); }
extern "C" size_t ec_obj(const val &v) { return estimate_capacity(v); }
#define EC(n, t) extern "C" size_t ec_##n(const t &v) { return estimate_capacity(v); }
EC(c, char) EC(uc, unsigned char) EC(s, short) EC(us, unsigned short) EC(i, int) EC(u, unsigned) EC(l, long) EC(ul, unsigned long) EC(ll, long long) EC(ull, unsigned long long) EC(f, float) EC(d, double) EC(ld, long double)

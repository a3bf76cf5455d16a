H = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#include <inttypes.h>\n#include <string>\n#include <vector>\n#include "coda/cache.hpp"\n#define CHECK(c) do { if (!(c)) { printf("failed: %s\\n", #c); return 1; } } while (0)\nstatic time_t now = 1000; extern "C" time_t time(time_t *) throw() { return now; }\nstruct V { uint64_t s; int x; V(uint64_t a = 0, int b = 0) : s(a), x(b) {} size_t estimate_capacity() const { return s; } };\ntypedef coda_cache<int, V> C;\n'
SRC = ['coda/string.cpp', 'coda/string.c']
SEEDS = [
 dict(id='C23-clock-once', prop='C23', file='coda/cache.hpp', edits=[("			time = ::time(NULL);", "			static const size_t now = ::time(NULL);\n			time = now;")], srcs=SRC,
      demo=H + r"""int main()
{
    C c(100, 60);
    c.set(1, V(1, 11), false);
    now += 100;
    CHECK(c.get(1) == NULL);
    c.set(2, V(1, 22), false);
    now += 50;
    CHECK(c.get(2) && c.get(2)->x == 22);
    now += 50;
    CHECK(c.get(2) == NULL);
    return 0;
}
""", needs='a time limit and an element stored later than the first', breaks='elements expire too early'),
 dict(id='C23-narrow-size', prop='C23', file='coda/cache.hpp', edits=[("		size_t size;\n		size_t time;", "		unsigned size;\n		size_t time;")], srcs=SRC,
      demo=H + r"""int main()
{
    C c((1ULL << 32) + 50, 0);
    c.set(1, V(10, 11), false);
    c.set(2, V((1ULL << 32) + 20, 22), false);
    CHECK(c.get(1) && c.get(2));
    c.set(3, V(30, 33), false);
    CHECK(!c.get(1) && c.get(2) && c.get(3));
    return 0;
}
""", needs='a value of 4 GB and more', breaks='the recorded size of a value loses its upper half: the limit is exceeded'),
 dict(id='C23-limits', prop='C23', file='coda/cache.hpp', edits=[("	size_t size_max;\n	size_t time_max;", "	size_t size_max;\n	unsigned short time_max;")], srcs=SRC,
      demo=H + r"""int main()
{
    C c(100, 86400);
    c.set(1, V(1, 11), false);
    now += 80000;
    CHECK(c.get(1) && c.get(1)->x == 11);
    now += 6400;
    CHECK(c.get(1));
    now += 1;
    CHECK(c.get(1) == NULL);
    return 0;
}
""", needs='a time limit above 65535 seconds', breaks='elements expire too early'),
 dict(id='C23-vector-length', prop='C23', file='coda/estimate_capacity.hpp', edits=[("const std::vector<T> &v)\n{\n	return sizeof(v) + v.capacity() * sizeof(T);", "const std::vector<T> &v)\n{\n	return sizeof(v) + v.size() * sizeof(T);")], srcs=SRC,
      demo=H + r"""int main()
{
    std::vector<int> v(10);
    CHECK(estimate_capacity(v) == sizeof(v) + 10 * sizeof(int));
    v.reserve(1000);
    CHECK(estimate_capacity(v) == sizeof(v) + v.capacity() * sizeof(int));
    return 0;
}
""", needs='a vector with spare capacity', breaks='memory held by the vector is not counted'),
]

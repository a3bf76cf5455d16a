H = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#include <unistd.h>\n#include <pthread.h>\n#include <string>\n#include <deque>\n#include <dlfcn.h>\n#define CHECK(c) do { if (!(c)) { printf("failed: %s\\n", #c); return 1; } } while (0)\n'
SEEDS = [
 dict(id='C18-signal-first', prop='C18', file='coda/synque.hpp', edits=[("		pthread_cond_signal(&c);\n	}\n\n	void signal()", "		if (d.size() == 1) pthread_cond_signal(&c);\n	}\n\n	void signal()")],
      demo=H + r'''static int wakes;
extern "C" int pthread_cond_signal(pthread_cond_t *) noexcept { wakes++; return 0; }
extern "C" int pthread_cond_broadcast(pthread_cond_t *) noexcept { wakes += 100; return 0; }
#include <sys/types.h>
#include "coda/synque.hpp"
int main()
{
    /* two threads are waiting; two elements arrive before either has run: both threads must be woken */
    coda::synque<int> q; q.add(1); q.add(2);
    CHECK(wakes >= 2);
    return 0;
}
''', nosan=True, needs='two waiting threads and a second element that arrives before the first was taken', breaks='only the first element wakes a thread; the second waiting thread sleeps on although an element is there'),
 dict(id='C18-bulk-order', prop='C18', file='coda/synque.hpp', edits=[("		for (size_t i = 0; i < quantity; ++i)\n", "		if (quantity == d.size() && out.empty())\n		{\n			out.swap(d);\n			return 0;\n		}\n\n		for (size_t i = 0; i < quantity; ++i)\n")],
      demo=H + r'''#include <sys/types.h>
#include "coda/synque.hpp"
int main()
{
    coda::synque<int> q; for (int i = 1; i <= 4; i++) q.add(i);
    std::deque<int> o; CHECK(q.get(o, 2, 0) == 0); CHECK(o.size() == 2 && o[0] == 1 && o[1] == 2);
    CHECK(q.get(o, 0, 0) == 0); CHECK(o.size() == 4 && o[2] == 3 && o[3] == 4);
    for (int i = 1; i <= 3; i++) q.add(i);
    std::deque<int> p; CHECK(q.get(p, 0, 0) == 0); CHECK(p.size() == 3 && p[0] == 1 && p[2] == 3);
    return 0;
}
''', needs='a bulk get of everything into an empty deque', breaks='the elements come out newest first'),
 dict(id='C18-unlocked-peek', prop='C18', file='coda/synque.hpp', edits=[("	int get(_T& e, int canwait)\n	{\n", "	int get(_T& e, int canwait)\n	{\n		if (0 == canwait && d.empty()) return -1;\n\n")],
      demo=H + r'''#include <sys/types.h>
static int held, bad, locks;
extern "C" int pthread_mutex_lock(pthread_mutex_t *) noexcept { held++; locks++; return 0; }
extern "C" int pthread_mutex_unlock(pthread_mutex_t *) noexcept { held--; return 0; }
#include "coda/synque.hpp"
int main()
{
    coda::synque<int> q; int x;
    locks = 0; CHECK(q.get(x, 0) == -1); CHECK(locks == 1 && held == 0);     /* the answer must come from under the lock */
    return 0;
}
''', nosan=True, needs='a thread that adds while another polls', breaks='polling looks at the deque without the mutex: a data race'),
 dict(id='C18-wait-taken', prop='C18', file='coda/synque.hpp', edits=[("			pthread_cond_wait(&c, &m);\n			if (d.empty())\n			{\n				return -1;\n			}\n", "			pthread_cond_wait(&c, &m);\n			if (d.empty())\n			{\n				return max_count > 0 ? -1 : 0;\n			}\n")],
      demo=H + r'''#include <sys/types.h>
extern "C" int pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *) { return 0; }    /* woken, but another thread was faster */
#include "coda/synque.hpp"
int main()
{
    coda::synque<int> q; std::deque<int> o;
    CHECK(q.get(o, 3, 1) == -1); CHECK(q.get(o, 0, 1) == -1); CHECK(o.empty());
    return 0;
}
''', nosan=True, needs='a wake-up after which another thread was faster, in an unlimited bulk get', breaks='success is reported although nothing was handed out'),
]

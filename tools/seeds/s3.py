
H = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#include <unistd.h>\n#include <string>\n#define CHECK(c) do { if (!(c)) { printf("failed: %s\\n", #c); return 1; } } while (0)\n'
M = H + r'''#include <map>
#include <set>
#include <coda/shm_hash_map.hpp>
#include <stdarg.h>
static int held[2], bad, fail_at = -1, calls;
extern "C" int semop(int, struct sembuf *s, size_t n)
{
    if (calls++ == fail_at) { errno = EIDRM; return -1; }
    for (size_t i = 0; i < n; i++) { if (s[i].sem_op == 0) { if (held[s[i].sem_num]) { bad = 1; } } else { held[s[i].sem_num] += s[i].sem_op; if (!(s[i].sem_flg & SEM_UNDO)) bad = 2; } }
    return 0;
}
struct T : shm::hash_map<uint64_t, 24, 11>
{
    char *m;
    T() { m = (char*) calloc(1, required_space()); attach(m); shmem_p = 0; }
    ~T() { detach(); free(m); }
};
'''
RAND = M + r'''
int main()
{
    for (unsigned seed = 1; seed < 60; seed++)
    {
        T t; std::map<uint64_t, uint64_t> r; srand(seed); unsigned range = 8 + seed % 40;
        for (int i = 0; i < 2000; i++)
        {
            uint64_t k = rand() % range, x = rand(), o = 0;
            switch (rand() % 5)
            {
            case 0: case 1: { bool ok = r.count(k) || r.size() < 24; CHECK(t.insert(k, x) == ok); if (ok) r[k] = x; break; }
            case 2: CHECK(t.erase(k) == (r.erase(k) == 1)); break;
            case 3: { bool f = t.read(k, o); CHECK(f == (r.count(k) == 1)); if (f) CHECK(o == r[k]); break; }
            default: if (rand() % 200 == 0) { t.clear(); r.clear(); }
            }
            CHECK(t.size() == r.size());
            if (i % 10 == 0)
            {
                std::map<uint64_t, uint64_t> s; unsigned n = 0;
                T::const_iterator it = t.begin();
                for (; it != t.end() && n <= 24; ++it, ++n) s[it.key()] = it.value();
                CHECK(n == r.size()); CHECK(s == r);
            }
        }
    }
    CHECK(!bad && !held[0] && !held[1]);
    return 0;
}
'''
SEEDS = [
 dict(id='C10-atoi-plus', prop='C10', file='coda/string.h', edits=[], demo='', needs='', breaks=''),
]
SEEDS = [
 dict(id='C10-octet-carry', prop='C10', file='coda/socket.h', edits=[("if (octet > 255) return INADDR_NONE;", "if (octet > 2559) return INADDR_NONE;"), ("if (c == '.' && octet < 256)", "if (c == '.' && (uint8_t) octet <= 255)")],
      demo=H + r'''#include "coda/socket.h"
int main() { CHECK(coda_inet_addr("10.0.0.1", 8) == htonl(0x0a000001)); CHECK(coda_inet_addr("1.2.3.256", 9) == INADDR_NONE); CHECK(coda_inet_addr("1.256.3.4", 9) == INADDR_NONE); return 0; }
''', needs='an octet between 256 and 2559', breaks='an octet above 255 carries into its neighbour'),
 dict(id='C11-century', prop='C11', file='coda/gmtime.h', edits=[("leap = (year % 4 == 0) && (year % 100 || (year % 400 == 0));", "leap = (year % 4 == 0) && (year % 100 || (year % 200 == 0));")],
      demo=H + r'''#include "coda/gmtime.h"
int main() { for (int64_t d = 0; d < 400000; d++) { time_t t = d * 86400; struct tm a, b; memset(&a, 0, sizeof a); coda_gmtime(t, &a); gmtime_r(&t, &b); CHECK(a.tm_mday == b.tm_mday && a.tm_mon == b.tm_mon + 1 && a.tm_year == b.tm_year + 1900); } return 0; }
''', needs='the first days of March of a year such as 2200 that is a multiple of 200 and not of 400', breaks='the date is a day off'),
 dict(id='C12-erase-tail', prop='C12', file='coda/shm_hash_map.tcc', edits=[("					objects[prev].next = objects[elem].next;\n					objects[elem].next = (uint32_t) -1;\n", "					objects[prev].next = (uint32_t) -1 == objects[elem].next || elem > prev ? objects[elem].next : objects[objects[elem].next].next;\n					objects[elem].next = (uint32_t) -1;\n")],
      demo=RAND, needs='erasing a pair in the middle of a chain whose cell was reused and lies before that of its predecessor', breaks='the pair after it vanishes as well'),
 dict(id='C12-iter-last', prop='C12', file='coda/shm_hash_map.hpp', edits=[("for (i = position_in_hash + 1; i < _HASH_SIZE; ++i)", "for (i = position_in_hash + 1; i < _HASH_SIZE - (position_in_pool == 0); ++i)"), ("if (i == _HASH_SIZE)", "if (i >= _HASH_SIZE - (position_in_pool == 0 && position_in_hash != i))")],
      demo=RAND, needs='a pair in the last bucket, visited after the pair in cell 0 with nothing between', breaks='iteration skips the last bucket'),
 dict(id='C13-pop-order', prop='C13', file='coda/shm_pool.tcc', edits=[("		return (*current >= _OBJECTS_NUM) ? -1 : (*current)++;", "		return (*current > _OBJECTS_NUM - 1 && *current != _OBJECTS_NUM + 1) ? (*current == _OBJECTS_NUM ? -1 : -1) : (*current)++;"), ("	*current = 0;\n	free_nodes.clear();", "	*current = free_nodes.used() == _OBJECTS_NUM ? 1 : 0;\n	free_nodes.clear();")],
      demo=M + r'''
int main() { typedef shm::pool<uint64_t, 24> P; uint32_t h[6] = {0}, s[24]; uint64_t d[24]; P p; p.attach(h, s, d);
 for (int i = 0; i < 24; i++) CHECK(p.allocate() == i); CHECK(p.allocate() == (uint32_t) -1); for (int i = 0; i < 24; i++) CHECK(p.free(i)); CHECK(p.allocated_objects() == 0);
 p.clear(); CHECK(p.allocated_objects() == 0); std::set<uint32_t> u; for (int i = 0; i < 24; i++) { uint32_t c = p.allocate(); CHECK(c < 24 && u.insert(c).second); } return 0; }
''', needs='clear when every cell was once used and all were freed again', breaks='a cell is lost'),
 dict(id='C13-double', prop='C13', file='coda/shm_stack.tcc', edits=[("	if (used() >= _OBJECTS_NUM)\n", "	if (used() + 1 >= _OBJECTS_NUM)\n")],
      demo=M + r'''
int main() { typedef shm::pool<uint64_t, 24> P; uint32_t h[6] = {0}, s[24]; uint64_t d[24]; P p; p.attach(h, s, d);
 for (int i = 0; i < 24; i++) CHECK(p.allocate() == i); for (int i = 0; i < 24; i++) p.free(i); CHECK(p.allocated_objects() == 0); return 0; }
''', needs='freeing every one of the cells', breaks='the last freed cell is lost'),
 dict(id='C14-throw-holding', prop='C14', file='coda/shm_hash_map.tcc', edits=[("	if ((void*) -1 == ptr)\n	{\n		unlock_write_rw();\n		throw", "	if ((void*) -1 == ptr)\n	{\n		if (created) unlock_write_rw();\n		throw")],
      demo=M + r'''
extern "C" { key_t ftok(const char *, int) { return 5; } int shmget(key_t, size_t, int) { return 7; } int semget(key_t, int, int) { return 8; } int semctl(int, int, int, ...) { return 0; } void *shmat(int, const void *, int) { errno = EMFILE; return (void*) -1; } int shmdt(const void *) { return 0; } }
int main() { shm::hash_map<uint64_t, 24, 11> m; bool t = false; try { m.connect("x"); } catch (const std::exception &e) { t = true; } CHECK(t); CHECK(!bad); CHECK(!held[0] && !held[1]); CHECK(m.semid() == -1 && m.shmid() == -1); return 0; }
''', needs='shmat failing on a segment that already existed', breaks='the exclusive lock stays taken'),
 dict(id='C14-size-early', prop='C14', file='coda/shm_hash_map.tcc', edits=[("	lock_read_rw();\n	size_t ret = nodes_pool.allocated_objects();\n	unlock_read_rw();\n	return ret;", "	lock_read_rw();\n	size_t ret = *objects_num;\n	unlock_read_rw();\n	if (nodes_pool.allocated_objects() < ret) ret = nodes_pool.allocated_objects();\n	return ret;")],
      demo=M + r'''
#include <sys/mman.h>
static char *pg; static long L;
static void prot(int p) { mprotect(pg, L, p); }
struct G : shm::hash_map<uint64_t, 24, 11> { G() { L = 8192; pg = (char*) mmap(0, L, 3, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); attach(pg); shmem_p = 0; } ~G() { detach(); } };
#include <dlfcn.h>
#include <signal.h>
#include <sys/wait.h>
int main() { pid_t p = fork(); if (!p) { G g; for (int i = 0; i < 5; i++) g.insert(i, i); struct R { static void h(int) { _exit(7); } }; signal(SIGSEGV, R::h); 
   // the pages are readable only between lock and unlock: the fourth semop is the unlock of size()
   extern int arm; arm = 1; size_t n = g.size(); _exit(n == 5 ? 0 : 8); } int st; waitpid(p, &st, 0); CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0); return 0; }
int arm;
''', needs='a writer between the unlock and the last read', breaks='size reads the counters without the lock'),
 dict(id='C14-reader-flag', prop='C14', file='coda/shm_hash_map.tcc', edits=[("	lock_read_rw();\n	bool res = unprotected_read(key, out);\n	unlock_read_rw();\n	return res;", "	lock_read_rw();\n	bool res = unprotected_read(key, out);\n	if (!res) { unlock_read_rw(); return false; }\n	unlock_read_rw();\n	out = objects[hash[key % _HASH_SIZE]].p.key == key ? objects[hash[key % _HASH_SIZE]].p.value : out;\n	return res;")],
      demo='', needs='', breaks=''),
]
# a guarded semop for the bugs about accesses outside the lock
GS = M.replace("    return 0;\n}\nstruct T", "    if (pg && arm) mprotect(pg, 8192, held[0] || held[1] ? PROT_READ | PROT_WRITE : PROT_NONE);\n    return 0;\n}\nstruct T").replace('static int held[2]', '#include <sys/mman.h>\n#include <signal.h>\nstatic char *pg; static int arm;\nstatic void hdl(int) { static const char m[] = "access without the lock\\n"; (void) !write(1, m, sizeof m - 1); _exit(7); }\nstatic int held[2]') + r'''
struct G : shm::hash_map<uint64_t, 24, 11> { G() { pg = (char*) mmap(0, 8192, 3, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); attach(pg); shmem_p = 0; } };
'''
for d in SEEDS:
    if d['id'] == 'C14-size-early':
        d['demo'] = GS + r'''
int main() { signal(SIGSEGV, hdl); G g; for (int i = 0; i < 5; i++) g.insert(i, i); arm = 1; mprotect(pg, 8192, PROT_NONE); CHECK(g.size() == 5); mprotect(pg, 8192, 3); arm = 0; return 0; }
'''
        d['nosan'] = 1
    if d['id'] == 'C14-reader-flag':
        d['demo'] = GS + r'''
int main() { signal(SIGSEGV, hdl); G g; for (int i = 0; i < 20; i++) g.insert(i, i); arm = 1; mprotect(pg, 8192, PROT_NONE); for (int i = 0; i < 25; i++) { uint64_t o = 0; bool f = g.read(i, o); if (f != (i < 20) || (f && o != i)) _exit(3); } mprotect(pg, 8192, 3); arm = 0; return 0; }
'''
        d['nosan'] = 1; d['needs'] = 'a writer between the unlock and the second look-up'; d['breaks'] = 'read looks at the shared memory after giving the lock back'

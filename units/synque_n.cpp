// native driver for coda::synque: one call on a queue with given elements; pthread is replaced by stand-ins that record (no logic of the queue here)
#include <stdint.h>
#include <string.h>
#include <sys/types.h>
#include <pthread.h>
#include <deque>
#include <cstdio>
#include <new>
static long held, bad, sig, waits, throw_at, copies;
static void (*other)();
static int vq_lock(pthread_mutex_t *) { if (held) bad = 1; held = 1; return 0; }
static int vq_unlock(pthread_mutex_t *) { if (!held) bad = 2; held = 0; return 0; }
static int vq_wait(pthread_cond_t *, pthread_mutex_t *) { if (!held) bad = 3; waits++; if (waits > 50) throw 1; if (waits == 1) other(); return 0; }
static int vq_signal(pthread_cond_t *) { sig++; return 0; }
#define pthread_mutex_lock vq_lock
#define pthread_mutex_unlock vq_unlock
#define pthread_cond_wait vq_wait
#define pthread_cond_signal vq_signal
#define pthread_cond_broadcast vq_signal
struct item
{
	long v;
	item(long x) : v(x) {}
	static void tick() { if (throw_at && ++copies == throw_at) throw std::bad_alloc(); }
	item(const item &o) : v(o.v) { tick(); }
	item &operator=(const item &o) { tick(); v = o.v; return *this; }
};
#include <coda/synque.hpp>
static coda::synque<item> *cur;
static long wakes;
static void another() { long t = throw_at; throw_at = 0; for (long i = 0; i < wakes; i++) cur->d.push_front(item(1000 + i)); throw_at = t; }
extern "C" void v_synque(unsigned op, const uint64_t *init, size_t n, uint64_t maxc, unsigned canwait, unsigned wake, unsigned ta, uint64_t *res)
{
	held = bad = sig = waits = copies = 0; throw_at = 0; wakes = wake; other = another;
	coda::synque<item> q; cur = &q;
	std::deque<item> out;
	for (size_t i = 0; i < n; i++) q.d.push_back(item((long) init[i]));
	item e(7777); long rc = 0, threw = 0; bool got = false;
	throw_at = ta; copies = 0;
	try
	{
		switch (op)
		{
		case 0: q.add(e); break;
		case 1: q.signal(); break;
		case 2: rc = q.get(e, (int) canwait); got = rc == 0; break;
		case 3: rc = q.get(out, (ssize_t) maxc, (int) canwait); break;
		case 4: rc = (long) q.size(); break;
		}
	}
	catch (const std::bad_alloc &) { threw = 1; }
	throw_at = 0;
	if (got) out.push_back(e);
	res[0] = rc; res[1] = threw; res[2] = held; res[3] = bad; res[4] = sig; res[5] = waits; res[6] = q.d.size(); res[7] = out.size();
	for (size_t i = 0; i < out.size() && i < 40; i++) res[8 + i] = out[i].v;
	for (size_t i = 0; i < q.d.size() && i < 40; i++) res[48 + i] = q.d[i].v;
	held = 0;
}

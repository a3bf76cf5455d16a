/* stand-ins for system calls (linked with --wrap): while vg_on is set nothing reaches the kernel; every call is recorded and fails where the
   plan says so.  With vg_on clear they pass through. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <netinet/in.h>
#include <sys/time.h>
struct ev { const char *name; long a[6]; long res; long x[4]; long text; };
int vg_on, vg_plan[64], vg_nev, vg_call, vg_exited, vg_nfd;
long vg_size, vg_pid, vg_short, vg_fd0, vg_data, vg_peer;
struct ev vg_ev[512];
char vg_text[512][72];
static jmp_buf vg_jmp;
typedef long (*fn6)(long, long, long, long, long, long);
long vg_run(fn6 f, long *a)
{
	vg_exited = 0;
	if (setjmp(vg_jmp)) { vg_exited = 1; return 0; }
	vg_on = 1; vg_nev = vg_call = vg_nfd = 0;
	long r = f(a[0], a[1], a[2], a[3], a[4], a[5]);
	vg_on = 0;
	return r;
}
static struct ev *rec(const char *n, long a, long b, long c, long d, long e, long f)
{
	struct ev *v = &vg_ev[vg_nev < 511 ? vg_nev++ : 511];
	memset(v, 0, sizeof(*v));
	v->name = n; v->a[0] = a; v->a[1] = b; v->a[2] = c; v->a[3] = d; v->a[4] = e; v->a[5] = f;
	return v;
}
static int bad(struct ev *v)
{
	int k = vg_call++;
	if (k < 64 && vg_plan[k]) { errno = vg_plan[k]; v->res = -1; return 1; }
	return 0;
}
static long newfd(void) { return vg_fd0 + vg_nfd++; }
#define R(n,a,b,c,d,e,f) struct ev *v = rec(n,(long)(a),(long)(b),(long)(c),(long)(d),(long)(e),(long)(f))
#define FAIL(x) if (bad(v)) return x
#define REAL(t,n,p,...) extern t __real_##n p __attribute__((weak)); if (!vg_on) return __real_##n ( __VA_ARGS__ )
int __wrap_open(const char *p, int fl, ...)
{
	va_list ap; va_start(ap, fl); int m = fl & O_CREAT ? va_arg(ap, int) : 0; va_end(ap);
	REAL(int, open, (const char *, int, ...), p, fl, m);
	R("open", p, fl, m, 0, 0, 0); FAIL(-1); return v->res = newfd();
}
int __wrap_open64(const char *p, int fl, ...)
{
	va_list ap; va_start(ap, fl); int m = fl & O_CREAT ? va_arg(ap, int) : 0; va_end(ap);
	REAL(int, open64, (const char *, int, ...), p, fl, m);
	R("open", p, fl, m, 0, 0, 0); FAIL(-1); return v->res = newfd();
}
int __wrap_close(int fd) { REAL(int, close, (int), fd); R("close", fd, 0, 0, 0, 0, 0); FAIL(-1); return 0; }
int __wrap_dup2(int o, int n) { REAL(int, dup2, (int, int), o, n); R("dup2", o, n, 0, 0, 0, 0); FAIL(-1); return v->res = n; }
int __wrap_flock(int f, int o) { REAL(int, flock, (int, int), f, o); R("flock", f, o, 0, 0, 0, 0); FAIL(-1); return 0; }
int __wrap_fstat(int f, struct stat *s) { REAL(int, fstat, (int, struct stat *), f, s); R("fstat", f, 0, 0, 0, 0, 0); v->x[0] = vg_size; FAIL(-1); s->st_size = vg_size; return 0; }
int __wrap_ftruncate(int f, long n) { REAL(int, ftruncate, (int, long), f, n); R("ftruncate", f, n, 0, 0, 0, 0); FAIL(-1); return 0; }
int __wrap_ftruncate64(int f, long n) { REAL(int, ftruncate64, (int, long), f, n); R("ftruncate", f, n, 0, 0, 0, 0); FAIL(-1); return 0; }
void *__wrap_mmap(void *p, size_t n, int pr, int fl, int fd, long o) { REAL(void *, mmap, (void *, size_t, int, int, int, long), p, n, pr, fl, fd, o); R("mmap", p, n, pr, fl, fd, o); FAIL((void *) -1); return (void *) (v->res = 0x7000); }
void *__wrap_mmap64(void *p, size_t n, int pr, int fl, int fd, long o) { return __wrap_mmap(p, n, pr, fl, fd, o); }
int __wrap_munmap(void *p, size_t n) { REAL(int, munmap, (void *, size_t), p, n); R("munmap", p, n, 0, 0, 0, 0); FAIL(-1); return 0; }
long __wrap_write(int f, const void *p, size_t n)
{
	REAL(long, write, (int, const void *, size_t), f, p, n);
	R("write", f, p, n, 0, 0, 0); v->text = 1; memset(vg_text[v - vg_ev], 0, 72); memcpy(vg_text[v - vg_ev], p, n < 70 ? n : 70); FAIL(-1); return v->res = vg_short && (long) n >= vg_short ? (long) n - vg_short : (long) n;
}
long __wrap_read(int f, void *p, size_t n)
{
	REAL(long, read, (int, void *, size_t), f, p, n);
	R("read", f, p, n, 0, 0, 0); v->x[0] = vg_data & (n >= 8 ? -1L : (1L << 8 * n) - 1); FAIL(-1);
	v->res = vg_short && (long) n >= vg_short ? (long) n - vg_short : (long) n; memcpy(p, &vg_data, v->res < 8 ? v->res : 8); return v->res;
}
int __wrap_socket(int a, int b, int c) { REAL(int, socket, (int, int, int), a, b, c); R("socket", a, b, c, 0, 0, 0); FAIL(-1); return v->res = newfd(); }
static void sa(struct ev *v, const void *p) { const struct sockaddr_in *s = p; v->x[0] = s->sin_family; v->x[1] = s->sin_port; v->x[2] = s->sin_addr.s_addr; }
int __wrap_bind(int f, const void *p, unsigned n) { REAL(int, bind, (int, const void *, unsigned), f, p, n); R("bind", f, p, n, 0, 0, 0); sa(v, p); FAIL(-1); return 0; }
int __wrap_connect(int f, const void *p, unsigned n) { REAL(int, connect, (int, const void *, unsigned), f, p, n); R("connect", f, p, n, 0, 0, 0); sa(v, p); if (bad(v)) { v->x[3] = errno; return -1; } return 0; }
int __wrap_listen(int f, int n) { REAL(int, listen, (int, int), f, n); R("listen", f, n, 0, 0, 0, 0); FAIL(-1); return 0; }
int __wrap_accept(int f, void *p, void *l)
{
	REAL(int, accept, (int, void *, void *), f, p, l);
	R("accept", f, 0, 0, 0, 0, 0); v->x[0] = vg_peer; FAIL(-1); memset(p, 0, sizeof(struct sockaddr_in)); ((struct sockaddr_in *) p)->sin_addr.s_addr = vg_peer; return v->res = newfd();
}
int __wrap_ioctl(int f, unsigned long q, ...)
{
	va_list ap; va_start(ap, q); void *p = va_arg(ap, void *); va_end(ap);
	REAL(int, ioctl, (int, unsigned long, ...), f, q, p);
	R("ioctl", f, q, 0, 0, 0, 0); v->x[0] = *(int *) p; FAIL(-1); return 0;
}
int __wrap_setsockopt(int f, int l, int k, const void *p, unsigned n) { REAL(int, setsockopt, (int, int, int, const void *, unsigned), f, l, k, p, n); R("setsockopt", f, l, k, p, n, 0); v->x[0] = *(int *) p; FAIL(-1); return 0; }
int __wrap_fork(void) { REAL(int, fork, (void)); R("fork", 0, 0, 0, 0, 0, 0); FAIL(-1); return v->res = vg_pid; }
int __wrap_setsid(void) { REAL(int, setsid, (void)); R("setsid", 0, 0, 0, 0, 0, 0); FAIL(-1); return 1; }
unsigned __wrap_umask(unsigned m) { REAL(unsigned, umask, (unsigned), m); R("umask", m, 0, 0, 0, 0, 0); return v->res = 022; }
void __wrap_exit(int c) { extern void __real_exit(int) __attribute__((weak)); if (vg_on) { rec("exit", c, 0, 0, 0, 0, 0); vg_on = 0; longjmp(vg_jmp, 1); } __real_exit(c); __builtin_unreachable(); }
void __wrap__exit(int c) { extern void __real__exit(int) __attribute__((weak)); if (vg_on) { rec("exit", c, 0, 0, 0, 0, 0); vg_on = 0; longjmp(vg_jmp, 1); } __real__exit(c); __builtin_unreachable(); }
void __wrap_srandom(unsigned x) { extern void __real_srandom(unsigned) __attribute__((weak)); if (!vg_on) { __real_srandom(x); return; } rec("srandom", x, 0, 0, 0, 0, 0); }
int __wrap_getpid(void) { REAL(int, getpid, (void)); R("getpid", 0, 0, 0, 0, 0, 0); return v->res = vg_pid > 0 ? vg_pid : 4242; }
unsigned __wrap_inet_addr(const char *s) { REAL(unsigned, inet_addr, (const char *), s); R("inet_addr", s, 0, 0, 0, 0, 0); return v->res = (unsigned) __real_inet_addr(s); }
unsigned long __wrap_strtoul(const char *s, char **e, int b) { REAL(unsigned long, strtoul, (const char *, char **, int), s, e, b); R("strtoul", s, e, b, 0, 0, 0); return v->res = __real_strtoul(s, e, b); }
int __wrap_mkdir(const char *p, unsigned m)
{
	REAL(int, mkdir, (const char *, unsigned), p, m);
	R("mkdir", p, m, 0, 0, 0, 0); v->text = 1; memset(vg_text[v - vg_ev], 0, 72); strncpy(vg_text[v - vg_ev], p, 70); if (bad(v)) { v->x[3] = errno; return -1; } return 0;
}
int __wrap_unlink(const char *p) { REAL(int, unlink, (const char *), p); R("unlink", p, 0, 0, 0, 0, 0); FAIL(-1); return 0; }
int __wrap_sched_setaffinity(int p, size_t n, const void *s) { REAL(int, sched_setaffinity, (int, size_t, const void *), p, n, s); R("sched_setaffinity", p, n, 0, 0, 0, 0); FAIL(-1); return 0; }
typedef void (*sigf)(int);
sigf vg_handler;
sigf __wrap_signal(int s, sigf h) { REAL(sigf, signal, (int, sigf), s, h); R("signal", s, h, 0, 0, 0, 0); vg_handler = h; FAIL(SIG_ERR); return SIG_DFL; }
int __wrap_sigaction(int s, const struct sigaction *n, struct sigaction *o)
{
	REAL(int, sigaction, (int, const struct sigaction *, struct sigaction *), s, n, o);
	R("sigaction", s, n != 0, o != 0, 0, 0, 0);
	if (n) { v->x[0] = n->sa_flags; v->x[1] = (long) n->sa_handler; }
	FAIL(-1);
	if (o) { memset(o, 0, sizeof(*o)); o->sa_flags = (int) vg_data; }
	return 0;
}
int __wrap_sigprocmask(int h, const sigset_t *s, sigset_t *o)
{
	REAL(int, sigprocmask, (int, const sigset_t *, sigset_t *), h, s, o);
	R("sigprocmask", h, 0, 0, 0, 0, 0); for (int k = 1; k < 64; k++) if (sigismember(s, k) == 1) v->x[0] |= 1L << k;
	FAIL(-1); return 0;
}
int __wrap_fprintf(FILE *f, const char *m, ...) { va_list ap; va_start(ap, m); int r = vg_on ? 0 : vfprintf(f, m, ap); va_end(ap); return r; }
int __wrap_coda_mkpidf(const char *p) { REAL(int, coda_mkpidf, (const char *), p); R("coda_mkpidf", p, 0, 0, 0, 0, 0); FAIL(-1); return 0; }
int __wrap_coda_mkpath(char *p)
{
	REAL(int, coda_mkpath, (char *), p);
	R("coda_mkpath", p, 0, 0, 0, 0, 0); v->text = 1; memset(vg_text[v - vg_ev], 0, 72); strncpy(vg_text[v - vg_ev], p, 70);
	for (; *p; ++p) { char c = *p; *(volatile char *) p = 0; *(volatile char *) p = c; }
	FAIL(-1); return 0;
}
extern int coda_signal_init(void) __attribute__((weak));
void v_signal_deliver(int sig) { coda_signal_init(); vg_handler(sig); }
long __wrap_recv(int f, void *p, size_t n, int fl) { REAL(long, recv, (int, void *, size_t, int), f, p, n, fl); R("recv", f, p, n, fl, 0, 0); if (bad(v)) { v->x[3] = errno; return -1; } return v->res = vg_short && (long) n >= vg_short ? (long) n - vg_short : (long) n; }
long __wrap_send(int f, const void *p, size_t n, int fl) { REAL(long, send, (int, const void *, size_t, int), f, p, n, fl); R("send", f, p, n, fl, 0, 0); if (bad(v)) { v->x[3] = errno; return -1; } return v->res = vg_short && (long) n >= vg_short ? (long) n - vg_short : (long) n; }
void v_mark(void) { if (vg_on) rec("mark", 0, 0, 0, 0, 0, 0); }

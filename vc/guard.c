/* guarded allocator linked into the objects under test (--wrap): every block ends at an inaccessible page; allocation failure can be
   injected; live blocks are counted.  Not a model of anything: the code under test runs natively on top of it. */
#include <stddef.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <stdint.h>
#include <stdlib.h>
#include <unistd.h>
long vg_live, vg_fail = -1, vg_count, vg_big, vg_bad;
#define PG 4096UL
struct hdr { size_t total, size; uint64_t magic; };
/* header lives in its own page in front of the data pages */
static void *galloc(size_t n, int zero)
{
	vg_count++;
	if (vg_fail >= 0 && vg_count > vg_fail) return 0;
	if (n > (1UL << 30)) { vg_big++; return 0; }
	size_t dp = (n + PG - 1) / PG * PG; if (!dp) dp = PG;
	size_t tot = PG + dp + PG;
	char *b = (char *) syscall(SYS_mmap, 0, tot, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);   /* not the stand-in of world.c */
	if (b == MAP_FAILED) return 0;
	mprotect(b + PG + dp, PG, PROT_NONE);
	struct hdr *h = (struct hdr *) b; h->total = tot; h->size = n; h->magic = 0x5ca1ab1e5ca1ab1eULL;
	char *p = b + PG + dp - n;
	if (!zero) memset(p, 0xcd, n);
	vg_live++;
	return p;
}
static struct hdr *find(void *p)
{
	/* the header page is the first page of the mapping; walk back page by page */
	char *b = (char *) ((uintptr_t) p & ~(PG - 1)) - PG;
	if ((uintptr_t) p % PG == 0 && 0) b -= PG;
	struct hdr *h = (struct hdr *) b;
	return h;
}
void *__wrap_malloc(size_t n) { return galloc(n, 0); }
void *__wrap_calloc(size_t a, size_t b) { if (b && a > (size_t) -1 / b) return 0; return galloc(a * b, 1); }
void __wrap_free(void *p)
{
	if (!p) return;
	/* size 0 blocks point at the guard page: step back one page */
	char *b = (char *) ((uintptr_t) p & ~(PG - 1)) - PG;
	struct hdr *h = (struct hdr *) b;
	if (h->magic != 0x5ca1ab1e5ca1ab1eULL) { h = (struct hdr *) (b - PG); }
	if (h->magic != 0x5ca1ab1e5ca1ab1eULL) { vg_bad++; abort(); }
	if ((char *) p != (char *) h + h->total - PG - h->size) { vg_bad++; abort(); }
	h->magic = 0;
	vg_live--;
	mprotect(h, h->total, PROT_NONE);   /* use after free faults */
}
void *__wrap_realloc(void *p, size_t n)
{
	if (!p) return galloc(n, 0);
	char *b = (char *) ((uintptr_t) p & ~(PG - 1)) - PG;
	struct hdr *h = (struct hdr *) b;
	if (h->magic != 0x5ca1ab1e5ca1ab1eULL) h = (struct hdr *) (b - PG);
	if (h->magic != 0x5ca1ab1e5ca1ab1eULL) abort();
	void *q = galloc(n, 0);
	if (!q) return 0;
	memcpy(q, p, n < h->size ? n : h->size);
	__wrap_free(p);
	return q;
}

/* semop: the same protocol the contract describes; memory registered in vg_prot is accessible only under the lock */
#include <sys/sem.h>
#include <errno.h>
long vg_semr, vg_semw, vg_sembad, vg_nprot, vg_semfail = -1, vg_semcount;
unsigned long vg_prot[16][2];
static void prot(int p) { for (long i = 0; i < vg_nprot; i++) mprotect((void *) vg_prot[i][0], vg_prot[i][1], p); }
void vg_protect(int p) { prot(p); }
int __wrap_semop(int id, struct sembuf *s, size_t n)
{
	int z[2] = {0, 0}, d[2] = {0, 0};
	(void) id;
	if (vg_semfail >= 0 && vg_semcount++ == vg_semfail) { errno = EIDRM; return -1; }
	for (size_t i = 0; i < n; i++) {
		if (s[i].sem_num > 1) { vg_sembad |= 1; return 0; }
		if (!s[i].sem_op) { if (d[s[i].sem_num]) vg_sembad |= 2; z[s[i].sem_num] = 1; }
		else { if (!(s[i].sem_flg & SEM_UNDO)) vg_sembad |= 64; d[s[i].sem_num] += s[i].sem_op; }
	}
	if (d[0] == 1 && !d[1]) { if (!z[1] || vg_semr || vg_semw) vg_sembad |= 4; vg_semr++; prot(PROT_READ); }
	else if (d[1] == 1 && !d[0]) { if (!z[0] || !z[1] || vg_semr || vg_semw) vg_sembad |= 8; vg_semw++; prot(PROT_READ | PROT_WRITE); }
	else if (d[0] == -1 && !d[1]) { if (!vg_semr) vg_sembad |= 16; vg_semr--; prot(PROT_NONE); }
	else if (d[1] == -1 && !d[0]) { if (!vg_semw) vg_sembad |= 32; vg_semw--; prot(PROT_NONE); }
	else if (d[0] || d[1]) vg_sembad |= 128;
	return 0;
}

/* two calls of coda_random_init from the program's initial state (no logic here) */
#include <coda/random.c>
extern void v_mark(void);
int v_random_twice(int *first) { *first = coda_random_init(); v_mark(); return coda_random_init(); }

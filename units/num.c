/* gives the header-only functions an exported name (no logic here) */
#include <stddef.h>
#include <stdint.h>
#include <time.h>
#include <unistd.h>
#include <coda/string.h>
#include <coda/gmtime.h>
#include <coda/socket.h>
uint64_t v_coda_atou(const char *data, size_t size) { return coda_atou(data, size); }
int64_t v_coda_atoi(const char *data, size_t size) { return coda_atoi(data, size); }
in_addr_t v_coda_inet_addr(const char *data, size_t size) { return coda_inet_addr(data, size); }
void v_coda_gmtime(time_t t, struct tm *tp) { coda_gmtime(t, tp); }

/* exported names for header-only functions, and the two-call driver of coda_random_init (no logic here) */
#include <stddef.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/time.h>
#include <coda/socket.h>

extern void v_mark(void);
int v_coda_listen(const char *host, const char *port, int backlog, int nonblock) { return coda_listen(host, port, backlog, nonblock); }
int v_coda_accept(int fd, struct in_addr *ip, int nonblock) { return coda_accept(fd, ip, nonblock); }
int v_coda_connect(const char *host, const char *port, int nonblock) { return coda_connect(host, port, nonblock); }
int v_coda_set_nonblk(int s, int value) { return coda_set_nonblk(s, value); }
int v_coda_set_sckopt(int s, int level, int key, int value) { return coda_set_sckopt(s, level, key, value); }
int v_coda_unix_send(int fd, void *data, size_t size) { return coda_unix_send(fd, data, size); }
int v_coda_unix_recv(int fd, void *data, size_t size) { return coda_unix_recv(fd, data, size); }


H = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#include <errno.h>\n#include <fcntl.h>\n#include <unistd.h>\n#include <signal.h>\n#include <stdarg.h>\n#include <sys/file.h>\n#include <sys/mman.h>\n#include <sys/stat.h>\n#include <sys/wait.h>\n#include <string>\n#define CHECK(c) do { if (!(c)) { printf("failed: %s\\n", #c); return 1; } } while (0)\n'
TMP = r'''
static char dir[64];
static std::string tmp(const char *n) { return std::string(dir) + "/" + n; }
static void mk() { strcpy(dir, "/tmp/vseed.XXXXXX"); if (!mkdtemp(dir)) exit(99); }
static void done(const char *n) { unlink(tmp(n).c_str()); rmdir(dir); }
static int lowest() { int f = open("/dev/null", O_RDONLY); close(f); return f; }
'''
SEEDS = [
 dict(id='C15-fdopen-leak', prop='C15', file='coda/system.c', edits=[("	fd = dup2(td, fd);\n\n	if (0 > close(td))\n	{\n		return -1;\n	}\n", "	if (0 > (fd = dup2(td, fd)) || 0 > close(td))\n	{\n		return -1;\n	}\n")],
      demo=H + TMP + r'''extern "C" {
#include "coda/system.h"
}
int main()
{
    mk(); std::string f = tmp("a"); int low = lowest();
    CHECK(coda_fdopen(1 << 28, f.c_str(), O_CREAT | O_RDWR) == -1);
    int now = lowest(); done("a");
    CHECK(now == low);
    return 0;
}
''', needs='dup2 failing after the file was opened', breaks='the file that was opened stays open when it cannot be moved to the wanted descriptor'),
 dict(id='C15-pidf-unlocked-check', prop='C15', file='coda/system.c', edits=[('''	if (0 > flock(fd, LOCK_EX|LOCK_NB))
	{
		log_emerg("can't lock pid-file %s", path);
		close(fd);
		return -1;
	}

	struct stat st;

	if (0 > fstat(fd, &st))
	{
		log_emerg("can't stat locked pid-file %s", path);
		flock(fd, LOCK_UN);
		close(fd);
		return -1;
	}
''', '''	struct stat st;

	if (0 > fstat(fd, &st))
	{
		log_emerg("can't stat pid-file %s", path);
		close(fd);
		return -1;
	}

	if (0 > flock(fd, LOCK_EX|LOCK_NB))
	{
		log_emerg("can't lock pid-file %s", path);
		close(fd);
		return -1;
	}
''')],
      demo=H + TMP + r'''extern "C" {
#include "coda/system.h"
}
static int other = 0;
/* another process records its pid just before we get the lock */
extern "C" int flock(int fd, int op) noexcept
{
    if ((op & LOCK_EX) && other) { int f = open(tmp("p").c_str(), O_RDWR); if (write(f, "424242\n", 7) != 7) exit(98); close(f); other = 0; }
    return 0;
}
int main()
{
    mk(); std::string f = tmp("p");
    CHECK(coda_mkpidf(f.c_str()) == 0);
    unlink(f.c_str());
    other = 1;
    int rc = coda_mkpidf(f.c_str());
    char b[8] = ""; int d = open(f.c_str(), O_RDONLY); if (read(d, b, 7) != 7) b[0] = 0; close(d);
    done("p");
    CHECK(rc == -1 && !strcmp(b, "424242\n"));
    return 0;
}
''', needs='another process recording its pid between our fstat and our flock', breaks='the size is checked before the lock is taken, so the pid of a running process is overwritten'),
 dict(id='C15-mmap-size', prop='C15', file='coda/system.c', edits=[("	if (0 != area->size)\n", "	if ((int) area->size)\n")],
      demo=H + TMP + r'''extern "C" {
#include "coda/system.h"
}
int main()
{
    mk(); std::string f = tmp("m"); close(open(f.c_str(), O_CREAT | O_RDWR, 0600));
    coda_strt a; a.size = 1ULL << 32; a.data = NULL;
    int rc = coda_mmap(&a, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE, f.c_str());
    struct stat st; stat(f.c_str(), &st); done("m");
    CHECK(rc == 0 && a.size == 1ULL << 32 && st.st_size == 1LL << 32);
    return 0;
}
''', nosan=True, needs='a requested size that is a multiple of 4 GiB', breaks='a requested size whose low 32 bits are zero is ignored and the size of the file is taken'),
 dict(id='C15-mkpath-cut', prop='C15', file='coda/system.c', edits=[("		rc = mkdir(path, 0755);\n		*p = '/';\n\n		if (0 > rc && EEXIST != errno)\n		{\n			return -1;\n		}\n", "		rc = mkdir(path, 0755);\n\n		if (0 > rc && EEXIST != errno)\n		{\n			return -1;\n		}\n\n		*p = '/';\n")],
      demo=H + TMP + r'''extern "C" {
#include "coda/system.h"
}
int main()
{
    mk(); std::string f = tmp("x"); close(open(f.c_str(), O_CREAT | O_RDWR, 0600));
    std::string q = f + "/y/z"; char b[200]; strcpy(b, q.c_str());
    int rc = coda_mkpath(b); done("x");
    CHECK(rc == -1); CHECK(q == b);
    return 0;
}
''', needs='a parent directory that cannot be created', breaks='the caller gets its path back cut off at the directory that failed'),
 dict(id='C15-log-level', prop='C15', file='coda/logger.c', edits=[("	log_level = level;\n	return STDERR_FILENO;\n", "	return STDERR_FILENO;\n"), ("	if (NULL == copy) return -1;\n", "	if (NULL == copy) return -1;\n\n	log_level = level;\n")],
      demo=H + TMP + r'''extern "C" {
#include "coda/logger.h"
}
int main()
{
    mk(); int was = log_level;
    int rc = log_create(dir, was + 1);      /* a directory cannot be opened for writing */
    rmdir(dir);
    CHECK(rc == -1); CHECK(log_level == was);
    return 0;
}
''', srcs=['coda/logger.c', 'coda/system.c'], needs='a log file that cannot be opened', breaks='a failed rotation changes the log level'),
 dict(id='C16-listen-leak', prop='C16', file='coda/socket.h', edits=[('''	if (0 > (rc = listen(sd, backlog)))
	{
		close(sd);
		return -1;
	}
''', '''	if (0 > (rc = listen(sd, backlog)))
	{
		if (EADDRINUSE != errno) close(sd);
		return -1;
	}
''')],
      demo=H + r'''#include "coda/socket.h"
static int closed;
extern "C" int listen(int, int) noexcept { errno = EADDRINUSE; return -1; }
int main()
{
    int f = open("/dev/null", O_RDONLY); close(f);
    CHECK(coda_listen("127.0.0.1", "0", 5, 0) == -1);
    int g = open("/dev/null", O_RDONLY); close(g);
    CHECK(f == g);
    return 0;
}
''', needs='listen failing with EADDRINUSE', breaks='the socket stays open when the port is taken'),
 dict(id='C16-accept-ip', prop='C16', file='coda/socket.h', edits=[('''	if (0 > (rc = coda_set_nonblk(sd, nonblock)))
	{
		close(sd);
		return -1;
	}

	*ip = addr.sin_addr;

	return sd;
''', '''	if (nonblock && 0 > (rc = coda_set_nonblk(sd, nonblock)))
	{
		close(sd);
		return -1;
	}

	*ip = addr.sin_addr;

	return sd;
''')],
      demo=H + r'''#include <arpa/inet.h>
#include <sys/socket.h>
static int calls, last = -1;
#include <sys/ioctl.h>
extern "C" int ioctl(int fd, unsigned long req, ...) noexcept { va_list a; va_start(a, req); int *p = va_arg(a, int *); va_end(a); if (req == FIONBIO) { calls++; last = *p; } return 0; }
#include "coda/socket.h"
int main()
{
    int s = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t n = sizeof a; CHECK(!bind(s, (sockaddr *) &a, n) && !listen(s, 5) && !getsockname(s, (sockaddr *) &a, &n));
    int c = socket(AF_INET, SOCK_STREAM, 0); CHECK(!connect(c, (sockaddr *) &a, n));
    struct in_addr ip; int d = coda_accept(s, &ip, 0);
    CHECK(d >= 0 && ip.s_addr == htonl(INADDR_LOOPBACK)); CHECK(calls == 1 && last == 0);
    return 0;
}
''', needs='a blocking accept where the new socket may inherit the non-blocking mode', breaks='the mode asked for is not set when it is blocking'),
 dict(id='C16-recv-eof', prop='C16', file='coda/socket.h', edits=[("		if (0 <= rc) break;\n", "		if (0 < rc) break;\n")],
      demo=H + r'''#include "coda/socket.h"
#include <sys/socket.h>
int main()
{
    int s[2]; CHECK(!socketpair(AF_UNIX, SOCK_STREAM, 0, s));
    char b[4]; CHECK(coda_unix_send(s[0], (void *) "abc", 3) == 3); CHECK(coda_unix_recv(s[1], b, 4) == 3);
    close(s[0]); errno = 0;
    CHECK(coda_unix_recv(s[1], b, 4) == 0);
    return 0;
}
''', needs='the peer closing the connection', breaks='the end of the stream is reported as an error, or waited for again and again'),
 dict(id='C17-flag-cross', prop='C17', file='coda/daemon.c', edits=[("    _(USR2   , changebin, ##__VA_ARGS__)    \\\n", "    _(USR2   , rotatelog, ##__VA_ARGS__)    \\\n")],
      demo=H + r'''extern "C" {
#include "coda/daemon.h"
}
int main()
{
    CHECK(coda_signal_init() == 0);
    raise(SIGUSR1); CHECK(coda_rotatelog && !coda_changebin && !coda_terminate && !coda_changecfg);
    coda_rotatelog = 0;
    raise(SIGUSR2); CHECK(coda_changebin && !coda_rotatelog && !coda_terminate && !coda_changecfg);
    return 0;
}
''', srcs=['coda/daemon.c', 'coda/system.c', 'coda/logger.c'], needs='the signal USR2', breaks='USR2 asks for a log rotation instead of a new binary'),
 dict(id='C17-pid-first', prop='C17', file='coda/daemon.c', edits=[('''	if (opt->daemon && 0 > coda_daemon_fork())
	{
		return -1;
	}

	if (opt->pid && 0 > coda_mkpidf(opt->pid))
	{
		return -1;
	}
''', '''	if (opt->pid && 0 > coda_mkpidf(opt->pid))
	{
		return -1;
	}

	if (opt->daemon && 0 > coda_daemon_fork())
	{
		return -1;
	}
''')],
      demo=H + TMP + r'''extern "C" {
#include "coda/daemon.h"
}
int main()
{
    mk(); std::string f = tmp("p"); coda_getopt_t o; memset(&o, 0, sizeof o); o.pid = strdup(f.c_str()); o.daemon = 1;
    std::string r = tmp("r"); close(open(r.c_str(), O_CREAT | O_RDWR, 0600));
    pid_t c = fork();
    if (!c)
    {
        int rc = coda_daemon_load(&o);
        char b[32]; int n = snprintf(b, sizeof b, "%d %d\n", rc, (int) getpid());
        int d = open(r.c_str(), O_WRONLY); if (write(d, b, n) != n) _exit(3); close(d); _exit(0);
    }
    int st; waitpid(c, &st, 0);
    int rc = -1, me = 0, rec = -2;
    for (int i = 0; i < 200; i++) { FILE *g = fopen(r.c_str(), "r"); int k = fscanf(g, "%d %d", &rc, &me); fclose(g); if (k == 2) break; usleep(20000); }
    FILE *g = fopen(f.c_str(), "r"); if (g) { if (fscanf(g, "%d", &rec) != 1) rec = -3; fclose(g); }
    unlink(r.c_str()); done("p");
    CHECK(rc == 0); CHECK(rec == me);
    free((void *) o.pid);
    return 0;
}
''', srcs=['coda/daemon.c', 'coda/system.c', 'coda/logger.c'], nosan=True, needs='a pid file together with detaching', breaks='the pid file holds the pid of the parent, which has exited'),
 dict(id='C17-close-std', prop='C17', file='coda/daemon.c', edits=[("    if (fd > STDERR_FILENO && 0 > close(fd))\n", "    if (fd > STDIN_FILENO && 0 > close(fd))\n")],
      demo=H + r'''extern "C" {
#include "coda/daemon.h"
}
int main()
{
    int p[2]; CHECK(!pipe(p));
    pid_t c = fork();
    if (!c)
    {
        close(p[0]); int w = dup2(p[1], 50); close(p[1]); close(1);      /* the lowest free descriptor is standard output */
        int rc = coda_daemon_fork();
        char b[2] = { (char) ('0' + (rc == 0)), (char) ('0' + (fcntl(1, F_GETFD) >= 0)) };
        if (write(w, b, 2) != 2) _exit(1);
        _exit(0);
    }
    close(p[1]); char b[2] = ""; int n = read(p[0], b, 2); int st; waitpid(c, &st, 0);
    CHECK(n == 2 && b[0] == '1' && b[1] == '1');
    return 0;
}
''', srcs=['coda/daemon.c', 'coda/system.c', 'coda/logger.c'], nosan=True, needs='a daemon started with standard output closed', breaks='standard output of the daemon is closed, so the next file it opens becomes its standard output'),
]
SEEDS = [s for s in SEEDS if s['edits']]

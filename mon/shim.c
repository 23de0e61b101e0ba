/* The daemon's environment: a bus device made of a socket pair, a port of the
 * loopback instead of a fixed one. Linked with -Wl,--wrap. */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

int __real_open(const char *path, int flags, ...);
int __real_open64(const char *path, int flags, ...);
int __real_bind(int s, const struct sockaddr *a, socklen_t l);
int __real_listen(int s, int n);
int __real_openat(int d, const char *path, int flags, ...);
int __real_close(int fd);
int __real_accept(int s, struct sockaddr *a, socklen_t *l);
int __real_accept4(int s, struct sockaddr *a, socklen_t *l, int flags);

static int asked = -1;

/* Failures of the device, asked for while it runs. */
static int device = -1;
static volatile struct { int read, write, delivered, accept, client, partial, clock; } *fault;
static char accepted[1024];

/* It does not outlive the check. */
static void __attribute__((constructor)) leash(void)
{
	prctl(PR_SET_PDEATHSIG, SIGKILL);
}

static void tell(const char *text, int n)
{
	const char *fd = getenv("KNXMON_NOTE");

	if (fd && write(atoi(fd), text, n) != n)
		_exit(99);
}

static void note(const char *what, int x, int y)
{
	char text[64];

	tell(text, snprintf(text, sizeof text, "%s %d %d\n", what, x, y));
}

/* No device of this machine is ever opened: "knxmon:FD..." is the emulated one,
 * as is the default path on request; any other device is missing. */
static int bus(const char *path, int flags)
{
	static const char mine[] = "knxmon:";
	const char *usual = getenv("KNXMON_USUAL");
	char text[1024];
	int fd = -1;

	if (!strncmp(path, mine, sizeof mine - 1))
		fd = atoi(path + sizeof mine - 1);
	else if (strncmp(path, "/dev/hidraw", 11))
		return -1;
	else if (usual && !strcmp(path, "/dev/hidraw1"))
		fd = atoi(usual);
	tell(text, snprintf(text, sizeof text, "path %.1000s\n", path));
	if (fd >= 0 && getenv("KNXMON_OPEN")) { /* it is there, but not for this */
		if ((flags & O_ACCMODE) != O_RDWR)
			return dup(fd);
		errno = atoi(getenv("KNXMON_OPEN"));
		return -2;
	}
	if (fd < 0) {
		errno = ENOENT;
		return -2;
	}
	note("open", (flags & O_ACCMODE) == O_RDWR, 0);
	if (getenv("KNXMON_FAULT")) {
		void *x = mmap(0, sizeof *fault, PROT_READ | PROT_WRITE, MAP_SHARED,
			       atoi(getenv("KNXMON_FAULT")), 0);

		if (x != MAP_FAILED)
			fault = x;
	}
	return device = dup(fd);
}

int __wrap_open(const char *path, int flags, ...)
{
	va_list ap;
	int mode, fd = bus(path, flags);

	if (fd != -1)
		return fd < 0 ? -1 : fd;
	va_start(ap, flags);
	mode = (flags & O_CREAT) ? va_arg(ap, int) : 0;
	va_end(ap);
	return __real_open(path, flags, mode);
}

int __wrap_open64(const char *path, int flags, ...)
{
	int fd = bus(path, flags);

	if (fd != -1)
		return fd < 0 ? -1 : fd;
	return __real_open64(path, flags, 0600);
}

int __wrap_openat(int d, const char *path, int flags, ...)
{
	int fd = bus(path, flags);

	if (fd != -1)
		return fd < 0 ? -1 : fd;
	return __real_openat(d, path, flags, 0600);
}

int __wrap_bind(int s, const struct sockaddr *a, socklen_t l)
{
	const char *port = getenv("KNXMON_PORT");
	struct sockaddr_in in;

	if (l < 8 || a->sa_family != AF_INET)
		return __real_bind(s, a, l);
	asked = ntohs(((const struct sockaddr_in *)a)->sin_port);
	note("bind", asked, ((const struct sockaddr_in *)a)->sin_addr.s_addr == htonl(INADDR_ANY));
	memset(&in, 0, sizeof in);
	in.sin_family = AF_INET;
	in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	in.sin_port = htons(port ? atoi(port) : 0);
	return __real_bind(s, (struct sockaddr *)&in, sizeof in);
}

int __wrap_listen(int s, int n)
{
	struct sockaddr_in in;
	socklen_t l = sizeof in;
	int r = __real_listen(s, n);

	memset(&in, 0, sizeof in);
	if (r == 0 && getsockname(s, (struct sockaddr *)&in, &l) == 0)
		note("listen", asked, ntohs(in.sin_port));
	return r;
}

/* One client is lost in the moment it is accepted, on request. Small buffers, on
 * request: a client which does not read is soon noticed. */
static int small(int fd)
{
	const char *n = getenv("KNXMON_SNDBUF");

	if (fd >= 0 && fault && fault->accept) {
		__real_close(fd);
		errno = fault->accept;
		fault->accept = 0;
		fault->delivered++;
		return -1;
	}
	if (fd >= 0 && fd < 1024)
		accepted[fd] = 1;

	if (fd >= 0 && n) {
		int size = atoi(n);

		setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &size, sizeof size);
	}
	return fd;
}

int __wrap_accept(int s, struct sockaddr *a, socklen_t *l)
{
	return small(__real_accept(s, a, l));
}

int __wrap_accept4(int s, struct sockaddr *a, socklen_t *l, int flags)
{
	return small(__real_accept4(s, a, l, flags));
}

#define WRAP(name, kind, params, args)                          \
	ssize_t __real_##name params;                           \
	ssize_t __wrap_##name params                            \
	{                                                       \
		if (fault && fd == device && fault->kind) {     \
			fault->delivered++;                     \
			errno = fault->kind;                    \
			return -1;                              \
		}                                               \
		if (fault && fault->client && &fault->kind == &fault->read && fd >= 0 \
		    && fd < 1024 && accepted[fd]) {             \
			errno = fault->client;                  \
			fault->client = 0;                      \
			fault->delivered++;                     \
			return -1;                              \
		}                                               \
		return __real_##name args;                      \
	}

WRAP(read, read, (int fd, void *p, size_t n), (fd, p, n))
WRAP(readv, read, (int fd, const struct iovec *p, int n), (fd, p, n))
WRAP(writev, write, (int fd, const struct iovec *p, int n), (fd, p, n))
WRAP(recv, read, (int fd, void *p, size_t n, int flags), (fd, p, n, flags))

#undef WRAP

ssize_t __real_write(int fd, const void *p, size_t n);
static ssize_t device_write(int fd, const void *p, size_t n)
{
	if (fault && fd == device && fault->write) {
		fault->delivered++;
		errno = fault->write;
		return -1;
	}
	return __real_write(fd, p, n);
}

/* A client whose buffer has room for a part only, on request. */
static int part(int fd, size_t n)
{
	int k;

	if (!fault || !fault->partial || fd < 0 || fd >= 1024 || !accepted[fd])
		return 0;
	k = fault->partial;
	if ((size_t)k >= n)
		return 0;
	fault->partial = 0;
	fault->delivered++;
	return k;
}

#define PARTLY(name, params, args)                              \
	ssize_t __real_##name params;                           \
	ssize_t __wrap_##name params                            \
	{                                                       \
		int k = part(fd, n);                            \
		return k ? __real_write(fd, p, k) : __real_##name args; \
	}

PARTLY(send, (int fd, const void *p, size_t n, int flags), (fd, p, n, flags))
PARTLY(sendto, (int fd, const void *p, size_t n, int flags, const struct sockaddr *a, socklen_t l), (fd, p, n, flags, a, l))

ssize_t __wrap_write(int fd, const void *p, size_t n)
{
	int k = part(fd, n);

	return device_write(fd, p, k ? (size_t)k : n);
}

ssize_t __real_sendmsg(int fd, const struct msghdr *m, int flags);
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int flags)
{
	int k = m->msg_iovlen ? part(fd, m->msg_iov[0].iov_len) : 0;

	return k ? __real_write(fd, m->msg_iov[0].iov_base, k) : __real_sendmsg(fd, m, flags);
}

/* The clock of the machine is set, on request. */
time_t __real_time(time_t *t);
time_t __wrap_time(time_t *t)
{
	time_t now = __real_time(0) + (fault ? fault->clock : 0);

	if (t)
		*t = now;
	return now;
}

int __real_clock_gettime(clockid_t c, struct timespec *t);
int __wrap_clock_gettime(clockid_t c, struct timespec *t)
{
	int r = __real_clock_gettime(c, t);

	if (!r && fault)
		t->tv_sec += fault->clock;
	return r;
}

int __real_gettimeofday(struct timeval *t, void *z);
int __wrap_gettimeofday(struct timeval *t, void *z)
{
	int r = __real_gettimeofday(t, z);

	if (!r && fault)
		t->tv_sec += fault->clock;
	return r;
}

int __wrap_close(int fd)
{
	if (fd >= 0 && fd < 1024)
		accepted[fd] = 0;
	return __real_close(fd);
}

/* simnet: LD_PRELOAD seam between the code under test and the simulator.
 *
 * While the calling thread is a simulation thread (sim_enter), every kernel entry point through which the client
 * meets time, randomness or the network is served by the simulator.  All other threads reach the real kernel.
 * Nothing here makes decisions: it forwards to one callback and returns what the callback says.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { OP_SOCKET = 1, OP_CONNECT, OP_SEND, OP_RECV, OP_CLOSE, OP_SLEEP, OP_RANDOM, OP_POLL, OP_SETOPT };

typedef long long (*sim_cb_t)(int op, int fd, void *buf, size_t len, long long a, long long b);

volatile int64_t sim_now_ns = 0;          /* CLOCK_MONOTONIC of the simulation */
volatile int64_t sim_real_offset_ns = 0;  /* CLOCK_REALTIME - CLOCK_MONOTONIC */
volatile int64_t sim_calls = 0;           /* intercepted calls */
volatile int64_t sim_clock_reads = 0;     /* clock reads made while active */
int64_t sim_hz = 0;                       /* kernel tick for SO_RCVTIMEO rounding, 0 - exact */
static sim_cb_t sim_cb;
static __thread int sim_active;
#define MAXFD 4096
static struct { char tracked; int64_t rcvtimeo_us; } fds[MAXFD];

#define REAL(name) static __typeof__(&name) real_##name; \
    if (!real_##name) real_##name = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

void sim_set_callback(sim_cb_t cb) { sim_cb = cb; }
void sim_enter(void) { sim_active = 1; }
void sim_leave(void) { sim_active = 0; }
int sim_is_active(void) { return sim_active; }
int64_t sim_get_rcvtimeo(int fd) { return fd >= 0 && fd < MAXFD ? fds[fd].rcvtimeo_us : -1; }
int sim_is_tracked(int fd) { return fd >= 0 && fd < MAXFD && fds[fd].tracked; }

static inline int on(int fd) { return sim_active && sim_cb && fd >= 0 && fd < MAXFD && fds[fd].tracked; }

static long long call(int op, int fd, void *buf, size_t len, long long a, long long b)
{
    sim_calls++;
    long long r = sim_cb(op, fd, buf, len, a, b);
    if (r < 0) { errno = (int)-r; return -1; }
    return r;
}

static int is_nonblock(int fd)
{
    int fl = fcntl(fd, F_GETFL, 0);
    return fl >= 0 && (fl & O_NONBLOCK) != 0;
}

/* ---- time ---------------------------------------------------------------------------------------------- */
int clock_gettime(clockid_t clk, struct timespec *ts)
{
    REAL(clock_gettime);
    if (!sim_active || clk == CLOCK_PROCESS_CPUTIME_ID || clk == CLOCK_THREAD_CPUTIME_ID)
        return real_clock_gettime(clk, ts);
    int64_t t = sim_now_ns;
    sim_clock_reads++;
    if (clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE) t += sim_real_offset_ns;
    ts->tv_sec = t / 1000000000;
    ts->tv_nsec = t % 1000000000;
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz)
{
    if (!sim_active) {
        static int (*r)(struct timeval *, void *);
        if (!r) r = (int (*)(struct timeval *, void *))dlsym(RTLD_NEXT, "gettimeofday");
        return r(tv, tz);
    }
    int64_t t = sim_now_ns + sim_real_offset_ns;
    { tv->tv_sec = t / 1000000000; tv->tv_usec = (t % 1000000000) / 1000; }
    return 0;
}
static int do_sleep(int64_t ns)
{
    if (ns < 0) ns = 0;
    long long r = call(OP_SLEEP, -1, NULL, 0, ns, 0);
    return r < 0 ? -1 : 0;
}
int nanosleep(const struct timespec *req, struct timespec *rem)
{
    REAL(nanosleep);
    if (!sim_active || !sim_cb) return real_nanosleep(req, rem);
    if (rem) memset(rem, 0, sizeof *rem);
    return do_sleep((int64_t)req->tv_sec * 1000000000 + req->tv_nsec);
}
int clock_nanosleep(clockid_t clk, int flags, const struct timespec *req, struct timespec *rem)
{
    REAL(clock_nanosleep);
    if (!sim_active || !sim_cb) return real_clock_nanosleep(clk, flags, req, rem);
    int64_t t = (int64_t)req->tv_sec * 1000000000 + req->tv_nsec;
    if (flags & TIMER_ABSTIME) {
        t -= sim_now_ns;
        if (clk == CLOCK_REALTIME) t -= sim_real_offset_ns;
    }
    if (rem) memset(rem, 0, sizeof *rem);
    return do_sleep(t) < 0 ? errno : 0;
}
int usleep(useconds_t us)
{
    REAL(usleep);
    if (!sim_active || !sim_cb) return real_usleep(us);
    return do_sleep((int64_t)us * 1000);
}

/* ---- randomness ---------------------------------------------------------------------------------------- */
ssize_t getrandom(void *buf, size_t len, unsigned int flags)
{
    REAL(getrandom);
    if (!sim_active || !sim_cb) return real_getrandom(buf, len, flags);
    if (len == 0) return 0;
    return call(OP_RANDOM, -1, buf, len, flags, 0);
}
int getentropy(void *buf, size_t len)
{
    REAL(getentropy);
    if (!sim_active || !sim_cb) return real_getentropy(buf, len);
    return call(OP_RANDOM, -1, buf, len, 0, 0) < 0 ? -1 : 0;
}
long syscall(long nr, ...)
{
    static long (*real)(long, ...);
    va_list ap;
    long a[6];
    if (!real) real = (long (*)(long, ...))dlsym(RTLD_NEXT, "syscall");
    va_start(ap, nr);
    for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    if (sim_active && sim_cb && nr == SYS_getrandom) {
        if (a[1] == 0) return 0;
        return call(OP_RANDOM, -1, (void *)a[0], (size_t)a[1], a[2], 0);
    }
    return real(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}

/* ---- sockets ------------------------------------------------------------------------------------------- */
int socket(int domain, int type, int proto)
{
    REAL(socket);
    if (!sim_active || !sim_cb || (domain != AF_INET && domain != AF_INET6)) return real_socket(domain, type, proto);
    int fd = real_socket(AF_INET, type, proto); /* never connected, IPv6 may be missing here */
    if (fd < 0) return fd;
    if (fd >= MAXFD) { close(fd); errno = EMFILE; return -1; }
    fds[fd].tracked = 1;
    fds[fd].rcvtimeo_us = 0;
    if (call(OP_SOCKET, fd, NULL, 0, domain, type) < 0) {
        int e = errno;
        REAL(close);
        fds[fd].tracked = 0;
        real_close(fd);
        errno = e;
        return -1;
    }
    return fd;
}
int connect(int fd, const struct sockaddr *sa, socklen_t len)
{
    REAL(connect);
    if (!on(fd)) return real_connect(fd, sa, len);
    return call(OP_CONNECT, fd, (void *)sa, len, 0, 0) < 0 ? -1 : 0;
}
int bind(int fd, const struct sockaddr *sa, socklen_t len)
{
    REAL(bind);
    if (!on(fd)) return real_bind(fd, sa, len);
    return 0;
}
int close(int fd)
{
    REAL(close);
    if (fd >= 0 && fd < MAXFD && fds[fd].tracked) {
        fds[fd].tracked = 0;
        if (sim_active && sim_cb) call(OP_CLOSE, fd, NULL, 0, 0, 0);
    }
    return real_close(fd);
}
int setsockopt(int fd, int level, int opt, const void *val, socklen_t len)
{
    REAL(setsockopt);
    if (!on(fd)) return real_setsockopt(fd, level, opt, val, len);
    if (level == SOL_SOCKET && opt == SO_RCVTIMEO && len >= sizeof(struct timeval)) {
        const struct timeval *tv = val;
        if (tv->tv_usec < 0 || tv->tv_usec >= 1000000) { errno = EDOM; return -1; }
        int64_t us = (int64_t)tv->tv_sec * 1000000 + tv->tv_usec;
        if (tv->tv_sec < 0) us = 1; /* negative: immediate */
        if (sim_hz > 0 && us > 0) { /* the kernel keeps whole ticks, rounded up */
            int64_t tick = 1000000 / sim_hz;
            us = (us + tick - 1) / tick * tick;
        }
        fds[fd].rcvtimeo_us = us;
        call(OP_SETOPT, fd, NULL, 0, opt, us);
        return 0;
    }
    return real_setsockopt(fd, level, opt, val, len);
}
int getsockopt(int fd, int level, int opt, void *val, socklen_t *len)
{
    REAL(getsockopt);
    if (!on(fd)) return real_getsockopt(fd, level, opt, val, len);
    if (level == SOL_SOCKET && opt == SO_RCVTIMEO && *len >= sizeof(struct timeval)) {
        struct timeval *tv = val;
        tv->tv_sec = fds[fd].rcvtimeo_us / 1000000;
        tv->tv_usec = fds[fd].rcvtimeo_us % 1000000;
        *len = sizeof *tv;
        return 0;
    }
    return real_getsockopt(fd, level, opt, val, len);
}
static ssize_t do_send(int fd, const void *buf, size_t len, int flags)
{
    return call(OP_SEND, fd, (void *)buf, len, flags, is_nonblock(fd));
}
ssize_t send(int fd, const void *buf, size_t len, int flags)
{
    REAL(send);
    if (!on(fd)) return real_send(fd, buf, len, flags);
    return do_send(fd, buf, len, flags);
}
ssize_t sendto(int fd, const void *buf, size_t len, int flags, const struct sockaddr *sa, socklen_t sl)
{
    REAL(sendto);
    if (!on(fd)) return real_sendto(fd, buf, len, flags, sa, sl);
    return do_send(fd, buf, len, flags);
}
ssize_t write(int fd, const void *buf, size_t len)
{
    REAL(write);
    if (!on(fd)) return real_write(fd, buf, len);
    return do_send(fd, buf, len, 0);
}
static size_t iov_total(const struct iovec *v, size_t n)
{
    size_t t = 0;
    for (size_t i = 0; i < n; i++) t += v[i].iov_len;
    return t;
}
static ssize_t send_iov(int fd, const struct iovec *v, size_t n, int flags)
{
    size_t t = iov_total(v, n), o = 0;
    char *b = malloc(t ? t : 1);
    for (size_t i = 0; i < n; i++) { memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
    ssize_t r = do_send(fd, b, t, flags);
    int e = errno;
    free(b);
    errno = e;
    return r;
}
ssize_t sendmsg(int fd, const struct msghdr *m, int flags)
{
    REAL(sendmsg);
    if (!on(fd)) return real_sendmsg(fd, m, flags);
    return send_iov(fd, m->msg_iov, m->msg_iovlen, flags);
}
ssize_t writev(int fd, const struct iovec *v, int n)
{
    REAL(writev);
    if (!on(fd)) return real_writev(fd, v, n);
    return send_iov(fd, v, n, 0);
}
static ssize_t do_recv(int fd, void *buf, size_t len, int flags)
{
    int nb = is_nonblock(fd) || (flags & MSG_DONTWAIT);
    return call(OP_RECV, fd, buf, len, nb ? -1 : fds[fd].rcvtimeo_us, flags);
}
ssize_t recv(int fd, void *buf, size_t len, int flags)
{
    REAL(recv);
    if (!on(fd)) return real_recv(fd, buf, len, flags);
    return do_recv(fd, buf, len, flags);
}
ssize_t recvfrom(int fd, void *buf, size_t len, int flags, struct sockaddr *sa, socklen_t *sl)
{
    REAL(recvfrom);
    if (!on(fd)) return real_recvfrom(fd, buf, len, flags, sa, sl);
    if (sl) *sl = 0;
    return do_recv(fd, buf, len, flags);
}
ssize_t read(int fd, void *buf, size_t len)
{
    REAL(read);
    if (!on(fd)) return real_read(fd, buf, len);
    return do_recv(fd, buf, len, 0);
}
static ssize_t recv_iov(int fd, const struct iovec *v, size_t n, int flags)
{
    if (n == 1) return do_recv(fd, v[0].iov_base, v[0].iov_len, flags);
    size_t t = iov_total(v, n), o = 0;
    char *b = malloc(t ? t : 1);
    ssize_t r = do_recv(fd, b, t, flags);
    int e = errno;
    for (size_t i = 0; r > 0 && i < n && o < (size_t)r; i++) {
        size_t k = v[i].iov_len < (size_t)r - o ? v[i].iov_len : (size_t)r - o;
        memcpy(v[i].iov_base, b + o, k);
        o += k;
    }
    free(b);
    errno = e;
    return r;
}
ssize_t recvmsg(int fd, struct msghdr *m, int flags)
{
    REAL(recvmsg);
    if (!on(fd)) return real_recvmsg(fd, m, flags);
    m->msg_namelen = 0;
    m->msg_controllen = 0;
    m->msg_flags = 0;
    return recv_iov(fd, m->msg_iov, m->msg_iovlen, flags);
}
ssize_t readv(int fd, const struct iovec *v, int n)
{
    REAL(readv);
    if (!on(fd)) return real_readv(fd, v, n);
    return recv_iov(fd, v, n, 0);
}
static int sim_poll(struct pollfd *p, nfds_t n, int64_t timeout_us)
{
    for (nfds_t i = 0; i < n; i++) p[i].revents = 0;
    for (nfds_t i = 0; i < n; i++)
        if (on(p[i].fd)) {
            long long r = call(OP_POLL, p[i].fd, NULL, 0, timeout_us, p[i].events);
            if (r < 0) return -1;
            p[i].revents = (short)r;
            return r ? 1 : 0;
        }
    return 0;
}
static int any_sim(struct pollfd *p, nfds_t n)
{
    if (!sim_active) return 0;
    for (nfds_t i = 0; i < n; i++) if (on(p[i].fd)) return 1;
    return 0;
}
int poll(struct pollfd *p, nfds_t n, int timeout)
{
    REAL(poll);
    if (!any_sim(p, n)) return real_poll(p, n, timeout);
    return sim_poll(p, n, timeout < 0 ? -1 : (int64_t)timeout * 1000);
}
int ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *ss)
{
    REAL(ppoll);
    if (!any_sim(p, n)) return real_ppoll(p, n, ts, ss);
    return sim_poll(p, n, ts ? (int64_t)ts->tv_sec * 1000000 + ts->tv_nsec / 1000 : -1);
}

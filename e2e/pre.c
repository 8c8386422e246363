// Loaded into the real daemon, and into the command line tool. Its port is given away by the system, so that many can run at once, and what it does
// below its data directory can be noted, made to fail, or be the end of it.
//
// E2E_PORT: file to which the port asked for and the one gotten are written
// E2E_BASE: the data directory
// E2E_OPS: file to which every change below it is appended
// E2E_FAIL: "<n> <errno>": the n-th change (from 1) fails with it
// E2E_STOP: "<n> <how>": the process ends at the n-th change: 0 before it, 1 after it, 2 when half of it is written
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <netinet/in.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <unistd.h>

static void *next(const char *n) { return dlsym(RTLD_NEXT, n); }
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static int count, logfd = -2;
#define FDS 4096
static char ours[FDS][96];

static int in_base(const char *p) {
    const char *b = getenv("E2E_BASE");
    if (!b || !p) return 0;
    size_t n = strlen(b);
    return strncmp(p, b, n) == 0 && (p[n] == 0 || p[n] == '/');
}
static const char *last(const char *p) {
    const char *b = getenv("E2E_BASE");
    const char *r = p + strlen(b);
    while (*r == '/') r++;
    return *r ? r : ".";
}
// notes a change; gives an error number if it is to fail, -1 if it is to be done by half
static int change(const char *what, const char *a, const char *b, long n, int *then) {
    *then = 0;
    if (!getenv("E2E_OPS")) return 0;
    pthread_mutex_lock(&lock);
    if (logfd == -2) {
        int (*o)(const char *, int, ...) = next("open64");
        logfd = o(getenv("E2E_OPS"), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    }
    int c = ++count;
    char line[1024];
    int len = snprintf(line, sizeof line, "%s\t%s\t%s\t%ld\n", what, a, b ? b : "", n);
    ssize_t (*w)(int, const void *, size_t) = next("write");
    const char *f = getenv("E2E_FAIL"), *s = getenv("E2E_STOP");
    int at, v, r = 0;
    if (s && sscanf(s, "%d %d", &at, &v) == 2 && at == c) {
        if (v == 0) _exit(99);
        if (v == 1) *then = 1;
        if (v == 2) { *then = 1; r = -1; }
    }
    if (f && sscanf(f, "%d %d", &at, &v) == 2 && at == c) {
        len = snprintf(line, sizeof line, "failed\t%s %s\t\t%d\n", what, a, v);
        r = v;
    }
    w(logfd, line, len);
    pthread_mutex_unlock(&lock);
    return r;
}

static int noted_open(const char *p, int flags, mode_t m, int (*real)(const char *, int, ...)) {
    int creates = 0, then = 0;
    if (in_base(p) && (flags & O_ACCMODE) != O_RDONLY) {
        struct stat st;
        creates = (flags & O_CREAT) && stat(p, &st) != 0;
        int truncs = !creates && (flags & O_TRUNC);
        if (creates || truncs) {
            int e = change(creates ? "create" : "truncate", last(p), 0, 0, &then);
            if (e > 0) { errno = e; return -1; }
        }
    }
    int fd = real(p, flags, m);
    if (then) _exit(99);
    if (fd >= 0 && fd < FDS) {
        ours[fd][0] = 0;
        if (in_base(p)) snprintf(ours[fd], sizeof ours[fd], "%s", last(p));
    }
    return fd;
}
int open(const char *p, int flags, ...) {
    va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a);
    return noted_open(p, flags, m, next("open"));
}
int open64(const char *p, int flags, ...) {
    va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a);
    return noted_open(p, flags, m, next("open64"));
}
int close(int fd) {
    int (*r)(int) = next("close");
    if (fd >= 0 && fd < FDS) ours[fd][0] = 0;
    return r(fd);
}
static int is_ours(int fd) { return fd >= 0 && fd < FDS && ours[fd][0]; }
ssize_t write(int fd, const void *b, size_t n) {
    ssize_t (*r)(int, const void *, size_t) = next("write");
    if (!is_ours(fd)) return r(fd, b, n);
    int then;
    int e = change("write", ours[fd], 0, (long)n, &then);
    if (e > 0) { errno = e; return -1; }
    ssize_t k = r(fd, b, e < 0 ? n / 2 : n);
    if (then) _exit(99);
    return k;
}
int fsync(int fd) {
    int (*r)(int) = next("fsync");
    if (!is_ours(fd)) return r(fd);
    int then;
    int e = change("sync", ours[fd], 0, 0, &then);
    if (e > 0) { errno = e; return -1; }
    int k = r(fd);
    if (then) _exit(99);
    return k;
}
int fdatasync(int fd) {
    int (*r)(int) = next("fdatasync");
    if (!is_ours(fd)) return r(fd);
    int then;
    int e = change("sync", ours[fd], 0, 0, &then);
    if (e > 0) { errno = e; return -1; }
    int k = r(fd);
    if (then) _exit(99);
    return k;
}
int rename(const char *a, const char *b) {
    int (*r)(const char *, const char *) = next("rename");
    if (!in_base(a) && !in_base(b)) return r(a, b);
    int then;
    int e = change("rename", in_base(a) ? last(a) : a, in_base(b) ? last(b) : b, 0, &then);
    if (e > 0) { errno = e; return -1; }
    int k = r(a, b);
    if (then) _exit(99);
    return k;
}
int unlink(const char *p) {
    int (*r)(const char *) = next("unlink");
    struct stat st;
    if (!in_base(p) || lstat(p, &st) != 0) return r(p);
    int then;
    int e = change("unlink", last(p), 0, 0, &then);
    if (e > 0) { errno = e; return -1; }
    int k = r(p);
    if (then) _exit(99);
    return k;
}
int mkdir(const char *p, mode_t m) {
    int (*r)(const char *, mode_t) = next("mkdir");
    struct stat st;
    if (!in_base(p) || stat(p, &st) == 0) return r(p, m);
    int then;
    int e = change("mkdir", last(p), 0, 0, &then);
    if (e > 0) { errno = e; return -1; }
    int k = r(p, m);
    if (then) _exit(99);
    return k;
}
// E2E_TO: the port that connections to 7687 go to
int connect(int fd, const struct sockaddr *a, socklen_t n) {
    int (*r)(int, const struct sockaddr *, socklen_t) = next("connect");
    const char *t = getenv("E2E_TO");
    char copy[128];
    if (!t || n > sizeof copy) return r(fd, a, n);
    memcpy(copy, a, n);
    if (a->sa_family == AF_INET && ((struct sockaddr_in *)copy)->sin_port == htons(7687)) ((struct sockaddr_in *)copy)->sin_port = htons(atoi(t));
    if (a->sa_family == AF_INET6 && ((struct sockaddr_in6 *)copy)->sin6_port == htons(7687)) ((struct sockaddr_in6 *)copy)->sin6_port = htons(atoi(t));
    return r(fd, (struct sockaddr *)copy, n);
}
int bind(int fd, const struct sockaddr *a, socklen_t n) {
    int (*r)(int, const struct sockaddr *, socklen_t) = next("bind");
    const char *f = getenv("E2E_PORT");
    if (!f || (a->sa_family != AF_INET && a->sa_family != AF_INET6)) return r(fd, a, n);
    unsigned asked;
    char copy[128];
    if (n > sizeof copy) return r(fd, a, n);
    memcpy(copy, a, n);
    if (a->sa_family == AF_INET) {
        struct sockaddr_in *s = (struct sockaddr_in *)copy;
        asked = ntohs(s->sin_port);
        s->sin_port = 0;
        if (s->sin_addr.s_addr == INADDR_ANY) s->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    } else {
        struct sockaddr_in6 *s = (struct sockaddr_in6 *)copy;
        asked = ntohs(s->sin6_port);
        s->sin6_port = 0;
    }
    int k = r(fd, (struct sockaddr *)copy, n);
    if (k == 0) {
        struct sockaddr_in6 got;
        socklen_t l = sizeof got;
        getsockname(fd, (struct sockaddr *)&got, &l);
        char line[64], tmp[PATH_MAX];
        int len = snprintf(line, sizeof line, "%u %u\n", asked, (unsigned)ntohs(got.sin6_port));
        snprintf(tmp, sizeof tmp, "%s.tmp", f);
        int (*o)(const char *, int, ...) = next("open64");
        ssize_t (*w)(int, const void *, size_t) = next("write");
        int (*c)(int) = next("close");
        int (*mv)(const char *, const char *) = next("rename");
        int p = o(tmp, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
        if (p >= 0) { w(p, line, len); c(p); mv(tmp, f); }
    }
    return k;
}

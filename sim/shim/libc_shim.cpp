// libc interposers living in the fake libmpi.so.40 (so they precede libc and
// libstdc++ in a rank's link scope).  They route process lifetime, clocks,
// entropy and file I/O of a simulated rank through the simulator core.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <iostream>
#include <new>
#include <random>
#include "sim_abi.h"

#define EXPORT extern "C" __attribute__((visibility("default")))
#define H hsim_host()
template <class F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }

// ------------------------------------------------------------ process lifetime
struct AtExit { void (*f)(void *); void *arg; };
static AtExit handlers[4096];
static int nHandlers = 0;
static bool running = false;

EXPORT int __cxa_atexit(void (*f)(void *), void *arg, void *dso) {
    if (!running || nHandlers >= 4096) {
        static auto r = real<int (*)(void (*)(void *), void *, void *)>("__cxa_atexit");
        return r(f, arg, dso);
    }
    handlers[nHandlers++] = {f, arg};
    return 0;
}
// what a process writes to its terminal; unflushed output of a dying process is lost
struct TermBuf : std::streambuf {
    int which; std::string b;
    explicit TermBuf(int w) : which(w) {}
    int overflow(int c) override { if (c != EOF) b.push_back((char)c); return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char *s, std::streamsize n) override { b.append(s, n); return n; }
    int sync() override { H->out(H->rank, which, b.data(), b.size()); b.clear(); return 0; }
};
static TermBuf *term[2];
static void flushTerm() { for (auto *t : term) if (t) t->pubsync(); }
static int64_t allocLeft = 0; static uint64_t allocSeen = 0; static bool allocOn = false;
__attribute__((visibility("default"))) void *operator new(size_t n) {
    if (allocOn) {
        allocSeen++;
        if (allocLeft > 0 && --allocLeft == 0) { H->count(H->rank, "fault-allocation", 1); throw std::bad_alloc(); }
        if (allocLeft < 0 && ++allocLeft == 0) { allocLeft = -1; H->count(H->rank, "fault-allocation", 1); throw std::bad_alloc(); }
    }
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
static void runHandlers() { while (nHandlers > 0) { AtExit h = handlers[--nHandlers]; h.f(h.arg); } }

EXPORT void exit(int code) {
    if (!running) { real<void (*)(int)>("_exit")(code); }
    runHandlers();
    allocOn = false; flushTerm(); H->count(H->rank, "alloc", allocSeen);
    running = false;
    H->die(H->rank, "exit", code);
    __builtin_trap();
}
EXPORT void _exit(int code) { if (running) H->die(H->rank, "_exit", code); real<void (*)(int)>("_exit")(code); __builtin_trap(); }
EXPORT void _Exit(int code) { _exit(code); }
EXPORT void quick_exit(int code) { _exit(code); }
EXPORT void abort(void) {
    if (running) H->die(H->rank, "signal", 6);
    real<void (*)(void)>("abort")();
    __builtin_trap();
}
EXPORT int raise(int sig) {
    if (running) { H->die(H->rank, "signal", sig); }
    return real<int (*)(int)>("raise")(sig);
}
// PETSc installs signal handlers of its own; the simulator keeps the defaults
EXPORT void (*signal(int, void (*)(int)))(int) { return nullptr; }

EXPORT int hsim_shim_run(int (*mainfn)(int, char **), int argc, char **argv) {
    running = true;
    if (H->console) { term[0] = new TermBuf(1); term[1] = new TermBuf(2); std::cout.rdbuf(term[0]); std::cerr.rdbuf(term[1]); }
    allocLeft = H->allocFail; allocOn = H->console || allocLeft;
    int rc = mainfn(argc, argv);
    runHandlers();
    allocOn = false; flushTerm(); H->count(H->rank, "alloc", allocSeen);
    running = false;
    return rc;
}

// ------------------------------------------------------------ time and entropy
EXPORT int clock_gettime(clockid_t c, struct timespec *ts) {
    if (!running) return real<int (*)(clockid_t, struct timespec *)>("clock_gettime")(c, ts);
    double t = H->now(H->rank);
    ts->tv_sec = (time_t)t; ts->tv_nsec = (long)((t - (double)(time_t)t) * 1e9);
    return 0;
}
EXPORT int gettimeofday(struct timeval *tv, void *) {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
EXPORT time_t time(time_t *t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
EXPORT clock_t clock(void) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); return ts.tv_sec * 1000000 + ts.tv_nsec / 1000; }
EXPORT int usleep(useconds_t) { if (running) H->poll(H->rank); return 0; }
EXPORT unsigned sleep(unsigned) { if (running) H->poll(H->rank); return 0; }
EXPORT int nanosleep(const struct timespec *, struct timespec *) { if (running) H->poll(H->rank); return 0; }
EXPORT int gethostname(char *n, size_t l) { strncpy(n, "simhost", l); return 0; }
EXPORT ssize_t getrandom(void *b, size_t n, unsigned) {
    for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = running ? (unsigned char)H->entropy(H->rank) : 4;
    return (ssize_t)n;
}
namespace std {
__attribute__((visibility("default"))) void random_device::_M_init(const std::string &) {}
__attribute__((visibility("default"))) void random_device::_M_fini() {}
__attribute__((visibility("default"))) random_device::result_type random_device::_M_getval() { return running ? (unsigned)H->entropy(H->rank) : 4u; }
__attribute__((visibility("default"))) double random_device::_M_getentropy() const noexcept { return 32.0; }
}

// ------------------------------------------------------------ simulated disk
static char *fdPath[1024];
static bool tracked(int fd) { return running && fd >= 0 && fd < 1024 && fdPath[fd]; }
static bool inScratch(const char *p) {
    if (!running || !p) return false;
    if (p[0] != '/') return true;  // the rank's working directory is the scratch
    size_t n = strlen(H->scratch);
    return n && strncmp(p, H->scratch, n) == 0;
}
static int ioOpen(const char *path) {
    HsimIoVerdict v{}; H->io(H->rank, HSIM_IO_OPEN, path, -1, 0, &v); return v.err;
}
static void track(int fd, const char *path) { if (fd >= 0 && fd < 1024) { free(fdPath[fd]); fdPath[fd] = strdup(path); } }
static FILE *openFile(const char *name, const char *path, const char *mode) {
    auto r = real<FILE *(*)(const char *, const char *)>(name);
    if (!inScratch(path)) return r(path, mode);
    if (int e = ioOpen(path)) { errno = e; return nullptr; }
    FILE *f = r(path, mode);
    if (f) track(fileno(f), path);
    return f;
}
EXPORT FILE *fopen64(const char *p, const char *m) { return openFile("fopen64", p, m); }
EXPORT FILE *fopen(const char *p, const char *m) { return openFile("fopen", p, m); }
EXPORT int fclose(FILE *f) {
    int fd = fileno(f);
    HsimIoVerdict v{};
    if (tracked(fd)) { H->io(H->rank, HSIM_IO_CLOSE, fdPath[fd], fd, 0, &v); free(fdPath[fd]); fdPath[fd] = nullptr; }
    int rc = real<int (*)(FILE *)>("fclose")(f);
    if (v.err) { errno = v.err; return -1; }
    return rc;
}
EXPORT ssize_t read(int fd, void *b, size_t n) {
    static auto r = real<ssize_t (*)(int, void *, size_t)>("read");
    if (!tracked(fd)) return r(fd, b, n);
    HsimIoVerdict v{}; v.allow = n; H->io(H->rank, HSIM_IO_READ, fdPath[fd], fd, n, &v);
    if (v.err) { errno = v.err; return -1; }
    if (v.eof) return 0;
    return r(fd, b, v.allow);
}
EXPORT ssize_t write(int fd, const void *b, size_t n) {
    static auto w = real<ssize_t (*)(int, const void *, size_t)>("write");
    if (!tracked(fd)) return w(fd, b, n);
    HsimIoVerdict v{}; v.allow = n; H->io(H->rank, HSIM_IO_WRITE, fdPath[fd], fd, n, &v);
    if (v.err) { errno = v.err; return -1; }
    return w(fd, b, v.allow);
}
EXPORT ssize_t writev(int fd, const struct iovec *iov, int c) {
    static auto w = real<ssize_t (*)(int, const struct iovec *, int)>("writev");
    if (!tracked(fd)) return w(fd, iov, c);
    size_t n = 0; for (int i = 0; i < c; i++) n += iov[i].iov_len;
    char *buf = (char *)malloc(n ? n : 1); size_t o = 0;
    for (int i = 0; i < c; i++) { memcpy(buf + o, iov[i].iov_base, iov[i].iov_len); o += iov[i].iov_len; }
    ssize_t rc = write(fd, buf, n);
    int e = errno; free(buf); errno = e;
    return rc;
}

#include "pool.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>
#include <stdexcept>
#include "engine.h"

namespace hsim {
bool writeAll(int fd, const void *p, size_t n) {
    const char *c = (const char *)p;
    while (n) { ssize_t k = ::write(fd, c, n); if (k < 0) { if (errno == EINTR) continue; return false; } c += k; n -= k; }
    return true;
}
bool readAll(int fd, void *p, size_t n) {
    char *c = (char *)p;
    while (n) { ssize_t k = ::read(fd, c, n); if (k < 0) { if (errno == EINTR) continue; return false; } if (k == 0) return false; c += k; n -= k; }
    return true;
}

int zygoteMain(const std::string &so, int n, int fd) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    std::string err;
    blackBox = (BlackBox *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    bool ok = engineLoad(so, n, err);
    uint64_t hello = ok ? 1 : 0;
    writeAll(fd, &hello, 8);
    if (!ok) { uint64_t l = err.size(); writeAll(fd, &l, 8); writeAll(fd, err.data(), l); return 3; }
    for (;;) {
        uint64_t len;
        if (!readAll(fd, &len, 8)) return 0;
        std::string s(len, 0);
        if (!readAll(fd, &s[0], len)) return 0;
        int mem = memfd_create("result", 0);
        memset(blackBox, 0, sizeof *blackBox); blackBox->rank = -1;
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            JobSpec spec = JobSpec::unpack(s);
            if (!spec.scratch.empty() && chdir(spec.scratch.c_str()) != 0) _exit(98);
            const char *dbg = getenv("HSIM_STDOUT");
            int nul = open(dbg ? dbg : "/dev/null", O_WRONLY | (dbg ? O_APPEND | O_CREAT : 0), 0644);
            dup2(nul, 1); if (!getenv("HSIM_STDERR")) dup2(nul, 2);
            if (getenv("HSIM_CPU")) spec.wallSec = atoi(getenv("HSIM_CPU")); struct rlimit rl = {(rlim_t)spec.wallSec, (rlim_t)spec.wallSec + 5};
            setrlimit(RLIMIT_CPU, &rl);
            alarm(spec.wallSec * 8 + 60);
            if (spec.memMB) { struct rlimit ra = {spec.memMB << 20, spec.memMB << 20}; setrlimit(RLIMIT_AS, &ra); }
            struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
            std::string out;
            { JobResult r = engineRun(spec); out = r.pack(); }
            writeAll(mem, out.data(), out.size());
            _exit(0);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        std::string out;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
            off_t sz = lseek(mem, 0, SEEK_END); lseek(mem, 0, SEEK_SET);
            out.resize(sz); readAll(mem, &out[0], sz);
        } else {
            JobResult r;
            int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
            r.outcome = (sig == SIGXCPU || sig == SIGALRM || sig == SIGKILL) ? OUT_HANG : OUT_CRASH;
            r.who = blackBox->rank; r.code = sig ? 128 + sig : WEXITSTATUS(st); r.steps = blackBox->steps;
            r.detail = (sig ? "signal " + std::to_string(sig) : "exit " + std::to_string(WEXITSTATUS(st))) + " in rank " + std::to_string(blackBox->rank) + " after " + std::string(blackBox->call);
            r.hash = hashU(hashU(7, r.outcome), hashU(r.who, r.steps));
            JobSpec spec = JobSpec::unpack(s);
            r.emits.resize(spec.n); r.logs.resize(spec.n); r.last.resize(spec.n); r.rc.assign(spec.n, -1);
            out = r.pack();
        }
        close(mem);
        uint64_t l = out.size();
        if (!writeAll(fd, &l, 8) || !writeAll(fd, out.data(), l)) return 0;
    }
}
Pool::~Pool() { while (!z_.empty()) kill(z_.begin()->first); }
void Pool::kill(const std::string &so) {
    auto it = z_.find(so); if (it == z_.end()) return;
    close(it->second.fd); ::kill(it->second.pid, SIGKILL); int st; waitpid(it->second.pid, &st, 0); z_.erase(it);
}
Pool::Z &Pool::get(const std::string &so, bool big) {
    std::string key = so + (big ? "#" : "");
    auto it = z_.find(key); if (it != z_.end()) return it->second;
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) throw std::runtime_error("socketpair");
    pid_t pid = fork();
    if (pid == 0) {
        // a fixed descriptor keeps the child's address space independent of history
        dup2(sv[1], 200); for (int i = 3; i < 200; i++) close(i);
        execl(self_.c_str(), "hsim", "--zygote", so.c_str(), std::to_string(big ? bigRanks : maxRanks).c_str(), "200", (char *)nullptr);
        _exit(97);
    }
    close(sv[1]); fcntl(sv[0], F_SETFD, FD_CLOEXEC);
    uint64_t hello = 0;
    if (!readAll(sv[0], &hello, 8)) throw std::runtime_error("zygote for " + so + " did not start");
    if (!hello) { uint64_t l; readAll(sv[0], &l, 8); std::string e(l, 0); readAll(sv[0], &e[0], l); throw std::runtime_error("cannot load " + so + ": " + e); }
    z_[key] = {pid, sv[0]};
    return z_[key];
}
JobResult Pool::run(const JobSpec &spec) {
    bool big = spec.n > maxRanks; std::string key = spec.so + (big ? "#" : "");
    Z &z = get(spec.so, big);
    std::string s = spec.pack(); uint64_t l = s.size();
    uint64_t rl = 0;
    if (!writeAll(z.fd, &l, 8) || !writeAll(z.fd, s.data(), l) || !readAll(z.fd, &rl, 8)) { kill(key); throw std::runtime_error("zygote died"); }
    std::string r(rl, 0);
    if (!readAll(z.fd, &r[0], rl)) { kill(key); throw std::runtime_error("zygote died"); }
    return JobResult::unpack(r);
}
}

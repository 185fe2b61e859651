// Job description / result exchanged between a worker and its rank zygotes.
#pragma once
#include <cstdint>
#include <cstring>
#include <array>
#include <map>
#include <string>
#include <vector>

namespace hsim {

struct Writer {
    std::string b;
    void raw(const void *p, size_t n) { b.append((const char *)p, n); }
    void u64(uint64_t v) { raw(&v, 8); }
    void i64(int64_t v) { raw(&v, 8); }
    void f64(double v) { raw(&v, 8); }
    void str(const std::string &s) { u64(s.size()); raw(s.data(), s.size()); }
};
struct Reader {
    const std::string &b;
    size_t p = 0;
    bool bad = false;
    explicit Reader(const std::string &s) : b(s) {}
    void raw(void *o, size_t n) {
        if (p + n > b.size()) { bad = true; memset(o, 0, n); return; }
        memcpy(o, b.data() + p, n); p += n;
    }
    uint64_t u64() { uint64_t v; raw(&v, 8); return v; }
    int64_t i64() { int64_t v; raw(&v, 8); return v; }
    double f64() { double v; raw(&v, 8); return v; }
    std::string str() {
        uint64_t n = u64();
        if (bad || p + n > b.size()) { bad = true; return {}; }
        std::string s = b.substr(p, n); p += n; return s;
    }
    bool end() const { return p >= b.size(); }
};

// Every nondeterministic choice of a simulated execution.  0 is always the
// canonical choice, so an execution is its list of non-zero choices.
enum DecisionKind { D_SCHED = 0, D_EAGER, D_COLLSYNC, D_REDORDER, D_ANYSRC, D_PICK, D_IO, D_GRACE, D_NKIND };
struct Decision { uint8_t kind; uint32_t idx; uint32_t val; };
typedef std::vector<Decision> Decisions;

struct IoFault {
    enum Type { SHORT = 1, INTR = 2, ERR = 3, EOFILE = 4, CRASH = 5, CAPACITY = 6 };
    int rank = -1;      // -1: any
    int kind = 0;       // HSIM_IO_*
    std::string path;   // substring
    uint64_t nth = 0;   // n-th matching operation (0-based); CAPACITY: byte budget
    int type = 0;
    int64_t arg = 0;    // errno / bytes
};

struct Knobs {
    int policy = 0;       // scheduling policy
    int victim = 0;       // rank or channel the policy picks on
    double p = 0.5;       // policy parameter
    double rdv = 0;       // probability of rendezvous for standard sends
    double sync = 0;      // probability of a NON-synchronising rooted collective
    double redorder = 0;  // probability of a non-canonical reduction order
    double io = 0;        // probability of benign short transfers / EINTR
    int pct = 0;          // PCT change points
};

struct JobSpec {
    std::string so;                  // rank library
    int n = 1;                       // ranks
    std::vector<std::string> argv;   // of the rank main
    std::string args;                // scenario arguments (HsimHost::args)
    std::string scratch;             // working directory of the ranks
    uint64_t seed = 0;               // schedule seed
    bool replay = false;
    Decisions decisions;             // replay
    Knobs knobs;
    std::vector<IoFault> faults;
    int allocRank = -1; int64_t allocNth = 0;  // failing allocation, see HsimHost
    int mpiRank = -1; uint64_t mpiNth = 0;     // failing MPI call
    bool console = false;                      // record what is written to the terminal
    std::vector<double> skew;        // per-rank clock skew, seconds
    uint64_t stepCap = 4000000;
    int wallSec = 45;
    uint64_t memMB = 6000;

    std::string pack() const {
        Writer w; w.str(so); w.i64(n); w.u64(argv.size()); for (auto &a : argv) w.str(a);
        w.str(args); w.str(scratch); w.u64(seed); w.u64(replay);
        w.u64(decisions.size()); for (auto &d : decisions) { w.u64(d.kind); w.u64(d.idx); w.u64(d.val); }
        w.i64(knobs.policy); w.i64(knobs.victim); w.f64(knobs.p); w.f64(knobs.rdv); w.f64(knobs.sync); w.f64(knobs.redorder); w.f64(knobs.io); w.i64(knobs.pct);
        w.u64(faults.size()); for (auto &f : faults) { w.i64(f.rank); w.i64(f.kind); w.str(f.path); w.u64(f.nth); w.i64(f.type); w.i64(f.arg); }
        w.u64(skew.size()); for (double s : skew) w.f64(s);
        w.u64(stepCap); w.i64(wallSec); w.u64(memMB);
        w.i64(allocRank); w.i64(allocNth); w.i64(mpiRank); w.u64(mpiNth); w.u64(console);
        return w.b;
    }
    static JobSpec unpack(const std::string &s) {
        Reader r(s); JobSpec j; j.so = r.str(); j.n = r.i64(); j.argv.resize(r.u64()); for (auto &a : j.argv) a = r.str();
        j.args = r.str(); j.scratch = r.str(); j.seed = r.u64(); j.replay = r.u64();
        j.decisions.resize(r.u64()); for (auto &d : j.decisions) { d.kind = r.u64(); d.idx = r.u64(); d.val = r.u64(); }
        j.knobs.policy = r.i64(); j.knobs.victim = r.i64(); j.knobs.p = r.f64(); j.knobs.rdv = r.f64(); j.knobs.sync = r.f64(); j.knobs.redorder = r.f64(); j.knobs.io = r.f64(); j.knobs.pct = r.i64();
        j.faults.resize(r.u64()); for (auto &f : j.faults) { f.rank = r.i64(); f.kind = r.i64(); f.path = r.str(); f.nth = r.u64(); f.type = r.i64(); f.arg = r.i64(); }
        j.skew.resize(r.u64()); for (double &x : j.skew) x = r.f64();
        j.stepCap = r.u64(); j.wallSec = r.i64(); j.memMB = r.u64();
        j.allocRank = r.i64(); j.allocNth = r.i64(); j.mpiRank = r.i64(); j.mpiNth = r.u64(); j.console = r.u64();
        return j;
    }
};

enum Outcome { OUT_OK = 0, OUT_DIED, OUT_DEADLOCK, OUT_USAGE, OUT_STEPCAP, OUT_CRASH, OUT_HANG, OUT_UNSUPPORTED };
inline const char *outcomeName(int o) {
    static const char *n[] = {"ok", "died", "deadlock", "mpi-usage-error", "no-progress", "crash", "hang", "unsupported"};
    return n[o];
}
struct Emit { std::string key, data; };
struct LogLine { std::string level, msg; };
struct JobResult {
    int outcome = OUT_CRASH;
    int who = -1;        // rank the outcome is about
    std::string detail;
    int code = 0;
    uint64_t steps = 0, hash = 0;
    double simTime = 0;
    Decisions decisions;                       // non-canonical choices taken
    std::map<std::string, uint64_t> counters;  // faults fired, events
    std::map<std::string, uint64_t> counts;    // measurements
    std::vector<std::vector<Emit>> emits;      // per rank
    std::vector<std::vector<LogLine>> logs;    // per rank
    std::vector<std::array<std::string, 2>> term;  // per rank: standard output, standard error
    std::vector<std::string> last;             // per rank: last MPI call / state
    std::vector<int> rc;                       // per rank exit code (-1: not finished)

    std::string pack() const {
        Writer w; w.i64(outcome); w.i64(who); w.str(detail); w.i64(code); w.u64(steps); w.u64(hash); w.f64(simTime);
        w.u64(decisions.size()); for (auto &d : decisions) { w.u64(d.kind); w.u64(d.idx); w.u64(d.val); }
        w.u64(counters.size()); for (auto &c : counters) { w.str(c.first); w.u64(c.second); }
        w.u64(counts.size()); for (auto &c : counts) { w.str(c.first); w.u64(c.second); }
        w.u64(emits.size()); for (auto &e : emits) { w.u64(e.size()); for (auto &x : e) { w.str(x.key); w.str(x.data); } }
        w.u64(logs.size()); for (auto &e : logs) { w.u64(e.size()); for (auto &x : e) { w.str(x.level); w.str(x.msg); } }
        w.u64(term.size()); for (auto &x : term) { w.str(x[0]); w.str(x[1]); }
        w.u64(last.size()); for (auto &x : last) w.str(x);
        w.u64(rc.size()); for (int x : rc) w.i64(x);
        return w.b;
    }
    static JobResult unpack(const std::string &s) {
        Reader r(s); JobResult j; j.outcome = r.i64(); j.who = r.i64(); j.detail = r.str(); j.code = r.i64(); j.steps = r.u64(); j.hash = r.u64(); j.simTime = r.f64();
        j.decisions.resize(r.u64()); for (auto &d : j.decisions) { d.kind = r.u64(); d.idx = r.u64(); d.val = r.u64(); }
        uint64_t n = r.u64(); for (uint64_t i = 0; i < n; i++) { std::string k = r.str(); j.counters[k] = r.u64(); }
        n = r.u64(); for (uint64_t i = 0; i < n; i++) { std::string k = r.str(); j.counts[k] = r.u64(); }
        j.emits.resize(r.u64()); for (auto &e : j.emits) { e.resize(r.u64()); for (auto &x : e) { x.key = r.str(); x.data = r.str(); } }
        j.logs.resize(r.u64()); for (auto &e : j.logs) { e.resize(r.u64()); for (auto &x : e) { x.level = r.str(); x.msg = r.str(); } }
        j.term.resize(r.u64()); for (auto &x : j.term) { x[0] = r.str(); x[1] = r.str(); }
        j.last.resize(r.u64()); for (auto &x : j.last) x = r.str();
        j.rc.resize(r.u64()); for (int &x : j.rc) x = r.i64();
        return j;
    }
    const std::string *get(int rank, const std::string &key) const {
        for (auto &e : emits[rank]) if (e.key == key) return &e.data;
        return nullptr;
    }
};

struct Rng {  // xoshiro256**
    uint64_t s[4];
    static uint64_t sm(uint64_t &x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    explicit Rng(uint64_t seed = 1) { for (auto &x : s) x = sm(seed); }
    static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
    uint64_t next() { uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r; }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return unit() < p; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
inline uint64_t hashBytes(uint64_t h, const void *p, size_t n) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 0x100000001b3ull; }
    return h;
}
inline uint64_t hashU(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 29); }

}  // namespace hsim

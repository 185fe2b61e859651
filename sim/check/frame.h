// Property-check framework: cases, simulated jobs, violations, shrinking.
#pragma once
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
#include "../core/job.h"
#include "../core/pool.h"
#include "mesh.h"
namespace hsim {

struct Violation { std::string cls, msg; };
struct HarnessError : std::runtime_error { using std::runtime_error::runtime_error; };

// A case is everything one simulated run depends on.
struct Case {
    std::string prop;
    std::map<std::string, std::string> kv;
    bool replay = false;
    std::vector<Decisions> traces;  // per job, when replaying
    int64_t i(const std::string &k, int64_t d = 0) const { auto it = kv.find(k); return it == kv.end() ? d : atoll(it->second.c_str()); }
    double f(const std::string &k, double d = 0) const { auto it = kv.find(k); return it == kv.end() ? d : atof(it->second.c_str()); }
    std::string s(const std::string &k, const std::string &d = "") const { auto it = kv.find(k); return it == kv.end() ? d : it->second; }
    void set(const std::string &k, int64_t v) { kv[k] = std::to_string(v); }
    void setf(const std::string &k, double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); kv[k] = b; }
    void set(const std::string &k, const std::string &v) { kv[k] = v; }
    std::string text() const;
    static Case fromText(const std::string &t);
};
std::vector<std::string> split(const std::string &s, char c);

struct Stats {
    uint64_t runs = 0, jobs = 0, parJobs = 0, steps = 0;
    double simTime = 0;
    std::map<std::string, uint64_t> counters;   // faults fired / events / probes
    std::set<uint64_t> hashes;                  // distinct parallel executions
    std::map<int, uint64_t> ranks;              // process counts used
    std::map<std::string, uint64_t> shapes;
};

class Ctx {
  public:
    Ctx(Pool &p, const Case &c, const std::string &scratch, Stats &st, const std::string &libdir, const std::string &repo)
        : pool(p), c(c), scratch(scratch), st(st), libdir(libdir), repo(repo) {}
    Pool &pool;
    const Case &c;
    std::string scratch;  // fresh directory of this run
    Stats &st;
    std::string libdir, repo;
    std::vector<Decisions> rec;
    uint64_t hash = 0xcbf29ce484222325ull;
    JobResult last;
    void known(const std::string &cls) { st.counters["known:" + cls]++; }
    void probe(const std::string &what, uint64_t n = 1) { st.counters["probe:" + what] += n; }
    int schedules = 0;  // P01: further schedules of every simulated job, compared with the canonical one
    JobResult jobOnce(JobSpec s, bool sim, int variant = 0);
    // run one job; sim: schedule decided by the case's knobs, else canonical
    JobResult job(JobSpec s, bool sim);
    void ok(const JobResult &r, const std::string &what);  // throws unless the job completed
    std::string dir(const std::string &name);              // scratch/name, created
    void put(const std::string &path, const std::string &data);
    static bool slurp(const std::string &path, std::string &out);
};

// knobs shared by all properties
void genKnobs(Case &c, Rng &r, int maxRanks, bool io);
struct MeshChoice { std::vector<int> shapes; int maxElems = 40; bool periodic = true; bool zones = true; int maxRanks = 6; int minRanks = 2; double big = 0, many = 0; };
void genMesh(Case &c, Rng &r, const MeshChoice &m);
MMesh buildMesh(const Case &c);               // undistributed
void distribute(MMesh &m, const Case &c);     // by the case's partition

struct Property {
    std::string id;
    std::function<Case(uint64_t seed, bool thorough)> gen;
    std::function<void(Ctx &)> run;  // throws Violation
    // keys shrunk towards a value, in order
    std::vector<std::pair<std::string, int64_t>> shrinkInts;
    std::vector<std::string> shrinkLists;  // ';' separated
    double weight = 1;
};
std::map<std::string, Property> &registry();
struct Reg { Reg(Property p) { registry()[p.id] = p; } };

// comparison helpers
inline bool close(double a, double b, double rel, double abs) {
    if (a == b) return true;
    if (!(a == a) || !(b == b)) return !(a == a) && !(b == b);
    double m = std::max(a < 0 ? -a : a, b < 0 ? -b : b), d = a > b ? a - b : b - a;
    return d <= abs + rel * m;
}
#define FAIL(CLS, MSG) do { std::ostringstream os_; os_ << MSG; throw Violation{CLS, os_.str()}; } while (0)
}

// P07 time stepping, P08 norms, P09 steady state: parallel runs against the serial run of the same mesh.
#include "util.h"
#include <algorithm>
#include <cmath>
namespace hsim {
struct FieldE { uint64_t owned; std::vector<double> v; };
struct Field { double time; uint64_t vec; std::map<uint64_t, FieldE> e; };
static Field readField(const std::string &s) {
    Reader r(s); Field f; f.time = r.f64(); f.vec = r.u64(); uint64_t n = r.u64();
    for (uint64_t i = 0; i < n && !r.bad; i++) { uint64_t id = r.u64(); FieldE e; e.owned = r.u64(); uint64_t k = r.u64(); if (k > 1000000) { r.bad = true; break; } e.v.resize(k); for (auto &q : e.v) q = r.f64(); f.e[id] = e; }
    if (r.bad) throw HarnessError("field dump");
    return f;
}
// owner's values of all elements; also that every copy equals the owner's
static std::map<uint64_t, std::vector<double>> merge(const JobResult &r, const std::string &key, const std::string &what, double &time, Ctx &x) {
    std::map<uint64_t, std::vector<double>> own; std::vector<Field> F; uint64_t base = UINT64_MAX;
    for (size_t p = 0; p < r.emits.size(); p++) { auto *s = r.get(p, key); if (!s) FAIL("missing", what << ": process " << p << " did not get to '" << key << "'"); F.push_back(readField(*s)); }
    for (size_t p = 0; p < F.size(); p++) { if (memcmp(&F[p].time, &F[0].time, 8)) FAIL("time", what << ": process " << p << " is at time " << F[p].time << ", process 0 at " << F[0].time << " (" << key << ")"); for (auto &e : F[p].e) { base = std::min(base, e.first); if (e.second.owned) own[e.first] = e.second.v; } }
    for (size_t p = 0; p < F.size(); p++) for (auto &e : F[p].e) if (!e.second.owned) { auto it = own.find(e.first); if (it == own.end()) continue; x.probe("ghost-compared"); for (size_t i = 0; i < e.second.v.size() || i < it->second.size(); i++) if (i >= e.second.v.size() || i >= it->second.size() || !close(e.second.v[i], it->second[i], 0, 0)) FAIL("ghost", what << " (" << key << "): coefficient " << i << " of ghost element " << e.first - base << " on process " << p << " differs from its owner's"); }
    time = F[0].time;
    std::map<uint64_t, std::vector<double>> res; for (auto &o : own) res[o.first - base] = o.second;
    return res;
}
static void compare(Ctx &x, const JobResult &ser, const JobResult &par, const std::string &key, double tol, double ttol, const std::string &what) {
    double ts, tp; auto a = merge(ser, key, what + ", serial run", ts, x), b = merge(par, key, what, tp, x);
    if (!close(ts, tp, ttol, ttol)) FAIL("time", what << " (" << key << "): the parallel run is at time " << tp << ", the serial run at " << ts);
    if (a.size() != b.size()) FAIL("elements", what << " (" << key << "): " << b.size() << " elements are owned, the serial run has " << a.size());
    double mx = 0; for (auto &e : a) for (double v : e.second) mx = std::max(mx, std::fabs(v));
    for (auto &e : a) {
        auto &q = b[e.first]; if (q.size() != e.second.size()) FAIL("size", what << " (" << key << "): element " << e.first << " has " << q.size() << " coefficients, in the serial run " << e.second.size());
        for (size_t i = 0; i < q.size(); i++) if (!close(q[i], e.second[i], tol, tol * mx)) FAIL("value", what << " (" << key << "): coefficient " << i << " of element " << e.first << " is " << q[i] << ", in the serial run " << e.second[i]);
    }
    x.probe("field-compared");
}
static void compareNorms(Ctx &x, const JobResult &ser, const JobResult &par, const std::string &key, double tol, const std::string &what) {
    auto *s = ser.get(0, key), *f = par.get(0, key); if (!s || !f) FAIL("missing", what << ": no '" << key << "'");
    for (size_t p = 0; p < par.emits.size(); p++) { auto *q = par.get(p, key); if (!q) FAIL("missing", what << ": process " << p << " reports no '" << key << "'"); if (*q != *f) { Reader A(*f), B(*q); double u = A.f64(), v = B.f64(); FAIL("norm-differs", what << " (" << key << "): process " << p << " and process 0 obtain different values (" << v << ", " << u << ")"); } }
    size_t n = s->size() / 8; if (s->size() != f->size()) FAIL("norm", what << " (" << key << "): other number of values than in the serial run");
    for (size_t i = 0; i < n; i++) { if (key[0] == 'n' && i == 1) continue; double u, v; memcpy(&u, s->data() + 8 * i, 8); memcpy(&v, f->data() + 8 * i, 8); if (!close(u, v, tol, 0)) FAIL("norm", what << " (" << key << "): value " << i << " is " << v << ", in the serial run " << u); }
    x.probe("norms-compared");
}
static JobResult serialRun(Ctx &x, const MMesh &m0, const KV &kv, const std::vector<std::string> &argv) {
    MMesh m = m0; m.distribute(1, std::vector<int>(m.elems.size(), 0)); std::string d = x.dir("serial"); x.put(d + "/in.hpgem", m.write(2));
    JobResult r = x.job(scen(d, 1, kv, argv), false); x.ok(r, "serial run"); noPetscErrors(r, "serial run"); return r;
}
static int stages(int rule) { return std::vector<int>{1, 2, 3, 4, 7, 4, 2}[rule]; }
static std::vector<std::string> apiKeys = {"dim", "nu", "order", "kind", "rule", "both", "src", "bsrc", "nl", "react", "amp", "seed", "t0", "t1", "dt", "frames", "err", "ops", "fixed", "adv", "times"};
KV apiArgs(const Case &c, const MMesh &m) { KV kv = {{"scenario", "api"}, {"mesh", "in.hpgem"}}; for (auto &k : apiKeys) if (c.kv.count(k)) kv[k] = c.s(k); kv["dim"] = S(m.dim); return kv; }
void genApi(Case &c, Rng &r, bool thorough, int minRanks) {
    genKnobs(c, r, 6, false);
    MeshChoice mc; mc.shapes = {0, 1, 2, 3, 4, 5}; mc.maxElems = thorough ? 30 : 16; mc.minRanks = minRanks; mc.maxRanks = thorough ? 8 : 5; genMesh(c, r, mc);
    bool d3 = c.i("m.shape") >= 3;
    c.set("nu", r.chance(0.15) ? r.range(4, 6) : 1 + r.below(d3 ? 2 : 3)); c.set("order", r.below(d3 || c.i("nu") > 3 ? 2 : 4)); c.set("kind", r.below(2)); c.set("both", r.below(2)); c.set("src", r.below(2)); c.set("bsrc", r.below(2)); c.setf("nl", r.chance(0.5) ? 0.8 : 0); c.setf("react", 0); c.setf("amp", 1); c.set("seed", r.below(1000));
    c.set("adv", std::vector<std::string>{"0.3,-0.2,0.45", "-1,0.5,0.25", "0.7,0.1,-0.6", "1,0,0"}[r.below(4)]);
}
static Case genP07(uint64_t seed, bool thorough) {
    Case c; Rng r(seed); genApi(c, r, thorough, 2);
    if (r.chance(0.5)) {  // solve()
        bool ad = r.chance(0.4); int rule = ad ? 4 + r.below(2) : r.below(7);
        c.set("rule", rule); c.setf("t0", r.chance(0.5) ? 0 : 0.3); c.setf("dt", std::vector<double>{0.005, 0.01, 0.017}[r.below(3)]); c.setf("t1", c.f("t0") + 0.01 + 0.01 * r.below(thorough ? 5 : 3)); c.set("frames", r.below(4)); c.set("ad", ad ? 1 + r.below(4) : 0); c.set("addt", r.chance(0.5));
        if (ad && c.i("frames") == 0) c.set("frames", 1);
        c.set("ops", "");
    } else {
        int rule = r.below(7), nv = stages(rule) + 1; c.set("rule", rule); c.setf("dt", 0.02);
        std::string ops; int k = 1 + r.below(thorough ? 10 : 6);
        for (int i = 0; i < k; i++) {
            int a = r.below(nv), b = (a + 1 + r.below(nv - 1)) % nv; std::string o;
            switch (r.below(10)) {
                case 0: o = "i" + S(a); break;
                case 1: o = "I" + S(a); break;
                case 2: o = "r" + S(a) + "," + S(b); break;
                case 3: o = "R" + S(a) + "," + S(b); for (int q = 0; q < nv; q++) if (q != a && q != b && r.chance(0.5)) o += "," + S(q); break;
                case 4: o = "t" + S(a) + "," + S(b); break;
                case 5: o = "T" + S(a) + "," + S(b); for (int q = 0; q < nv; q++) if (q != a && q != b && r.chance(0.5)) o += "," + S(q); break;
                case 6: o = "m" + S(a); break;
                case 7: o = "s" + S(a); break;
                case 8: o = "a" + S(a) + "," + S(b); break;
                default: o = "o";
            }
            ops += (i ? ";" : "") + o;
        }
        c.set("ops", ops);
    }
    return c;
}
static void runP07(Ctx &x) {
    MMesh m = buildMesh(x.c); KV kv = apiArgs(x.c, m); std::vector<std::string> argv = {"hpgem"};
    int ad = x.c.i("ad");
    if (ad) { argv.push_back("--error"); argv.push_back(std::vector<std::string>{"1e-3", "1e-4", "1e-5", "3e-6"}[ad - 1]); if (x.c.i("addt")) { argv.push_back("--dt"); argv.push_back(x.c.s("dt")); } }
    JobResult ser = serialRun(x, m, kv, argv);
    distribute(m, x.c); std::string d = x.dir("w"); x.put(d + "/in.hpgem", m.write(2));
    JobResult par = x.job(scen(d, x.c.i("n"), kv, argv), true); x.ok(par, "time stepping"); noPetscErrors(par, "time stepping");
    double tol = ad ? 2e-6 : 1e-9;
    std::vector<std::string> keys; for (auto &e : ser.emits[0]) if (e.key[0] == 's' || e.key[0] == 'o' || e.key == "final") keys.push_back(e.key);
    for (size_t p = 0; p < par.emits.size(); p++) { std::vector<std::string> k; for (auto &e : par.emits[p]) if (e.key[0] == 's' || e.key[0] == 'o' || e.key == "final") k.push_back(e.key); if (k != keys) FAIL("steps", "process " << p << " takes " << k.size() << " steps, the serial run " << keys.size()); }
    for (auto &k : keys) compare(x, ser, par, k, tol, ad ? 2e-6 : 0, ad ? "adaptive time stepping" : "time stepping");
    x.probe(ad ? "adaptive" : x.c.s("ops").empty() ? "fixed" : "operations"); x.probe("rule-" + x.c.s("rule")); x.probe(x.c.i("kind") ? "linear" : "general");
}
static std::vector<std::pair<std::string, int64_t>> apiShrinks() { auto s = meshShrinks(); for (const char *k : {"nu", "order"}) s.push_back({k, k[0] == 'n' ? 1 : 0}); for (const char *k : {"both", "src", "bsrc", "frames", "rule", "err"}) s.push_back({k, 0}); return s; }
static Reg p07(Property{"P07", genP07, runP07, apiShrinks(), {"ops"}});

static double hval(std::initializer_list<uint64_t> l) { uint64_t h = 31; for (auto x : l) h = hashU(h, x); return ((double)(int64_t)(h >> 12) / 2251799813685248.0) - 1; }
static Case genP08(uint64_t seed, bool thorough) {
    Case c; Rng r(seed); genApi(c, r, thorough, 1);
    int rule = r.chance(0.6) ? 4 + r.below(2) : r.below(7), nv = stages(rule) + 1; c.set("rule", rule); c.setf("dt", 0.02); c.set("fixed", r.below(2)); c.setf("nl", 0); c.set("src", 0); c.set("bsrc", 0);
    c.setf("amp", std::pow(10., (double)r.range(-40, 40))); if (r.chance(0.3)) c.setf("amp", 1);
    std::string ops; int k = 1 + r.below(6);
    for (int i = 0; i < k; i++) { int a = r.below(nv), b = (a + 1) % nv; int q = r.below(6); std::string o = q < 2 ? "n" + S(a) : q == 2 && rule >= 4 && rule <= 5 ? "e" : q == 3 ? "s" + S(a) : q == 4 ? "a" + S(a) + "," + S(b) : q == 5 ? "i" + S(a) : "n" + S(a); ops += (i ? ";" : "") + o; }
    c.set("ops", ops);
    return c;
}
static void runP08(Ctx &x) {
    MMesh m = buildMesh(x.c); KV kv = apiArgs(x.c, m); JobResult ser = serialRun(x, m, kv, {"hpgem"});
    distribute(m, x.c); std::string d = x.dir("w"); x.put(d + "/in.hpgem", m.write(2));
    JobResult par = x.job(scen(d, x.c.i("n"), kv), true); x.ok(par, "computing norms");
    int nu = x.c.i("nu"); double amp = x.c.f("amp"); std::set<int> has; for (int o : m.owner) has.insert(o); if ((int)has.size() < m.npart) x.probe("process-without-elements");
    for (auto &e : ser.emits[0]) {
        if (e.key[0] == 'u') { compareNorms(x, ser, par, e.key, 1e-9, "error and norm of the update"); continue; }
        if (e.key[0] != 'n') continue;
        compareNorms(x, ser, par, e.key, x.c.i("fixed") ? 1e-5 : 1e-9, "norm of the error");
        if (!x.c.i("fixed")) continue;
        // known contributions per element
        std::set<uint64_t> ids; for (size_t p = 0; p < par.emits.size(); p++) { auto *s = par.get(p, "o" + e.key.substr(1)); if (!s) continue; Field f = readField(*s); for (auto &q : f.e) ids.insert(q.first); }
        double sum = 0, ab = 0; std::vector<double> mx(nu, 0.); for (auto id : ids) { double v = amp * hval({(uint64_t)x.c.i("seed"), 5, id}); sum += v; ab += std::fabs(v); for (int v = 0; v < nu; v++) mx[v] = std::max(mx[v], amp * std::fabs(hval({(uint64_t)x.c.i("seed"), 6, id, (uint64_t)v}))); }
        Reader r(*par.get(0, e.key)); double t = r.f64(); uint64_t k = r.u64(); if ((int)k != nu) FAIL("norm", "the maximum error has " << k << " components, there are " << nu << " variables");
        if (std::fabs(t * t - std::fabs(sum)) > 1e-10 * ab) FAIL("norm", "the total error is " << t << ", its square should be " << std::fabs(sum));
        for (int v = 0; v < nu; v++) { double q = r.f64(); if (!close(q, mx[v], 1e-12, 0)) FAIL("norm", "the maximum error of variable " << v << " is " << q << ", it should be " << mx[v]); }
        x.probe("norms-against-model"); if (sum < 0) x.probe("negative-total");
    }
}
static Reg p08(Property{"P08", genP08, runP08, apiShrinks(), {"ops"}});

static Case genP09(uint64_t seed, bool thorough) {
    Case c; Rng r(seed); genApi(c, r, thorough, 2); c.set("kind", 2); c.set("src", 1); c.setf("react", std::vector<double>{1, 3, 10}[r.below(3)]); c.set("err", r.below(2)); c.set("rule", 3); c.set("times", 1 + r.chance(0.2)); c.set("ksp", r.below(4));
    return c;
}
static void runP09(Ctx &x) {
    MMesh m = buildMesh(x.c); KV kv = apiArgs(x.c, m); std::vector<std::string> argv = {"hpgem"};
    switch (x.c.i("ksp")) { case 1: argv.insert(argv.end(), {"--", "-pc_type", "jacobi"}); break; case 2: argv.insert(argv.end(), {"--", "-ksp_type", "bcgs", "-pc_type", "bjacobi"}); break; case 3: argv.insert(argv.end(), {"--", "-ksp_type", "fgmres", "-pc_type", "asm"}); break; }
    JobResult ser = serialRun(x, m, kv, argv);
    distribute(m, x.c); std::string d = x.dir("w"); x.put(d + "/in.hpgem", m.write(2));
    JobResult par = x.job(scen(d, x.c.i("n"), kv, argv), true); x.ok(par, "steady-state solve"); noPetscErrors(par, "steady-state solve");
    auto diverged = [](const JobResult &r) { for (auto &l : r.logs) for (auto &q : l) if (q.msg.find("ended because of DIVERGED") != std::string::npos) return true; return false; };
    bool ds = diverged(ser), dp = diverged(par);
    if (ds || dp) { x.probe(ds ? "solver-diverged-serial" : "solver-diverged-parallel"); return; }
    for (auto &e : ser.emits[0]) { if (e.key.rfind("final", 0) == 0) compare(x, ser, par, e.key, 1e-6, 0, "steady-state solution"); if (e.key.rfind("norms", 0) == 0) compareNorms(x, ser, par, e.key, 1e-5, "error of the steady-state solution"); }
}
static Reg p09(Property{"P09", genP09, runP09, apiShrinks(), {}});
}

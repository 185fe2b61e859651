#include "frame.h"
#include <sys/stat.h>
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <fstream>
#include <sstream>
namespace hsim {
std::map<std::string, Property> &registry() { static std::map<std::string, Property> r; return r; }
std::vector<std::string> split(const std::string &s, char c) {
    std::vector<std::string> v; std::string t; std::istringstream is(s);
    while (std::getline(is, t, c)) if (!t.empty()) v.push_back(t);
    return v;
}
static std::string esc(const std::string &s) { std::string o; for (char c : s) { if (c == '\\') o += "\\\\"; else if (c == '\n') o += "\\n"; else o += c; } return o; }
static std::string unesc(const std::string &s) { std::string o; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\\' && i + 1 < s.size()) { i++; o += s[i] == 'n' ? '\n' : s[i]; } else o += s[i]; } return o; }
static const char *kindName[] = {"sched", "eager", "collsync", "redorder", "anysrc", "pick", "io", "grace"};
std::string Case::text() const {
    std::ostringstream o;
    o << "property " << prop << "\n";
    for (auto &x : kv) o << "set " << x.first << " " << esc(x.second) << "\n";
    if (replay) {
        o << "replay " << traces.size() << "\n";
        for (size_t j = 0; j < traces.size(); j++) for (auto &d : traces[j]) o << "decision " << j << " " << kindName[d.kind] << " " << d.idx << " " << d.val << "\n";
    }
    return o.str();
}
Case Case::fromText(const std::string &t) {
    Case c; std::istringstream is(t); std::string line;
    while (std::getline(is, line)) {
        std::istringstream ls(line); std::string w; ls >> w;
        if (w == "property") ls >> c.prop;
        else if (w == "set") { std::string k; ls >> k; std::string v; std::getline(ls, v); if (!v.empty() && v[0] == ' ') v.erase(0, 1); c.kv[k] = unesc(v); }
        else if (w == "replay") { size_t n; ls >> n; c.traces.resize(n); c.replay = true; }
        else if (w == "decision") {
            size_t j; std::string k; Decision d; ls >> j >> k >> d.idx >> d.val;
            d.kind = 255; for (int q = 0; q < D_NKIND; q++) if (k == kindName[q]) d.kind = q;
            if (d.kind == 255) throw HarnessError("bad replay file");
            if (j >= c.traces.size()) c.traces.resize(j + 1);
            c.traces[j].push_back(d);
        }
    }
    return c;
}

JobResult Ctx::jobOnce(JobSpec s, bool sim, int variant) {
    // the build without assertions
    if (c.i("k.rel") && s.so == "rk_real.so") s.so = "rk_release.so";
    if (c.i("k.rel") && s.so == "app_Preprocessor.so") s.so = "app_PreprocessorRelease.so";
    if (s.so.find("elease") != std::string::npos) st.counters["probe:without-assertions"]++;
    if (s.so.find('/') == std::string::npos) s.so = libdir + "/" + s.so;
    size_t idx = rec.size();
    if (sim) {
        if (!s.seed) s.seed = (uint64_t)c.i("k.seed") * 1000003ull + idx;  // preset: shared between jobs
        s.knobs.policy = c.i("k.policy"); s.knobs.victim = c.i("k.victim"); s.knobs.p = c.f("k.p", 0.5);
        s.knobs.rdv = c.f("k.rdv"); s.knobs.sync = c.f("k.sync"); s.knobs.redorder = c.f("k.red");
        s.knobs.io = c.f("k.io"); s.knobs.pct = c.i("k.pct");
        if (variant) {  // another schedule: everything but the kind of reduction is drawn anew
            Rng r(s.seed * 31 + variant); s.seed += 7919 * variant; s.knobs.policy = r.below(7); s.knobs.victim = r.below(s.n); s.knobs.p = std::vector<double>{0.05, 0.5, 0.97}[r.below(3)]; s.knobs.rdv = variant % 2 ? 1 : 0; s.knobs.sync = variant % 2 ? 0 : 1; s.knobs.pct = r.below(20);
        }
        if (c.i("k.skew") && s.skew.empty()) { Rng r(s.seed + 77); for (int q = 0; q < s.n; q++) s.skew.push_back((r.unit() - 0.5) * 2 * c.i("k.skew")); }
    } else if (!s.seed) s.seed = 12345;
    if (c.replay) { s.replay = true; if (idx < c.traces.size()) s.decisions = c.traces[idx]; }
    else if (!sim) { s.replay = true; s.decisions.clear(); }
    JobResult r = pool.run(s);
    if (r.outcome == OUT_UNSUPPORTED) throw HarnessError("simulated MPI lacks: " + r.detail);
    rec.push_back(r.decisions);
    hash = hashU(hash, r.hash); hash = hashU(hash, r.outcome);
    for (auto &e : r.emits) for (auto &x : e) hash = hashBytes(hashBytes(hash, x.key.data(), x.key.size()), x.data.data(), x.data.size());
    st.jobs++; st.steps += r.steps; st.simTime += r.simTime; st.ranks[s.n]++;
    for (auto &k : r.counters) st.counters[k.first] += k.second;
    if (s.n > 1) { st.parJobs++; st.hashes.insert(r.hash); }
    if (r.outcome != OUT_OK) st.counters[std::string("outcome:") + outcomeName(r.outcome)]++;
    last = r;
    return r;
}
static bool integer(uint64_t w) { return w < (1ull << 48); }
// first difference between two reports; numbers may differ by round-off
static std::string differ(const std::string &a, const std::string &b) {
    if (a == b) return "";
    if (a.size() != b.size()) return "their sizes differ";
    size_t n = a.size() / 8; std::vector<double> A(n), B(n); double mx = 0; if (a.size() % 8) return "their contents differ";
    memcpy(A.data(), a.data(), 8 * n); memcpy(B.data(), b.data(), 8 * n);
    for (double v : A) if (v == v && std::fabs(v) < 1e100) mx = std::max(mx, std::fabs(v));
    for (size_t i = 0; i < n; i++) {
        uint64_t u, v; memcpy(&u, &A[i], 8); memcpy(&v, &B[i], 8); if (u == v) continue;
        if (integer(u) && integer(v)) return "number " + std::to_string(i) + " is " + std::to_string(v) + " instead of " + std::to_string(u);
        if (!close(A[i], B[i], 1e-5, 1e-6 * mx)) return "value " + std::to_string(i) + " is " + std::to_string(B[i]) + " instead of " + std::to_string(A[i]);
    }
    return "";
}
JobResult Ctx::job(JobSpec s, bool sim) {
    if (!schedules || !sim) return jobOnce(s, sim);
    JobResult ref = jobOnce(s, false), res = ref; std::string what;
    for (int v = 0; v <= schedules; v++) {
        res = v == schedules ? jobOnce(s, true) : jobOnce(s, true, v + 1);
        if (res.outcome != ref.outcome) { if (ref.outcome == OUT_OK) ok(res, "this schedule of the run"); FAIL("schedule:outcome", "with one timing of the messages the run ends with " << outcomeName(ref.outcome) << " (" << ref.detail << "), with another with " << outcomeName(res.outcome)); }
        if (res.outcome != OUT_OK) { if (res.outcome != OUT_DIED) ok(res, "run"); continue; }
        for (size_t p = 0; p < ref.emits.size(); p++) {
            if (ref.emits[p].size() != res.emits[p].size()) FAIL("schedule:reports", "process " << p << " reports " << res.emits[p].size() << " results with one timing of the messages and " << ref.emits[p].size() << " with another");
            for (size_t k = 0; k < ref.emits[p].size(); k++) { auto &a = ref.emits[p][k], &b = res.emits[p][k]; std::string d = a.key == b.key ? differ(a.data, b.data) : "it is called " + b.key; if (!d.empty()) FAIL("schedule:result", "result '" << a.key << "' of process " << p << " depends on the timing of the messages: " << d); }
        }
        st.counters["probe:schedules-compared"]++;
    }
    return res;
}
static std::string tailLogs(const JobResult &r) {
    std::string s;
    for (size_t i = 0; i < r.logs.size(); i++) for (auto &l : r.logs[i]) if (l.level == "FATAL" || l.level == "ERROR" || l.level == "PETSC") { s += "\n    rank " + std::to_string(i) + " " + l.level + ": " + l.msg.substr(0, 300); }
    for (size_t i = 0; i < r.last.size(); i++) if (!r.last[i].empty()) s += "\n    rank " + std::to_string(i) + " at " + r.last[i];
    return s;
}
void Ctx::ok(const JobResult &r, const std::string &what) {
    if (r.outcome == OUT_OK) {
        for (size_t i = 0; i < r.rc.size(); i++) if (r.rc[i] != 0) FAIL("exit-code", what << ": rank " << i << " ended with exit code " << r.rc[i] << tailLogs(r));
        return;
    }
    // the first fatal message is part of the class, so that minimising keeps the defect
    std::string sig; for (auto &l : r.logs) for (auto &m : l) if (sig.empty() && (m.level == "FATAL" || m.level == "ERROR")) for (char ch : m.msg.substr(0, 60)) if (isalpha((unsigned char)ch)) sig += ch;
    FAIL(std::string("outcome:") + outcomeName(r.outcome) + (sig.empty() ? "" : ":" + sig), what << ": run ended with " << outcomeName(r.outcome) << " (rank " << r.who << "): " << r.detail << tailLogs(r));
}
std::string Ctx::dir(const std::string &name) { std::string d = scratch + "/" + name; mkdir(d.c_str(), 0755); return d; }
void Ctx::put(const std::string &path, const std::string &data) {
    FILE *f = fopen(path.c_str(), "wb"); if (!f) throw HarnessError("cannot write " + path);
    fwrite(data.data(), 1, data.size(), f); fclose(f);
}
bool Ctx::slurp(const std::string &path, std::string &out) {
    FILE *f = fopen(path.c_str(), "rb"); if (!f) return false;
    char b[65536]; size_t n; out.clear(); while ((n = fread(b, 1, sizeof b, f)) > 0) out.append(b, n);
    fclose(f); return true;
}

void genKnobs(Case &c, Rng &r, int maxRanks, bool io) {
    c.set("k.seed", r.below(1u << 30)); c.set("k.rel", r.chance(0.12));
    c.set("k.policy", r.below(7));
    c.set("k.victim", r.below(maxRanks));
    c.setf("k.p", std::vector<double>{0.05, 0.3, 0.5, 0.8, 0.97}[r.below(5)]);
    c.setf("k.rdv", std::vector<double>{0, 0.2, 0.5, 1, 1}[r.below(5)]);
    c.setf("k.sync", std::vector<double>{0, 0.5, 1}[r.below(3)]);
    c.setf("k.red", std::vector<double>{0, 0, 0.5, 1}[r.below(4)]);
    c.setf("k.io", io ? std::vector<double>{0, 0, 0.05, 0.3}[r.below(4)] : 0);
    c.set("k.pct", r.below(20));
    c.set("k.skew", r.chance(0.3) ? r.range(1, 1000) : 0);
}
void genMesh(Case &c, Rng &r, const MeshChoice &m) {
    int shape = m.shapes[r.below(m.shapes.size())];
    c.set("m.shape", shape);
    int dim = shape == 0 ? 1 : shape <= 2 ? 2 : 3;
    int mult = shape == 2 || shape == 5 ? 2 : shape == 4 ? 6 : 1;
    bool big = m.big > 0 && r.chance(m.big); c.set("m.big", big);
    int budget = std::max(1, m.maxElems * (big ? 8 : 1) / mult);
    int n[3] = {1, 1, 1}, per[3] = {0, 0, 0};
    for (int t = 0;; t++) {
        int tot = 1;
        for (int d = 0; d < dim; d++) {
            per[d] = m.periodic && r.chance(0.3);
            int mx = dim == 1 ? budget : dim == 2 ? std::max(2, (int)(budget / 2)) : big ? 7 : 4;
            n[d] = r.range(per[d] ? 3 : 1, std::max(per[d] ? 3 : 1, mx));
            tot *= n[d];
        }
        if ((tot <= budget && (!big || tot > budget / 2)) || t > 200) { if (tot > budget) { for (int d = 0; d < dim; d++) { per[d] = 0; n[d] = std::min(n[d], 2); } } break; }
    }
    c.set("m.nx", n[0]); c.set("m.ny", n[1]); c.set("m.nz", n[2]);
    c.set("m.perx", per[0]); c.set("m.pery", per[1]); c.set("m.perz", per[2]);
    c.set("m.jitter", r.chance(0.5)); c.set("m.shuffle", r.chance(0.5));
    c.set("m.nzones", m.zones ? 1 + r.below(3) : 1);
    c.set("m.seed", r.below(100000));
    c.set("m.version", r.chance(0.8) || c.i("m.nzones") > 1 ? 2 : 1);
    c.set("n", r.range(m.minRanks, m.maxRanks)); if (m.maxRanks >= 5 && m.maxRanks < 8 && r.chance(0.04)) c.set("n", r.range(m.maxRanks + 1, 8)); if (r.chance(m.many)) c.set("n", r.range(9, 12));
    c.set("m.part", std::vector<int>{0, 1, 1, 2, 3, 4, 5, 5, 5, 6}[r.below(10)]);
    c.set("m.pseed", r.below(100000));
}
MMesh buildMesh(const Case &c) {
    MeshParams p; p.shape = c.i("m.shape"); p.nx = c.i("m.nx", 1); p.ny = c.i("m.ny", 1); p.nz = c.i("m.nz", 1);
    p.perx = c.i("m.perx"); p.pery = c.i("m.pery"); p.perz = c.i("m.perz");
    if (p.nx < 3) p.perx = 0;
    if (p.ny < 3) p.pery = 0;
    if (p.nz < 3) p.perz = 0;
    p.jitter = c.i("m.jitter"); p.shuffle = c.i("m.shuffle"); p.nzones = std::max<int64_t>(1, c.i("m.nzones", 1)); p.seed = c.i("m.seed");
    return generate(p);
}
void distribute(MMesh &m, const Case &c) { int n = c.i("n"); m.distribute(n, partition(m, n, c.i("m.part"), c.i("m.pseed"))); }
}

// P16: errors of one process at any point of a parallel run.
#include "files.h"
#include "prep.h"
#include "util.h"
#include <algorithm>
namespace hsim {
static const std::vector<std::string> deeds = {"fatal", "error", "always", "fail", "logerror", "throw", "throwchar", "throwstring", "range", "warn", "logwarn", "info", "verbose", "debug", "quiet"};
static const std::vector<std::vector<std::string>> badOptions = {{"--nonsense"}, {"-Z"}, {"stray"}, {"--dt"}, {"--dt", "abc"}, {"--nOutputFrames", "many"}, {"-"}, {"--dt", "0.1", "--endTime"}};
enum { USER, ALLOC, MPIERR, OPTIONS, ALLOCPREP };
static Case genP16(uint64_t seed, bool thorough) {
    Case c; Rng r(seed); int g = std::vector<int>{USER, USER, USER, USER, ALLOC, ALLOC, MPIERR, OPTIONS, ALLOCPREP}[r.below(9)];
    if (g == ALLOCPREP) { genKnobs(c, r, 1, true); genPrep(c, r, thorough); c.set("np", 1 + r.below(4)); }
    else { genApi(c, r, thorough, 1); c.set("kind", r.below(2)); c.set("rule", r.below(7)); c.setf("t0", 0); c.setf("dt", 0.01); c.setf("t1", 0.01 * (1 + r.below(2))); c.set("frames", r.below(3)); c.set("err", r.below(2)); }
    c.setf("k.red", 0); c.setf("k.io", 0); c.set("g", g); c.set("do", r.below(deeds.size())); c.set("warncrash", r.chance(0.2)); c.set("rank", r.below(8)); c.set("at", r.below(1000)); c.set("sticky", r.chance(0.4)); c.set("opt", r.below(badOptions.size()));
    return c;
}
static std::string differ(const JobResult &a, const JobResult &b) {
    for (size_t p = 0; p < a.emits.size(); p++) { if (a.emits[p].size() != b.emits[p].size()) return "process " + S(p) + " reports " + S(b.emits[p].size()) + " results instead of " + S(a.emits[p].size()); for (size_t k = 0; k < a.emits[p].size(); k++) if (a.emits[p][k].key != b.emits[p][k].key || a.emits[p][k].data != b.emits[p][k].data) return "result '" + a.emits[p][k].key + "' of process " + S(p) + " has changed"; }
    return "";
}
static bool success(const JobResult &r) { if (r.outcome != OUT_OK) return false; for (int c : r.rc) if (c) return false; return true; }
// the run must have ended with a failure (whatever the way)
static void mustFail(Ctx &x, const JobResult &r, const std::string &what) {
    if (success(r)) FAIL("completed", what << ": the run completes as if nothing had happened");
    if (r.outcome == OUT_DIED) { if (r.code == 0) FAIL("exit-code", what << ": the process ends with success (" << r.detail << ")"); return; }
    if (r.outcome == OUT_CRASH || r.outcome == OUT_OK) return;
    x.ok(r, what);  // hangs
}
static void runP16(Ctx &x) {
    const Case &c = x.c; int g = c.i("g"); uint64_t at = c.i("at"); std::string d = x.dir("w"), ref = x.dir("ref");
    if (g == ALLOCPREP) {
        PrepInput p = prepInput(x); for (auto &q : {ref, d}) x.put(q + "/" + p.name, p.text); JobSpec a = prepJob(ref, p, c), b = prepJob(d, p, c); a.seed = b.seed = 1 + c.i("k.seed"); a.console = b.console = true;
        JobResult r0 = x.job(a, false); x.ok(r0, "undisturbed run"); uint64_t n = r0.counts["alloc-0"]; if (!n) throw HarnessError("no allocations counted");
        b.allocRank = 0; b.allocNth = 1 + (int64_t)(at * n / 1000); if (c.i("sticky")) b.allocNth = -b.allocNth;
        JobResult r = x.job(b, false); if (!r.counters.count("fault-allocation")) throw HarnessError("the allocation did not fail");
        Files A = readFiles(ref, ""), B = readFiles(d, ""); std::string what = "the preprocessor's allocation " + S(b.allocNth);
        if (success(r)) { if (A.count("out.hpgem") && A["out.hpgem"] != B["out.hpgem"]) FAIL("completed", what << " fails, the run completes, but the mesh differs"); x.probe("allocation-harmless"); } else { mustFail(x, r, what + " fails"); x.probe("allocation-fatal"); }
        x.probe("preprocessor"); return;
    }
    MMesh m = buildMesh(c); distribute(m, c); for (auto &q : {ref, d}) x.put(q + "/in.hpgem", m.write(2)); KV kv = apiArgs(c, m); int n = c.i("n"), rank = c.i("rank") % n;
    std::vector<std::string> argv = {"hpgem"}; if (g == USER && c.i("warncrash")) argv.push_back("--crashOnWarn");
    JobSpec a = scen(ref, n, kv, argv), b; a.console = true; a.seed = 1 + c.i("k.seed");
    if (g == OPTIONS) {
        b = scen(d, n, kv, argv); auto &o = badOptions[c.i("opt") % badOptions.size()]; b.argv.insert(b.argv.end(), o.begin(), o.end()); b.console = true; JobResult r = x.job(b, true); std::string all; for (auto &t : r.term) all += t[1];
        std::string w; for (auto &q : o) w += " " + q; mustFail(x, r, "command line" + w); if (all.empty() && r.detail != "signal 6") FAIL("not-reported", "command line" << w << ": nothing is written to the error output"); x.probe("options"); return;
    }
    JobResult r0 = x.job(a, false); x.ok(r0, "undisturbed run");
    auto count = [&](const std::string &k) { auto it = r0.counts.find(k + "-" + S(rank)); return it == r0.counts.end() ? 0 : it->second; };
    if (g == USER) {
        uint64_t k = count("tick"); if (!k) { for (rank = 0; rank < n && !count("tick"); rank++) {} if (rank == n) throw HarnessError("no user functions called"); k = count("tick"); }
        std::string w = deeds[c.i("do") % deeds.size()]; kv["err.rank"] = S(rank); kv["err.at"] = S(at * k / 1000); kv["err.do"] = w; b = scen(d, n, kv, argv); b.console = true; b.seed = a.seed;
        bool warns = w == "warn" || w == "logwarn", thrown = w.rfind("throw", 0) == 0 || w == "range", harmless = (warns && !c.i("warncrash")) || w == "info" || w == "verbose" || w == "debug" || w == "quiet";
        JobResult r = x.job(b, true); std::string what = w + " on process " + S(rank) + " at evaluation " + kv["err.at"], text = "bad% value 42 in cell seven, really", me = "[" + S(rank) + "]";
        if (harmless) {
            x.ok(r, what); std::string df = differ(r0, r); if (!df.empty()) FAIL("changed", what << ": " << df); std::string t = r.term[rank][0] + r.term[rank][1]; bool seen = t.find(text) != std::string::npos;
            if (w == "quiet" && seen) FAIL("visible", what << ": a suppressed warning is written");
            if ((warns || w == "info") && (!seen || t.find(me) == std::string::npos)) FAIL("not-reported", what << ": the message is not written");
        } else {
            mustFail(x, r, what); if (r.outcome == OUT_DIED && r.who != rank) FAIL("other-process", what << ": process " << r.who << " ends (" << r.detail << ")");
            if (!thrown) { auto &t = r.term[rank][1]; if (t.find(text) == std::string::npos || t.find(me) == std::string::npos) FAIL("not-reported", what << ": the message is not written to the error output"); if (r.term[rank][0].find("last words") == std::string::npos) FAIL("output-lost", what << ": output written before the error is lost"); }
        }
        x.probe("user-" + w); if (warns && !harmless) x.probe("crash-on-warn"); return;
    }
    b = scen(d, n, kv, argv); b.console = true; b.seed = a.seed; std::string what;
    if (g == ALLOC) {
        b.allocRank = rank; b.allocNth = 1 + (int64_t)(at * count("alloc") / 1000); what = "allocation " + S(b.allocNth) + " of process " + S(rank) + " fails"; if (c.i("sticky")) { b.allocNth = -b.allocNth; what += ", as do all later ones"; }
        JobResult r = x.job(b, true); if (!r.counters.count("fault-allocation")) { x.ok(r, what); x.probe("not-reached"); return; }
        if (success(r)) { std::string df = differ(r0, r); if (!df.empty()) FAIL("completed", what << ", the run completes, but " << df); x.probe("allocation-harmless"); } else { mustFail(x, r, what); x.probe("allocation-fatal"); }
    } else {
        uint64_t k = count("mpi"); if (!k) { x.probe("no-messages"); return; } b.mpiRank = rank; b.mpiNth = 1 + at * k / 1000; what = "MPI call " + S(b.mpiNth) + " of process " + S(rank) + " fails";
        JobResult r = x.job(b, true); if (!r.counters.count("fault-mpi-error")) { x.ok(r, what); x.probe("not-reached"); return; } mustFail(x, r, what); x.probe("mpi-error");
    }
}
static Reg p16(Property{"P16", genP16, runP16, [] { auto s = meshShrinks(); for (const char *k : {"nu", "np", "mpi"}) s.push_back({k, 1}); for (const char *k : {"rule", "order", "frames", "err", "both", "src", "bsrc"}) s.push_back({k, 0}); return s; }(), {}});
}

// P12: faults while a mesh is read.  P13: disk faults while results or a prepared mesh are written.
#include "files.h"
#include "prep.h"
#include "../abi/sim_abi.h"
#include <cerrno>
namespace hsim {
static std::string reported(const JobResult &r) { for (auto &l : r.logs) for (auto &m : l) if (m.level == "FATAL" || m.level == "ERROR") return m.msg; return ""; }
static std::string firstDifference(const Files &a, const Files &b) {
    for (auto &f : a) { auto it = b.find(f.first); if (it == b.end()) return f.first + " is missing"; if (it->second != f.second) { size_t k = 0; while (k < it->second.size() && k < f.second.size() && it->second[k] == f.second[k]) k++; return f.first + " differs from byte " + S(k) + " on (" + S(it->second.size()) + " of " + S(f.second.size()) + " bytes)"; } }
    for (auto &f : b) if (!a.count(f.first)) return f.first + " is there in addition"; return "";
}
static Case genP13(uint64_t seed, bool thorough) {
    Case c; Rng r(seed); genKnobs(c, r, 6, true); c.setf("k.red", 0);  // sums in a fixed order: files comparable byte by byte
    bool prep = r.chance(0.3); if (prep) { do genPrep(c, r, thorough); while (c.i("src") == 2); c.set("mode", 2); c.set("base", "out"); } else genOut(c, r, thorough, 1);
    c.set("f", std::vector<int>{0, 1, 1, 2, 2, 3, 3, 3, 4, 5}[r.below(10)]); c.set("f.file", r.below(1000)); c.set("f.pos", r.below(1001)); c.set("f.late", r.chance(0.3)); c.set("f.err", std::vector<int>{EIO, ENOSPC, EDQUOT}[r.below(3)]);
    if (c.i("f") > 0) c.setf("k.io", r.chance(0.2) ? 0.1 : 0);
    return c;
}
static void runP13(Ctx &x) {
    const Case &c = x.c; int mode = c.i("mode"), f = c.i("f"); std::string ref = x.dir("ref"), d = x.dir("w"), base = c.s("base"), sub, in = "in.hpgem"; size_t sl = base.find('/'); if (sl != std::string::npos) { sub = base.substr(0, sl); x.dir("ref/" + sub); x.dir("w/" + sub); }
    JobSpec a, b;
    if (mode == 2) { PrepInput p = prepInput(x); in = p.name; for (auto &q : {ref, d}) x.put(q + "/" + in, p.text); a = prepJob(ref, p, c); b = prepJob(d, p, c); }
    else { MMesh m = buildMesh(c); KV kv = outArgs(c, m); distribute(m, c); for (auto &q : {ref, d}) x.put(q + "/" + in, m.write(2)); a = scen(ref, c.i("n"), kv); b = scen(d, c.i("n"), kv); }
    // the undisturbed run; entropy comes from the case in both
    a.seed = b.seed = 1 + c.i("k.seed");
    JobResult r0 = x.job(a, mode == 2); x.ok(r0, "undisturbed run"); Files want = readFiles(ref, sub); want.erase(in);
    std::vector<std::string> names; for (auto &q : want) names.push_back(q.first); if (names.empty()) FAIL("no-output", "nothing is written"); std::string name = names[c.i("f.file") % names.size()]; uint64_t size = want[name].size(), total = 0; for (auto &q : want) total += q.second.size();
    uint64_t at = c.i("f.late") ? size - std::min<uint64_t>(size, c.i("f.pos") % 64) : size * c.i("f.pos") / 1000;
    IoFault q; q.rank = -1; q.path = name; q.arg = c.i("f.err");
    if (f == 1) { q.kind = HSIM_IO_WRITE; q.type = IoFault::ERR; q.nth = 0; q.nth = c.i("f.pos") % 7; }
    if (f == 2) { q.kind = HSIM_IO_WRITE; q.type = IoFault::CAPACITY; q.nth = at; }
    if (f == 3) { q.kind = HSIM_IO_WRITE; q.type = IoFault::CAPACITY; q.path = ""; q.nth = c.i("f.late") ? total - std::min<uint64_t>(total, c.i("f.pos") % 200) : total * c.i("f.pos") / 1000; }
    if (f == 4) { q.kind = HSIM_IO_OPEN; q.type = IoFault::ERR; q.arg = std::vector<int>{ENOSPC, EACCES, EMFILE, EIO}[c.i("f.pos") % 4]; }
    if (f == 5) { q.kind = HSIM_IO_CLOSE; q.type = IoFault::ERR; if (name.size() > 4 && name.substr(name.size() - 4) == ".dat") f = 0; }  // the Tecplot writer does not own the stream it writes to
    if (f) b.faults.push_back(q);
    bool steady = mode == 1 && c.i("kind") == 2;  // PETSc adds contributions in the order of arrival, so only the same schedule gives the same bytes
    JobResult r = x.job(b, !steady); uint64_t hit = 0; for (auto &k : r.counters) if (k.first.rfind("fault-error", 0) == 0 || k.first == "fault-disk-full") hit += k.second;
    std::string what = f == 0 ? "no fault but short and interrupted transfers" : f == 1 ? "write error in " + name : f == 2 ? name + " cannot grow beyond " + S(q.nth) + " bytes" : f == 3 ? "disk full after " + S(q.nth) + " bytes" : f == 4 ? name + " cannot be opened" : name + " cannot be closed";
    bool fine = r.outcome == OUT_OK; for (int rc : r.rc) fine = fine && rc == 0;
    if (!hit) { x.ok(r, "writing (" + what + ")"); std::string df = ""; Files got = readFiles(d, sub); got.erase(in); df = firstDifference(want, got); if (!df.empty()) FAIL("differs", what << ": " << df); x.probe("benign"); }
    else if (fine) { Files got = readFiles(d, sub); got.erase(in); std::string df = firstDifference(want, got); if (!df.empty()) FAIL(mode == 2 ? "silent-loss:mesh" : name.size() > 4 && name.substr(name.size() - 4) == ".dat" ? "silent-loss:tecplot" : "silent-loss", "the run ends successfully although " << what << ": " << df); if (f == 5) FAIL("silent-close", "the run ends successfully although " << what); x.probe("survived"); }
    else if (r.outcome == OUT_DIED) { if (reported(r).empty()) FAIL("not-reported", what << ": the run ends without a message (" << r.detail << ")"); x.probe("reported"); }
    else x.ok(r, "writing (" + what + ")");
    x.probe(mode == 0 ? "writers" : mode == 1 ? "solver" : "preprocessor"); x.probe("fault-" + S(f));
}
static Reg p13(Property{"P13", genP13, runP13, [] { auto s = meshShrinks(); for (const char *k : {"frames", "arrays", "nu", "np", "mpi"}) s.push_back({k, 1}); for (const char *k : {"same", "rule", "order", "f.late"}) s.push_back({k, 0}); return s; }(), {}});

static std::string trimmed(const std::string &s) { size_t e = s.find_last_not_of(" \t\r\n"); return e == std::string::npos ? "" : s.substr(0, e + 1); }
static Case genP12(uint64_t seed, bool thorough) {
    Case c; Rng r(seed); genKnobs(c, r, 8, true); bool prep = r.chance(0.4); c.set("mode", prep);
    if (prep) { do genPrep(c, r, thorough); while (c.i("src") == 2 && !r.chance(0.6)); c.set("np", 1 + r.below(4)); }
    else { MeshChoice mc; mc.shapes = {0, 1, 2, 3, 4, 5}; mc.maxElems = thorough ? 120 : 50; genMesh(c, r, mc); c.set("version", 1 + r.below(2)); if (c.i("version") == 1) c.set("m.nzones", 1); }
    c.set("f", std::vector<int>{0, 1, 1, 2, 2, 3, 3, 3, 3, 4, 5}[r.below(11)]); if (prep && c.i("f") == 5) c.set("f", 3);
    c.set("f.rank", r.below(8)); c.set("f.nth", r.chance(0.5) ? r.below(3) : r.below(40)); c.set("f.pos", r.below(1001)); c.set("f.late", r.chance(0.4)); c.set("f.parts", 1 + r.below(9)); c.set("f.err", std::vector<int>{EIO, ESTALE, ETIMEDOUT}[r.below(3)]);
    c.set("f.exact", (c.i("f") == 1 || c.i("f") == 2) && r.chance(0.75));
    if (c.i("f.exact")) c.setf("k.io", 0);
    else if (c.i("f") != 0 && c.i("f") != 3) c.setf("k.io", r.chance(0.8) ? 0.3 + 0.6 * r.unit() : 0);  // short transfers spread the faults over the whole file
    return c;
}
static void runP12(Ctx &x) {
    const Case &c = x.c; int f = c.i("f"); bool prep = c.i("mode"); std::string d = x.dir("r"), name, text; MMesh m; JobSpec b; Files want;
    if (prep) { PrepInput p = prepInput(x); name = p.name; text = p.text; std::string ref = x.dir("ref"); x.put(ref + "/" + name, text); JobSpec a = prepJob(ref, p, c); b = prepJob(d, p, c); a.seed = b.seed = 1 + c.i("k.seed"); JobResult r0 = x.job(a, false); x.ok(r0, "undisturbed run"); want = readFiles(ref, ""); want.erase(name); if (!want.count("out.hpgem")) FAIL("no-output", "no mesh is written"); }
    else {
        Case w = c; int n = c.i("n"); if (f == 5) { int k = c.i("f.parts"); w.set("n", k == n ? n + 1 : k); }
        m = buildMesh(w); distribute(m, w); name = "in.hpgem"; text = m.write(c.i("version"));
        b = scen(d, n, {{"scenario", "mesh"}, {"dim", S(m.dim)}, {"mesh", name}, {"unknowns", "1"}});
    }
    std::string full = text, what = "short and interrupted reads"; bool same = true;  // the intact contents are there
    IoFault q; q.rank = -1; q.path = name; q.nth = c.i("f.nth"); q.arg = c.i("f.err"); q.kind = HSIM_IO_READ;
    if (f == 1) { q.type = IoFault::ERR; q.rank = c.i("f.rank") % b.n; if (prep) q.rank = 0; what = "read error"; }
    if (f == 2) { q.type = IoFault::EOFILE; q.rank = prep ? 0 : c.i("f.rank") % b.n; what = "the file ends early"; }
    if (f == 3) {
        size_t at = c.i("f.late") ? text.size() - std::min<size_t>(text.size(), c.i("f.pos") % 80) : text.size() * c.i("f.pos") / 1000; text = text.substr(0, at); what = "the file ends after " + S(at) + " of " + S(full.size()) + " bytes";
        bool binary = prep && name == "in.hyb"; same = binary ? text == full : trimmed(text) == trimmed(full);
        if (prep && name == "in.msh") { std::string t = trimmed(text); size_t l = t.find_last_of("\r\n"); std::string last = l == std::string::npos ? t : t.substr(l + 1); if (!same && t.find("$EndElements") != std::string::npos && last.rfind("$End", 0) == 0 && full[t.size()] < ' ') { x.probe("section-boundary"); return; } }  // this is a complete file itself
    }
    if (f == 4) { q.type = IoFault::ERR; q.kind = HSIM_IO_OPEN; q.nth = 0; q.rank = prep ? 0 : c.i("f.rank") % b.n; q.arg = std::vector<int>{ENOENT, EACCES, EMFILE, EIO}[c.i("f.pos") % 4]; what = "the file cannot be opened"; }
    if (f == 5) what = "a mesh of " + S(m.npart) + " parts is read by " + S(b.n) + " processes";
    if (c.i("f.exact") && (f == 1 || f == 2)) {  // at a chosen byte: the read before it is cut short
        const size_t buf = 8191; size_t at = c.i("f.late") ? text.size() - std::min<size_t>(text.size(), c.i("f.pos") % 80) : text.size() * c.i("f.pos") / 1000; q.nth = at / buf;
        if (at % buf) { IoFault h = q; h.type = IoFault::SHORT; h.arg = at % buf; b.faults.push_back(h); q.nth++; }
        what += " after " + S(at) + " of " + S(text.size()) + " bytes on process " + S(q.rank);
    }
    if (q.type) b.faults.push_back(q);
    x.put(d + "/" + name, text); JobResult r = x.job(b, true); bool hit = f == 5 || !same; for (auto &k : r.counters) if (k.first.rfind("fault-error", 0) == 0 || k.first == "fault-early-eof") hit = hit || k.second;
    bool fine = r.outcome == OUT_OK; for (int rc : r.rc) fine = fine && rc == 0;
    std::string cls = prep ? ":" + (c.i("src") == 0 ? std::string("structured") : name.substr(3)) : "";
    auto exact = [&] { if (prep) { Files got = readFiles(d, ""); got.erase(name); std::string df = firstDifference(want, got); if (!df.empty()) FAIL("silent" + cls, "the preprocessor succeeds although " << what << ": " << df); } else { try { checkDistributed(m, r, "mesh", "mesh"); } catch (Violation &v) { FAIL("silent", "the run continues although " << what << ": " << v.msg); } } };
    if (!hit) { x.ok(r, "reading (" + what + ")"); exact(); x.probe("benign"); }
    else if (fine) { if (f == 5) FAIL("wrong-parts", what << " without complaint"); exact(); x.probe("survived"); }
    else if (r.outcome == OUT_DIED) { if (reported(r).empty() && r.detail != "signal 6") FAIL("not-reported" + cls, what << ": the run ends without a message (" << r.detail << ")"); x.probe("stopped"); }
    else if (r.outcome == OUT_CRASH || r.outcome == OUT_HANG) FAIL((r.outcome == OUT_CRASH ? "crash" : "hang") + cls, what << ": " << r.detail);
    else x.ok(r, "reading (" + what + ")");
    x.probe(prep ? "preprocessor" + cls : "kernel"); x.probe("fault-" + S(f));
}
static Reg p12(Property{"P12", genP12, runP12, [] { auto s = meshShrinks(); for (const char *k : {"np", "mpi"}) s.push_back({k, 1}); for (const char *k : {"f.late", "f.rank", "f.nth"}) s.push_back({k, 0}); return s; }(), {}});
}

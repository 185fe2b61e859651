// P18 the supplied applications, unmodified: parallel output against serial.
#include "files.h"
#include <cmath>
#include <sstream>
namespace hsim {
struct App { const char *name, *base; int vtk, tec; std::vector<int> shapes; int maxOrder, minOrder; bool steady, shortOpts; int problem = -1; };
static const std::vector<App> &apps() {
    static const std::vector<App> a = {
        {"TutorialAdvection", "output", 1, 1, {1, 2}, 3, 0, false, false}, {"TutorialPoisson", "output", 2, 1, {1, 2}, 3, 1, true, false},
        {"AcousticWave", "output", 1, 1, {1, 2}, 2, 0, false, true}, {"Euler", "output", 1, 1, {0, 1, 2, 3, 4}, 1, 1, false, true},
        {"SavageHutter", "output1DBidispersed", 1, 1, {0}, 2, 1, false, true}, {"Air", "output", 1, 1, {1, 2}, 1, 1, false, true},
        {"CompressibleNavierStokes", "output", 1, 1, {1, 2}, 1, 1, false, true}, {"MeshMoverDemo", "movedMesh", 2, 0, {1, 2}, 1, 1, true, false},
        // the other problems the granular-flow program is compiled with, through a driver; 5: with the average over the width
        {"SavageAll", "output1D", 1, 1, {0}, 2, 1, false, true, 0}, {"SavageAll", "output1D", 1, 1, {0}, 2, 1, false, true, 1}, {"SavageAll", "output1DWA", 1, 1, {0}, 2, 1, false, true, 2},
        {"SavageAll", "output2D", 1, 1, {1}, 2, 1, false, true, 3}, {"SavageAll", "output2D", 1, 1, {1}, 2, 1, false, true, 4}, {"SavageAll", "output2D", 1, 1, {1}, 1, 1, false, true, 5}};
    return a;
}
static Case genP18(uint64_t seed, bool thorough) {
    Case c; Rng r(seed); genKnobs(c, r, 6, true); c.set("k.rel", 0);
    int k = r.below(apps().size()); const App &a = apps()[k]; c.set("app", k);
    MeshChoice mc; mc.shapes = a.shapes; mc.maxElems = thorough ? 24 : 12; mc.minRanks = 1; mc.maxRanks = thorough ? 8 : 5; genMesh(c, r, mc);
    if (std::string(a.name) == "TutorialPoisson") c.set("m.perx", 0);  // Dirichlet at x = 0 and 1, singular without
    if (std::string(a.name) == "Air" || std::string(a.name) == "CompressibleNavierStokes") c.set("m.jitter", 0);  // both assume elements of one size
    if (std::string(a.name) == "Air") { c.set("m.perx", 1); c.set("m.pery", 1); for (const char *k : {"m.nx", "m.ny"}) c.set(k, r.range(3, thorough ? 5 : 3)); }  // has no boundary conditions
    c.set("order", r.range(a.minOrder, a.maxOrder)); c.set("variant", r.below(2)); c.set("frames", 1 + r.below(2)); c.set("steps", 1 + r.below(3));
    if (a.problem >= 0) {
        c.set("m.perx", 0); c.set("m.pery", 0); if (a.problem <= 2) { c.set("m.nx", r.range(3, 12)); if (r.chance(0.7)) c.set("m.shuffle", 0); c.set("steps", r.pick(std::vector<int>{1, 2, 5, 20})); }
        c.set("stretch", a.problem == 5 || r.chance(0.5)); c.set("dtexp", r.range(2, 4)); if (a.problem == 5) { c.set("m.nx", 20); c.set("m.ny", 1 + r.below(2)); c.set("m.jitter", 0); c.set("frames", 1); }
    }
    if (std::string(a.name) == "SavageHutter") { c.set("m.nx", r.range(3, 12)); c.set("m.perx", 0); c.set("steps", r.pick(thorough ? std::vector<int>{1, 2, 5, 20, 60, 200, 400} : std::vector<int>{1, 2, 5, 20, 60})); c.set("dtexp", r.range(2, 4)); } return c;
}
static std::vector<std::string> appArgs(const Case &c, const App &a, const MMesh &m) {
    std::string nm = a.name, p = c.s("order"); char T[40], D[40]; double dt = nm == "CompressibleNavierStokes" ? 1e-6 : nm == "SavageHutter" || a.problem >= 0 ? std::pow(10., -c.i("dtexp", 3)) : 1e-3; snprintf(D, sizeof D, "%.10g", dt); snprintf(T, sizeof T, "%.10g", dt * c.i("steps"));
    if (nm == "MeshMoverDemo") return {nm};
    if (nm == "TutorialPoisson") return {nm, "-n", "4", "--meshName", "mesh.hpgem", "-p", p};
    if (nm == "TutorialAdvection") return {nm, "-n", "mesh.hpgem", "-p", p, "--startTime", "0", "--endTime", T, "--dt", D, "--nOutputFrames", c.s("frames")};
    std::vector<std::string> v = {nm, "-n", "mesh.hpgem", "-p", p, "-O", c.s("frames"), "-S", "0", "-T", T, "-d", D};
    if (a.problem >= 0) { v.push_back("-q"); v.push_back(S(a.problem)); }
    if (nm == "AcousticWave") { v.push_back("-s"); v.push_back(c.s("variant")); }
    if (nm == "Euler") { v.push_back("-D"); v.push_back(S(m.dim)); }
    return v;
}
struct AppOut { std::vector<VFrame> vtk; std::vector<TFile> tec; std::vector<double> heights, width; };
static AppOut readApp(const App &a, const std::string &dir, int n, int dim, const std::string &what) {
    AppOut o; Files f = readFiles(dir, ""); std::set<std::string> used; std::string b = a.base;
    if (a.vtk == 1) o.vtk = readPvd(f, b + ".pvd", n, dim, used); else o.vtk.push_back(readPvtu(f, b + ".pvtu", n, dim, used));
    if (a.tec) for (int p = 0; p < n; p++) { auto it = f.find(b + "." + S(p) + ".dat"); if (it == f.end()) FAIL("tecplot-missing", what << ": process " << p << " wrote no Tecplot file"); o.tec.push_back(readTecplot(it->first, it->second, dim)); }
    else for (int p = 0; p < n; p++) { auto it = f.find(n > 1 ? b + "." + S(p) + ".dat" : b + ".dat"); if (it == f.end()) FAIL("tecplot-missing", what << ": process " << p << " wrote no Tecplot file"); o.tec.push_back(readTecplot(it->first, it->second, dim, 1)); }  // announces a variable it never writes
    if (std::string(a.name) == "SavageHutter") {
        auto it = f.find("maximumHeights"); if (it == f.end()) FAIL("heights", what << ": the maximum heights are not written");
        for (auto &l : split(it->second, '\n')) { char *e; o.heights.push_back(strtod(l.c_str(), &e)); if (l.empty() || *e) FAIL("heights", what << ": '" << l << "' in the file of maximum heights is no number"); }
    }
    if (a.problem == 5) {
        auto it = f.find("width.dat"); if (it == f.end()) FAIL("width", what << ": the averages over the width are not written");
        std::istringstream is(it->second); std::string t; while (is >> t) { char *e; o.width.push_back(strtod(t.c_str(), &e)); if (*e) FAIL("width", what << ": '" << t << "' in the averages over the width is no number"); }
    }
    return o;
}
static void runP18(Ctx &x) {
    const App &a = apps()[x.c.i("app")]; if (a.problem >= 0 && getenv("HSIM_WITHOUT_DRIVERS")) { x.probe("driver-not-built"); return; }
    MMesh m = buildMesh(x.c); int n = x.c.i("n"), shape = x.c.i("m.shape"), order = x.c.i("order");
    if (x.c.i("stretch")) for (auto &q : m.nodes) for (auto &z : q.x) z[0] *= 11;  // the length of the chute
    MMesh ms = m; ms.distribute(1, std::vector<int>(m.elems.size(), 0)); distribute(m, x.c); std::string ds = x.dir("serial"), d = x.dir("w"); x.put(ds + "/mesh.hpgem", ms.write(2)); x.put(d + "/mesh.hpgem", m.write(2));
    JobSpec s; s.so = std::string("app_") + a.name + ".so"; s.argv = appArgs(x.c, a, m); s.scratch = ds; s.n = 1; JobResult ser = x.job(s, false);
    if ((std::string(a.name) == "SavageHutter" || a.problem >= 0) && ser.outcome != OUT_OK) { x.probe("serial-run-ended"); return; }  // its serial run may end because of a negative height, nothing to compare with
    x.ok(ser, std::string(a.name) + ", serial run");
    s.n = n; s.scratch = d; JobResult par = x.job(s, true); x.ok(par, a.name);
    AppOut A = readApp(a, ds, 1, m.dim, "serial run"), B = readApp(a, d, n, m.dim, a.name);
    if (A.vtk.size() != B.vtk.size()) FAIL("vtk-frames", a.name << " writes " << B.vtk.size() << " time levels in parallel, " << A.vtk.size() << " serially");
    double tol = a.steady ? 1e-6 : 1e-8;
    for (size_t k = 0; k < B.vtk.size(); k++) {
        std::string what = std::string(a.name) + ", time level " + S(k); if (!close(A.vtk[k].time, B.vtk[k].time, 1e-9, 1e-12)) FAIL("vtk-time", what << " is at time " << B.vtk[k].time << ", in the serial run at " << A.vtk[k].time);
        if (a.tec && a.problem != 3 && a.problem != 5) againstMesh(B.vtk[k], m, shape, order, what);  // the mesh is not moved
        againstFrame(A.vtk[k], B.vtk[k], shape, tol, what); x.probe("frame");
    }
    if (A.heights.size() != B.heights.size()) FAIL("heights", a.name << " writes " << B.heights.size() << " maximum heights, serially " << A.heights.size());
    for (size_t k = 0; k < A.heights.size(); k++) if (!close(A.heights[k], B.heights[k], 1e-5, 1e-9)) FAIL("heights", a.name << ": maximum height " << k << " is " << B.heights[k] << ", in the serial run " << A.heights[k]);
    if (!A.heights.empty()) x.probe("maximum-heights");
    if (A.width.size() != B.width.size()) FAIL("width", a.name << " writes " << B.width.size() << " numbers of averages over the width, serially " << A.width.size());
    for (size_t k = 0; k < A.width.size(); k++) if (!close(A.width[k], B.width[k], 1e-6, 1e-9)) FAIL("width", a.name << ": number " << k << " of the averages over the width is " << B.width[k] << ", in the serial run " << A.width[k]);
    if (!A.width.empty()) x.probe("width-average");
    tecCompare(A.tec, B.tec, m.dim, a.steady ? 1e-5 : 1e-6, std::string(a.name) + " (Tecplot)");
    x.probe(a.problem < 0 ? a.name : "granular-" + S(a.problem));
}
static Reg p18(Property{"P18", genP18, runP18, [] { auto s = meshShrinks(); for (const char *k : {"frames", "steps"}) s.push_back({k, 1}); s.push_back({"order", 0}); return s; }(), {}});
}

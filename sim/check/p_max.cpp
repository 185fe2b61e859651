// P17 the DG-Max programs, unmodified: parallel output against serial.
#include "files.h"
#include "util.h"
#include <algorithm>
#include <cmath>
namespace hsim {
static Case genP17(uint64_t seed, bool thorough) {
    Case c; Rng r(seed); genKnobs(c, r, 6, true); c.set("k.rel", 0);
    int kind = r.below(4); c.set("kind", kind); c.set("method", r.below(2));
    MeshChoice mc; mc.shapes = {2, 2, 2, 4}; mc.maxElems = thorough ? 20 : 18; mc.minRanks = 2; mc.maxRanks = thorough ? 8 : 5; mc.zones = true; genMesh(c, r, mc);
    c.set("order", c.i("m.shape") == 4 ? 1 : r.range(1, 2));
    c.set("structure", r.below(3)); c.setf("omega", 0.3 + 3 * r.unit()); c.set("waves", 1 + r.below(3)); c.set("pml", r.chance(0.4) ? 1 + r.below(8) : 0); c.set("kpoints", 1 + r.below(2)); c.setf("kx", 0.1 + 0.8 * r.unit()); c.setf("ky", 0.1 + 0.8 * r.unit()); c.set("steps", 1 + r.below(6)); c.set("stride", 1 + r.below(3)); c.set("rounds", 1 + r.chance(0.3)); c.set("problem", r.below(2)); c.set("co4", r.chance(0.3)); if (kind == 1 && !c.i("method") && r.chance(0.5)) { c.set("method", 2 + r.chance(0.2)); if (c.i("m.shape") == 4 && r.chance(0.6)) { c.set("order", 2); c.set("n", 2); } if (!c.i("m.perx")) { int d3 = c.i("m.shape") == 4; c.set("m.perx", 1); c.set("m.nx", 3); c.set("m.pery", 0); c.set("m.ny", d3 ? 1 : 1 + r.below(3)); c.set("m.perz", 0); c.set("m.nz", 1); } }  // otherwise the projector is singular
    c.set("what", r.below(16)); c.set("bc", r.below(3)); c.set("dgnorm", r.chance(0.4)); if (kind == 1) c.set("fields", c.i("method") < 2 && r.chance(0.5)); if (kind == 3) c.set("div", r.below(3));
    if (kind == 0 && c.i("pml")) c.set("structure", c.i("structure") % 2);  // the material must be the same in all of a PML zone
    if (c.i("pml")) c.set("m.version", 2);
    return c;
}
static std::vector<std::vector<std::string>> csv(const std::string &s) {
    std::vector<std::vector<std::string>> v; std::istringstream is(s); std::string l;
    while (std::getline(is, l)) { std::vector<std::string> w; std::istringstream q(l); std::string t; while (std::getline(q, t, ',')) w.push_back(t); v.push_back(w); }
    return v;
}
static bool number(const std::string &s, double &v) { char *e; v = strtod(s.c_str(), &e); return !s.empty() && !*e; }
static void compareCsv(const std::string &name, const Files &A, const Files &B, double tol, bool squares, const std::string &what) {
    auto a = A.find(name), b = B.find(name); if (a == A.end()) throw HarnessError("the serial run wrote no " + name); if (b == B.end()) FAIL("csv-missing", what << ": there is no " << name);
    auto x = csv(a->second), y = csv(b->second); if (x.size() != y.size()) FAIL("csv-lines", what << ": " << name << " has " << y.size() << " lines, in the serial run " << x.size());
    for (size_t i = 0; i < x.size(); i++) {
        if (x[i].size() != y[i].size()) FAIL("csv-columns", what << ": line " << i << " of " << name << " has " << y[i].size() << " columns, in the serial run " << x[i].size());
        double mx = 1, u, v; for (size_t j = 2; j < x[i].size(); j++) if (number(x[i][j], u)) mx = std::max(mx, std::fabs(u));
        for (size_t j = 0; j < x[i].size(); j++) { if (!number(x[i][j], u) || !number(y[i][j], v)) { if (x[i][j] != y[i][j]) FAIL("csv-text", what << ": " << name << " says '" << y[i][j] << "', in the serial run '" << x[i][j] << "'"); continue; }
            if (squares) { if (std::isnan(u)) u = 0; if (std::isnan(v)) v = 0; }  // square root of a negative eigenvalue
            bool ok = squares ? std::fabs(u * u - v * v) <= tol * mx * mx : close(u, v, tol, tol * mx); if (!ok) FAIL("csv-value", what << ": value " << j << " in line " << i << " of " << name << " (" << (j < x[0].size() ? x[0][j] : "") << ") is " << y[i][j] << ", in the serial run " << x[i][j]); }
    }
}
static std::vector<std::vector<double>> bands(const Files &f, const std::string &what) {
    auto it = f.find("frequencies.csv"); if (it == f.end()) FAIL("csv-missing", what << ": there is no frequencies.csv"); std::vector<std::vector<double>> r; auto v = csv(it->second);
    for (size_t i = 1; i < v.size(); i++) { r.push_back({}); for (size_t j = 6; j < v[i].size(); j++) { double u; if (number(v[i][j], u) && !std::isnan(u)) r.back().push_back(u); } }
    return r;
}
// Some discretisations have pressure modes that neither matrix sees; the pencil then has arbitrary extra eigenvalues.  An eigenvalue counts if two serial solves with different shifts find it.
static void compareBands(Ctx &x, const std::vector<std::vector<double>> &a, const std::vector<std::vector<double>> &a2, const std::vector<std::vector<double>> &b, const std::string &what) {
    if (a.size() != a2.size()) throw HarnessError("serial runs"); if (a.size() != b.size()) FAIL("csv-lines", what << ": frequencies at " << b.size() << " points, in the serial run at " << a.size());
    auto has = [](const std::vector<double> &v, double q, double tol) { for (double w : v) if (std::fabs(q * q - w * w) <= tol * std::max(1., q * q)) return true; return false; };
    for (size_t i = 0; i < a.size(); i++) for (double q : a[i]) if (q < 3 && has(a2[i], q, 1e-8)) { x.probe("frequency"); if (!has(b[i], q, 1e-6)) FAIL("csv-value", what << ": frequency " << q << " of point " << i << " is missing"); }
}
typedef std::map<uint64_t, std::vector<double>> Coefs;
static Coefs fieldOf(Ctx &x, const JobResult &r, const std::string &key, const std::string &what) {
    struct E { size_t p; uint64_t id, owned; std::vector<double> v; }; std::vector<E> all; uint64_t base = UINT64_MAX; Coefs own;
    for (size_t p = 0; p < r.emits.size(); p++) { auto *d = r.get(p, key); if (!d) FAIL("missing", what << ": process " << p << " did not get to '" << key << "'"); Reader q(*d); uint64_t n = q.u64(); for (uint64_t i = 0; i < n && !q.bad; i++) { E e; e.p = p; e.id = q.u64(); e.owned = q.u64(); e.v.resize(2 * std::min<uint64_t>(q.u64(), 100000)); for (double &v : e.v) v = q.f64(); base = std::min(base, e.id); all.push_back(e); } if (q.bad) throw HarnessError("field dump"); }
    for (auto &e : all) if (e.owned) { if (own.count(e.id - base)) FAIL("owned-twice", what << ": element " << e.id - base << " is owned twice"); own[e.id - base] = e.v; }
    for (auto &e : all) if (!e.owned) { auto it = own.find(e.id - base); if (it == own.end()) continue; if (it->second != e.v) FAIL("ghost", what << " (" << key << "): ghost element " << e.id - base << " on process " << e.p << " differs from its owner's"); x.probe("ghost-compared"); }
    return own;
}
// the serial run's and every process' value
static void oneNumber(Ctx &x, const std::string &name, double u, double v, int p, const std::string &what) { if (!close(u, v, 1e-6, 1e-9)) FAIL("error-norm", what << ": the " << name << " is " << v << " on process " << p << ", in the serial run " << u); x.probe("error-norm"); }
static void compareErrors(Ctx &x, const JobResult &a, const JobResult &b, const std::string &key, const std::string &what) {
    auto text = [&](const JobResult &r, int p) { auto *d = r.get(p, key); if (!d) FAIL("missing", what << ": process " << p << " printed no errors"); Reader q(*d); std::istringstream is(q.str()); std::string l, o; while (std::getline(is, l)) if (!l.empty() && (l[0] == 't' || isdigit(l[0]))) o += l + "\n"; return o; };  // without the warnings
    std::string s = text(a, 0);
    for (size_t p = 0; p < b.emits.size(); p++) {
        std::string t = text(b, p), l, m; std::istringstream u(s), v(t); int line = 0;
        for (;; line++) {
            bool f = bool(std::getline(u, l)), g = bool(std::getline(v, m)); if (f != g) FAIL("error-lines", what << ": process " << p << " printed " << (g ? "more" : "fewer") << " lines of errors than the serial run"); if (!f) break;
            std::istringstream w(l), y(m); std::string c, d; int col = 0; for (;; col++) { bool h = bool(w >> c), i = bool(y >> d); if (h != i) FAIL("error-columns", what << ": the errors of process " << p << " are not those of the serial run: " << m); if (!h) break; double e, k; if (number(c, e) && number(d, k)) { if (col) oneNumber(x, "error norm " + S(col) + " of snapshot " + S(line - 1), e, k, p, what); else if (!close(e, k, 1e-9, 1e-12)) FAIL("error-time", what << ": time " << d << " on process " << p << ", in the serial run " << c); } else if (c != d) FAIL("error-text", what << ": process " << p << " printed '" << d << "', the serial run '" << c << "'"); }
        }
    }
}
static std::string num(double v) { char b[40]; snprintf(b, sizeof b, "%.10g", v); return b; }
static VFrame eigenfield(const Files &f, int point, int i, int n, int dim, bool normalise, const std::string &what) {
    std::set<std::string> used; VFrame v = readPvtu(f, "eigenfield-" + S(point) + "-field-" + S(i) + ".pvtu", n, dim, used); double mx = 0;
    for (auto &p : v.pieces) { p.arrays = {{"Emag", 1}}; for (auto &c : p.cells) { if (!c.data.count("Emag")) FAIL("vtk-data", what << ": an eigenfield has no Emag"); auto e = c.data["Emag"]; for (double q : e) mx = std::max(mx, q); c.data = {{"Emag", e}}; } }  // the phase is arbitrary
    if (normalise && mx > 0) for (auto &p : v.pieces) for (auto &c : p.cells) for (double &e : c.data["Emag"]) e /= mx;
    return v;
}
// Only the fields of isolated eigenvalues are determined (up to their phase), and those of DivDGMax (A2: a serial run with another target) only up to a factor.
static void compareFields(Ctx &x, const Files &A, const Files &A2, const Files &B, bool normalise, int n, const MMesh &m, int shape, int order, const std::string &what) {
    auto all = [&](const Files &f) { std::vector<std::vector<double>> r; auto v = csv(f.at("frequencies.csv")); for (size_t i = 1; i < v.size(); i++) { r.push_back({}); for (size_t j = 6; j < v[i].size(); j++) { double u = NAN; number(v[i][j], u); r.back().push_back(4 * M_PI * M_PI * u * u); } } return r; };  // with the places of the unphysical ones
    auto a = all(A), a2 = all(A2), b = all(B); if (b.size() != a.size() || a2.size() != a.size()) FAIL("csv-rows", what << ": the runs have different numbers of points");
    auto alone = [](const std::vector<double> &l, double q) { int at = -1; for (size_t i = 0; i < l.size(); i++) if (std::fabs(l[i] - q) < 1e-6 * std::max(1., q)) { if (at >= 0) return -1; at = i; } else if (!(std::fabs(l[i] - q) >= 0.05 * std::max(1., q))) return -1; return at; };
    for (size_t k = 0; k < a.size(); k++) for (size_t i = 0; i < a[k].size() && i < 40; i++) {
        double q = a[k][i]; if (!(q > 0.05 && q < 300)) continue; int j = alone(b[k], q), j2 = alone(a2[k], q); if (alone(a[k], q) != (int)i || j < 0 || j2 < 0) continue;
        std::string w = what + " (eigenfield " + S(j) + " of point " + S(k) + ")"; VFrame u = eigenfield(A, k, i, 1, m.dim, normalise, w);
        if (&A2 != &A) try { againstFrame(u, eigenfield(A2, k, j2, 1, m.dim, normalise, w), shape, 1e-6, w); } catch (Violation &) { x.probe("eigenfield-undetermined"); continue; }
        VFrame v = eigenfield(B, k, j, n, m.dim, normalise, w); againstMesh(v, m, shape, order, w); againstFrame(u, v, shape, 1e-4, w); x.probe("eigenfields");
    }
}
static void runP17(Ctx &x) {
    if (x.c.i("kind") > 1 && getenv("HSIM_WITHOUT_DRIVERS")) { x.probe("driver-not-built"); return; }
    int kind = x.c.i("kind"), method = x.c.i("method"), n = x.c.i("n"), shape = x.c.i("m.shape"), order = x.c.i("order"); MMesh m = buildMesh(x.c);
    MMesh ms = m; ms.distribute(1, std::vector<int>(m.elems.size(), 0)); distribute(m, x.c); std::string ds = x.dir("serial"), d = x.dir("w"); x.put(ds + "/mesh.hpgem", ms.write(2)); x.put(d + "/mesh.hpgem", m.write(2));
    std::vector<std::string> argv; std::string structure = x.c.i("structure") == 0 ? "0" : x.c.i("structure") == 1 ? "Main,1;zone.*,4.5;air.*,1.3" : "2";
    std::vector<std::string> ser, par;
    if (kind == 3) {
        int count = x.c.i("waves"), div = x.c.i("div"); KV kv = {{"scenario", "dgharm"}, {"mesh", "mesh.hpgem"}, {"dim", S(m.dim)}, {"order", S(order)}, {"structure", structure}, {"div", S(div)}, {"count", S(count)}, {"what", S(x.c.i("what"))}, {"omega", num(x.c.f("omega"))}, {"w", num(1 + x.c.f("kx"))}, {"bc", S(x.c.i("bc"))}};
        std::vector<std::string> sa = {"hpgem", "--", "-ksp_type", "preonly", "-pc_type", div ? "svd" : "lu"}, pa = {"hpgem", "--", "-ksp_type", "preonly", "-pc_type", div ? "svd" : "redundant"};
        JobSpec s = scen(ds, 1, kv, sa); s.so = "rk_dgmax.so"; JobResult a = x.job(s, false); x.ok(a, "harmonic solver, serial run"); noPetscErrors(a, "harmonic solver, serial run");
        s = scen(d, n, kv, pa); s.so = "rk_dgmax.so"; JobResult b = x.job(s, true); x.ok(b, "harmonic solver"); noPetscErrors(b, "harmonic solver");
        for (int i = 0; i < count; i++) {
            std::string what = "harmonic solver, problem " + S(i); Coefs u = fieldOf(x, a, "h-" + S(i), what), v = fieldOf(x, b, "h-" + S(i), what); if (u.size() != v.size()) FAIL("elements", what << ": " << v.size() << " elements are owned, the serial run has " << u.size());
            double mx = 0; for (auto &e : u) for (double w : e.second) mx = std::max(mx, std::fabs(w));
            for (auto &e : u) { auto &w = v[e.first]; if (w.size() != e.second.size()) FAIL("size", what << ": element " << e.first); for (size_t k = 0; k < w.size(); k++) if (!close(w[k], e.second[k], 1e-6, 1e-6 * mx)) FAIL("value", what << ": the field in element " << e.first << " is " << w[k] << ", in the serial run " << e.second[k]); }
            auto one = [&](const JobResult &r, int p) { auto *e = r.get(p, "l2-" + S(i)); if (!e) FAIL("missing", what << ": process " << p << " has no error norm"); Reader q(*e); return q.f64(); };
            for (int p = 0; p < n; p++) oneNumber(x, "L2 error", one(a, 0), one(b, p), p, what);
        }
        x.probe(div ? "harmonic-DivDGMax" : "harmonic-DGMax"); return;
    }
    if (kind == 0) {
        std::string w; for (int i = 0; i < x.c.i("waves"); i++) w += (i ? "," : "") + num(x.c.f("omega") * (1 + 0.37 * i));
        argv = {"DGMaxSource", "-m", "mesh.hpgem", "-p", S(order), "--method", method ? "DivDGMax" : "DGMax", "--wavenumberscm", w, "--scalenm", num(1e7 / (2 * M_PI)), "--structure", structure};
        if (int q = x.c.i("pml")) { argv.push_back("--pmls"); std::string zone = m.zones[q % m.zones.size()], dir, att; for (int k = 0; k < m.dim; k++) { dir += "+0-"[(q + k) % 3]; att += k ? ",0.2" : ",0.1"; } if (dir == std::string(m.dim, '0')) dir[0] = '+'; argv.back() += ""; argv.push_back(zone + "," + dir + att); argv.push_back("--pmltransmission"); }
        if (method) ser = par = {"--", "-ksp_type", "preonly", "-pc_type", "svd"}; else ser = {"--", "-ksp_type", "preonly", "-pc_type", "lu"}, par = {"--", "-ksp_type", "preonly", "-pc_type", "redundant"};
    } else if (kind == 1) {
        std::string pt = num(x.c.f("kx")) + "," + num(x.c.f("ky")) + (m.dim == 3 ? ",0.25" : ""); if (x.c.i("kpoints") > 1) pt = "1@" + pt + ":0.5,0.1" + (m.dim == 3 ? ",0.3" : "");
        argv = {"DGMaxEigen", "-m", "mesh.hpgem", "-p", S(order), "--method", method == 1 ? "DIVDGMAX" : method == 2 ? "DGMAX_PROJECT" : method == 3 ? "DGMAX_PROJECT1" : "DGMAX", "-e", "6", "--points", pt, "--structure", structure};
        if (x.c.i("fields")) argv.push_back("--fields"), argv.push_back(".");
        if (method == 1) { ser = {"--", "-st_type", "sinvert", "-st_ksp_type", "preonly", "-st_pc_type", "svd", "-eps_type", "lapack"}; par = ser; }
        else { ser = par = {"--", "-eps_type", "lapack"}; if (method == 2) ser.push_back("-eps_non_hermitian"), par = ser; }
    } else {
        int steps = x.c.i("steps"), stride = x.c.i("stride"), rounds = x.c.i("rounds");
        KV kv = {{"scenario", "dgtime"}, {"mesh", "mesh.hpgem"}, {"dim", S(m.dim)}, {"order", S(order)}, {"structure", structure}, {"stab", "20"}, {"sigma", num(x.c.f("kx"))}, {"w", num(x.c.f("omega"))}, {"boundary", S(x.c.i("problem"))}, {"dt", num(0.001 + 0.01 * x.c.f("ky"))}, {"steps", S(steps)}, {"stride", S(stride)}, {"rounds", S(rounds)}, {"co4", S(x.c.i("co4"))}, {"dgnorm", S(x.c.i("dgnorm") && m.dim == 3)}};
        JobSpec s = scen(ds, 1, kv); s.so = "rk_dgmax.so"; JobResult a = x.job(s, false); x.ok(a, "time dependent, serial run"); noPetscErrors(a, "time dependent, serial run");
        s = scen(d, n, kv); s.so = "rk_dgmax.so"; JobResult b = x.job(s, true); x.ok(b, "time dependent run"); noPetscErrors(b, "time dependent run");
        int snaps = (steps + stride - 1) / stride + (steps % stride == 0);
        for (int q = 0; q < rounds; q++) for (int i = 0; i < snaps; i++) {
            std::string key = "t" + S(q) + "-" + S(i), what = "time dependent run, snapshot " + S(i); Coefs u = fieldOf(x, a, key, what), v = fieldOf(x, b, key, what); if (u.size() != v.size()) FAIL("elements", what << ": " << v.size() << " elements are owned, the serial run has " << u.size());
            double mx = 0; for (auto &e : u) for (double w : e.second) mx = std::max(mx, std::fabs(w));
            for (auto &e : u) { auto &w = v[e.first]; if (w.size() != e.second.size()) FAIL("size", what << ": element " << e.first << " has " << w.size() / 2 << " coefficients, in the serial run " << e.second.size() / 2); for (size_t k = 0; k < w.size(); k++) if (!close(w[k], e.second[k], 1e-7, 1e-7 * mx)) FAIL("value", what << ": coefficient " << k / 2 << " of element " << e.first << " is " << w[k] << ", in the serial run " << e.second[k]); }
            x.probe("snapshot");
        }
        for (int q = 0; q < rounds; q++) compareErrors(x, a, b, "err" + S(q), "time dependent run");
        x.probe("time-dependent"); return;
    }
    JobSpec s; s.so = kind == 0 ? "app_DGMaxSource.so" : "app_DGMaxEigen.so"; s.argv = argv; s.argv.insert(s.argv.end(), ser.begin(), ser.end()); s.scratch = ds; s.n = 1; JobResult a = x.job(s, false); x.ok(a, argv[0] + ", serial run");
    s.argv = argv; s.argv.insert(s.argv.end(), par.begin(), par.end()); s.n = n; s.scratch = d; JobResult b = x.job(s, true); x.ok(b, argv[0]);
    Files A = readFiles(ds, ""), B = readFiles(d, ""); std::set<std::string> us, used;
    VFrame fa = readPvtu(A, "mesh.pvtu", 1, m.dim, us), fb = readPvtu(B, "mesh.pvtu", n, m.dim, used); againstFrame(fa, fb, shape, 1e-9, argv[0] + " (mesh)");
    if (kind == 0) {
        for (int i = 0; i < x.c.i("waves"); i++) { std::string f = "harmonic-" + S(i) + ".pvtu"; VFrame u = readPvtu(A, f, 1, m.dim, us), v = readPvtu(B, f, n, m.dim, used); againstMesh(v, m, shape, order, argv[0]); againstFrame(u, v, shape, 1e-6, argv[0] + " (" + f + ")", true); x.probe("field"); }
        compareCsv("harmonic.csv", A, B, 1e-6, false, argv[0]); x.probe(method ? "harmonic-DivDGMax" : "harmonic-DGMax"); if (x.c.i("pml")) x.probe("pml");
    } else if (method == 1) {
        std::string d2 = x.dir("serial2"); x.put(d2 + "/mesh.hpgem", ms.write(2)); s.argv = argv; s.argv.insert(s.argv.end(), ser.begin(), ser.end()); s.argv.push_back("-eps_target"); s.argv.push_back("0.7"); s.n = 1; s.scratch = d2; JobResult q = x.job(s, false); x.ok(q, argv[0] + ", serial run");
        compareBands(x, bands(A, argv[0]), bands(readFiles(d2, ""), argv[0]), bands(B, argv[0]), argv[0]); x.probe("eigen-DivDGMax"); if (x.c.i("fields")) compareFields(x, A, readFiles(d2, ""), B, true, n, m, shape, order, argv[0]);
    } else { compareCsv("frequencies.csv", A, B, 1e-6, true, argv[0]); x.probe(method == 2 ? "eigen-project" : method == 3 ? "eigen-project-initial" : "eigen-DGMax"); if (x.c.i("fields")) compareFields(x, A, A, B, false, n, m, shape, order, argv[0]); }
}
static Reg p17(Property{"P17", genP17, runP17, [] { auto s = meshShrinks(); for (const char *k : {"waves", "kpoints", "steps", "stride", "rounds", "order"}) s.push_back({k, 1}); for (const char *k : {"structure", "pml", "what", "bc", "dgnorm", "fields"}) s.push_back({k, 0}); return s; }(), {}});
}

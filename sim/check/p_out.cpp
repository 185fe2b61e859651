// P14 output of a parallel run against the mesh and the serial run.
#include "files.h"
#include <algorithm>
#include <cmath>
namespace hsim {
typedef std::array<double, 3> V3;
static std::string key(const std::vector<V3> &x, size_t n) { std::string s; char b[64]; for (size_t i = 0; i < n && i < x.size(); i++) for (int d = 0; d < 3; d++) { double q = std::round(x[i][d] * 1e7) / 1e7; snprintf(b, sizeof b, "%.7f,", q == 0 ? 0. : q); s += b; } return s; }
static size_t corners(int shape) { return std::vector<size_t>{2, 4, 3, 8, 4, 6}[shape]; }
static int vtkType(int shape, int order) { static const int lin[] = {3, 9, 5, 12, 10, 13}, lag[] = {68, 70, 69, 72, 71, 73}; return order <= 1 ? lin[shape] : lag[shape]; }
struct Cell { VCell c; int piece; };
static std::map<std::string, Cell> collect(const VFrame &f, size_t nv, const std::string &what) {
    std::map<std::string, Cell> m; for (size_t p = 0; p < f.pieces.size(); p++) for (auto &c : f.pieces[p].cells) { std::string k = key(c.x, nv); if (m.count(k)) FAIL("vtk-twice", what << ": the element at " << k << " is in the pieces of process " << m[k].piece << " and of process " << p); m[k] = {c, (int)p}; }
    return m;
}
static std::string sorted(std::vector<V3> v) { for (auto &x : v) for (auto &q : x) { q = std::round(q * 1e7) / 1e7; if (q == 0) q = 0; } std::sort(v.begin(), v.end()); return key(v, v.size()); }
// every element of the mesh exactly once, in the piece of its owner
void againstMesh(const VFrame &f, const MMesh &m, int shape, int order, const std::string &what) {
    size_t nv = corners(shape); std::map<std::string, int> want; for (size_t e = 0; e < m.elems.size(); e++) { std::vector<V3> v; for (size_t i = 0; i < nv; i++) v.push_back(m.coord(e, i)); want[sorted(v)] = e; }
    size_t n = 0; for (size_t p = 0; p < f.pieces.size(); p++) for (auto &c : f.pieces[p].cells) {
        n++; if (c.type != vtkType(shape, order) || c.x.size() < nv) FAIL("vtk-cell", what << ": cell type " << c.type << " with " << c.x.size() << " points does not fit the element shape");
        std::vector<V3> v(c.x.begin(), c.x.begin() + nv); auto it = want.find(sorted(v)); if (it == want.end()) FAIL("vtk-cell", what << ": process " << p << " writes a cell that is no element of the mesh"); if (m.owner[it->second] != (int)p) FAIL("vtk-cell", what << ": element " << it->second << " of process " << m.owner[it->second] << " is written by process " << p); }
    if (n != want.size()) FAIL("vtk-cells", what << ": " << n << " cells are written, the mesh has " << want.size() << " elements");
}
void againstFrame(const VFrame &a, const VFrame &b, int shape, double tol, const std::string &what, bool oneScale) {
    size_t nv = corners(shape); auto A = collect(a, nv, what), B = collect(b, nv, what); if (A.size() != B.size()) FAIL("vtk-cells", what << ": " << B.size() << " cells, the serial run writes " << A.size());
    std::map<std::string, double> mx; for (auto &k : A) for (auto &d : k.second.c.data) for (double v : d.second) mx[d.first] = std::max(mx[d.first], std::fabs(v));
    double all = 0; for (auto &v : mx) all = std::max(all, v.second); for (auto &v : mx) if (oneScale || v.first.find("error") != std::string::npos) v.second = all;  // differences of other quantities
    for (auto &k : A) {
        auto it = B.find(k.first); if (it == B.end()) FAIL("vtk-cell", what << ": the element at " << k.first << " is not written"); auto &c = k.second.c, &e = it->second.c;
        if (c.type != e.type || c.x.size() != e.x.size()) FAIL("vtk-cell", what << ": element written with another shape than by the serial run");
        for (size_t i = 0; i < c.x.size(); i++) for (int d = 0; d < 3; d++) if (!close(c.x[i][d], e.x[i][d], 1e-10, 1e-10)) FAIL("vtk-coordinates", what << ": point " << i << " of an element is at another place than in the serial run");
        for (auto &d : c.data) { auto &q = e.data[d.first]; if (q.size() != d.second.size()) FAIL("vtk-data", what << ": array " << d.first << " is missing"); for (size_t i = 0; i < q.size(); i++) if (!close(q[i], d.second[i], tol, tol * mx[d.first])) FAIL("vtk-data", what << ": value " << i << " of " << d.first << " of the element at " << k.first << " is " << q[i] << ", the serial run writes " << d.second[i]); }
    }
}
static double fun(const V3 &x, double cx, int dim, double t, int comp) { double s = 1 + 10 * t + 0.5 * comp + 20 * cx; for (int d = 0; d < dim; d++) s += (d + 1) * x[d]; return s; }
static void againstFunction(const VFrame &f, int shape, int dim, double t, const std::string &what) {
    size_t nv = corners(shape);
    for (auto &p : f.pieces) for (auto &c : p.cells) {
        double cx = 0; for (size_t i = 0; i < nv; i++) cx += c.x[i][0] / nv;
        for (auto &d : c.data) { int comps = p.arrays.at(d.first);
            for (size_t i = 0; i < c.x.size(); i++) for (int q = 0; q < comps; q++) {
                double w; if (d.first == "scalar") w = fun(c.x[i], cx, dim, t, 0); else if (d.first == "vector") w = q < dim ? fun(c.x[i], cx, dim, t, 1 + q) : 0; else { int r = q / 3, s = q % 3; w = r < dim && s < dim ? fun(c.x[i], cx, dim, t, 10 + 3 * r + s) : r == s; }
                if (!close(d.second[i * comps + q], w, 1e-9, 1e-9)) FAIL("vtk-data", what << ": component " << q << " of " << d.first << " at a point is " << d.second[i * comps + q] << ", it should be " << w);
            } }
    }
}
// text of all cells of all processes
static std::multiset<std::string> tecCells(const std::vector<TFile> &fs, size_t zone, const std::string &what) {
    std::multiset<std::string> m;
    for (size_t p = 0; p < fs.size(); p++) { if (zone >= fs[p].zones.size()) FAIL("tecplot-zones", what << ": process " << p << " wrote only " << fs[p].zones.size() << " zones"); auto &z = fs[p].zones[zone]; for (size_t c = 0; c < z.cells; c++) { std::string s; for (size_t k = 0; k < z.per; k++) { for (auto &w : z.lines[c * z.per + k]) s += w + " "; s += "/ "; } m.insert(s); } }
    return m;
}
void tecCompare(const std::vector<TFile> &a, const std::vector<TFile> &b, int dim, double tol, const std::string &what) {
    for (size_t p = 0; p < b.size(); p++) { if (b[p].vars != a[0].vars) FAIL("tecplot-vars", what << ": process " << p << " writes other variables"); if (b[p].zones.size() != a[0].zones.size()) FAIL("tecplot-zones", what << ": process " << p << " writes " << b[p].zones.size() << " zones, the serial run " << a[0].zones.size()); for (size_t z = 0; z < b[p].zones.size(); z++) if (b[p].zones[z].time != a[0].zones[z].time) FAIL("tecplot-time", what << ": zone " << z << " of process " << p << " is at time " << b[p].zones[z].time); }
    for (size_t z = 0; z < a[0].zones.size(); z++) {
        if (tol == 0) { auto A = tecCells(a, z, what), B = tecCells(b, z, what); if (A != B) { for (auto &s : A) if (A.count(s) != B.count(s)) FAIL("tecplot-cell", what << " (zone " << z << "): " << s << " is written " << B.count(s) << " times, by the serial run " << A.count(s) << " times"); FAIL("tecplot-cell", what << " (zone " << z << "): additional elements"); } }
        else {
            std::map<std::string, std::vector<double>> A, B; double mx = 0;
            for (int r = 0; r < 2; r++) for (size_t p = 0; p < (r ? b : a).size(); p++) { auto &Z = (r ? b : a)[p].zones[z]; for (size_t c = 0; c < Z.cells; c++) { std::string k; std::vector<double> v; for (size_t q = 0; q < Z.per; q++) for (size_t w = 0; w < Z.lines[c * Z.per + q].size(); w++) { auto &s = Z.lines[c * Z.per + q][w]; if ((int)w < dim) k += s + " "; else v.push_back(atof(s.c_str())); } if ((r ? B : A).count(k)) FAIL("tecplot-cell", what << ": an element is written twice"); (r ? B : A)[k] = v; } }
            for (auto &k : A) for (double v : k.second) mx = std::max(mx, std::fabs(v));
            if (A.size() != B.size()) FAIL("tecplot-cell", what << ": " << B.size() << " elements are written, by the serial run " << A.size());
            for (auto &k : A) { auto it = B.find(k.first); if (it == B.end()) FAIL("tecplot-cell", what << ": element " << k.first << " is not written"); for (size_t i = 0; i < k.second.size(); i++) if (i >= it->second.size() || !close(k.second[i], it->second[i], tol, tol * mx)) FAIL("tecplot-data", what << ": value " << i << " of element " << k.first << " differs from the serial run"); }
        }
    }
}
KV outArgs(const Case &c, const MMesh &m) {
    KV kv = {{"mesh", "in.hpgem"}, {"dim", S(m.dim)}};
    if (c.i("mode") == 0) { kv["scenario"] = "out"; for (const char *k : {"frames", "arrays", "order", "vtk", "tec", "same", "base", "gnu", "dtf"}) if (c.kv.count(k)) kv[k] = c.s(k); }
    else { kv["scenario"] = "api"; for (const char *k : {"nu", "order", "kind", "rule", "src", "bsrc", "both", "react", "t1", "dt", "frames"}) kv[k] = c.s(k); kv["t0"] = "0"; kv["dumps"] = "0"; kv["seed"] = "1"; }
    return kv;
}
void genOut(Case &c, Rng &r, bool thorough, int minRanks) {
    MeshChoice mc; mc.shapes = {0, 1, 2, 3, 4, 5}; mc.maxElems = thorough ? 30 : 14; mc.minRanks = minRanks; mc.maxRanks = thorough ? 12 : 6; if (r.chance(0.1)) { mc.minRanks = 9; mc.maxRanks = 12; } genMesh(c, r, mc);
    int shape = c.i("m.shape"); c.set("order", r.below(shape == 5 ? 2 : shape >= 3 ? 3 : 5)); c.set("mode", r.chance(0.35)); 
    if (c.i("mode") == 0) { c.set("frames", 1 + r.below(3)); c.set("arrays", 1 + r.below(7)); c.set("vtk", 1 + r.below(2)); c.set("tec", r.below(2)); c.set("same", r.below(2)); c.set("base", std::vector<std::string>{"out", "sub/out", "sub/a.b"}[r.below(3)]); }
    else { c.set("kind", r.below(3)); c.set("order", r.below(shape >= 3 ? 2 : 3)); c.set("nu", 1 + r.below(2)); c.set("rule", r.below(3)); c.set("src", 1); c.set("bsrc", 1); c.set("both", 0); c.setf("react", c.i("kind") == 2 ? 3 : 0); c.setf("t1", 0.02); c.setf("dt", 0.01); c.set("frames", 1 + r.below(2)); c.set("base", "out"); c.set("vtk", c.i("kind") == 2 ? 2 : 1); c.set("tec", 1); }
}
struct Outputs { std::vector<VFrame> vtk; std::vector<TFile> tec; Files all; };
static Case genP14(uint64_t seed, bool thorough) { Case c; Rng r(seed); genKnobs(c, r, 6, true); genOut(c, r, thorough, 1);
    if (c.i("mode") == 0) { c.set("gnu", r.chance(0.3)); c.setf("dtf", std::vector<double>{0.25, 0.25, 1e-4, 300, 1e-9}[r.below(5)]); if (r.chance(0.08) && c.i("n") <= 3) c.set("frames", 11 + r.below(3)); }
    return c; }
// sections of GNUPlot files: per section the elements as text
static std::vector<std::multiset<std::string>> readGnu(const Files &all, const std::string &stem, int n, size_t nv, const std::string &what) {
    std::vector<std::multiset<std::string>> o;
    for (int p = 0; p < n; p++) {
        auto it = all.find(stem + "." + S(p) + ".gnu"); if (it == all.end()) FAIL("gnuplot-missing", what << ": process " << p << " wrote no GNUPlot file");
        auto l = split(it->second, '\n'); size_t i = 0, sec = 0; if (l.size() < 2 || l[0].rfind("TITLE", 0) != 0 || l[1].rfind("VARIABLES", 0) != 0) FAIL("gnuplot-header", what << ": the GNUPlot file of process " << p << " has no header"); i = 2;
        while (i < l.size()) {
            static const std::string h = "Number of elements = "; if (l[i].rfind(h, 0) != 0) FAIL("gnuplot-header", what << ": line " << i + 1 << " of the GNUPlot file of process " << p << " should start a section"); size_t ne = atol(l[i].c_str() + h.size()); i++;
            if (o.size() <= sec) o.resize(sec + 1);
            size_t to = i; while (to < l.size() && l[to].rfind("Number", 0) != 0) to++;
            // simplices and prisms are written as bricks with repeated corners
            size_t q = ne ? (to - i) / ne : 0; if (q * ne != to - i || (ne && q < nv)) FAIL("gnuplot-cell", what << ": the GNUPlot file of process " << p << " announces " << ne << " elements, there are " << to - i << " points");
            for (size_t e = 0; e < ne; e++) { std::string t; for (size_t k = 0; k < q; k++) t += l[i++] + "/"; o[sec].insert(t); }
            sec++;
        }
    }
    return o;
}
static Outputs readOutputs(const Case &c, const std::string &dir, int n, const MMesh &m, const std::string &what) {
    Outputs o; std::string base = c.s("base"), sub, stem = base; size_t sl = base.find('/'); if (sl != std::string::npos) { sub = base.substr(0, sl); stem = base.substr(sl + 1); }
    o.all = readFiles(dir, sub); std::set<std::string> used;
    if (c.i("vtk") == 1) o.vtk = readPvd(o.all, stem + ".pvd", n, m.dim, used); else if (c.i("vtk") == 2) o.vtk.push_back(readPvtu(o.all, stem + ".pvtu", n, m.dim, used));
    for (auto &f : o.all) { auto ends = [&](const char *e) { return f.first.size() > strlen(e) && f.first.substr(f.first.size() - strlen(e)) == e; }; if ((ends(".vtu") || ends(".pvtu") || ends(".pvd")) && !used.count(f.first)) FAIL("vtk-extra", what << ": " << f.first << " exists but no master file lists it"); }
    if (c.i("tec")) for (int p = 0; p < n; p++) { auto it = o.all.find(stem + "." + S(p) + ".dat"); if (it == o.all.end()) FAIL("tecplot-missing", what << ": process " << p << " wrote no Tecplot file"); o.tec.push_back(readTecplot(it->first, it->second, m.dim)); }
    return o;
}
static void runP14(Ctx &x) {
    MMesh m = buildMesh(x.c); KV kv = outArgs(x.c, m); int n = x.c.i("n"), shape = x.c.i("m.shape"), order = x.c.i("order");
    MMesh ms = m; ms.distribute(1, std::vector<int>(m.elems.size(), 0)); std::string ds = x.dir("serial"), d = x.dir("w"); x.dir("serial/sub"); x.dir("w/sub"); x.put(ds + "/in.hpgem", ms.write(2));
    JobResult ser = x.job(scen(ds, 1, kv), false); x.ok(ser, "serial run");
    distribute(m, x.c); x.put(d + "/in.hpgem", m.write(2)); JobResult par = x.job(scen(d, n, kv), true); x.ok(par, "writing output");
    Outputs a = readOutputs(x.c, ds, 1, ms, "serial run"), b = readOutputs(x.c, d, n, m, "parallel run");
    if (a.vtk.size() != b.vtk.size()) FAIL("vtk-frames", "the parallel run writes " << b.vtk.size() << " time levels, the serial run " << a.vtk.size());
    if (x.c.i("mode") == 0 && x.c.i("vtk") == 1 && (int)b.vtk.size() != x.c.i("frames")) FAIL("vtk-frames", b.vtk.size() << " time levels are listed, " << x.c.i("frames") << " were written");
    double tol = x.c.i("mode") == 0 ? 1e-12 : x.c.i("kind") == 2 ? 1e-6 : 1e-8;
    for (size_t k = 0; k < b.vtk.size(); k++) {
        std::string what = "Paraview output, time level " + S(k); if (a.vtk[k].time != b.vtk[k].time) FAIL("vtk-time", what << " is at time " << b.vtk[k].time << ", in the serial run at " << a.vtk[k].time);
        againstMesh(a.vtk[k], ms, shape, order, what + " (serial run)"); againstMesh(b.vtk[k], m, shape, order, what); againstFrame(a.vtk[k], b.vtk[k], shape, tol, what);
        double dtf = x.c.kv.count("dtf") ? x.c.f("dtf") : 0.25; if (x.c.i("mode") == 0) { if (!close(b.vtk[k].time, dtf * k, 1e-5, 1e-30)) FAIL("vtk-time", what << " is at time " << b.vtk[k].time); againstFunction(b.vtk[k], shape, m.dim, dtf * k, what); for (auto &p : b.vtk[k].pieces) { int want = 0; for (auto &q : p.arrays) want |= q.first == "scalar" ? (q.second == 1 ? 1 : 8) : q.first == "vector" ? (q.second == 3 ? 2 : 8) : q.second == 9 ? 4 : 8; if (want != x.c.i("arrays")) FAIL("vtk-arrays", what << ": a piece does not hold the arrays that were written"); } }
        x.probe("vtk-frame");
    }
    if (x.c.i("tec")) { if (a.tec[0].zones.empty()) FAIL("tecplot-zones", "no zones are written"); tecCompare(a.tec, b.tec, m.dim, x.c.i("mode") == 0 ? 0 : tol < 1e-7 ? 1e-6 : 1e-5, "Tecplot output"); x.probe("tecplot"); if (a.tec[0].zones[0].cells != m.elems.size()) FAIL("tecplot-cell", "Tecplot output of the serial run has " << a.tec[0].zones[0].cells << " elements"); }
    if (x.c.i("gnu")) {
        std::string stem = x.c.s("base"); if (stem.find('/') != std::string::npos) stem = stem.substr(stem.find('/') + 1); auto A = readGnu(a.all, stem, 1, corners(shape), "serial run"), B = readGnu(b.all, stem, n, corners(shape), "parallel run");
        if ((int)A.size() != x.c.i("frames") || A.size() != B.size()) FAIL("gnuplot-sections", B.size() << " sections are written, by the serial run " << A.size());
        for (size_t k = 0; k < A.size(); k++) { if (A[k].size() != m.elems.size()) FAIL("gnuplot-cell", "the serial run writes " << A[k].size() << " elements in GNUPlot format"); if (A[k] != B[k]) FAIL("gnuplot-cell", "section " << k << " of the GNUPlot output does not hold the elements of the serial run"); }
        x.probe("gnuplot");
    }
    std::set<int> has(m.owner.begin(), m.owner.end()); if ((int)has.size() < n) x.probe("process-without-elements"); if (n > 9) x.probe("more-than-nine-processes"); x.probe("shape-" + S(shape)); x.probe("order-" + S(order)); x.probe(x.c.i("mode") ? "solver" : "writers");
}
static Reg p14(Property{"P14", genP14, runP14, [] { auto s = meshShrinks(); for (const char *k : {"frames", "arrays", "nu"}) s.push_back({k, 1}); for (const char *k : {"tec", "gnu", "same", "rule", "order"}) s.push_back({k, 0}); return s; }(), {}});
}

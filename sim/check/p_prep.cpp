// P15: the preprocessor's mesh file against its input.
#include "prep.h"
#include <algorithm>
#include <cmath>
namespace hsim {
typedef std::array<double, 3> V3;
static const char *samples[] = {"newCube.hyb", "square_Test.hyb", "Bragg_Test.hyb", "circle-domain-quadratic-N1.msh", "circle-domain-quadratic-N2.msh", "sphere-quadratic-N1.msh"};
void genPrep(Case &c, Rng &r, bool thorough) {
    int src = std::vector<int>{0, 0, 0, 1, 1, 1, 1, 1, 2}[r.below(9)]; c.set("src", src);
    if (src == 0) {  // hpGEM's description of a structured mesh
        int dim = 1 + r.below(3); bool tri = dim > 1 && r.chance(0.5); c.set("m.shape", dim == 1 ? 0 : dim == 2 ? (tri ? 2 : 1) : (tri ? 4 : 3));
        const char *ax[] = {"m.nx", "m.ny", "m.nz"}, *pr[] = {"m.perx", "m.pery", "m.perz"}; int mx = dim == 1 ? 30 : dim == 2 ? (thorough ? 9 : 6) : 4;
        for (int d = 0; d < 3; d++) { int per = d < dim && r.chance(0.35), n = d < dim ? 1 + r.below(mx) : 1; if (per && n < 3) n = 3; if (per && tri && dim == 3 && n % 2) n = 4; c.set(ax[d], n); c.set(pr[d], per); }
        c.set("box", r.below(3));
    } else if (src == 1) {
        MeshChoice mc; mc.shapes = {1, 2, 3, 4, 5}; mc.maxElems = thorough ? 80 : 40; genMesh(c, r, mc); c.set("pmode", 1 + r.below(2)); c.set("bnd", r.below(2)); c.set("names", r.below(4) > 0); c.set("crlf", r.chance(0.15)); if (c.i("names") == 0) c.set("m.nzones", 1);
    } else c.set("sample", std::vector<int>{0, 1, 1, 2, 2, 3, 3, 4, 5, 5}[r.below(10)]);
    c.set("np", r.chance(0.15) ? 1 : r.chance(0.3) ? 2 + r.below(thorough ? 40 : 20) : 2 + r.below(6)); c.set("mpi", r.chance(0.15) ? 2 + r.below(2) : 1);
}
// corner orders of the gmsh file format
static std::vector<int> gmshOrder(int shape) { static const std::vector<std::vector<int>> o = {{0, 1}, {0, 1, 3, 2}, {0, 1, 2}, {0, 1, 3, 2, 4, 5, 7, 6}, {0, 1, 2, 3}, {0, 1, 2, 3, 4, 5}}; return o[shape]; }
static std::string box(const Case &c, int d, bool hi) { static const char *v[3][6] = {{"0", "1", "0", "1", "0", "1"}, {"-1", "1", "0", "2.5", "-3", "-1"}, {"0.25", "0.375", "-0.5", "7", "1", "1.5"}}; return v[c.i("box")][2 * d + hi]; }
static double period(const Case &c, int d) { static const char *k[] = {"m.perx", "m.pery", "m.perz"}; if (!c.i(k[d])) return 0; if (c.i("src") == 0) return atof(box(c, d, true).c_str()) - atof(box(c, d, false).c_str()); return 1; }
PrepInput prepInput(Ctx &x) {
    const Case &c = x.c; PrepInput in; std::ostringstream o; o.precision(17);
    if (c.i("src") == 0) {
        int shape = c.i("m.shape"), dim = shape == 0 ? 1 : shape <= 2 ? 2 : 3; const char *ax[] = {"m.nx", "m.ny", "m.nz"}, *pr[] = {"m.perx", "m.pery", "m.perz"};
        o << "structured 1\n" << dim; for (int d = 0; d < dim; d++) o << " " << c.i(ax[d]); o << "\n"; for (int h = 0; h < 2; h++) { for (int d = 0; d < dim; d++) o << box(c, d, h) << " "; o << "\n"; }
        o << (shape == 2 || shape == 4 ? "triangular" : "rectangular") << "\n"; for (int d = 0; d < dim; d++) o << (c.i(pr[d]) ? "true " : "false "); o << "\n";
        in.name = "in.hpgem"; in.text = o.str();
    } else if (c.i("src") == 1) {
        MMesh m = buildMesh(c); int shape = c.i("m.shape"); std::vector<std::pair<int, int>> pts; std::map<std::pair<int, int>, int> num;
        for (size_t n = 0; n < m.nodes.size(); n++) for (size_t k = 0; k < m.nodes[n].x.size(); k++) { num[{(int)n, (int)k}] = pts.size() + 1; pts.push_back({(int)n, (int)k}); }
        o << "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n";
        if (c.i("names")) { o << "$PhysicalNames\n" << m.zones.size() + (c.i("bnd") ? 1 : 0) << "\n"; if (c.i("bnd")) o << m.dim - 1 << " 2 \"wall\"\n"; for (size_t z = 0; z < m.zones.size(); z++) o << m.dim << " " << z + 2 << " \"" << m.zones[z] << "\"\n"; o << "$EndPhysicalNames\n"; }
        o << "$Nodes\n" << pts.size() << "\n"; for (size_t i = 0; i < pts.size(); i++) { auto &v = m.nodes[pts[i].first].x[pts[i].second]; o << i + 1 << " " << v[0] << " " << v[1] << " " << v[2] << "\n"; } o << "$EndNodes\n";
        std::vector<std::string> el; static const int gt[] = {1, 3, 2, 5, 4, 6};
        if (c.i("bnd")) for (auto &f : m.faces) if (f.e.size() == 1) { auto &t = faceTable(shape)[f.e[0].second]; std::vector<int> q(t); if (q.size() == 4) std::swap(q[2], q[3]); std::string s = q.size() == 2 ? " 1 2 2 1" : q.size() == 3 ? " 2 2 2 1" : " 3 2 2 1"; for (int l : q) s += " " + S(num[m.elems[f.e[0].first].n[l]]); el.push_back(s); }
        for (auto &e : m.elems) { std::string s = " " + S(gt[shape]) + (c.i("names") ? " 2 " + S(e.zone + 2) + " 7" : " 0"); for (int l : gmshOrder(shape)) s += " " + S(num[e.n[l]]); el.push_back(s); }
        o << "$Elements\n" << el.size() << "\n"; for (size_t i = 0; i < el.size(); i++) o << i + 1 << el[i] << "\n"; o << "$EndElements\n";
        if (c.i("pmode") == 1) { std::string t; for (int d = 0; d < m.dim; d++) if (period(c, d) != 0) { t += t.empty() ? "" : ";"; for (int q = 0; q < m.dim; q++) t += std::string(q ? "," : "") + (q == d ? "1.0" : "0"); } if (!t.empty()) in.opts = {"--translations", t}; }
        else {
            std::vector<std::string> secs; for (int d = 0; d < m.dim; d++) if (period(c, d) != 0) { std::string s; int n = 0; for (auto &nd : m.nodes) for (size_t a = 0; a < nd.x.size(); a++) for (size_t b = 0; b < nd.x.size(); b++) { bool ok = true; for (int q = 0; q < m.dim; q++) ok = ok && std::fabs(nd.x[a][q] - nd.x[b][q] - (q == d ? 1 : 0)) < 1e-12; if (ok) { int id = &nd - &m.nodes[0]; s += S(num[{id, (int)a}]) + " " + S(num[{id, (int)b}]) + "\n"; n++; } } secs.push_back(S(m.dim - 1) + " 1 2\n" + S(n) + "\n" + s); }
            if (!secs.empty()) { o << "$Periodic\n" << secs.size() << "\n"; for (auto &s : secs) o << s; o << "$EndPeriodic\n"; }
        }
        in.name = "in.msh"; in.text = o.str(); if (c.i("crlf")) { std::string t; for (char ch : in.text) { if (ch == '\n') t += '\r'; t += ch; } in.text = t; }
    } else { in.name = std::string("in") + (strrchr(samples[c.i("sample")], '.')); if (!Ctx::slurp(x.repo + "/tests/files/sources/" + samples[c.i("sample")], in.text)) throw HarnessError("no sample mesh"); }
    return in;
}
JobSpec prepJob(const std::string &dir, const PrepInput &in, const Case &c) {
    JobSpec s; s.so = "app_Preprocessor.so"; s.n = c.i("mpi", 1); s.scratch = dir; s.argv = {"Preprocessor", "--inFile", in.name, "--outFile", "out.hpgem", "-n", S(c.i("np"))}; for (auto &o : in.opts) s.argv.push_back(o); return s;
}
// elements, coordinates, connections and zones derived from positions alone
struct Geo { std::vector<std::vector<std::string>> node; std::vector<std::set<std::string>> elem; };
static double fold(double v, double per, double lo) { if (per == 0) return v; double t = (v - lo) / per; t -= std::floor(t + 1e-9); return lo + t * per; }
static int shapeOf(int dim, size_t n) { if (dim == 1) return n == 2 ? 0 : -1; if (dim == 2) return n == 4 ? 1 : n == 3 ? 2 : -1; return n == 8 ? 3 : n == 4 ? 4 : n == 6 ? 5 : -1; }
static std::string pos(const V3 &v, const double *per, const double *lo, int dim) { std::string s; char b[40]; for (int d = 0; d < dim; d++) { double q = std::round(fold(v[d], per[d], lo[d]) * 1e8) / 1e8; snprintf(b, sizeof b, "%.8f,", q == 0 ? 0. : q); s += b; } return s; }
static V3 mean(const MMesh &m, int e, const std::vector<int> &l) { V3 c = {0, 0, 0}; for (int k : l) { auto v = m.coord(e, k); for (int d = 0; d < 3; d++) c[d] += v[d] / l.size(); } return c; }
// the identifications in the file are exactly those of equal positions (modulo the periods)
static void checkTopology(const MMesh &m, const double *per, const double *lo, const std::string &what) {
    auto group = [&](const char *name, const std::map<std::pair<int, int>, int> &id, size_t count, const std::function<const std::vector<std::vector<int>> &(int)> &tab) {
        std::map<std::string, int> byPos; std::map<int, std::string> back; size_t slots = 0;
        for (size_t e = 0; e < m.elems.size(); e++) { auto &t = tab(shapeOf(m.dim, m.elems[e].n.size())); for (size_t l = 0; l < t.size(); l++) {
            slots++; auto it = id.find({(int)e, (int)l}); if (it == id.end()) FAIL("prep-topology", what << ": " << name << " " << l << " of element " << e << " is in no " << name << " of the file");
            std::string p = pos(mean(m, e, t[l]), per, lo, m.dim); auto a = byPos.emplace(p, it->second).first; if (a->second != it->second) FAIL("prep-topology", what << ": two " << name << "s (" << a->second << " and " << it->second << ") are at the same place " << p); auto b = back.emplace(it->second, p).first; if (b->second != p) FAIL("prep-topology", what << ": " << name << " " << it->second << " joins the places " << p << " and " << b->second); } }
        if (id.size() != slots) FAIL("prep-topology", what << ": the file lists " << id.size() << " element sides as " << name << ", the elements have " << slots);
        if (back.size() != count) FAIL("prep-topology", what << ": the file holds " << count << " " << name << "s, the elements have " << back.size());
    };
    std::map<std::pair<int, int>, int> nid, fid, eid; static std::map<size_t, std::vector<std::vector<int>>> single;
    for (size_t e = 0; e < m.elems.size(); e++) { size_t n = m.elems[e].n.size(); if (shapeOf(m.dim, n) < 0) FAIL("prep-topology", what << ": element " << e << " has " << n << " nodes"); auto &v = single[n]; v.clear(); for (size_t i = 0; i < n; i++) v.push_back({(int)i}); for (size_t i = 0; i < n; i++) nid[{(int)e, (int)i}] = m.elems[e].n[i].first; }
    auto ent = [&](const char *name, const std::vector<MEnt> &v, std::map<std::pair<int, int>, int> &id) { for (size_t i = 0; i < v.size(); i++) for (auto &q : v[i].e) if (!id.emplace(q, (int)i).second) FAIL("prep-topology", what << ": " << name << " " << q.second << " of element " << q.first << " is listed twice"); };
    ent("face", m.faces, fid); ent("edge", m.edges, eid);
    group("node", nid, m.nodes.size(), [&](int s) -> const std::vector<std::vector<int>> & { return single[std::vector<size_t>{2, 4, 3, 8, 4, 6}[s]]; });
    if (m.dim >= 2) group("face", fid, m.faces.size(), [&](int s) -> const std::vector<std::vector<int>> & { return faceTable(s); });
    if (m.dim >= 3) group("edge", eid, m.edges.size(), [&](int s) -> const std::vector<std::vector<int>> & { return edgeTable(s); });
    for (auto &f : m.faces) if (f.e.size() > 2) FAIL("prep-topology", what << ": a face has " << f.e.size() << " elements");
}
static std::string shapeKey(const MMesh &m, int e) {  // corner positions and which corners form a face
    double z[3] = {0, 0, 0}; std::set<std::string> fs; for (auto &t : faceTable(shapeOf(m.dim, m.elems[e].n.size()))) { std::set<std::string> p; for (int l : t) p.insert(pos(m.coord(e, l), z, z, m.dim)); std::string s; for (auto &q : p) s += q + "|"; fs.insert(s); } std::string s; for (auto &q : fs) s += q + "/"; return s;
}
static double volume(const MMesh &m, int e) {  // simplices only
    int d = m.dim; double a[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; for (int i = 0; i < d; i++) for (int k = 0; k < d; k++) a[i][k] = m.coord(e, i + 1)[k] - m.coord(e, 0)[k];
    return std::fabs(a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])) / (d == 2 ? 2 : 6);
}
static void againstInput(Ctx &x, const MMesh &m) {
    const Case &c = x.c; int shape = c.i("m.shape"); double per[3], lo[3] = {0, 0, 0}; for (int d = 0; d < 3; d++) per[d] = period(c, d);
    if (c.i("src") == 1) {
        MMesh want = buildMesh(c); if (m.dim != want.dim) FAIL("prep-dimension", "the mesh has dimension " << m.dim << ", the input " << want.dim);
        if (m.elems.size() != want.elems.size()) FAIL("prep-elements", m.elems.size() << " elements are written, the input has " << want.elems.size());
        std::map<std::string, int> in; for (size_t e = 0; e < want.elems.size(); e++) in[shapeKey(want, e)] = e; std::set<int> seen;
        for (size_t e = 0; e < m.elems.size(); e++) { if (shapeOf(m.dim, m.elems[e].n.size()) != shape) FAIL("prep-elements", "element " << e << " has another shape than in the input"); auto it = in.find(shapeKey(m, e)); if (it == in.end()) FAIL("prep-elements", "element " << e << " is not in the input"); if (!seen.insert(it->second).second) FAIL("prep-elements", "an element is written twice");
            std::string z = m.zones[m.elems[e].zone], w = c.i("names") ? want.zones[want.elems[it->second].zone] : "Main"; if (z != w) FAIL("prep-zone", "element " << e << " is in zone '" << z << "', in the input in '" << w << "'"); }
    } else if (c.i("src") == 0) {
        int dim = m.dim, n[3] = {1, 1, 1}; const char *ax[] = {"m.nx", "m.ny", "m.nz"}; double h[3] = {1, 1, 1}, vol = 1; size_t cells = 1; for (int d = 0; d < dim; d++) { n[d] = c.i(ax[d]); lo[d] = atof(box(c, d, false).c_str()); h[d] = (atof(box(c, d, true).c_str()) - lo[d]) / n[d]; cells *= n[d]; vol *= h[d]; }
        size_t each = shape == 2 ? 2 : shape == 4 ? 5 : 1; if (m.dim != (shape == 0 ? 1 : shape <= 2 ? 2 : 3)) FAIL("prep-dimension", "the mesh has dimension " << m.dim); if (m.elems.size() != cells * each) FAIL("prep-elements", m.elems.size() << " elements are written, the input describes " << cells * each);
        std::map<std::array<int, 3>, std::vector<int>> in;
        for (size_t e = 0; e < m.elems.size(); e++) {
            if (shapeOf(dim, m.elems[e].n.size()) != shape) FAIL("prep-elements", "element " << e << " has another shape than described"); std::array<int, 3> cell = {0, 0, 0}; std::set<std::array<int, 3>> pts;
            for (int d = 0; d < dim; d++) { double mn = 1e300; for (size_t l = 0; l < m.elems[e].n.size(); l++) mn = std::min(mn, m.coord(e, l)[d]); cell[d] = (int)std::lround((mn - lo[d]) / h[d]); if (cell[d] < 0 || cell[d] >= n[d]) FAIL("prep-elements", "element " << e << " lies outside the domain"); }
            for (size_t l = 0; l < m.elems[e].n.size(); l++) { std::array<int, 3> p = {0, 0, 0}; for (int d = 0; d < dim; d++) { double v = (m.coord(e, l)[d] - lo[d]) / h[d]; p[d] = (int)std::lround(v); if (std::fabs(v - p[d]) > 1e-6 || p[d] < cell[d] || p[d] > cell[d] + 1) FAIL("prep-elements", "element " << e << " has a corner off its cell"); } pts.insert(p); }
            if (pts.size() != m.elems[e].n.size()) FAIL("prep-elements", "element " << e << " is degenerate"); in[cell].push_back(e); if (m.zones[m.elems[e].zone] != "Main") FAIL("prep-zone", "element " << e << " is in zone " << m.zones[m.elems[e].zone]);
        }
        for (auto &k : in) { if (k.second.size() != each) FAIL("prep-elements", "a cell of the grid has " << k.second.size() << " elements"); if (each > 1) { double v = 0; for (int e : k.second) { double w = volume(m, e); if (!(w > 1e-9 * vol)) FAIL("prep-elements", "element " << e << " has no volume"); v += w; } if (!close(v, vol, 1e-9, 0)) FAIL("prep-elements", "the elements of a cell overlap or leave gaps"); } }
        for (auto &f : m.faces) if (f.e.size() == 1) { V3 q = mean(m, f.e[0].first, faceTable(shape)[f.e[0].second]); bool onb = false; for (int d = 0; d < dim; d++) if (per[d] == 0) onb = onb || std::fabs(q[d] - lo[d]) < 1e-7 || std::fabs(q[d] - lo[d] - n[d] * h[d]) < 1e-7; if (!onb) FAIL("prep-topology", "a face inside the domain has one element only"); }
    }
    if (c.i("src") != 2) checkTopology(m, per, lo, "mesh file");
}
static void runP15(Ctx &x) {
    const Case &c = x.c; PrepInput in = prepInput(x); int np = c.i("np"); std::string d = x.dir("w"); x.put(d + "/" + in.name, in.text);
    JobResult r = x.job(prepJob(d, in, c), true); x.ok(r, "preprocessing");
    std::string text, err; if (!Ctx::slurp(d + "/out.hpgem", text)) FAIL("prep-no-file", "the preprocessor ends well but wrote no file");
    MMesh m = MMesh::parse(text, err); if (!err.empty()) FAIL("prep-file", "the mesh file is not well formed: " << err);
    if (m.npart != np) FAIL("prep-parts", "the mesh file has " << m.npart << " parts instead of " << np);
    againstInput(x, m);
    if (c.i("src") == 2) {  // against the undistributed result
        Case c1 = c; c1.set("np", 1); c1.set("mpi", 1); std::string d1 = x.dir("one"); x.put(d1 + "/" + in.name, in.text); JobResult r1 = x.job(prepJob(d1, in, c1), false); x.ok(r1, "preprocessing for one process"); std::string t1; Ctx::slurp(d1 + "/out.hpgem", t1); MMesh m1 = MMesh::parse(t1, err); if (!err.empty()) FAIL("prep-file", "the mesh file for one process is not well formed: " << err);
        m1.distribute(1, std::vector<int>(m1.elems.size(), 0)); MMesh a = m; a.distribute(1, std::vector<int>(m.elems.size(), 0)); if (a.write(2) != m1.write(2)) FAIL("prep-differs", "apart from the distribution the mesh for " << np << " processes differs from that for one");
        for (auto &f : m.faces) if (f.e.size() > 2) FAIL("prep-topology", "a face has more than two elements");
    }
    // distribution
    MMesh w = m; w.distribute(np, m.owner);
    for (size_t e = 0; e < m.elems.size(); e++) if (w.shadow[e] != m.shadow[e]) FAIL("prep-ghosts", "element " << e << " is not listed as ghost for exactly the parts that touch it");
    if (w.nodeParts != m.nodeParts || w.faceParts != m.faceParts || w.edgeParts != m.edgeParts) FAIL("prep-ghosts", "the parts listed for the nodes, faces or edges are not those of the elements around them");
    if (np <= 12 && m.elems.size() <= 400) {
        std::string d2 = x.dir("read"); x.put(d2 + "/in.hpgem", text); JobResult q = x.job(scen(d2, np, {{"scenario", "mesh"}, {"dim", S(m.dim)}, {"mesh", "in.hpgem"}, {"unknowns", "1"}}), true); x.ok(q, "reading the prepared mesh"); checkDistributed(m, q, "mesh", "prepared mesh"); x.probe("read-back");
    }
    x.probe("source-" + S(c.i("src"))); if (c.i("src") != 2) x.probe("shape-" + S(c.i("m.shape"))); if (np > (int)m.elems.size()) x.probe("more-parts-than-elements"); std::set<int> has(m.owner.begin(), m.owner.end()); if ((int)has.size() < np) x.probe("empty-part"); if (!in.opts.empty()) x.probe("translations"); if (in.text.find("$Periodic") != std::string::npos) x.probe("periodic-section"); if (c.i("mpi") > 1) x.probe("several-processes");
}
static Case genP15(uint64_t seed, bool thorough) { Case c; Rng r(seed); genKnobs(c, r, 4, true); genPrep(c, r, thorough); return c; }
static Reg p15(Property{"P15", genP15, runP15, [] { std::vector<std::pair<std::string, int64_t>> s = {{"mpi", 1}, {"np", 1}, {"m.nzones", 1}, {"m.nx", 1}, {"m.ny", 1}, {"m.nz", 1}, {"m.perx", 0}, {"m.pery", 0}, {"m.perz", 0}, {"m.jitter", 0}, {"m.shuffle", 0}, {"bnd", 0}, {"crlf", 0}, {"box", 0}}; return s; }(), {}});
}

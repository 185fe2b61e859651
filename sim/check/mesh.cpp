#include "mesh.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <map>
#include <numeric>
#include <sstream>
namespace hsim {
namespace {
typedef std::vector<std::vector<int>> Tab;
const Tab faceTab[6] = {
    {{0}, {1}},
    {{0, 1}, {0, 2}, {1, 3}, {2, 3}},
    {{0, 1}, {0, 2}, {1, 2}},
    {{0, 1, 2, 3}, {0, 1, 4, 5}, {0, 2, 4, 6}, {1, 3, 5, 7}, {2, 3, 6, 7}, {4, 5, 6, 7}},
    {{0, 3, 2}, {0, 1, 3}, {0, 2, 1}, {1, 2, 3}},
    {{0, 2, 1}, {3, 4, 5}, {2, 0, 5, 3}, {0, 1, 3, 4}, {1, 2, 4, 5}}};
const Tab edgeTab[6] = {{}, {}, {},
    {{0, 1}, {2, 3}, {4, 5}, {6, 7}, {0, 2}, {1, 3}, {4, 6}, {5, 7}, {0, 4}, {1, 5}, {2, 6}, {3, 7}},
    {{0, 1}, {0, 2}, {0, 3}, {2, 3}, {1, 3}, {1, 2}},
    {{0, 1}, {0, 2}, {1, 2}, {3, 4}, {3, 5}, {4, 5}, {0, 3}, {1, 4}, {2, 5}}};
}  // namespace
const std::vector<std::vector<int>> &faceTable(int shape) { return faceTab[shape]; }
const std::vector<std::vector<int>> &edgeTable(int shape) { return edgeTab[shape]; }

MMesh generate(const MeshParams &p) {
    MMesh m;
    Rng rng(p.seed * 7919 + 13);
    int dim = p.shape == 0 ? 1 : p.shape <= 2 ? 2 : 3;
    m.dim = dim;
    int n[3] = {p.nx, dim > 1 ? p.ny : 1, dim > 2 ? p.nz : 1};
    int per[3] = {p.perx, dim > 1 ? p.pery : 0, dim > 2 ? p.perz : 0};
    int pts[3] = {n[0] + 1, dim > 1 ? n[1] + 1 : 1, dim > 2 ? n[2] + 1 : 1};
    auto gid = [&](int i, int j, int k) { return (k * pts[1] + j) * pts[0] + i; };
    int np = pts[0] * pts[1] * pts[2];
    std::vector<int> node(np), cidx(np);
    std::map<std::array<int, 3>, int> canon;
    std::map<std::array<int, 3>, std::array<double, 3>> disp;
    for (int k = 0; k < pts[2]; k++) for (int j = 0; j < pts[1]; j++) for (int i = 0; i < pts[0]; i++) {
        int idx[3] = {i, j, k};
        std::array<int, 3> c = {i, j, k};
        bool border = false;
        for (int d = 0; d < dim; d++) { if (per[d]) c[d] = idx[d] % n[d]; if (idx[d] == 0 || idx[d] == n[d]) border = true; }
        auto it = canon.find(c);
        if (it == canon.end()) { it = canon.emplace(c, (int)m.nodes.size()).first; m.nodes.emplace_back(); }
        std::array<double, 3> x = {0, 0, 0};
        for (int d = 0; d < dim; d++) x[d] = idx[d] / (double)n[d];
        if (p.jitter && !border) for (int d = 0; d < dim; d++) x[d] += (rng.unit() - 0.5) * 0.3 / n[d];
        int g = gid(i, j, k);
        node[g] = it->second; cidx[g] = m.nodes[it->second].x.size();
        m.nodes[it->second].x.push_back(x);
    }
    std::vector<std::vector<int>> el;  // grid point lists
    for (int k = 0; k < n[2]; k++) for (int j = 0; j < n[1]; j++) for (int i = 0; i < n[0]; i++) {
        auto g = [&](int a, int b, int c) { return gid(i + a, dim > 1 ? j + b : 0, dim > 2 ? k + c : 0); };
        if (p.shape == 0) el.push_back({g(0, 0, 0), g(1, 0, 0)});
        else if (p.shape == 1) el.push_back({g(0, 0, 0), g(1, 0, 0), g(0, 1, 0), g(1, 1, 0)});
        else if (p.shape == 2) { el.push_back({g(0, 0, 0), g(1, 0, 0), g(0, 1, 0)}); el.push_back({g(1, 0, 0), g(1, 1, 0), g(0, 1, 0)}); }
        else if (p.shape == 3) el.push_back({g(0, 0, 0), g(1, 0, 0), g(0, 1, 0), g(1, 1, 0), g(0, 0, 1), g(1, 0, 1), g(0, 1, 1), g(1, 1, 1)});
        else if (p.shape == 4) {
            // Kuhn subdivision: consistent between neighbouring cubes
            static const int perm[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {1, 0, 2}, {2, 1, 0}};
            for (int q = 0; q < 6; q++) {
                int a[3] = {0, 0, 0}; std::vector<int> v; v.push_back(g(0, 0, 0));
                for (int s = 0; s < 3; s++) { a[perm[q][s]] = 1; v.push_back(g(a[0], a[1], a[2])); }
                if (q >= 3) std::swap(v[1], v[2]);  // positive orientation
                el.push_back(v);
            }
        } else {
            el.push_back({g(0, 0, 0), g(1, 0, 0), g(0, 1, 0), g(0, 0, 1), g(1, 0, 1), g(0, 1, 1)});
            el.push_back({g(1, 0, 0), g(1, 1, 0), g(0, 1, 0), g(1, 0, 1), g(1, 1, 1), g(0, 1, 1)});
        }
    }
    // renumber
    std::vector<int> eperm(el.size()); std::iota(eperm.begin(), eperm.end(), 0);
    std::vector<int> nperm(m.nodes.size()); std::iota(nperm.begin(), nperm.end(), 0);
    if (p.shuffle) {
        for (size_t i = eperm.size(); i > 1; i--) std::swap(eperm[i - 1], eperm[rng.below(i)]);
        for (size_t i = nperm.size(); i > 1; i--) std::swap(nperm[i - 1], nperm[rng.below(i)]);
        std::vector<MNode> nn(m.nodes.size());
        for (size_t i = 0; i < nperm.size(); i++) nn[nperm[i]] = m.nodes[i];
        m.nodes = nn;
    }
    for (size_t q = 0; q < el.size(); q++) {
        auto &v = el[eperm[q]];
        MElem e;
        for (int g : v) e.n.push_back({nperm[node[g]], cidx[g]});
        e.zone = p.nzones > 1 ? (int)rng.below(p.nzones) : 0;
        m.elems.push_back(e);
    }
    static const char *zn[] = {"Main", "zone B", "air-3", "x"};
    for (int i = 0; i < p.nzones; i++) m.zones.push_back(zn[i % 4]);
    auto build = [&](const Tab &tab, std::vector<MEnt> &out) {
        // entities are identified by grid position (periodic images folded)
        std::map<std::vector<int>, int> key;
        for (size_t q = 0; q < el.size(); q++) {
            for (size_t f = 0; f < tab.size(); f++) {
                std::vector<int> k; for (int l : tab[f]) k.push_back(m.elems[q].n[l].first);
                std::sort(k.begin(), k.end());
                auto it = key.find(k);
                if (it == key.end()) { it = key.emplace(k, (int)out.size()).first; out.emplace_back(); }
                out[it->second].e.push_back({(int)q, (int)f});
            }
        }
        if (p.shuffle) for (size_t i = out.size(); i > 1; i--) std::swap(out[i - 1], out[rng.below(i)]);
    };
    if (dim >= 2) build(faceTab[p.shape], m.faces);
    if (dim >= 3) build(edgeTab[p.shape], m.edges);
    m.distribute(1, std::vector<int>(m.elems.size(), 0));
    return m;
}

void MMesh::distribute(int np, const std::vector<int> &own) {
    npart = np; owner = own;
    nodeElems.assign(nodes.size(), {});
    for (size_t e = 0; e < elems.size(); e++) for (auto &x : elems[e].n) nodeElems[x.first].insert(e);
    std::vector<std::set<int>> touching(nodes.size());
    for (size_t k = 0; k < nodes.size(); k++) for (int e : nodeElems[k]) touching[k].insert(own[e]);
    shadow.assign(elems.size(), {});
    for (size_t e = 0; e < elems.size(); e++) { for (auto &x : elems[e].n) shadow[e].insert(touching[x.first].begin(), touching[x.first].end()); shadow[e].erase(own[e]); }
    nodeParts.assign(nodes.size(), {});
    for (size_t k = 0; k < nodes.size(); k++) for (int e : nodeElems[k]) { nodeParts[k].insert(own[e]); nodeParts[k].insert(shadow[e].begin(), shadow[e].end()); }
    auto ent = [&](const std::vector<MEnt> &v, std::vector<std::set<int>> &out) {
        out.assign(v.size(), {});
        for (size_t i = 0; i < v.size(); i++) for (auto &x : v[i].e) { out[i].insert(own[x.first]); out[i].insert(shadow[x.first].begin(), shadow[x.first].end()); }
    };
    ent(faces, faceParts); ent(edges, edgeParts);
}

std::string MMesh::write(int ver) const {
    std::ostringstream o; char b[64];
    o << "mesh " << ver << "\n" << nodes.size() << " " << elems.size() << " " << dim;
    if (dim >= 2) o << " " << faces.size();
    if (dim >= 3) o << " " << edges.size();
    o << "\n" << npart << " ";
    std::vector<int> cnt(npart, 0);
    for (auto &s : nodeParts) for (int q : s) cnt[q]++;
    for (int c : cnt) o << c << " ";
    o << "\n";
    if (ver > 1) { o << "zones\n" << zones.size() << "\n"; for (auto &z : zones) o << z << "\n"; o << "nodes\n"; }
    for (size_t i = 0; i < nodes.size(); i++) {
        o << nodeParts[i].size() << " "; for (int q : nodeParts[i]) o << q << " ";
        o << "\n" << nodes[i].x.size() << " ";
        for (auto &x : nodes[i].x) for (int d = 0; d < dim; d++) { snprintf(b, sizeof b, "%a ", x[d]); o << b; }
        o << "\n";
    }
    if (ver > 1) o << "elements\n";
    for (size_t i = 0; i < elems.size(); i++) {
        o << elems[i].n.size() << " "; for (auto &x : elems[i].n) o << x.first << " " << x.second << " ";
        o << owner[i] << " " << shadow[i].size() << " "; for (int q : shadow[i]) o << q << " ";
        o << "\n";
        if (ver > 1) o << elems[i].zone << "\n";
    }
    auto ent = [&](const char *h, const std::vector<MEnt> &v, const std::vector<std::set<int>> &parts) {
        if (ver > 1) o << h << "\n";
        for (size_t i = 0; i < v.size(); i++) {
            o << v[i].e.size() << " "; for (auto &x : v[i].e) o << x.first << " " << x.second << " ";
            o << "\n" << parts[i].size() << " "; for (int q : parts[i]) o << q << " ";
            o << "\n";
        }
    };
    if (dim >= 2) ent("codim1", faces, faceParts);
    if (dim >= 3) ent("codim2", edges, edgeParts);
    return o.str();
}

MMesh MMesh::parse(const std::string &text, std::string &err) {
    MMesh m; std::istringstream in(text); std::string line, w;
    auto fail = [&](const std::string &s) { if (err.empty()) err = s; };
    std::getline(in, line);
    if (line.compare(0, 4, "mesh")) { fail("no mesh header"); return m; }
    m.version = atoi(line.c_str() + 4);
    size_t nn = 0, ne = 0, nf = 0, nd = 0; 
    if (!(in >> nn >> ne >> m.dim) || m.dim < 1 || m.dim > 3) { fail("bad counts"); return m; }
    if (m.dim >= 2) in >> nf;
    if (m.dim >= 3) in >> nd;
    in >> m.npart; std::vector<size_t> cnt(m.npart > 0 && m.npart < 100000 ? m.npart : 0); for (auto &c : cnt) in >> c;
    if (!in) { fail("bad header"); return m; }
    std::getline(in, line);
    auto header = [&](const char *h) { if (m.version < 2) return; std::string s; in >> s; if (s != h) fail(std::string("expected section ") + h + " but found '" + s + "'"); std::getline(in, s); };
    if (m.version > 1) { header("zones"); size_t nz = 0; in >> nz; std::getline(in, line); for (size_t i = 0; i < nz && in; i++) { std::getline(in, line); m.zones.push_back(line); } }
    else m.zones = {"Main"};
    auto dbl = [&]() { std::string s; in >> s; return strtod(s.c_str(), nullptr); };
    auto parts = [&](std::set<int> &s) { size_t k = 0; in >> k; for (size_t i = 0; i < k && in; i++) { int q = -1; in >> q; if (!s.insert(q).second) fail("part listed twice"); if (q < 0 || q >= m.npart) fail("part number out of range"); } };
    header("nodes");
    for (size_t i = 0; i < nn && in; i++) {
        m.nodes.emplace_back(); m.nodeParts.emplace_back(); parts(m.nodeParts.back());
        size_t k = 0; in >> k;
        for (size_t j = 0; j < k && in; j++) { std::array<double, 3> x = {0, 0, 0}; for (int d = 0; d < m.dim; d++) x[d] = dbl(); m.nodes.back().x.push_back(x); }
    }
    header("elements");
    for (size_t i = 0; i < ne && in; i++) {
        m.elems.emplace_back(); size_t k = 0; in >> k;
        for (size_t j = 0; j < k && in; j++) { int a, b; in >> a >> b; if (!in || a < 0 || a >= (int)nn || b < 0 || b >= (int)m.nodes[a].x.size()) { fail("element refers to a missing node"); a = b = 0; } m.elems.back().n.push_back({a, b}); }
        int own = -1; in >> own; m.owner.push_back(own); if (own < 0 || own >= m.npart) fail("owner out of range");
        m.shadow.emplace_back(); parts(m.shadow.back());
        if (m.version > 1) { in >> m.elems.back().zone; if (m.elems.back().zone < 0 || m.elems.back().zone >= (int)m.zones.size()) fail("zone out of range"); }
    }
    auto ent = [&](size_t n, std::vector<MEnt> &v, std::vector<std::set<int>> &p) {
        for (size_t i = 0; i < n && in; i++) {
            v.emplace_back(); p.emplace_back(); size_t k = 0; in >> k;
            for (size_t j = 0; j < k && in; j++) { int a, b; in >> a >> b; if (a < 0 || a >= (int)ne) fail("face or edge refers to a missing element"); v.back().e.push_back({a, b}); }
            parts(p.back());
        }
    };
    if (m.dim >= 2) { header("codim1"); ent(nf, m.faces, m.faceParts); }
    if (m.dim >= 3) { header("codim2"); ent(nd, m.edges, m.edgeParts); }
    if (!in) fail("file ends early");
    if (in >> w) fail("trailing data '" + w + "'");
    if (err.empty()) {
        std::vector<size_t> c2(m.npart, 0); for (auto &s : m.nodeParts) for (int q : s) c2[q]++;
        if (c2 != cnt) fail("node counts per part do not match the node section");
        m.nodeElems.assign(m.nodes.size(), {});
        for (size_t e = 0; e < m.elems.size(); e++) for (auto &x : m.elems[e].n) m.nodeElems[x.first].insert(e);
    }
    return m;
}

std::vector<int> partition(const MMesh &m, int np, int mode, uint64_t seed) {
    size_t ne = m.elems.size(); std::vector<int> o(ne, 0); Rng r(seed * 31 + 5);
    if (np <= 1) return o;
    switch (mode) {
        case 0: for (size_t i = 0; i < ne; i++) o[i] = std::min<int>(np - 1, i * np / ne); break;
        case 1: for (auto &x : o) x = r.below(np); break;
        case 2: {
            int d = r.below(m.dim);
            for (size_t i = 0; i < ne; i++) { double c = 0; for (size_t j = 0; j < m.elems[i].n.size(); j++) c += m.coord(i, j)[d]; c /= m.elems[i].n.size(); o[i] = std::min(np - 1, std::max(0, (int)(c * np))); }
            break;
        }
        case 3: for (size_t i = 0; i < ne; i++) o[i] = i % np; break;
        case 4: { int empty = r.below(np); for (auto &x : o) { do x = r.below(np); while (x == empty); } break; }
        case 5: {
            std::fill(o.begin(), o.end(), -1); std::vector<std::vector<int>> fr(np); size_t left = ne;
            for (int q = 0; q < np && left; q++) { int e; do e = r.below(ne); while (o[e] >= 0); o[e] = q; left--; fr[q].push_back(e); }
            while (left) {
                int q = r.below(np); bool grown = false;
                for (size_t t = 0; t < fr[q].size() && !grown; t++) { int e = fr[q][r.below(fr[q].size())]; for (auto &x : m.elems[e].n) { for (int f : m.nodeElems[x.first]) if (o[f] < 0) { o[f] = q; left--; fr[q].push_back(f); grown = true; break; } if (grown) break; } }
                if (!grown) { bool any = false; for (size_t e = 0; e < ne && !any; e++) if (o[e] < 0 && r.chance(0.3)) { o[e] = q; left--; fr[q].push_back(e); any = true; } }
            }
            break;
        }
        case 6: { int q = r.below(np); for (auto &x : o) x = q; break; }
    }
    return o;
}
}

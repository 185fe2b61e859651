// P03 (distributed mesh read), P02 (ghost consistency), and mesh comparison.
#include "util.h"
#include <algorithm>
#include <cmath>
namespace hsim {
Dump readDump(const std::string &s, int dim) {
    Reader r(s); Dump d;
    d.elems.resize(r.u64());
    for (auto &e : d.elems) {
        e.id = r.u64(); e.owner = r.u64(); e.owned = r.u64(); e.zone = r.str();
        e.x.resize(r.u64()); for (auto &x : e.x) { x = {0, 0, 0}; for (int k = 0; k < dim; k++) x[k] = r.f64(); }
        e.nodes.resize(r.u64()); for (auto &x : e.nodes) x = r.i64();
        e.faces.resize(r.u64()); for (auto &x : e.faces) x = r.i64();
        e.edges.resize(r.u64()); for (auto &x : e.edges) x = r.i64();
    }
    d.count = r.u64(); d.localElems.resize(r.u64()); for (auto &x : d.localElems) x = r.u64();
    for (auto *v : {&d.faces, &d.lfaces}) { v->resize(r.u64()); for (auto &f : *v) { f.id = r.u64(); f.type = r.u64(); f.internal = r.u64(); f.owned = r.u64(); f.left = r.u64(); f.lf = r.u64(); f.right = r.i64(); f.rf = r.i64(); } }
    for (auto *v : {&d.edges, &d.ledges, &d.nodes, &d.lnodes}) { v->resize(r.u64()); for (auto &f : *v) { f.id = r.u64(); f.owned = r.u64(); f.e.resize(r.u64()); for (auto &x : f.e) { x.first = r.u64(); x.second = r.u64(); } } }
    for (auto *m : {&d.pull, &d.push}) { uint64_t n = r.u64(); for (uint64_t i = 0; i < n; i++) { int p = r.i64(); auto &v = (*m)[p]; v.resize(r.u64()); for (auto &x : v) x = r.u64(); } }
    d.zones.resize(r.u64()); for (auto &z : d.zones) z = r.str();
    if (r.bad) throw HarnessError("bad mesh dump");
    return d;
}

Ident::Ident(const MMesh &m) : dim(m.dim) {
    for (size_t i = 0; i < m.faces.size(); i++) for (auto &x : m.faces[i].e) face[{x.first, x.second}] = i;
    for (size_t i = 0; i < m.edges.size(); i++) for (auto &x : m.edges[i].e) edge[{x.first, x.second}] = i;
    for (size_t e = 0; e < m.elems.size(); e++) for (size_t j = 0; j < m.elems[e].n.size(); j++) node[{(int)e, (int)j}] = m.elems[e].n[j].first;
    if (dim == 1) face = node;
}
int Ident::of(int kind, int e, int local) const {
    if (kind == 0) return e;
    auto &mp = kind == 1 ? face : kind == 2 ? edge : node; auto it = mp.find({e, local}); return it == mp.end() ? -1 : it->second;
}
void noPetscErrors(const JobResult &r, const std::string &what) {
    for (size_t p = 0; p < r.logs.size(); p++) for (auto &l : r.logs[p]) if (l.level == "PETSC") FAIL("petsc-error", what << ": PETSc reports an error on process " << p << ": " << l.msg.substr(0, 200));
}
void checkDistributed(const MMesh &m, const JobResult &r, const std::string &key, const std::string &what) {
    int n = m.npart, dim = m.dim; size_t ne = m.elems.size();
    std::vector<Dump> D;
    for (int p = 0; p < n; p++) { auto *s = r.get(p, key); if (!s) FAIL("no-mesh", what << ": rank " << p << " reports no mesh"); D.push_back(readDump(*s, dim)); }
    // element numbering may start anywhere, but everywhere at the same number
    uint64_t base = UINT64_MAX; for (auto &d : D) for (auto &e : d.elems) base = std::min(base, e.id);
    std::vector<std::set<int>> want(n);
    for (size_t e = 0; e < ne; e++) { want[m.owner[e]].insert(e); for (int q : m.shadow[e]) want[q].insert(e); }
    std::vector<int> owners(ne, 0);
    // identity of sub-entities, from (element, local number)
    typedef std::pair<int, int> EL;
    std::map<EL, int> mface, medge, mnode;
    for (size_t i = 0; i < m.faces.size(); i++) for (auto &x : m.faces[i].e) mface[{x.first, x.second}] = i;
    for (size_t i = 0; i < m.edges.size(); i++) for (auto &x : m.edges[i].e) medge[{x.first, x.second}] = i;
    for (size_t e = 0; e < ne; e++) for (size_t j = 0; j < m.elems[e].n.size(); j++) mnode[{(int)e, (int)j}] = m.elems[e].n[j].first;
    if (dim == 1) for (auto &x : mnode) mface[x.first] = x.second;
    std::vector<std::vector<EL>> sides;  // of each model face
    { int nf = dim == 1 ? (int)m.nodes.size() : (int)m.faces.size(); sides.resize(nf); for (auto &x : mface) sides[x.second].push_back(x.first); }
    std::map<int, int64_t> idOf[3]; std::map<int64_t, int> ofId[3]; static const char *en[3] = {"node", "face", "edge"};
    std::map<int, std::set<int>> ownersOf[3];
    auto identify = [&](int k, int model, int64_t id, int p) {
        auto a = idOf[k].emplace(model, id); if (a.first->second != id) FAIL("identity", what << ": " << en[k] << " " << model << " is called " << a.first->second << " by one process and " << id << " by process " << p);
        auto b = ofId[k].emplace(id, model); if (b.first->second != model) FAIL("identity", what << ": number " << id << " is used for " << en[k] << " " << b.first->second << " and for " << model << " (process " << p << ")");
    };
    for (int p = 0; p < n; p++) {
        Dump &d = D[p]; std::set<int> have, own;
        for (auto &e : d.elems) {
            uint64_t i = e.id - base;
            if (i >= ne) FAIL("elements", what << ": process " << p << " holds an element numbered " << e.id << " which does not exist");
            if (!have.insert(i).second) FAIL("elements", what << ": process " << p << " holds element " << i << " twice");
            if (!want[p].count(i)) FAIL("elements", what << ": process " << p << " holds element " << i << ", which the file gives to part " << m.owner[i] << " and not to its ghosts");
            if ((int)e.owner != m.owner[i]) FAIL("owner", what << ": process " << p << " believes element " << i << " belongs to " << e.owner << ", the file says " << m.owner[i]);
            if (e.owned != (uint64_t)(m.owner[i] == p)) FAIL("owner", what << ": process " << p << " has the wrong idea whether it owns element " << i);
            if (e.owned) { own.insert(i); owners[i]++; }
            if (e.zone != m.zones[m.elems[i].zone]) FAIL("zone", what << ": element " << i << " is in zone '" << e.zone << "' on process " << p << ", the file says '" << m.zones[m.elems[i].zone] << "'");
            if (e.x.size() != m.elems[i].n.size()) FAIL("geometry", what << ": element " << i << " has " << e.x.size() << " nodes on process " << p);
            for (size_t j = 0; j < e.x.size(); j++) { auto c = m.coord(i, j); for (int q = 0; q < dim; q++) if (e.x[j][q] != c[q]) FAIL("geometry", what << ": node " << j << " of element " << i << " is at " << e.x[j][q] << " on process " << p << ", the file says " << c[q] << " (axis " << q << ")"); }
            for (size_t j = 0; j < e.nodes.size(); j++) { auto it = mnode.find({(int)i, (int)j}); if (it == mnode.end()) continue; if (e.nodes[j] < 0) FAIL("connectivity", what << ": element " << i << " lacks its node " << j << " on process " << p); identify(0, it->second, e.nodes[j], p); }
            for (size_t j = 0; j < e.faces.size(); j++) { auto it = mface.find({(int)i, (int)j}); if (it == mface.end()) FAIL("connectivity", what << ": unexpected face"); if (e.faces[j] < 0) FAIL("connectivity", what << ": element " << i << " lacks its face " << j << " on process " << p); identify(1, it->second, e.faces[j], p); }
            if (dim == 3) for (size_t j = 0; j < e.edges.size(); j++) { auto it = medge.find({(int)i, (int)j}); if (it == medge.end()) FAIL("connectivity", what << ": unexpected edge"); if (e.edges[j] < 0) FAIL("connectivity", what << ": element " << i << " lacks its edge " << j << " on process " << p); identify(2, it->second, e.edges[j], p); }
        }
        if (have != want[p]) { for (int i : want[p]) if (!have.count(i)) FAIL("elements", what << ": process " << p << " does not hold element " << i << " (owner " << m.owner[i] << ")"); }
        std::set<int> loc; for (auto i : d.localElems) if (!loc.insert(i - base).second) FAIL("elements", what << ": element listed twice in the local list of process " << p);
        if (loc != own) FAIL("elements", what << ": the list of local elements of process " << p << " is not the set of elements it owns");
        // faces touching an owned element
        auto checkFaces = [&](const std::vector<DFace> &v, const char *lst) {
            std::set<int> seen;
            for (auto &f : v) {
                int le = f.left - base; auto it = mface.find({le, (int)f.lf});
                if (it == mface.end()) FAIL("faces", what << ": process " << p << " has a face on side " << f.lf << " of element " << le << " which does not exist");
                int mf = it->second; identify(1, mf, f.id, p);
                if (!seen.insert(mf).second) FAIL("faces", what << ": process " << p << " has face " << mf << " twice (" << lst << ")");
                if (f.internal) {
                    int re = f.right - (int64_t)base; EL R{re, (int)f.rf}; auto jt = mface.find(R);
                    if (jt == mface.end() || jt->second != mf || R == EL{le, (int)f.lf}) FAIL("faces", what << ": on process " << p << " a face joins side " << f.lf << " of element " << le << " to side " << f.rf << " of element " << re << ", which the file does not");
                }
                bool touches = false; int present = 0;
                for (auto &s : sides[mf]) { if (m.owner[s.first] == p) touches = true; if (want[p].count(s.first)) present++; }
                if (f.internal && sides[mf].size() < 2) FAIL("faces", what << ": boundary face " << mf << " has two sides on process " << p);
                if (!f.internal && present == 2) FAIL("faces", what << ": interior face " << mf << " has one side on process " << p << " although it holds both elements");
                if (!touches) continue;
                // FaceType: WALL_BC 0, OPEN_BC 1, PERIODIC_BC 2, PERIODIC_SUBDOMAIN_BC, SUBDOMAIN_BOUNDARY, PARTIAL_FACE, INTERNAL, ...
                if (f.owned) ownersOf[1][mf].insert(p);
            }
            for (int e : own) for (auto &x : mface) if (x.first.first == e && !seen.count(x.second)) FAIL("faces", what << ": face " << x.second << " of owned element " << e << " is missing on process " << p << " (" << lst << ")");
        };
        checkFaces(d.faces, "all"); checkFaces(d.lfaces, "local");
        auto checkEnt = [&](const std::vector<DEnt> &v, std::map<EL, int> &mm, int k, const char *lst) {
            std::set<int> seen;
            for (auto &f : v) {
                std::set<EL> got; int mod = -1;
                for (auto &x : f.e) {
                    EL el{(int)(x.first - base), (int)x.second}; auto it = mm.find(el);
                    if (it == mm.end()) FAIL("connectivity", what << ": process " << p << ": " << en[k] << " on element " << el.first << " place " << el.second << " does not exist");
                    if (mod >= 0 && mod != it->second) FAIL("connectivity", what << ": process " << p << " joins different " << en[k] << "s " << mod << " and " << it->second);
                    mod = it->second; if (!got.insert(el).second) FAIL("connectivity", what << ": element listed twice at a " << en[k]);
                }
                if (mod < 0) continue;
                identify(k, mod, f.id, p); if (!seen.insert(mod).second) FAIL("connectivity", what << ": " << en[k] << " " << mod << " twice on process " << p << " (" << lst << ")");
                size_t exp = 0; for (auto &x : mm) if (x.second == mod && have.count(x.first.first)) exp++;
                if (got.size() != exp) FAIL("connectivity", what << ": " << en[k] << " " << mod << " joins " << got.size() << " element corners on process " << p << " instead of " << exp);
                if (f.owned) ownersOf[k][mod].insert(p);
            }
            for (auto &x : mm) if (own.count(x.first.first) && !seen.count(x.second)) FAIL("connectivity", what << ": " << en[k] << " " << x.second << " of owned element " << x.first.first << " is missing on process " << p << " (" << lst << ")");
        };
        if (dim == 3) { checkEnt(d.edges, medge, 2, "all"); checkEnt(d.ledges, medge, 2, "local"); }
        checkEnt(d.nodes, mnode, 0, "all"); checkEnt(d.lnodes, mnode, 0, "local");
        std::vector<std::string> z = d.zones, wz = m.zones; std::sort(z.begin(), z.end()); std::sort(wz.begin(), wz.end());
        if (z != wz) FAIL("zone", what << ": process " << p << " knows other zones than the file");
    }
    for (size_t e = 0; e < ne; e++) if (owners[e] != 1) FAIL("owner", what << ": element " << e << " is owned by " << owners[e] << " processes");
    for (int k = 0; k < 3; k++) for (auto &x : ownersOf[k]) if (x.second.size() != 1) FAIL("owner", what << ": " << en[k] << " " << x.first << " is owned by " << x.second.size() << " processes");
    std::set<int> allN, allF, allE; for (auto &x : mnode) allN.insert(x.second); for (auto &x : mface) allF.insert(x.second); for (auto &x : medge) allE.insert(x.second);
    if (ownersOf[0].size() != allN.size() || ownersOf[1].size() != allF.size() || ownersOf[2].size() != allE.size()) FAIL("owner", what << ": some node, face or edge is owned by no process");
    // faces: types next to owned elements agree between the two sides
    for (int p = 0; p < n; p++) for (auto &f : D[p].faces) {
        int le = f.left - base; int mf = mface[{le, (int)f.lf}]; bool touches = false, allown = true;
        for (auto &s : sides[mf]) { if (m.owner[s.first] == p) touches = true; else allown = false; }
        if (!touches) continue;
        bool per = false;
        if (sides[mf].size() == 2 && dim > 1) {
            // periodic when the two sides do not use the same coordinates
            std::multiset<std::pair<int, int>> a, b; int which = 0;
            for (auto &s : sides[mf]) { for (auto &c : m.elems[s.first].n) (which ? b : a).insert(c); which++; }
            int common = 0; for (auto &c : a) if (b.count(c)) common++;
            per = common < dim;
            if (common && common < dim + 1 && dim == 3) per = common < 3;
        } else if (sides[mf].size() == 2) {
            auto c0 = m.elems[sides[mf][0].first].n[sides[mf][0].second], c1 = m.elems[sides[mf][1].first].n[sides[mf][1].second]; per = c0 != c1;
        }
        // 0 wall, 2 periodic, 3 internal, 4 subdomain, 5 periodic subdomain : mapped by the scenario
        uint64_t exp = sides[mf].size() == 1 ? 0 : allown ? (per ? 2 : 3) : (per ? 5 : 4);
        if (f.type != exp) FAIL("face-type", what << ": face " << mf << " is of kind " << f.type << " on process " << p << ", expected " << exp << " (0 boundary, 2 periodic, 3 interior, 4 process border, 5 periodic process border)");
    }
    for (int p = 0; p < n; p++) for (int q = 0; q < n; q++) {
        std::vector<uint64_t> a, b; if (D[p].push.count(q)) a = D[p].push[q]; if (D[q].pull.count(p)) b = D[q].pull[p];
        if (a != b) FAIL("lists", what << ": process " << p << " sends " << a.size() << " elements to " << q << ", which expects " << b.size() << " (or in another order)");
        std::set<uint64_t> s(a.begin(), a.end()); if (s.size() != a.size()) FAIL("lists", what << ": an element is sent twice from " << p << " to " << q);
        for (size_t e = 0; e < ne; e++) { bool w = m.owner[e] == p && m.shadow[e].count(q); if (w != (s.count(e + base) > 0)) FAIL("lists", what << ": element " << e << (w ? " is not" : " is") << " sent from " << p << " to " << q); }
    }
}

static Case genP03(uint64_t seed, bool thorough) {
    Case c; Rng r(seed); genKnobs(c, r, 6, true);
    MeshChoice mc; mc.shapes = {0, 1, 2, 3, 4, 5}; mc.maxElems = thorough ? 60 : 36; mc.big = 0.06; mc.many = 0.015; mc.minRanks = 1; mc.maxRanks = thorough ? 8 : 6; genMesh(c, r, mc);
    c.set("unknowns", 1 + r.below(2)); c.set("second", r.chance(0.25) ? 1 + r.below(2) : 0);
    return c;
}
static void runP03(Ctx &x) {
    MMesh m = buildMesh(x.c); distribute(m, x.c);
    std::string d = x.dir("w"); x.put(d + "/in.hpgem", m.write(x.c.i("m.version", 2)));
    MMesh m2;
    KV kv = {{"scenario", "mesh"}, {"dim", S(m.dim)}, {"mesh", "in.hpgem"}, {"unknowns", S(x.c.i("unknowns", 1))}};
    if (x.c.i("second")) {
        Case c2 = x.c; if (x.c.i("second") == 1) c2.set("m.nx", x.c.i("m.nx") + 1), c2.set("m.seed", x.c.i("m.seed") + 1), c2.set("m.pseed", x.c.i("m.pseed") + 1); m2 = buildMesh(c2); distribute(m2, c2);
        x.put(d + "/in2.hpgem", m2.write(2)); kv["second"] = "1"; kv["mesh2"] = "in2.hpgem"; x.probe("second-mesh");
    }
    JobResult r = x.job(scen(d, x.c.i("n"), kv), true);
    x.ok(r, "reading the mesh");
    checkDistributed(m, r, "mesh", "mesh");
    if (x.c.i("second")) checkDistributed(m2, r, "mesh2", "second mesh");
    x.probe("shape-" + S(x.c.i("m.shape"))); if (x.c.i("m.part") == 6 || x.c.i("m.part") == 4) x.probe("empty-part");
    if (x.c.i("m.perx") || x.c.i("m.pery") || x.c.i("m.perz")) x.probe("periodic");
}
static const std::vector<std::pair<std::string, int64_t>> meshShrink = {{"n", 1}, {"second", 0}, {"unknowns", 1}, {"m.nzones", 1}, {"m.nx", 1}, {"m.ny", 1}, {"m.nz", 1}, {"m.perx", 0}, {"m.pery", 0}, {"m.perz", 0}, {"m.jitter", 0}, {"m.shuffle", 0}, {"m.part", 0}};
std::vector<std::pair<std::string, int64_t>> meshShrinks() { return meshShrink; }
static Reg p03(Property{"P03", genP03, runP03, meshShrink, {}});

static Case genP02(uint64_t seed, bool thorough) {
    Case c; Rng r(seed); genKnobs(c, r, 6, false);
    MeshChoice mc; mc.shapes = {0, 1, 2, 3, 4, 5}; mc.maxElems = thorough ? 40 : 24; mc.big = 0.05; mc.many = 0.015; mc.maxRanks = thorough ? 8 : 6; genMesh(c, r, mc);
    c.set("unknowns", r.chance(0.1) ? 4 + r.below(3) : 1 + r.below(3)); c.set("order", c.i("m.big") || c.i("unknowns") > 3 ? 1 : r.below(3) + 1); c.set("conforming", r.chance(0.3)); c.set("nvec", 1 + r.below(r.chance(0.15) ? 7 : 3));
    if (c.i("m.shape") == 5 && c.i("order") > 1) c.set("conforming", 0);  // hpGEM has no conforming prism functions above order 1
    std::string ops; int k = 1 + r.below(thorough ? 16 : 8);
    for (int i = 0; i < k; i++) { char o = "ugsS"[r.below(4)]; ops += (ops.empty() ? "" : ";") + std::string(1, o) + S(r.below(c.i("nvec"))); }
    c.set("ops", ops);
    return c;
}
double coefOf(uint64_t id, uint64_t vec, uint64_t ver, uint64_t i) {
    uint64_t h = hashU(hashU(hashU(hashU(17, id), vec), ver), i);
    return (double)(int64_t)(h >> 20) / 1048576.0 - 8388608.0;
}
void checkHalo(Ctx &x, const JobResult &r, int nrank) {
    for (int p = 0; p < nrank; p++) for (auto &e : r.emits[p]) if (e.key[0] == 'd') {
        Reader q(e.data); uint64_t v = q.u64(), ver = q.u64(), verOwned = q.u64(), n = q.u64();
        for (uint64_t k = 0; k < n; k++) {
            uint64_t id = q.u64(), own = q.u64(), sz = q.u64();
            for (uint64_t i = 0; i < sz; i++) { double g = q.f64(), w = coefOf(id, v, own ? verOwned : ver, i);
                if (g != w) FAIL(own ? "owned-changed" : "stale-ghost", "step " << e.key.substr(1) << ": coefficient " << i << " of " << (own ? "owned" : "ghost") << " element " << id << " (vector " << v << ") on process " << p << " is " << g << ", the owner's value is " << w); }
            if (!own) x.probe("ghost-compared");
        }
        if (q.bad) throw HarnessError("halo dump");
    }
}
static void runP02(Ctx &x) {
    MMesh m = buildMesh(x.c); distribute(m, x.c);
    std::string d = x.dir("w"); x.put(d + "/in.hpgem", m.write(2));
    KV kv = {{"scenario", "halo"}, {"dim", S(m.dim)}, {"mesh", "in.hpgem"}};
    for (const char *k : {"unknowns", "order", "conforming", "nvec"}) kv[k] = x.c.s(k);
    for (auto &o : split(x.c.s("ops"), ';')) if (atoi(o.c_str() + 1) < x.c.i("nvec")) kv["ops"] += (kv["ops"].empty() ? "" : ";") + o;
    JobResult r = x.job(scen(d, x.c.i("n"), kv), true);
    x.ok(r, "synchronising");
    checkHalo(x, r, x.c.i("n"));
}
static std::vector<std::pair<std::string, int64_t>> shr2() { auto v = meshShrink; v.push_back({"order", 1}); v.push_back({"nvec", 1}); v.push_back({"conforming", 0}); return v; }
static Reg p02(Property{"P02", genP02, runP02, shr2(), {"ops"}});

static Case genP11(uint64_t seed, bool thorough) {
    Case c; Rng r(seed); genKnobs(c, r, 6, false);
    MeshChoice mc; mc.shapes = {0, 0, 1, 2, 3, 4, 5}; mc.maxElems = thorough ? 40 : 24; mc.big = 0.05; mc.many = 0.015; mc.maxRanks = thorough ? 8 : 6; genMesh(c, r, mc);
    c.set("unknowns", 1 + r.below(r.chance(0.1) ? 5 : 2)); c.set("order", r.below(2) + 1); c.set("nvec", 1 + r.below(r.chance(0.15) ? 5 : 2));
    size_t ne = buildMesh(c).elems.size(); std::string ops; int rounds = 1 + r.below(thorough ? 5 : 3);
    auto add = [&](const std::string &o) { ops += (ops.empty() ? "" : ";") + o; };
    uint64_t hot = r.below(ne);
    for (int i = 0; i < rounds; i++) {
        if (r.chance(0.85)) { int q = 1 + r.below(8); for (int k = 0; k < q; k++) add("q" + S(r.below(c.i("n"))) + ":" + S(r.chance(0.3) ? hot : r.below(ne))); }
        if (r.chance(0.6)) add("u" + S(r.below(c.i("nvec"))));
        if (r.chance(0.4)) add("g" + S(r.below(c.i("nvec"))));
        add((r.chance(0.7) ? "s" : "S") + S(r.below(c.i("nvec"))));
    }
    c.set("ops", ops);
    return c;
}
static void runP11(Ctx &x) {
    MMesh m = buildMesh(x.c); distribute(m, x.c);
    std::string d = x.dir("w"); x.put(d + "/in.hpgem", m.write(2));
    KV kv = {{"scenario", "halo"}, {"dim", S(m.dim)}, {"mesh", "in.hpgem"}, {"shape", x.c.s("m.shape")}};
    std::string far; for (int o : m.owner) far += (far.empty() ? "" : ",") + S(o); kv["far"] = far;
    // requests naming elements or processes the (shrunk) case no longer has are dropped
    std::string ops; for (auto &o : split(x.c.s("ops"), ';')) { if (o[0] == 'q' && (atoi(o.c_str() + 1) >= x.c.i("n") || atoi(o.c_str() + o.find(':') + 1) >= (int)m.elems.size())) continue; if (o[0] != 'q' && atoi(o.c_str() + 1) >= x.c.i("nvec")) continue; ops += (ops.empty() ? "" : ";") + o; if (o[0] == 'q') { int rk = atoi(o.c_str() + 1), e = atoi(o.c_str() + o.find(':') + 1); x.probe(m.owner[e] == rk ? "asked-own" : m.shadow[e].count(rk) ? "asked-ghost" : "asked-far"); } }
    kv["ops"] = ops;
    for (const char *k : {"unknowns", "order", "nvec"}) kv[k] = x.c.s(k);
    JobResult r = x.job(scen(d, x.c.i("n"), kv), true);
    x.ok(r, "synchronising with extra ghosts");
    checkHalo(x, r, x.c.i("n"));
    for (int p = 0; p < x.c.i("n"); p++) for (auto &e : r.emits[p]) if (e.key[0] == 'f') { Reader q(e.data); if (q.u64()) FAIL("unasked", "step " << e.key.substr(1) << ": process " << p << " received data of elements it did not ask for"); }
}
static Reg p11(Property{"P11", genP11, runP11, shr2(), {"ops"}});
}

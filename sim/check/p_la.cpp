// P04 numbering of unknowns, P05 assembly, P06 global vector round trip.
#include "util.h"
#include <algorithm>
#include <array>
namespace hsim {
typedef std::array<int64_t, 4> Key;  // kind, entity, unknown, number
static std::string name(const Key &k) { static const char *n[] = {"element ", "face ", "edge ", "node "}; return std::string(n[k[0]]) + S(k[1]) + " unknown " + S(k[2]) + " function " + S(k[3]); }
struct IxDof { uint64_t kind, local, unknown, i, owned; int64_t g, l, g2l; };
struct IxElem { uint64_t id, owned; std::vector<IxDof> d; std::vector<int64_t> list; uint64_t same; };
struct IxFace { uint64_t left; int64_t right; std::vector<int64_t> list; };
struct Ix { uint64_t nlocal, total; std::vector<uint64_t> inc, flags; std::vector<IxElem> e; std::vector<IxFace> f; };
static Ix readIx(const std::string &s) {
    Reader r(s); Ix x; x.nlocal = r.u64(); x.total = r.u64(); x.inc.resize(r.u64()); for (auto &u : x.inc) u = r.u64(); x.flags.resize(x.total); for (auto &u : x.flags) u = r.u64();
    x.e.resize(r.u64());
    for (auto &e : x.e) { e.id = r.u64(); e.owned = r.u64(); e.d.resize(r.u64()); for (auto &d : e.d) { d.kind = r.u64(); d.local = r.u64(); d.unknown = r.u64(); d.i = r.u64(); d.owned = r.u64(); d.g = r.i64(); d.l = r.i64(); d.g2l = r.i64(); } e.list.resize(r.u64()); for (auto &q : e.list) q = r.i64(); e.same = r.u64(); }
    x.f.resize(r.u64()); for (auto &f : x.f) { f.left = r.u64(); f.right = r.i64(); f.list.resize(r.u64()); for (auto &q : f.list) q = r.i64(); }
    if (r.bad) throw HarnessError("index dump");
    return x;
}
struct Numbering { std::map<Key, int64_t> num; std::map<int64_t, Key> inv; std::vector<std::vector<Key>> elem; int64_t N = 0; std::vector<int64_t> nlocal; };
// checks the numbering all ranks report and returns it
static Numbering checkNumbering(Ctx &x, const MMesh &m, const Ident &id, const JobResult &r, const std::string &key, int layout, std::vector<uint64_t> want, int unknowns, const std::string &what) {
    int n = m.npart; std::vector<Ix> X;
    for (int p = 0; p < n; p++) { auto *s = r.get(p, key); if (!s) FAIL("no-index", what << ": process " << p << " reports no numbering"); X.push_back(readIx(*s)); }
    uint64_t base = UINT64_MAX; for (auto &q : X) for (auto &e : q.e) base = std::min(base, e.id);
    if (want.empty()) for (int u = 0; u < unknowns; u++) want.push_back(u);
    std::sort(want.begin(), want.end());
    Numbering R; R.elem.resize(m.elems.size()); std::map<Key, int> owner; std::map<Key, int64_t> loc;
    for (int p = 0; p < n; p++) {
        if (X[p].inc != want) FAIL("unknowns", what << ": process " << p << " includes other unknowns than asked for");
        for (uint64_t u = 0; u < X[p].total; u++) if (X[p].flags[u] != (uint64_t)std::count(want.begin(), want.end(), u)) FAIL("unknowns", what << ": process " << p << " has the wrong idea which unknowns are included");
        if ((int)X[p].total != unknowns) FAIL("unknowns", what << ": process " << p << " believes there are " << X[p].total << " unknowns");
        R.nlocal.push_back(X[p].nlocal); R.N += X[p].nlocal;
        std::map<uint64_t, std::vector<int64_t>> lists;
        for (auto &e : X[p].e) {
            int el = e.id - base; std::vector<Key> keys; std::vector<int64_t> gs; bool ghost = !e.owned;
            for (auto &d : e.d) {
                int ent = id.of(d.kind, el, d.local); if (ent < 0) throw HarnessError("unknown entity in numbering");
                Key k{(int64_t)d.kind, ent, (int64_t)d.unknown, (int64_t)d.i}; keys.push_back(k); gs.push_back(d.g);
                auto a = R.num.emplace(k, d.g); if (a.first->second != d.g) FAIL("disagree", what << ": " << name(k) << " has number " << d.g << " on process " << p << " and " << a.first->second << " elsewhere");
                auto b = R.inv.emplace(d.g, k); if (b.first->second != k) FAIL("duplicate", what << ": number " << d.g << " is given to " << name(b.first->second) << " and to " << name(k));
                if (d.owned) { auto o = owner.emplace(k, p); if (o.first->second != p) FAIL("owner", what << ": " << name(k) << " is owned by processes " << o.first->second << " and " << p); loc[k] = d.l; }
                if (d.g2l != (d.owned ? d.l : -1)) FAIL("conversion", what << ": process " << p << " converts global number " << d.g << " (" << name(k) << ", " << (d.owned ? "own" : "foreign") << ") to local number " << d.g2l << ", expected " << (d.owned ? d.l : -1));
            }
            if (e.list != gs || !e.same) FAIL("element-list", what << ": the list of numbers of element " << el << " on process " << p << " is not that of its unknowns in the documented order");
            lists[e.id] = gs;
            if (R.elem[el].empty()) R.elem[el] = keys; else if (R.elem[el] != keys) FAIL("disagree", what << ": process " << p << " sees other unknowns on element " << el);
            if (ghost && !gs.empty()) x.probe("ghost-numbered");
        }
        for (auto &f : X[p].f) { auto v = lists[f.left]; if (f.right >= 0) v.insert(v.end(), lists[f.right].begin(), lists[f.right].end()); if (v != f.list) FAIL("face-list", what << ": the list of numbers at a face between elements " << f.left - base << " and " << f.right - (int64_t)base << " on process " << p << " is not that of its elements"); }
    }
    if ((int64_t)R.num.size() != R.N) FAIL("count", what << ": the processes report " << R.N << " unknowns in total, there are " << R.num.size());
    if (!R.inv.empty() && (R.inv.begin()->first != 0 || R.inv.rbegin()->first != R.N - 1)) FAIL("gap", what << ": the numbers run from " << R.inv.begin()->first << " to " << R.inv.rbegin()->first << " for " << R.N << " unknowns");
    for (auto &k : R.num) if (!owner.count(k.first)) FAIL("owner", what << ": " << name(k.first) << " is owned by no process");
    // layouts
    std::vector<int64_t> start(n, 0); for (int p = 1; p < n; p++) start[p] = start[p - 1] + R.nlocal[p - 1];
    std::vector<std::map<int64_t, int64_t>> cnt(n); for (auto &o : owner) cnt[o.second][o.first[2]]++;
    for (int p = 0; p < n; p++) { int64_t t = 0; for (auto &c : cnt[p]) t += c.second; if (t != R.nlocal[p]) FAIL("count", what << ": process " << p << " reports " << R.nlocal[p] << " own unknowns, it has " << t); }
    for (auto &o : owner) {
        const Key &k = o.first; int p = o.second; int64_t g = R.num[k], l = loc[k];
        if (layout == 0 || layout == 1) {
            if (g < start[p] || g >= start[p] + R.nlocal[p]) FAIL("range", what << ": " << name(k) << " has number " << g << ", outside the range of its process " << p);
            if (l != g - start[p]) FAIL("conversion", what << ": local number " << l << " of " << name(k) << " on process " << p << " does not match global number " << g);
        }
        if (layout == 1) { int64_t b = start[p]; for (auto &c : cnt[p]) { if (c.first == k[2]) { if (g < b || g >= b + c.second) FAIL("range", what << ": " << name(k) << " lies outside the block of its unknown"); break; } b += c.second; } }
        if (layout == 2) {
            int64_t b = 0, lb = 0; for (uint64_t u : want) { if ((int64_t)u == k[2]) break; for (int q = 0; q < n; q++) b += cnt[q][u]; lb += cnt[p][u]; }
            for (int q = 0; q < p; q++) b += cnt[q][k[2]];
            if (g < b || g >= b + cnt[p][k[2]]) FAIL("range", what << ": " << name(k) << " has number " << g << ", outside the block of its unknown on process " << p);
            if (l != lb + g - b) FAIL("conversion", what << ": local number " << l << " of " << name(k) << " on process " << p << " does not match global number " << g);
        }
    }
    return R;
}
static std::string genBasis(Rng &r, int shape, int unknowns, int maxo) {
    std::string s; int dim = shape == 0 ? 1 : shape <= 2 ? 2 : 3;
    for (int u = 0; u < unknowns; u++) {
        int o = r.below(maxo + 1); bool c = r.chance(0.5); if (dim == 3 && o > 3) o = 3;
        if (c && o == 0) o = 1;
        if (shape == 5 && c) o = 1;  // no conforming prism functions above order 1
        s += (s.empty() ? "" : ",") + std::string(c ? "c" : "d") + S(o);
    }
    return s;
}
static std::string genSubset(Rng &r, int unknowns) {
    std::vector<int> v; for (int u = 0; u < unknowns; u++) if (r.chance(0.6)) v.push_back(u);
    if (v.empty()) v.push_back(r.below(unknowns));
    for (size_t i = v.size(); i > 1; i--) if (r.chance(0.3)) std::swap(v[i - 1], v[r.below(i)]);
    std::string s; for (int u : v) s += (s.empty() ? "" : ",") + S(u);
    return s;
}
static std::vector<uint64_t> parseSubset(const std::string &s) { std::vector<uint64_t> v; for (auto &t : split(s, ',')) v.push_back(atoll(t.c_str())); return v; }

static Case genP04(uint64_t seed, bool thorough) {
    Case c; Rng r(seed); genKnobs(c, r, 6, false);
    MeshChoice mc; mc.shapes = {0, 1, 2, 3, 4, 5}; mc.maxElems = thorough ? 40 : 24; mc.big = 0.04; mc.many = 0.015; mc.minRanks = 1; mc.maxRanks = thorough ? 8 : 6; genMesh(c, r, mc);
    int u = r.chance(0.1) ? 4 + r.below(2) : 1 + r.below(3); c.set("basis", genBasis(r, c.i("m.shape"), u, c.i("m.big") || u > 3 ? 1 : c.i("m.shape") >= 3 ? 3 : 4)); c.set("unknowns", u);
    std::string ops; int k = 1 + r.below(4);
    for (int i = 0; i < k; i++) { if (i) ops += ";"; if (i && r.chance(0.15)) ops += "x:;"; ops += S(r.below(3)) + ":" + (r.chance(0.5) ? "" : genSubset(r, u)); if (r.chance(0.15)) ops += ";b:" + genBasis(r, c.i("m.shape"), u, 2); }
    c.set("ops", ops); c.set("sync", r.chance(0.5));
    return c;
}
static void runP04(Ctx &x) {
    MMesh m = buildMesh(x.c); distribute(m, x.c); Ident id(m);
    std::string d = x.dir("w"); x.put(d + "/in.hpgem", m.write(2));
    int unk = split(x.c.s("basis"), ',').size();
    KV kv = {{"scenario", "index"}, {"dim", S(m.dim)}, {"mesh", "in.hpgem"}, {"basis", x.c.s("basis")}, {"ops", x.c.s("ops")}, {"sync", S(x.c.i("sync"))}};
    JobResult r = x.job(scen(d, x.c.i("n"), kv), true);
    x.ok(r, "numbering the unknowns"); noPetscErrors(r, "numbering");
    for (int p = 0; p < x.c.i("n"); p++) for (auto &e : r.emits[p]) if (e.key[0] == 'x') { Reader q(e.data); if (q.u64()) FAIL("exchange", "numbering " << e.key.substr(1) << ": a halo exchange directly after it left wrong data on process " << p); x.probe("exchange-after-numbering"); }
    int step = 0;
    for (auto &o : split(x.c.s("ops"), ';')) { if (o[0] == 'b' || o[0] == 'x') continue; int l = atoi(o.c_str()); checkNumbering(x, m, id, r, "n" + S(step), l, parseSubset(o.substr(o.find(':') + 1)), unk, "numbering " + S(step) + " (layout " + S(l) + ")"); x.probe("layout-" + S(l)); step++; }
}
static Reg p04(Property{"P04", genP04, runP04, [] { auto s = meshShrinks(); s.push_back({"sync", 0}); return s; }(), {"ops"}});

static uint64_t H(std::initializer_list<uint64_t> l) { uint64_t h = 99; for (auto x : l) h = hashU(h, x); return h; }
// Positive: partial sums never cancel.  An entry that is zero in one assembly and
// not in the next is a known finding, visited only when the case asks for it.
static thread_local bool zeros = false;
static double ival(uint64_t h) { return zeros && h % 4 == 0 ? 0 : 1 + (double)(h % 2000); }

static Case genP05(uint64_t seed, bool thorough) {
    Case c; Rng r(seed); genKnobs(c, r, 6, false);
    MeshChoice mc; mc.shapes = {0, 1, 2, 3, 4, 5}; mc.maxElems = thorough ? 30 : 18; mc.big = 0.04; mc.many = 0.015; mc.minRanks = 1; mc.maxRanks = thorough ? 8 : 6; genMesh(c, r, mc);
    int u = r.chance(0.1) ? 4 : 1 + r.below(3), shape = c.i("m.shape"); c.set("unknowns", u);
    bool eq = r.chance(0.5);  // all unknowns discontinuous and of one order: rectangular face matrices exist
    std::string b = genBasis(r, shape, u, c.i("m.big") || u > 3 ? 1 : shape >= 3 ? 2 : 3);
    if (eq) { int o = r.below(c.i("m.big") || u > 3 ? 2 : 3); b = ""; for (int i = 0; i < u; i++) b += (i ? ",d" : "d") + S(o); }
    c.set("basis", b); c.set("sym", r.chance(0.5)); c.set("rows", genSubset(r, u)); c.set("cols", genSubset(r, u));
    c.set("rl", r.below(3)); c.set("cl", r.below(3)); c.set("useE", r.chance(0.9)); c.set("useF", r.chance(0.7)); c.set("partial", r.chance(0.4)); c.set("fmask", r.below(65536));
    c.set("vE", r.chance(0.8)); c.set("vF", r.chance(0.8)); c.set("eid", r.below(2)); c.set("fid", r.below(2));
    std::string ops; int k = r.below(thorough ? 8 : 4);
    for (int i = 0; i < k; i++) { if (i) ops += ";"; ops += std::vector<std::string>{"f", "a", "f;a", "r", "f;r", "l" + S(r.below(3)) + "," + S(r.below(3))}[r.below(6)]; }
    c.set("ops", ops); c.set("kf", r.chance(0.05));
    return c;
}
static bool newNonzero(const std::string &m) { return m.find("New nonzero") != std::string::npos || m.find("new nonzero") != std::string::npos; }
static void runP05(Ctx &x) {
    MMesh m = buildMesh(x.c); distribute(m, x.c); Ident id(m);
    std::string d = x.dir("w"); x.put(d + "/in.hpgem", m.write(2));
    auto basis = split(x.c.s("basis"), ','); int unk = basis.size(); bool sym = x.c.i("sym");
    auto rows = parseSubset(x.c.s("rows")), cols = sym ? rows : parseSubset(x.c.s("cols"));
    std::sort(rows.begin(), rows.end()); std::sort(cols.begin(), cols.end());
    bool useE = x.c.i("useE"), useF = x.c.i("useF"), partial = x.c.i("partial"), vE = x.c.i("vE"), vF = x.c.i("vF");
    int64_t mask = x.c.i("fmask");
    // face matrices need as many row as column functions on each element
    std::multiset<std::string> rb, cb; for (auto u : rows) rb.insert(basis[u].substr(1)); for (auto u : cols) cb.insert(basis[u].substr(1));
    bool allD = true; for (auto u : rows) allD &= basis[u][0] == 'd';
    if (rb != cb) useF = false;
    if (rows != cols && !sym) for (auto &s : basis) if (s[0] == 'c') useF = false;
    // rows with face, edge or node functions may not be coupled through faces on distributed meshes
    if (useF && !allD) { partial = true; for (auto u : rows) if (basis[u][0] == 'c') for (int k = 0; k < 4; k++) mask &= ~(1ll << (u * 4 + k)); }
    // Known finding: with BLOCKED_GLOBAL, several unknowns and several processes the
    // numbering does not match the rows PETSc gives a process, and the reserved
    // storage is for the wrong rows.  Only visited when the case asks for it.
    int n = m.npart; bool kf = x.c.i("kf"), hit = false;
    auto lay = [&](int64_t l, const std::vector<uint64_t> &set) { if (l == 2 && set.size() > 1 && n > 1) { if (!kf) return 1; hit = true; } return (int)l; };
    int rl = lay(x.c.i("rl"), rows), cl = lay(x.c.i("cl"), cols); if (sym) cl = rl;
    // Known finding: zero blocks of a face matrix that the sparsity pattern leaves
    // out are inserted all the same, and PETSc keeps zeros at (i,i); with different
    // row and column numberings (i,i) lies in any block.
    bool zd = false, same = sym || rows == cols;
    if (useF && partial && !kf) { if (!same) useF = false; else cl = rl; }
    if (useF && partial && (!same || cl != rl)) zd = true;
    std::vector<std::string> ops; std::string opss;
    for (auto &o : split(x.c.s("ops"), ';')) { std::string q = o; if (o[0] == 'l') { auto t = split(o.substr(1), ','); int a = lay(atoi(t[0].c_str()), rows), b = sym ? a : lay(atoi(t[1].c_str()), cols); if (useF && partial && !kf) b = a; if (useF && partial && a != b) zd = true; q = "l" + S(a) + "," + S(b); } ops.push_back(q); opss += (opss.empty() ? "" : ";") + q; }
    KV kv = {{"scenario", "assemble"}, {"dim", S(m.dim)}, {"mesh", "in.hpgem"}, {"basis", x.c.s("basis")}, {"ops", opss}, {"rl", S(rl)}, {"cl", S(cl)}};
    for (const char *k : {"sym", "rows", "cols", "eid", "fid"}) kv[k] = x.c.s(k);
    zeros = kf && x.c.s("ops").find("f;a") != std::string::npos; kv["zeros"] = S(zeros);
    kv["useE"] = S(useE); kv["useF"] = S(useF); kv["partial"] = S(partial); kv["fmask"] = S(mask); kv["vE"] = S(vE); kv["vF"] = S(vF);
    JobResult r = x.job(scen(d, x.c.i("n"), kv), true);
    // the half-assembled matrix may also bring PETSc down, which takes the messages with it
    if (hit && r.outcome == OUT_CRASH) { x.known("blocked-global-matrix"); return; }
    if (hit) { for (auto &l : r.logs) for (auto &q : l) if (q.level == "PETSC" && newNonzero(q.msg)) { x.known("blocked-global-matrix"); return; } }
    if (zeros) for (auto &l : r.logs) for (auto &q : l) if (q.level == "PETSC" && newNonzero(q.msg)) { x.known("zero-becomes-nonzero"); return; }
    // A zero at (i,i) fails if the row is full; otherwise it takes the place of an entry that comes later in the row, which then fails.
    // PETSc counts rows from the first of the process; columns likewise if they are of the same process, otherwise from the
    // first column of all (before the first assembly) or among those in use (afterwards).
    if (zd) for (int p = 0; p < n; p++) for (auto &q : r.logs[p]) if (q.level == "PETSC") {
        long a, b; auto at = q.msg.find("New nonzero at ("); if (at == std::string::npos || sscanf(q.msg.c_str() + at, "New nonzero at (%ld,%ld)", &a, &b) != 2) continue;
        std::vector<std::array<std::string, 2>> keys = {{"rix", "cix"}}; std::vector<std::pair<int, int>> lays = {{rl, cl}}; int st = 1; bool again = false;
        for (auto &o : ops) if (o[0] == 'l') { keys.push_back({"rix" + S(st), "cix" + S(st)}); lays.push_back({atoi(o.c_str() + 1), atoi(o.c_str() + 3)}); st++; } else if (o[0] != 'f') st++, again |= o[0] == 'a';
        for (size_t k = 0; k < keys.size(); k++) {
            bool have = true; for (int p = 0; p < n; p++) have &= r.get(p, keys[k][0]) && r.get(p, keys[k][1]); if (!have) break;
            Numbering R = checkNumbering(x, m, id, r, keys[k][0], lays[k].first, rows, unk, "row numbering"), C = checkNumbering(x, m, id, r, keys[k][1], lays[k].second, cols, unk, "column numbering");
            int64_t rs = 0, cs = 0; for (int o = 0; o < p; o++) rs += R.nlocal[o], cs += C.nlocal[o];
            auto zero = [&](int64_t c) { bool own = c >= cs && c < cs + C.nlocal[p]; return own ? c - cs == a : c == a || again; };
            std::map<int, std::vector<int>> f; for (auto &g : id.face) f[g.second].push_back(g.first.first);
            for (auto &g : f) for (int s : g.second) for (int t : g.second) for (auto &i : R.elem[s]) if (R.num[i] == a + rs) for (auto &j : C.elem[t]) if (zero(C.num[j]) && !((mask >> (i[2] * 4 + j[2])) & 1)) { x.known("zero-on-diagonal"); return; }
        }
    }
    x.ok(r, "assembling"); noPetscErrors(r, "assembling");
    for (int p = 0; p < n; p++) for (auto &e : r.emits[p]) if (e.key.compare(0, 2, "bc") == 0) { Reader q(e.data); if (q.u64()) x.probe("boundary-rows"); if (uint64_t b = q.u64()) FAIL("boundary", "assembly " << e.key.substr(2) << ": for " << b << " boundary faces known to process " << p << " the rows to be fixed are not the unknowns on that face"); }
    int step = 0, ver = 0;
    Numbering R = checkNumbering(x, m, id, r, "rix", rl, rows, unk, "row numbering"), C = checkNumbering(x, m, id, r, "cix", cl, cols, unk, "column numbering");
    uint64_t base = UINT64_MAX; for (int p = 0; p < n; p++) for (auto &e : readIx(*r.get(p, "rix")).e) base = std::min(base, e.id);
    std::vector<std::vector<std::pair<int, int>>> faces; { std::map<int, std::vector<std::pair<int, int>>> f; for (auto &q : id.face) f[q.second].push_back(q.first); for (auto &q : f) faces.push_back(q.second); }
    auto verify = [&]() {
        std::string what = "assembly " + S(step);
        std::map<std::pair<int64_t, int64_t>, double> A; std::map<int64_t, double> b;
        for (size_t e = 0; e < m.elems.size(); e++) {
            auto &rk = R.elem[e], &ck = C.elem[e];
            if (useE) for (size_t i = 0; i < rk.size(); i++) for (size_t j = 0; j < ck.size(); j++) A[{R.num[rk[i]], C.num[ck[j]]}] += ival(H({1, (uint64_t)ver, e + base, i, j}));
            if (vE) for (size_t i = 0; i < rk.size(); i++) b[R.num[rk[i]]] += ival(H({2, (uint64_t)ver, e + base, i}));
        }
        for (auto &f : faces) for (auto &s : f) {
            auto &rk = R.elem[s.first];
            if (vF) for (size_t i = 0; i < rk.size(); i++) b[R.num[rk[i]]] += ival(H({4, (uint64_t)ver, s.first + base, (uint64_t)s.second, i}));
            if (useF) for (auto &t : f) { auto &ck = C.elem[t.first]; for (size_t i = 0; i < rk.size(); i++) for (size_t j = 0; j < ck.size(); j++) if (!partial || ((mask >> (rk[i][2] * 4 + ck[j][2])) & 1)) A[{R.num[rk[i]], C.num[ck[j]]}] += ival(H({3, (uint64_t)ver, s.first + base, (uint64_t)s.second, i, t.first + base, (uint64_t)t.second, j})); }
        }
        int64_t at = 0, cat = 0;
        for (int p = 0; p < n; p++) {
            auto *s = r.get(p, "m" + S(step)); if (!s) FAIL("no-matrix", what << ": process " << p << " reports no matrix");
            Reader q(*s); q.u64(); int64_t lo = q.i64(), hi = q.i64(), clo = q.i64(), chi = q.i64(), gr = q.i64(), gc = q.i64();
            if (lo != at || hi != at + R.nlocal[p] || gr != R.N || gc != C.N || clo != cat || chi != cat + C.nlocal[p]) FAIL("shape", what << ": the matrix part of process " << p << " has rows " << lo << ".." << hi << " and columns " << clo << ".." << chi << " of " << gr << " x " << gc << ", the numbering says rows " << at << ".." << at + R.nlocal[p] << " columns " << cat << ".." << cat + C.nlocal[p] << " of " << R.N << " x " << C.N);
            for (int64_t row = lo; row < hi; row++) { uint64_t k = q.u64(); for (uint64_t j = 0; j < k; j++) { int64_t c = q.i64(); double v = q.f64(); auto it = A.find({row, c}); double w = it == A.end() ? 0 : it->second; if (v != w) FAIL("matrix", what << ": entry (" << name(R.inv[row]) << "; " << name(C.inv[c]) << ") is " << v << " on process " << p << " of " << n << ", the contributions sum to " << w); if (it != A.end()) A.erase(it); } }
            int64_t vlo = q.i64(), vhi = q.i64(), gs = q.i64(); if (vlo != at || vhi != at + R.nlocal[p] || gs != R.N) FAIL("shape", what << ": the vector part of process " << p << " covers " << vlo << ".." << vhi << " of " << gs);
            for (int64_t row = vlo; row < vhi; row++) { double v = q.f64(), w = b.count(row) ? b[row] : 0; if (v != w) FAIL("vector", what << ": vector entry of " << name(R.inv[row]) << " is " << v << " on process " << p << " of " << n << ", the contributions sum to " << w); }
            if (q.f64() != 0) FAIL("storage", what << ": process " << p << " had to allocate extra matrix storage while assembling");
            if (q.bad) throw HarnessError("matrix dump");
            at = hi; cat = chi;
        }
        for (auto &a : A) if (a.second != 0) FAIL("matrix", what << ": entry (" << name(R.inv[a.first.first]) << "; " << name(C.inv[a.first.second]) << ") is missing, the contributions sum to " << a.second);
        x.probe("assemblies"); step++;
    };
    verify();
    for (auto &o : ops) {
        if (o[0] == 'f') ver++;
        else if (o[0] == 'l') { int l = atoi(o.c_str() + 1), l2 = atoi(o.c_str() + 3); R = checkNumbering(x, m, id, r, "rix" + S(step), l, rows, unk, "row numbering"); C = checkNumbering(x, m, id, r, "cix" + S(step), l2, cols, unk, "column numbering"); verify(); x.probe("relayout"); }
        else verify();
    }
    x.probe(useF ? "face-matrices" : "no-face-matrices"); if (!sym) x.probe("rectangular"); if (!allD) x.probe("conforming");
}
static std::vector<std::pair<std::string, int64_t>> shr5() { auto v = meshShrinks(); for (const char *k : {"useE", "useF", "partial", "vE", "vF", "rl", "cl", "eid", "fid"}) v.push_back({k, 0}); v.push_back({"sym", 1}); return v; }
static Reg p05(Property{"P05", genP05, runP05, shr5(), {"ops"}});

static Case genP06(uint64_t seed, bool thorough) {
    Case c; Rng r(seed); genKnobs(c, r, 6, false);
    MeshChoice mc; mc.shapes = {0, 1, 2, 3, 4, 5}; mc.maxElems = thorough ? 40 : 24; mc.big = 0.04; mc.many = 0.015; mc.minRanks = 1; mc.maxRanks = thorough ? 8 : 6; genMesh(c, r, mc);
    int u = r.chance(0.1) ? 4 + r.below(2) : 1 + r.below(3), shape = c.i("m.shape"); c.set("unknowns", u); c.set("nvec", 1 + r.below(r.chance(0.15) ? 6 : 3)); c.set("layout", r.below(3));
    c.set("basis", genBasis(r, shape, u, c.i("m.big") || u > 3 ? 1 : 3));
    std::string ops; int k = 2 + r.below(thorough ? 14 : 8), nv = c.i("nvec");
    for (int i = 0; i < k; i++) {
        std::string v = S(r.below(nv)), q = S(r.below(u));
        ops += (i ? ";" : "") + std::vector<std::string>{"d" + v, "c" + v, "C" + v + "," + q, "w" + v, "w" + v, "W" + v + "," + q, "W" + v + "," + q, "x" + S(r.below(c.i("n"))) + ":" + S(r.below(1000)), "r", "c" + v + ";w" + S(r.below(nv))}[r.below(10)];
    }
    c.set("ops", ops);
    return c;
}
static void runP06(Ctx &x) {
    MMesh m = buildMesh(x.c); distribute(m, x.c); Ident id(m);
    std::string d = x.dir("w"); x.put(d + "/in.hpgem", m.write(2));
    int nv = x.c.i("nvec"), n = x.c.i("n"); int unk = split(x.c.s("basis"), ',').size(); std::string ops;
    for (auto &o : split(x.c.s("ops"), ';')) { int v = atoi(o.c_str() + 1); if (o[0] == 'x' ? v >= n : o[0] != 'r' && v >= nv) continue; ops += (ops.empty() ? "" : ";") + o; }
    KV kv = {{"scenario", "vector"}, {"dim", S(m.dim)}, {"mesh", "in.hpgem"}, {"basis", x.c.s("basis")}, {"ops", ops}, {"nvec", S(nv)}, {"layout", x.c.s("layout")}};
    JobResult r = x.job(scen(d, n, kv), true);
    x.ok(r, "moving data to the global vector and back"); noPetscErrors(r, "global vector");
    Numbering R = checkNumbering(x, m, id, r, "ix", x.c.i("layout"), {}, unk, "numbering");
    // reference: the data held by every process, and the global vector
    struct D { uint64_t kind, id, unknown, i; int64_t g; };
    std::vector<std::map<uint64_t, std::vector<D>>> dofs(n); std::vector<std::map<uint64_t, bool>> own(n);
    std::vector<std::vector<std::map<uint64_t, std::vector<double>>>> data(n);  // rank, vector, element
    // the structure is the same in every dump: take it from the first one a rank makes
    bool any = false;
    for (int p = 0; p < n; p++) { data[p].resize(nv); for (auto &e : r.emits[p]) if (e.key[0] == 'v') {
        any = true; Reader q(e.data); q.u64(); uint64_t k = q.u64();
        for (uint64_t i = 0; i < k; i++) { uint64_t el = q.u64(); own[p][el] = q.u64(); uint64_t sz = q.u64(); auto &v = dofs[p][el]; v.clear(); for (uint64_t j = 0; j < sz; j++) { D a; a.kind = q.u64(); a.id = q.u64(); a.unknown = q.u64(); a.i = q.u64(); a.g = q.i64(); q.f64(); v.push_back(a); } }
        if (q.bad) FAIL("size", "the data vector of an element has the wrong length on process " << p);
        break; } }
    if (!any) return;
    std::map<int64_t, double> G; uint64_t ver = 0; int step = 0;
    auto setData = [&](int v, uint64_t vr) { for (int p = 0; p < n; p++) for (auto &e : dofs[p]) { auto &t = data[p][v][e.first]; t.resize(e.second.size()); for (size_t j = 0; j < t.size(); j++) { D &a = e.second[j]; t[j] = own[p][e.first] ? coefOf(H({a.kind, a.id, a.unknown}), v, vr, a.i) : -4e7 - v; } } };
    for (int v = 0; v < nv; v++) setData(v, ver++);
    for (auto &op : split(ops, ';')) {
        int v = atoi(op.c_str() + 1); auto pp = op.find_first_of(",:"); int64_t q = pp == std::string::npos ? 0 : atoll(op.c_str() + pp + 1);
        char o = op[0];
        if (o == 'd') setData(v, ver++);
        if (o == 'r') G.clear();
        if (o == 'c' || o == 'C') {
            // several processes may hold different data for a shared function when a partial write came before: then the result is up to timing
            std::map<int64_t, double> N; std::set<int64_t> amb;
            for (int p = 0; p < n; p++) for (auto &e : dofs[p]) if (own[p][e.first]) for (size_t j = 0; j < e.second.size(); j++) { D &a = e.second[j]; if (o == 'C' && (int64_t)a.unknown != q) continue; double w = data[p][v][e.first][j]; auto it = N.emplace(a.g, w); if (it.first->second != w) amb.insert(a.g); }
            if (!amb.empty()) throw HarnessError("ambiguous data in P06");
            G = N;
        }
        if (o == 'x' && R.N) for (int k = 0; k < 5; k++) { int64_t g = H({(uint64_t)q, (uint64_t)k}) % R.N; G[g] = coefOf(q, 77, 0, g); }
        if (o == 'w' || o == 'W') {
            for (int p = 0; p < n; p++) {
                auto *s = r.get(p, "v" + S(step)); if (!s) FAIL("no-data", "process " << p << " reports no data at step " << step);
                Reader qq(*s); qq.u64(); uint64_t k = qq.u64();
                for (uint64_t i = 0; i < k; i++) {
                    uint64_t el = qq.u64(); bool ow = qq.u64(); uint64_t sz = qq.u64(); auto &t = data[p][v][el]; if (sz != t.size()) FAIL("size", "step " << step << ": the data vector of element " << el << " on process " << p << " has length " << sz << " instead of " << t.size());
                    for (uint64_t j = 0; j < sz; j++) {
                        D a; a.kind = qq.u64(); a.id = qq.u64(); a.unknown = qq.u64(); a.i = qq.u64(); a.g = qq.i64(); double got = qq.f64();
                        bool written = o == 'w' || (int64_t)a.unknown == q; double w = written ? (G.count(a.g) ? G[a.g] : 0) : t[j];
                        if (got != w) FAIL(written ? "value" : "other-unknown", "step " << step << " (" << op << "): coefficient " << j << " (unknown " << a.unknown << ") of " << (ow ? "owned" : "ghost") << " element " << el << " in vector " << v << " on process " << p << " is " << got << ", expected " << w);
                        t[j] = w;
                    }
                    if (!ow) x.probe("ghost-compared");
                }
                if (qq.bad) throw HarnessError("vector dump");
            }
        }
        step++;
    }
}
static std::vector<std::pair<std::string, int64_t>> shr6() { auto v = meshShrinks(); v.push_back({"layout", 0}); v.push_back({"nvec", 1}); return v; }
static Reg p06(Property{"P06", genP06, runP06, shr6(), {"ops"}});
}

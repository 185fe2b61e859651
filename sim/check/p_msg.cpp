// P10: the messaging layer against a model of its promises.
#include "util.h"
#include <cmath>
namespace hsim {
// values over the whole range of a type, so that a narrowed or mixed-up type shows; reductions stay exact
static long limit(char c, long ty, long op) {
    static const long full[] = {2147483647L, 1L << 52, 127, 32767, 1L << 24, 1L << 52, 1L << 24, 1L << 52, 1L << 52}, sum[] = {1L << 27, 1L << 48, 15, 4000, 1L << 20, 1L << 48, 1L << 20, 1L << 48, 1L << 48};
    return c != 'r' || op >= 2 ? full[ty] : op == 0 ? sum[ty] : ty == 2 ? -1 : -2;
}
static long val(uint64_t seed, uint64_t op, uint64_t rank, uint64_t i, long lim) {
    uint64_t h = 7; for (uint64_t q : {seed, op, rank, i}) h = hashU(h, q);
    if (lim < 0) { long v = 1 + (long)(h >> 13) % -lim; return h & 1 ? v : -v; }  // factors of a product: not zero
    return (long)(h >> 8) % (2 * lim + 1) - lim;
}
static Case genP10(uint64_t seed, bool thorough) {
    Case c; Rng r(seed); genKnobs(c, r, 6, false); c.set("k.skew", 0); int n = r.range(1, thorough ? 8 : 6); c.set("n", n); c.set("seed", r.below(100000));
    std::string ops; int rounds = 1 + r.below(3), burst = r.chance(0.12) ? r.below(rounds) : -1; std::vector<int> lens = {-1, -1, 0, 1, 2, 7, 64, 5000};
    bool dup = r.chance(0.4), bigTags = r.chance(0.5);
    for (int k = 0; k < rounds; k++) {
        int m = k == burst ? r.range(70, thorough ? 600 : 250) : r.below(thorough ? 14 : 9); std::set<std::string> used; bool late = r.chance(0.4);
        for (int i = 0; i < m; i++) {
            int what = r.below(k == burst && !r.chance(0.1) ? 7 : 10), ty = r.below(9), len = lens[r.below(lens.size() - (k == burst ? 2 : 0))]; if (ty == 8 && len < 0) len = 3;
            std::string o;
            if (what < 7) {
                int f = r.below(n), t = r.below(n), tag = dup ? r.below(2) : bigTags ? (r.chance(0.5) ? r.below(40) * 1024 + r.below(2) : r.below(32768)) : r.below(30); if (tag > 32767) tag = 32767; std::string key = S(f) + "/" + S(t) + "/" + S(tag);
                if (!dup && !used.insert(key).second) continue;
                o = "m" + S(f) + "," + S(t) + "," + S(tag) + "," + S(ty) + "," + S(len) + "," + S(late ? 1 : 0);
            } else if (what == 7) o = "b" + S(r.below(n)) + "," + S(ty) + "," + S(len);
            else if (what == 8) o = "r" + S(r.below(n)) + "," + S(ty) + "," + S(len) + "," + S(r.below(ty == 6 || ty == 7 ? 2 : 4));
            else o = "x" + S(r.below(n));
            ops += (ops.empty() ? "" : ";") + o;
        }
        ops += std::string(ops.empty() ? "" : ";") + "y";
    }
    c.set("ops", ops);
    return c;
}
static void runP10(Ctx &x) {
    int n = x.c.i("n"); uint64_t seed = x.c.i("seed"); std::string d = x.dir("w");
    // ranks out of range can appear when minimising the process count
    std::string ops; for (auto &t : split(x.c.s("ops"), ';')) { std::vector<long> a; for (auto &q : split(t.substr(1), ',')) a.push_back(atol(q.c_str())); bool okr = t[0] == 'y' || (a[0] < n && (t[0] != 'm' || a[1] < n)); if (okr) ops += (ops.empty() ? "" : ";") + t; }
    JobResult r = x.job(scen(d, n, {{"scenario", "msg"}, {"ops", ops}, {"seed", S(seed)}}), true); x.ok(r, "exchanging messages");
    for (int p = 0; p < n; p++) { auto *s = r.get(p, "who"); if (!s) FAIL("missing", "process " << p << " reports nothing"); Reader w(*s); int64_t a = w.i64(), b = w.i64(), e = w.i64(); if (a != p || b != n || e != n) FAIL("identity", "process " << p << " of " << n << " believes to be " << a << " of " << b); }
    // expected reports per process, in this order
    std::vector<std::map<std::string, int>> seen(n); uint64_t id = 0; int rounds = 1;
    for (int p = 0; p < n; p++) for (auto &e : r.emits[p]) { if (e.key.rfind("changed", 0) == 0) FAIL("send-buffer", "the value process " << p << " sent in operation " << e.key.substr(8) << " changed before the synchronisation returned"); seen[p][e.key]++; }
    for (auto &t : split(ops, ';')) {
        uint64_t me = id++; if (t[0] == 'y') { rounds++; continue; }
        std::vector<long> a; for (auto &q : split(t.substr(1), ',')) a.push_back(atol(q.c_str()));
        if (t[0] == 'x') { for (int p = 0; p < n; p++) { int k = seen[p]["x" + S(me)]; if (k != (p == a[0])) FAIL("one-processor", "a function to be run by process " << a[0] << " only was run " << k << " times by process " << p); } continue; }
        long ty = t[0] == 'm' ? a[3] : a[1], len = t[0] == 'm' ? a[4] : a[2]; uint64_t cnt = len < 0 ? 1 : len; bool cx = ty == 6 || ty == 7;
        for (int p = 0; p < n; p++) {
            int want = t[0] == 'm' ? p == a[1] : t[0] == 'b' ? 1 : p == a[0]; auto *s = r.get(p, "o" + S(me));
            if (!want) { if (s) FAIL("stray", "process " << p << " received operation " << me << " which is not for it"); continue; }
            if (!s) FAIL("missing", "process " << p << " did not complete operation " << me);
            Reader w(*s); uint64_t k = w.u64(); if (k != cnt) FAIL("length", "operation " << me << " on process " << p << " has " << k << " entries");
            for (uint64_t i = 0; i < cnt; i++) {
                double re = w.f64(), im = w.f64(), wr = 0, wi = 0;
                if (t[0] != 'r') { wr = val(seed, me, a[0], 2 * i, limit(t[0], ty, 0)); wi = val(seed, me, a[0], 2 * i + 1, limit(t[0], ty, 0)); }
                else {
                    int op = a[3]; long lim = limit('r', ty, op); bool first = true;
                    for (int q = 0; q < n; q++) { double u = val(seed, me, q, 2 * i, lim), v = val(seed, me, q, 2 * i + 1, lim); if (!cx) v = 0; if (first) { wr = u; wi = v; first = false; } else if (op == 0) { wr += u; wi += v; } else if (op == 1) { double nr = wr * u - wi * v, ni = wr * v + wi * u; wr = nr; wi = ni; } else if (op == 2) wr = std::max(wr, u); else wr = std::min(wr, u); }
                }
                if (!cx) wi = 0;
                if (re != wr || im != wi) FAIL(t[0] == 'm' ? "message" : t[0] == 'b' ? "broadcast" : "reduce", "entry " << i << " of operation " << me << " (" << t << ") on process " << p << " is (" << re << "," << im << "), expected (" << wr << "," << wi << ")");
            }
            x.probe(t[0] == 'm' ? (a[0] == a[1] ? "message-to-self" : "message") : t[0] == 'b' ? "broadcast" : "reduce"); if (cnt == 0) x.probe("empty"); if (len < 0) x.probe("scalar"); x.probe("type-" + S(ty));
        }
    }
    for (int k = 0; k < rounds; k++) {
        double lastIn = -1, firstOut = 1e300; int wi = 0, wo = 0;
        for (int p = 0; p < n; p++) { auto *s = r.get(p, "t" + S(k)); if (!s) FAIL("missing", "process " << p << " did not return from synchronisation " << k); Reader w(*s); double a = w.f64(), b = w.f64(); if (a > lastIn) { lastIn = a; wi = p; } if (b < firstOut) { firstOut = b; wo = p; } }
        if (lastIn > firstOut) FAIL("sync", "process " << wo << " returned from synchronisation " << k << " before process " << wi << " entered it");
        x.probe("sync");
    }
}
static Reg p10(Property{"P10", genP10, runP10, {{"n", 2}}, {"ops"}});
}

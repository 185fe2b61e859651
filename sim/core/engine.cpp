// The simulator: ranks are fibers of one thread, every MPI operation, clock
// reading, entropy draw and file operation is decided here.
#include "engine.h"
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <ucontext.h>
#include <unistd.h>
#include <algorithm>
#include <array>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <list>
#include <memory>
#include <set>
#include <unordered_map>
#include "../abi/sim_abi.h"

namespace hsim {

BlackBox *blackBox = nullptr;

namespace {
struct NS {
    void *h = nullptr;
    void (*attach)(const HsimHost *) = nullptr;
    int (*run)(int (*)(int, char **), int, char **) = nullptr;
    int (*mainfn)(int, char **) = nullptr;
};
std::vector<NS> spaces;

struct Msg {
    int src, dst, ctx, tag;
    std::vector<char> data;
    const void *buf;
    size_t len;
    bool eager;
    uint64_t sendOp, recvOp = 0;
};
struct Op {
    enum { SEND, RECV, COLL } kind;
    int rank;
    bool done = false;
    bool cancelled = false;
    bool released = false;
    // recv
    int ctx = 0, src = 0, tag = 0;
    void *buf = nullptr;
    size_t maxlen = 0;
    HsimStatus st{};
    bool matched = false;
    // coll
    struct Slot *slot = nullptr;
    int me = 0;
};
struct Slot {
    int ctx; uint64_t seq; int kind; std::string name; int dep, root; uint64_t sig; int n;
    std::vector<int> group;
    std::vector<std::vector<char>> data;
    std::vector<char> arrived;
    std::vector<uint64_t> op;
    int nArrived = 0, nReleased = 0;
    int order = -1;
    bool nosync = false;
    std::map<int, int> ctxs;
};
struct Fiber {
    int rank;
    ucontext_t uc;
    void *stack = nullptr;
    bool finished = false, dead = false, started = false;
    bool polling = false;
    // blocking condition
    bool blocked = false;
    std::vector<uint64_t> waitOps;
    int waitMode = 0;
    bool probeWait = false;
    int pCtx = 0, pSrc = 0, pTag = 0;
    bool dirty = true;  // condition may have changed
    std::string call = "start";
    int mpi = 0;
    uint64_t lastRun = 0;
    int rc = -1;
};
const size_t STACK = 16u << 20;

struct Engine {
    JobSpec spec;
    JobResult res;
    Rng rng{1}, ent{1};
    ucontext_t mainCtx;
    std::vector<Fiber> fibers;
    std::vector<HsimHost> hosts;
    int cur = -1;
    uint64_t nextOp = 1;
    std::unordered_map<uint64_t, Op> ops;
    typedef std::array<int, 3> Key;
    std::map<Key, std::deque<Msg *>> channels;          // (src,dst,ctx) in flight
    std::map<std::pair<int, int>, std::list<Msg *>> unexpected;  // (dst,ctx) arrived
    std::map<std::pair<int, int>, std::list<uint64_t>> posted;   // (dst,ctx) receives
    std::vector<Msg *> transfers;                        // matched, data moving
    std::map<std::pair<int, uint64_t>, std::unique_ptr<Slot>> slots;
    std::map<std::pair<int, int>, uint64_t> collSeq;     // (ctx,rank)
    int nextCtx = 100;
    uint32_t didx[D_NKIND] = {};
    std::unordered_map<uint64_t, uint32_t> replay[D_NKIND];
    bool over = false;
    double simNow = 1.0e9;
    std::vector<int> prio;  // PCT
    std::set<uint64_t> pctPoints;
    std::vector<uint64_t> faultSeen;
    std::vector<char> faultDone;
    std::vector<uint64_t> capUsed;
    std::vector<char> mpiArmed; std::vector<uint64_t> mpiSeen;
    uint64_t pollStreak = 0;
    int graceLeft = -1;
    uint64_t hash = 0xcbf29ce484222325ull;

    void h(uint64_t v) { hash = hashU(hash, v); }

    // ---------------------------------------------------------- decisions
    uint32_t record(int kind, uint32_t n, uint32_t val) {
        uint32_t i = didx[kind]++;
        if (spec.replay) {
            auto it = replay[kind].find(i);
            val = it == replay[kind].end() ? 0 : it->second;
            if (val >= n) val = n ? val % n : 0;
        }
        if (val) { res.decisions.push_back({(uint8_t)kind, i, val}); }
        return val;
    }
    uint32_t flip(int kind, double p) {
        uint32_t v = !spec.replay && p > 0 && rng.chance(p) ? 1 : 0;
        return record(kind, 2, v);
    }

    // ---------------------------------------------------------- lifecycle
    [[noreturn]] void leave() {  // switch to the scheduler for good
        swapcontext(&fibers[cur].uc, &mainCtx);
        abort();
    }
    void finish(int outcome, int who, const std::string &detail, int code = 0) {
        if (over) return;
        over = true;
        res.outcome = outcome; res.who = who; res.detail = detail; res.code = code;
    }

    // ---------------------------------------------------------- scheduling
    bool condition(Fiber &f) {
        if (!f.blocked) return true;
        if (!f.dirty) return false;
        f.dirty = false;
        if (f.probeWait) return findProbe(f.rank, f.pCtx, f.pSrc, f.pTag, nullptr);
        if (f.waitOps.empty()) return true;
        if (f.waitMode == HSIM_WAIT_ANY) {
            for (auto o : f.waitOps) if (ops[o].done) return true;
            return false;
        }
        while (!f.waitOps.empty() && ops[f.waitOps.back()].done) f.waitOps.pop_back();
        return f.waitOps.empty();
    }
    struct Action { int type; int a; Key ch; size_t i; };  // 0 deliver, 1 transfer, 2 fiber
    std::vector<Action> acts;
    void enabled() {
        acts.clear();
        for (auto &c : channels) if (!c.second.empty()) acts.push_back({0, 0, c.first, 0});
        for (size_t i = 0; i < transfers.size(); i++) acts.push_back({1, 0, {}, i});
        int n = spec.n;
        int first = cur >= 0 ? cur : 0;
        // the current fiber first unless it is polling, then the others
        for (int pass = 0; pass < 2; pass++)
            for (int k = 0; k < n; k++) {
                Fiber &f = fibers[(first + k + pass) % n];  // polling ranks take turns
                if (f.finished || f.dead || f.polling != (pass == 1)) continue;
                if (f.blocked && !condition(f)) continue;
                f.blocked = false;
                acts.push_back({2, f.rank, {}, 0});
            }
    }
    // wait conditions are consumed by condition(): a fiber found runnable stays runnable
    size_t choose() {
        size_t n = acts.size();
        if (n == 1) return 0;
        if (spec.replay) return record(D_SCHED, n, 0);
        const Knobs &k = spec.knobs;
        size_t v = 0;
        bool allPoll = true;
        for (auto &a : acts) if (a.type != 2 || !fibers[a.a].polling) allPoll = false;
        switch (k.policy) {
            case 0: v = 0; break;
            case 1: v = rng.below(n); break;
            case 2: {  // laggy network: prefer fibers
                std::vector<size_t> f, d;
                for (size_t i = 0; i < n; i++) (acts[i].type == 2 ? f : d).push_back(i);
                if (f.empty() || (!d.empty() && rng.chance(1 - k.p))) v = d.empty() ? f[rng.below(f.size())] : d[rng.below(d.size())];
                else v = f[rng.below(f.size())];
                break;
            }
            case 3: {  // run to block, random preemption; last-in-first-out delivery
                if (rng.chance(k.p)) v = rng.below(n);
                else { v = 0; for (size_t i = 0; i < n; i++) if (acts[i].type == 2 && acts[i].a == cur && !fibers[cur].polling) v = i; }
                break;
            }
            case 4: {  // PCT over ranks and channels
                if (pctPoints.count(res.steps)) prio[rng.below(prio.size())] = (int)rng.below(1000) - 1000;
                int best = -1 << 30;
                for (size_t i = 0; i < n; i++) {
                    int p = acts[i].type == 2 ? prio[acts[i].a] : acts[i].type == 0 ? prio[spec.n + acts[i].ch[0] * spec.n + acts[i].ch[1]] : prio[spec.n + transfers[acts[i].i]->src * spec.n + transfers[acts[i].i]->dst];
                    if (p > best) { best = p; v = i; }
                }
                break;
            }
            case 5: {  // one slow rank
                std::vector<size_t> o;
                for (size_t i = 0; i < n; i++) if (!(acts[i].type == 2 && acts[i].a == k.victim)) o.push_back(i);
                v = o.empty() || rng.chance(0.002) ? rng.below(n) : o[rng.below(o.size())];
                break;
            }
            case 6: {  // messages from / to one rank are late
                std::vector<size_t> o;
                for (size_t i = 0; i < n; i++) {
                    bool late = (acts[i].type == 0 && (acts[i].ch[0] == k.victim || acts[i].ch[1] == k.victim)) ||
                                (acts[i].type == 1 && (transfers[acts[i].i]->src == k.victim || transfers[acts[i].i]->dst == k.victim));
                    if (!late) o.push_back(i);
                }
                v = o.empty() || rng.chance(0.002) ? rng.below(n) : o[rng.below(o.size())];
                break;
            }
        }
        // bounded unfairness: a polling rank must not shut out everything else
        if (!allPoll && acts[v].type == 2 && fibers[acts[v].a].polling) {
            if (++pollStreak > 8) {
                std::vector<size_t> o;
                for (size_t i = 0; i < n; i++) if (acts[i].type != 2 || !fibers[acts[i].a].polling) o.push_back(i);
                v = o[rng.below(o.size())];
                pollStreak = 0;
            }
        } else if (acts[v].type != 2 || !fibers[acts[v].a].polling) pollStreak = 0;
        else v = rng.below(n);  // only polling ranks: rotate
        return record(D_SCHED, n, (uint32_t)v);
    }
    void touch(int rank) { fibers[rank].dirty = true; }

    void schedule() {  // the main loop, runs on mainCtx
        while (!over) {
            enabled();
            bool live = false;
            for (auto &f : fibers) if (!f.finished && !f.dead) live = true;
            if (!live) break;
            if (acts.empty()) { deadlock(); break; }
            size_t v = choose();
            Action a = acts[v];
            res.steps++;
            if (blackBox) blackBox->steps = res.steps;
            simNow += 1e-6 * (1 + (hash & 15));
            h(a.type * 1000 + a.a);
            if (a.type == 0) deliver(a.ch);
            else if (a.type == 1) transfer(a.i);
            else {
                Fiber &f = fibers[a.a];
                if (cur >= 0 && cur != a.a) { res.counters["rank-switch"]++; }
                for (auto &g : fibers) if (!g.finished && !g.dead && g.rank != a.a && !g.blocked && res.steps - g.lastRun > 400) { res.counters["rank-stalled-400-steps"]++; g.lastRun = res.steps; simNow += 0.05; }
                cur = a.a; f.polling = false; f.lastRun = res.steps;
                if (blackBox) blackBox->rank = a.a;
                swapcontext(&mainCtx, &f.uc);
            }
            if (graceLeft > 0 && --graceLeft == 0) break;
            if (res.steps >= spec.stepCap) { finish(OUT_STEPCAP, -1, "no completion within the step bound: " + states()); }
        }
        if (graceLeft >= 0 && !over) { over = true; }
        if (!over) {
            res.outcome = OUT_OK;
            for (auto &f : fibers) {
                if (f.rc != 0) { res.outcome = OUT_DIED; res.who = f.rank; res.code = f.rc; res.detail = "main returned non-zero"; }
                else if (f.mpi == 1) { res.outcome = OUT_DIED; res.who = f.rank; res.detail = "exit without MPI_Finalize"; }
                if (res.outcome != OUT_OK) break;
            }
            uint64_t orphans = 0;
            for (auto &c : channels) orphans += c.second.size();
            for (auto &u : unexpected) orphans += u.second.size();
            if (orphans) res.counters["orphan-messages"] = orphans;
        }
    }
    std::string states() {
        std::string s;
        for (auto &f : fibers) {
            s += (s.empty() ? "" : "; ") + std::string("rank ") + std::to_string(f.rank) + ": " + (f.finished ? "finished" : f.dead ? "dead" : f.call + (f.blocked ? " (blocked)" : " (runnable)"));
        }
        return s;
    }
    void deadlock() {
        if (graceLeft >= 0) { over = true; return; }
        int who = -1;
        for (auto &f : fibers) if (!f.finished && !f.dead) { who = f.rank; break; }
        finish(OUT_DEADLOCK, who, states());
    }
    void yield() {  // called on a fiber
        swapcontext(&fibers[cur].uc, &mainCtx);
    }
    void block(Fiber &f) {
        f.blocked = true; f.dirty = true;
        if (condition(f)) { f.blocked = false; return; }
        yield();
    }

    // ---------------------------------------------------------- messages
    bool match(Msg *m, const Op &r) { return (r.src == HSIM_ANY || r.src == m->src) && (r.tag == HSIM_ANY || r.tag == m->tag); }
    void deliver(const Key &k) {
        auto &q = channels[k];
        Msg *m = q.front(); q.pop_front();
        h(m->tag); h(m->len);
        res.counters["deliver"]++;
        auto &pl = posted[{m->dst, m->ctx}];
        for (auto it = pl.begin(); it != pl.end(); ++it) {
            Op &r = ops[*it];
            if (match(m, r)) { r.matched = true; m->recvOp = *it; pl.erase(it); transfers.push_back(m); return; }
        }
        unexpected[{m->dst, m->ctx}].push_back(m);
        res.counters["arrived-unexpected"]++;
        touch(m->dst);
    }
    void transfer(size_t i) {
        Msg *m = transfers[i];
        transfers.erase(transfers.begin() + i);
        Op &r = ops[m->recvOp];
        size_t n = std::min(m->len, r.maxlen);
        if (n) memcpy(r.buf, m->eager ? (const void *)m->data.data() : m->buf, n);
        r.st = {m->src, m->tag, m->len, m->len > r.maxlen};
        r.done = true; touch(r.rank);
        if (!m->eager) { auto it = ops.find(m->sendOp); if (it != ops.end()) { it->second.done = true; touch(m->src); if (it->second.released) ops.erase(it); } }
        if (r.released) ops.erase(m->recvOp);
        hash = hashBytes(hash, m->eager ? (const void *)m->data.data() : m->buf, 0);
        delete m;
    }
    // earliest matching arrived message of each source; choose one. A receive from any source need not match the
    // message an earlier probe from any source saw (MPI 3.8.1): the two choose independently.
    Msg *pickArrived(int rank, int ctx, int src, int tag, bool peek) {
        auto &u = unexpected[{rank, ctx}];
        std::vector<Msg *> cand; std::set<int> seen;
        for (Msg *m : u) {
            if (!((src == HSIM_ANY || src == m->src) && (tag == HSIM_ANY || tag == m->tag))) continue;
            if (seen.insert(m->src).second) cand.push_back(m);
        }
        if (cand.empty()) return nullptr;
        if (cand.size() == 1 || peek) return cand[0];
        uint32_t v = spec.replay || spec.knobs.policy == 0 ? 0 : rng.below(cand.size());
        v = record(D_ANYSRC, cand.size(), v);
        res.counters["any-source-choice"]++;
        return cand[v];
    }
    bool findProbe(int rank, int ctx, int src, int tag, HsimStatus *st) {
        Msg *m = pickArrived(rank, ctx, src, tag, st == nullptr);
        if (!m) return false;
        if (st) { *st = {m->src, m->tag, m->len, 0}; }
        return true;
    }
} *E = nullptr;

// -------------------------------------------------------------- host functions
void hYield(int) { E->yield(); }
void hNote(int rank, const char *call) {
    Fiber &f = E->fibers[rank];
    f.call = call;
    if (blackBox) { strncpy(blackBox->call, call, 63); }
    E->res.counters["mpi-call"]++;
    // scheduling point; skip the context switch when nothing else could run
    E->yield();
}
void hPoll(int rank) { Fiber &f = E->fibers[rank]; f.polling = true; E->res.counters["poll"]++; E->yield(); }
uint64_t hSend(int rank, int dst, int ctx, int tag, const void *buf, size_t len, int mode) {
    uint64_t id = E->nextOp++;
    Op &o = E->ops[id]; o.kind = Op::SEND; o.rank = rank;
    bool rdv = mode == HSIM_SEND_SYNC;
    if (mode == HSIM_SEND_STD) rdv = E->flip(D_EAGER, E->spec.knobs.rdv);
    Msg *m = new Msg{rank, dst, ctx, tag, {}, buf, len, !rdv, id};
    if (!rdv) { m->data.assign((const char *)buf, (const char *)buf + len); o.done = true; }
    else E->res.counters["rendezvous-send"]++;
    E->channels[{rank, dst, ctx}].push_back(m);
    E->res.counters["message"]++;
    E->h(len); E->h(tag); E->hash = hashBytes(E->hash, buf, std::min<size_t>(len, 256));
    return id;
}
uint64_t hRecv(int rank, int ctx, int src, int tag, void *buf, size_t maxlen) {
    uint64_t id = E->nextOp++;
    Op &o = E->ops[id]; o.kind = Op::RECV; o.rank = rank; o.ctx = ctx; o.src = src; o.tag = tag; o.buf = buf; o.maxlen = maxlen;
    Msg *m = E->pickArrived(rank, ctx, src, tag, false);
    if (m) {
        E->unexpected[{rank, ctx}].remove(m);
        o.matched = true; m->recvOp = id; E->transfers.push_back(m);
    } else E->posted[{rank, ctx}].push_back(id);
    return id;
}
int hDone(uint64_t op) { auto it = E->ops.find(op); return it == E->ops.end() || it->second.done; }
void hStatus(uint64_t op, HsimStatus *st) { Op &o = E->ops[op]; *st = o.st; if (o.cancelled) st->truncated = 2; }
void hRelease(uint64_t op) {
    auto it = E->ops.find(op);
    if (it == E->ops.end()) return;
    if (it->second.kind == Op::COLL) {
        Slot *s = it->second.slot;
        if (++s->nReleased == s->n) E->slots.erase({s->ctx, s->seq});
    }
    if (it->second.done) E->ops.erase(it); else it->second.released = true;
}
void hWait(int rank, const uint64_t *ops, int n, int mode) {
    Fiber &f = E->fibers[rank];
    f.waitOps.assign(ops, ops + n); f.waitMode = mode; f.probeWait = false;
    E->block(f);
}
int hPick(int, int n) {
    if (n <= 1) return 0;
    uint32_t v = E->spec.replay || E->spec.knobs.policy == 0 ? 0 : E->rng.below(n);
    return E->record(D_PICK, n, v);
}
int hProbe(int rank, int ctx, int src, int tag, int blocking, HsimStatus *st) {
    Fiber &f = E->fibers[rank];
    if (blocking) {
        f.probeWait = true; f.pCtx = ctx; f.pSrc = src; f.pTag = tag; f.waitOps.clear();
        E->block(f);
        f.probeWait = false;
    }
    return E->findProbe(rank, ctx, src, tag, st);
}
int hCancel(uint64_t op) {
    Op &o = E->ops[op];
    if (o.kind == Op::RECV && !o.matched && !o.done) { E->posted[{o.rank, o.ctx}].remove(op); o.cancelled = o.done = true; E->touch(o.rank); }
    return 0;
}
void slotProgress(Slot *s) {
    for (int i = 0; i < s->n; i++) {
        if (!s->arrived[i]) continue;
        Op &o = E->ops[s->op[i]];
        if (o.done) continue;
        bool ok = true;
        if (s->dep == HSIM_DEP_ALL || !s->nosync) ok = s->nArrived == s->n;
        else if (s->dep == HSIM_DEP_ROOT_GETS_ALL) ok = i != s->root || s->nArrived == s->n;
        else if (s->dep == HSIM_DEP_ALL_GET_ROOT) ok = s->arrived[s->root];
        else for (int k = 0; k < i; k++) ok = ok && s->arrived[k];
        if (ok) { o.done = true; E->touch(o.rank); }
    }
}
[[noreturn]] void hUsageV(int rank, const char *what) {
    E->finish(OUT_USAGE, rank, std::string(what) + " in " + E->fibers[rank].call + " | " + E->states());
    E->leave();
}
void hUsage(int rank, const char *what) { hUsageV(rank, what); }
uint64_t hColl(int rank, int ctx, const int *group, int n, int me, int kind, const char *name, int dep, int root, uint64_t sig, const void *data, size_t len) {
    uint64_t seq = E->collSeq[{ctx, rank}]++;
    auto &sp = E->slots[{ctx, seq}];
    if (!sp) {
        sp.reset(new Slot); Slot *s = sp.get();
        s->ctx = ctx; s->seq = seq; s->kind = kind; s->name = name; s->dep = dep; s->root = root; s->sig = sig; s->n = n;
        s->group.assign(group, group + n); s->data.resize(n); s->arrived.assign(n, 0); s->op.assign(n, 0);
        s->nosync = dep != HSIM_DEP_ALL && n > 1 && E->flip(D_COLLSYNC, E->spec.knobs.sync);
        if (s->nosync) E->res.counters["non-synchronising-collective"]++;
        if (n > 2) {
            uint32_t v = 0;
            if (!E->spec.replay && E->rng.chance(E->spec.knobs.redorder)) v = 1 + E->rng.below(2);
            s->order = E->record(D_REDORDER, 3, v);
            if (s->order) E->res.counters["reduction-reordered"]++;
        } else s->order = 0;
        E->res.counters["collective"]++;
    }
    Slot *s = sp.get();
    if (s->n != n || s->kind != kind || s->name != name || s->root != root || s->sig != sig) {
        char b[300];
        snprintf(b, sizeof b, "collective mismatch: rank %d calls %s(root %d, sig %llx) where another rank called %s(root %d, sig %llx)", rank, name, root, (unsigned long long)sig, s->name.c_str(), s->root, (unsigned long long)s->sig);
        hUsageV(rank, b);
    }
    s->data[me].assign((const char *)data, (const char *)data + len);
    s->arrived[me] = 1; s->nArrived++;
    uint64_t id = E->nextOp++;
    Op &o = E->ops[id]; o.kind = Op::COLL; o.rank = rank; o.slot = s; o.me = me;
    s->op[me] = id;
    E->h(kind); E->h(seq); E->hash = hashBytes(E->hash, data, std::min<size_t>(len, 256));
    slotProgress(s);
    return id;
}
const void *hCollData(uint64_t op, int i, size_t *len) { Slot *s = E->ops[op].slot; *len = s->data[i].size(); static char z; return s->data[i].empty() ? &z : s->data[i].data(); }
int hCollOrder(uint64_t op) { return E->ops[op].slot->order; }
int hNewCtx(uint64_t op, int color) {
    Slot *s = E->ops[op].slot; auto it = s->ctxs.find(color);
    if (it != s->ctxs.end()) return it->second;
    return s->ctxs[color] = E->nextCtx++;
}
void hDie(int rank, const char *how, int code) {
    Fiber &f = E->fibers[rank];
    std::string hw = how;
    if (hw == "exit" && code == 0 && f.mpi != 1) { f.finished = true; f.rc = 0; E->leave(); }
    f.dead = true; f.rc = code;
    if (E->graceLeft < 0) {
        E->res.outcome = OUT_DIED; E->res.who = rank; E->res.detail = hw + " " + std::to_string(code); E->res.code = code;
        // the rest of the job keeps running until the launcher notices
        uint32_t g = 0;
        if (!E->spec.replay && E->spec.knobs.policy) g = E->rng.below(4);
        g = E->record(D_GRACE, 4, g);
        static const int grace[] = {1, 20, 400, 20000};
        E->graceLeft = grace[g];
    }
    E->res.counters["rank-death"]++;
    E->leave();
}
void hUnsupported(int rank, const char *what) { E->finish(OUT_UNSUPPORTED, rank, what); E->leave(); }
void hMpiState(int rank, int s) { E->fibers[rank].mpi = s; }
double hNow(int rank) { E->simNow += 1e-7; return E->simNow + (rank < (int)E->spec.skew.size() ? E->spec.skew[rank] : 0); }
uint64_t hEntropy(int) { E->res.counters["entropy"]++; return E->ent.next() >> 7; }
void hEmit(int rank, const char *key, const void *data, size_t len) {
    E->res.emits[rank].push_back({key, std::string((const char *)data, len)});
    E->hash = hashBytes(hashU(E->hash, rank), data, len);
}
void hLog(int rank, const char *level, const char *msg) { if (E->res.logs[rank].size() < 5000) E->res.logs[rank].push_back({level, msg}); }
void hIo(int rank, int kind, const char *path, int, size_t len, HsimIoVerdict *v) {
    static const char *kn[] = {"open", "read", "write", "close", "seek"};
    E->res.counters[std::string("io-") + kn[kind]]++;
    v->allow = len; v->err = 0; v->eof = 0;
    const char *base = strrchr(path, '/'); base = base ? base + 1 : path;
    E->h(kind); E->h(len);
    for (size_t i = 0; i < E->spec.faults.size(); i++) {
        auto &f = E->spec.faults[i];
        if (f.type == IoFault::CAPACITY) {
            if (kind != HSIM_IO_WRITE) continue;
            if (f.rank >= 0 && f.rank != rank) continue;
            if (!strstr(base, f.path.c_str())) continue;
            uint64_t used = E->capUsed[i];
            if (used + v->allow > f.nth) {
                uint64_t room = f.nth > used ? f.nth - used : 0;
                E->res.counters["fault-disk-full"]++;
                if (room == 0) { v->err = ENOSPC; return; }
                v->allow = room;
            }
            E->capUsed[i] += v->allow;
            continue;
        }
        if (f.kind != kind || (f.rank >= 0 && f.rank != rank)) continue;
        if (!strstr(base, f.path.c_str())) continue;
        uint64_t k = E->faultSeen[i]++;
        if (f.type == IoFault::EOFILE ? k < f.nth : k != f.nth) continue;  // a file that ended stays ended
        switch (f.type) {
            case IoFault::SHORT: if (len > 1) { v->allow = std::max<size_t>(1, std::min<size_t>(len, f.arg)); E->res.counters[std::string("fault-short-") + kn[kind]]++; } break;
            case IoFault::INTR: v->err = EINTR; E->res.counters[std::string("fault-eintr-") + kn[kind]]++; break;
            case IoFault::ERR: v->err = (int)f.arg; E->res.counters[std::string("fault-error-") + kn[kind]]++; break;
            case IoFault::EOFILE: v->eof = 1; E->res.counters["fault-early-eof"]++; break;
            case IoFault::CRASH:
                E->res.counters[std::string("fault-crash-at-") + kn[kind]]++;
                hDie(rank, "crash", 137);
        }
        if (v->err || v->eof) return;
    }
    // a file operation is visible to the other ranks: scheduling point
    E->fibers[rank].call = std::string("io-") + kn[kind];
    if (E->spec.n > 1) E->yield();
    if (kind == HSIM_IO_READ || kind == HSIM_IO_WRITE) {
        if (len > 1) {
            uint32_t r = 0;
            if (!E->spec.replay && E->rng.chance(E->spec.knobs.io)) r = 1 + E->rng.below(255);
            r = E->record(D_IO, 256, r);
            if (r == 1) { v->err = EINTR; E->res.counters[std::string("fault-eintr-") + kn[kind]]++; }
            else if (r > 1) { v->allow = std::max<size_t>(1, (v->allow * (r - 1)) / 256); E->res.counters[std::string("fault-short-") + kn[kind]]++; }
        }
    }
}

void hOut(int rank, int which, const char *s, size_t n) { auto &t = E->res.term[rank][which == 2]; if (t.size() < 400000) t.append(s, n); }
int hMpiFault(int rank, int what) {
    if (what) { E->mpiArmed[rank] = what == 1; return 0; }
    if (!E->mpiArmed[rank]) return 0;
    uint64_t k = ++E->mpiSeen[rank];
    if (rank != E->spec.mpiRank || k != E->spec.mpiNth) return 0;
    E->res.counters["fault-mpi-error"]++; return 1;
}
void hCount(int rank, const char *what, uint64_t n) { std::string w = what; if (w.rfind("fault-", 0) == 0) E->res.counters[w] += n; else E->res.counts[w + "-" + std::to_string(rank)] = n; }

void fiberEntry(int rank) {
    Fiber &f = E->fibers[rank];
    std::vector<std::string> args = E->spec.argv;
    std::vector<char *> argv;
    for (auto &a : args) argv.push_back(strdup(a.c_str()));
    argv.push_back(nullptr);
    NS &ns = spaces[rank];
    f.rc = ns.run(ns.mainfn, (int)args.size(), argv.data());
    f.finished = true;
    f.call = "finished";
    swapcontext(&f.uc, &E->mainCtx);
    abort();
}
}  // namespace

bool engineLoad(const std::string &so, int n, std::string &err) {
    for (int i = 0; i < n; i++) {
        NS ns;
        ns.h = dlmopen(LM_ID_NEWLM, so.c_str(), RTLD_LAZY | RTLD_LOCAL);
        if (!ns.h) { err = dlerror(); return false; }
        ns.attach = (void (*)(const HsimHost *))dlsym(ns.h, "hsim_shim_attach");
        ns.run = (int (*)(int (*)(int, char **), int, char **))dlsym(ns.h, "hsim_shim_run");
        ns.mainfn = (int (*)(int, char **))dlsym(ns.h, "hsim_rank_main");
        if (!ns.attach || !ns.run || !ns.mainfn) { err = "missing entry points in " + so; return false; }
        spaces.push_back(ns);
    }
    return true;
}

JobResult engineRun(const JobSpec &spec) {
    E = new Engine;
    Engine &e = *E;
    e.spec = spec;
    if (spec.n > (int)spaces.size()) { JobResult r; r.outcome = OUT_UNSUPPORTED; r.detail = "too many ranks"; return r; }
    e.rng = Rng(spec.seed * 2 + 1);
    e.ent = Rng(spec.seed ^ 0xabcdef1234567ull);
    for (auto &d : spec.decisions) e.replay[d.kind][d.idx] = d.val;
    e.fibers.resize(spec.n); e.hosts.resize(spec.n);
    e.res.emits.resize(spec.n); e.res.logs.resize(spec.n); e.res.term.resize(spec.n); e.mpiArmed.assign(spec.n, 0); e.mpiSeen.assign(spec.n, 0);
    e.faultSeen.assign(spec.faults.size(), 0); e.capUsed.assign(spec.faults.size(), 0);
    e.prio.resize(spec.n + spec.n * spec.n);
    for (auto &p : e.prio) p = (int)e.rng.below(1000);
    for (int i = 0; i < spec.knobs.pct; i++) e.pctPoints.insert(e.rng.below(20000));
    for (int r = 0; r < spec.n; r++) {
        HsimHost &h = e.hosts[r];
        h = HsimHost{r, spec.n, e.spec.args.c_str(), e.spec.scratch.c_str(), hNote, hYield, hPoll, hSend, hRecv, hDone, hStatus, hRelease, hWait, hPick, hProbe, hCancel, hColl, hCollData, hCollOrder, hNewCtx, hDie, hUsage, hUnsupported, hMpiState, hNow, hEntropy, hEmit, hLog, hIo, r == spec.allocRank ? spec.allocNth : 0, spec.console, hOut, hMpiFault, hCount};
        spaces[r].attach(&h);
        Fiber &f = e.fibers[r];
        f.rank = r;
        getcontext(&f.uc);
        f.stack = mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mprotect(f.stack, 4096, PROT_NONE);
        f.uc.uc_stack.ss_sp = f.stack; f.uc.uc_stack.ss_size = STACK; f.uc.uc_link = nullptr;
        makecontext(&f.uc, (void (*)())fiberEntry, 1, r);
    }
    e.schedule();
    for (auto &f : e.fibers) { e.res.last.push_back(f.finished ? "finished" : f.dead ? "dead" : f.call); e.res.rc.push_back(f.finished || f.dead ? f.rc : -1); }
    if (spec.console) for (int r = 0; r < spec.n; r++) e.res.counts["mpi-" + std::to_string(r)] = e.mpiSeen[r];
    e.res.hash = hashU(e.hash, e.res.outcome);
    e.res.simTime = e.simNow - 1.0e9;
    return e.res;
}

}  // namespace hsim

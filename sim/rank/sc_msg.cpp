// Scenario: the messaging layer (MPIContainer).
#include "common.h"
#include "Base/MpiContainer.h"
#include "LinearAlgebra/MiddleSizeVector.h"
#include <complex>
#include <deque>
#include <functional>
#include <memory>
using namespace hpgem;
namespace rk {
// ops: m<from>,<to>,<tag>,<type>,<len>,<late>  b<root>,<type>,<len>  r<root>,<type>,<len>,<op>  y  x<id>   (len -1: scalar)
// values over the whole range of a type, so that a narrowed or mixed-up type shows; reductions stay exact
static long limit(char c, long ty, long op) {
    static const long full[] = {2147483647L, 1L << 52, 127, 32767, 1L << 24, 1L << 52, 1L << 24, 1L << 52, 1L << 52}, sum[] = {1L << 27, 1L << 48, 15, 4000, 1L << 20, 1L << 48, 1L << 20, 1L << 48, 1L << 48};
    return c != 'r' || op >= 2 ? full[ty] : op == 0 ? sum[ty] : ty == 2 ? -1 : -2;
}
static long val(uint64_t seed, uint64_t op, uint64_t rank, uint64_t i, long lim) {
    uint64_t h = 7; for (uint64_t q : {seed, op, rank, i}) h = hsim::hashU(h, q);
    if (lim < 0) { long v = 1 + (long)(h >> 13) % -lim; return h & 1 ? v : -v; }  // factors of a product: not zero
    return (long)(h >> 8) % (2 * lim + 1) - lim;
}
template <class T> struct Mk { static T of(long v, long) { return (T)v; } static void put(Writer &w, T x) { w.f64((double)x); w.f64(0); } };
template <class T> struct Mk<std::complex<T>> { static std::complex<T> of(long v, long u) { return {(T)v, (T)u}; } static void put(Writer &w, std::complex<T> x) { w.f64((double)x.real()); w.f64((double)x.imag()); } };
static uint64_t seed; static int me; static std::deque<std::function<void()>> after;
template <class V, class T> void fill(V &v, std::size_t n, uint64_t op, int rank, long lim) { for (std::size_t i = 0; i < n; i++) v[i] = Mk<T>::of(val(seed, op, rank, 2 * i, lim), val(seed, op, rank, 2 * i + 1, lim)); }
template <class V, class T> void report(V &v, std::size_t n, const std::string &key) { Writer w; w.u64(n); for (std::size_t i = 0; i < n; i++) Mk<T>::put(w, v[i]); emit(key, w); }
struct Op { char c; std::vector<long> a; uint64_t id; };
static long lim(const Op &o) { return limit(o.c, o.c == 'm' ? o.a[3] : o.a[1], o.c == 'r' ? o.a[3] : 0); }
static MPI_Op mpiOp(long k) { return k == 0 ? MPI_SUM : k == 1 ? MPI_PROD : k == 2 ? MPI_MAX : MPI_MIN; }
static const long JUNK = 111;
// V: the object handed over, n: entries
template <class V, class T> void doOp(const Op &o, bool late, V &v, std::size_t n, std::shared_ptr<void> keep) {
    auto &C = Base::MPIContainer::Instance(); std::string key = "o" + std::to_string(o.id);
    if (o.c == 'm') {
        if (late) { C.receive(v, o.a[0], o.a[2]); after.push_back([&v, n, key, keep]() { report<V, T>(v, n, key); }); }
        else { C.send(v, o.a[1], o.a[2]); after.push_back([&v, n, key, keep, o]() { bool same = true; V w = v; fill<V, T>(w, n, o.id, me, lim(o)); for (std::size_t i = 0; i < n; i++) if (!(w[i] == v[i])) same = false; if (!same) emit("changed" + key, std::string("x")); for (std::size_t i = 0; i < n; i++) v[i] = Mk<T>::of(JUNK, JUNK); }); }
    } else if (o.c == 'b') { C.broadcast(v, o.a[0]); report<V, T>(v, n, key); }
    else { C.reduce(v, mpiOp(o.a[3]), o.a[0]); if (me == o.a[0]) report<V, T>(v, n, key); }
}
// scalar wrapper with operator[] so that the helpers are shared
template <class T> void scalarOp(const Op &o, bool recv) {
    struct Sc { T x; T &operator[](std::size_t) { return x; } }; auto s = std::make_shared<Sc>(); auto &C = Base::MPIContainer::Instance(); std::string key = "o" + std::to_string(o.id);
    (*s)[0] = Mk<T>::of(JUNK, JUNK); bool src = o.c == 'm' ? !recv : o.c == 'b' ? me == o.a[0] : true; if (src) fill<Sc, T>(*s, 1, o.id, me, lim(o));
    if (o.c == 'm') {
        if (recv) { C.receive(s->x, o.a[0], o.a[2]); after.push_back([s, key]() { report<Sc, T>(*s, 1, key); }); }
        else { C.send(s->x, o.a[1], o.a[2]); after.push_back([s, key, o]() { Sc w = *s; fill<Sc, T>(w, 1, o.id, me, lim(o)); if (!(w.x == s->x)) emit("changed" + key, std::string("x")); s->x = Mk<T>::of(JUNK, JUNK); }); }
    } else if (o.c == 'b') { C.broadcast(s->x, o.a[0]); report<Sc, T>(*s, 1, key); }
    else { C.reduce(s->x, mpiOp(o.a[3]), o.a[0]); if (me == o.a[0]) report<Sc, T>(*s, 1, key); }
}
template <class V, class T> void vecOp(const Op &o, bool recv, std::size_t n) {
    auto v = std::make_shared<V>(n); for (std::size_t i = 0; i < n; i++) (*v)[i] = Mk<T>::of(JUNK, JUNK); bool src = o.c == 'm' ? !recv : o.c == 'b' ? me == o.a[0] : true; if (src) fill<V, T>(*v, n, o.id, me, lim(o));
    doOp<V, T>(o, recv, *v, n, v);
}
template <class T> void typed(const Op &o, bool recv, long len) { if (len < 0) scalarOp<T>(o, recv); else vecOp<std::vector<T>, T>(o, recv, (std::size_t)len); }
static void dispatch(const Op &o, bool recv) {
    long ty = o.c == 'm' ? o.a[3] : o.a[1], len = o.c == 'm' ? o.a[4] : o.a[2];
    switch (ty) {
        case 0: typed<int>(o, recv, len); break;
        case 1: typed<long>(o, recv, len); break;
        case 2: typed<signed char>(o, recv, len); break;
        case 3: typed<short>(o, recv, len); break;
        case 4: typed<float>(o, recv, len); break;
        case 5: typed<double>(o, recv, len); break;
        case 6: typed<std::complex<float>>(o, recv, len); break;
        case 7: typed<std::complex<double>>(o, recv, len); break;
        default: vecOp<LinearAlgebra::MiddleSizeVector, double>(o, recv, len < 0 ? 1 : (std::size_t)len);
    }
}
static int msg(const Args &a, int, char **) {
    auto &C = Base::MPIContainer::Instance(); auto *h = hsim_host(); me = C.getProcessorID(); seed = a.i("seed"); int round = 0; uint64_t id = 0; std::vector<Op> lateR;
    { Writer w; w.i64(C.getProcessorID()); w.i64(C.getNumberOfProcessors()); w.i64((long)C.getNumProcessors()); emit("who", w); }
    auto flush = [&]() { for (auto &o : lateR) dispatch(o, true); lateR.clear(); Writer w; w.f64(h->now(h->rank)); C.sync(); w.f64(h->now(h->rank)); emit("t" + std::to_string(round++), w); for (auto &f : after) f(); after.clear(); };
    for (auto &t : a.list("ops")) {
        Op o; o.c = t[0]; o.id = id++; std::istringstream is(t.substr(1)); std::string q; while (std::getline(is, q, ',')) o.a.push_back(atol(q.c_str()));
        if (o.c == 'y') { flush(); continue; }
        if (o.c == 'x') { std::function<void(int)> f = [&](int k) { Writer w; w.i64(k); emit("x" + std::to_string(o.id), w); }; C.onlyOnOneProcessor<int>(o.a[0], f, (int)o.id); continue; }
        if (o.c == 'm') {
            // late: receives of a round are all posted at its end, so that messages arrive first
            if (o.a[0] == me && o.a[1] != me) dispatch(o, false);
            if (o.a[1] == me && o.a[0] != me) { if (o.a[5]) lateR.push_back(o); else dispatch(o, true); }
            if (o.a[0] == me && o.a[1] == me) { if (o.a[5]) { dispatch(o, false); lateR.push_back(o); } else { dispatch(o, true); dispatch(o, false); } }
        } else dispatch(o, false);
    }
    flush();
    return 0;
}
static RegScenario r("msg", msg);
}

// Scenarios: the solver interfaces (time stepping, norms, steady state, output).
#include <iostream>
#include "common.h"
#include "api.h"
#include "Base/HpgemAPISimplified.h"
#include "Base/HpgemAPILinear.h"
#include "Base/HpgemAPILinearSteadyState.h"
#include "Base/TimeIntegration/AllTimeIntegrators.h"
#include "Base/PhysicalElement.h"
#include "Base/PhysicalFace.h"
#include <cmath>
using namespace hpgem;
namespace rk {
using Base::IteratorType;
typedef LinearAlgebra::MiddleSizeVector Vx;
typedef LinearAlgebra::MiddleSizeMatrix Mx;
struct Param {
    std::size_t nu = 1, order = 1; bool both = false, src = false, bsrc = false, dumps = true, fixedNorms = false; double nl = 0, react = 0, amp = 1; double a[3] = {0.3, -0.2, 0.45};
    uint64_t seed = 1; std::size_t nvec = 1;
} P;
static inline void tick();
static double cpl(std::size_t v, std::size_t w) { return v == w ? -0.3 - P.react : 0.1 * (double)(1 + v) / (double)(2 + w); }
template <std::size_t DIM> double wave(const Geometry::PointPhysical<DIM> &p, double t, std::size_t v) {
    tick();
    double s = 0.3 + v; for (std::size_t d = 0; d < DIM; d++) s += (1.1 + 0.7 * d + 0.2 * v) * p[d];
    return P.amp * (std::sin(2.1 * s - 1.3 * t) + 0.4);
}
// an error (or a harmless message) at the n-th evaluation of the user's functions
static long tickAt = -1, ticks = 0; static std::string tickDo;
static void act(const std::string &w) {
    const char *f = "bad\\% value % in %, really"; std::string s = "cell seven";
    if (w != "quiet") std::cout << "last words";
    if (w == "fatal") logger(FATAL, f, 42, s); if (w == "error") logger(ERROR, f, 42, s); if (w == "always") logger.assert_always(false, f, 42, s); if (w == "fail") logger.fail(f, 42, s);
    if (w == "logerror") logger.log(Log::ERROR, f, 42, s); if (w == "logwarn") logger.log(Log::WARN, f, 42, s); if (w == "warn") logger(WARN, f, 42, s); if (w == "info") logger(INFO, f, 42, s); if (w == "verbose") logger(VERBOSE, f, 42, s); if (w == "debug") logger(DEBUG, f, 42, s);
    if (w == "quiet") logger.suppressWarnings([&] { logger(WARN, f, 42, s); });
    if (w == "throw") throw std::runtime_error("thrown by the user"); if (w == "throwchar") throw "thrown by the user"; if (w == "throwstring") throw std::string("thrown by the user"); if (w == "range") std::vector<int>(3).at(ticks + 5);
}
static inline void tick() { if (ticks++ == tickAt) act(tickDo); }
static double hval(std::initializer_list<uint64_t> l) { uint64_t h = 31; for (auto x : l) h = hsim::hashU(h, x); return ((double)(int64_t)(h >> 12) / 2251799813685248.0) - 1; }
// writes every element copy's vector
template <std::size_t DIM>
void dumpVec(Base::MeshManipulator<DIM> *m, std::size_t v, const std::string &key, double time) {
    Writer w; w.f64(time); w.u64(v); std::size_t n = 0; for (Base::Element *e : m->getElementsList(IteratorType::GLOBAL)) { (void)e; n++; } w.u64(n);
    for (Base::Element *e : m->getElementsList(IteratorType::GLOBAL)) { auto &t = e->getTimeIntegrationVector(v); w.u64(e->getID()); w.u64(e->isOwnedByCurrentProcessor()); w.u64(t.size()); for (std::size_t i = 0; i < t.size(); i++) w.f64(std::real(t[i])); }
    emit(key, w);
}
// members common to the problems of all interfaces
#define COMMON                                                                                                                          \
    typedef Geometry::PointPhysical<DIM> Pt;                                                                                            \
    LinearAlgebra::SmallVector<DIM> adv() { LinearAlgebra::SmallVector<DIM> a; for (std::size_t d = 0; d < DIM; d++) a[d] = P.a[d]; return a; } \
    Base::MeshManipulator<DIM> *mesh() { return this->meshes_[0]; }                                                                     \
    Vx getExactSolution(const Pt &p, const double &t, const std::size_t) override { Vx r(P.nu); for (std::size_t v = 0; v < P.nu; v++) r[v] = wave<DIM>(p, t, v); return r; } \
    Vx getInitialSolution(const Pt &p, const double &t, const std::size_t) override { Vx r(P.nu); for (std::size_t v = 0; v < P.nu; v++) r[v] = wave<DIM>(p, t, v) + 0.05 * v; return r; } \
    void showProgress(const double t, const std::size_t k) override { tick(); if (P.dumps) dumpVec<DIM>(mesh(), this->solutionVectorId_, "s" + std::to_string(k), t); } \
    LinearAlgebra::MiddleSizeVector::type integrateErrorAtElement(Base::Element *e, Vx &c, const double t) override { if (P.fixedNorms) return P.amp * hval({P.seed, 5, e->getID()}); return API::integrateErrorAtElement(e, c, t); } \
    Vx computeMaxErrorAtElement(Base::Element *e, const Vx &c, const double t) override { if (P.fixedNorms) { Vx r(P.nu); for (std::size_t v = 0; v < P.nu; v++) r[v] = P.amp * std::abs(hval({P.seed, 6, e->getID(), v})); return r; } return API::computeMaxErrorAtElement(e, c, t); }

template <std::size_t DIM>
struct Gen : public Base::HpgemAPISimplified<DIM> {
    typedef Base::HpgemAPISimplified<DIM> API;
    Gen(const TimeIntegration::ButcherTableau *b) : API(P.nu, P.order, b, 0, P.both) {}
    COMMON
    Vx computeRightHandSideAtElement(Base::Element *e, const Vx &c, const double t) override {
        std::function<Vx(Base::PhysicalElement<DIM> &)> f = [&](Base::PhysicalElement<DIM> &pe) {
            tick(); Vx &r = pe.getResultVector(); std::size_t nb = pe.getNumberOfBasisFunctions(); std::vector<double> u(P.nu, 0.);
            for (std::size_t v = 0; v < P.nu; v++) for (std::size_t i = 0; i < nb; i++) u[v] += std::real(c(pe.convertToSingleIndex(i, v))) * pe.basisFunction(i);
            auto a = adv(); const auto &x = pe.getPointPhysical();
            for (std::size_t v = 0; v < P.nu; v++) {
                double s = P.nl * std::sin(u[v]); for (std::size_t w = 0; w < P.nu; w++) s += cpl(v, w) * u[w];
                if (P.src) s += 0.7 * wave<DIM>(x, 3 * t, v + 2);
                for (std::size_t i = 0; i < nb; i++) r(pe.convertToSingleIndex(i, v)) = s * pe.basisFunction(i) + u[v] * (a * pe.basisFunctionDeriv(i));
            }
            return r;
        };
        return this->elementIntegrator_.integrate(e, f);
    }
    static double trace(Base::PhysicalFace<DIM> &pf, Base::Side s, const Vx &c, std::size_t v) {
        double u = 0; std::size_t nb = pf.getPhysicalElement(s).getNumberOfBasisFunctions();
        for (std::size_t i = 0; i < nb; i++) u += std::real(c(pf.getFace()->getPtrElement(s)->convertToSingleIndex(i, v))) * pf.basisFunction(s, i);
        return u;
    }
    Vx computeRightHandSideAtFace(Base::Face *fc, Vx &c, const double t) override {
        std::function<Vx(Base::PhysicalFace<DIM> &)> f = [&](Base::PhysicalFace<DIM> &pf) {
            Vx &r = pf.getResultVector(); double A = adv() * pf.getUnitNormalVector(); std::size_t nb = pf.getPhysicalElement(Base::Side::LEFT).getNumberOfBasisFunctions();
            for (std::size_t v = 0; v < P.nu; v++) {
                double u = A > 0 ? trace(pf, Base::Side::LEFT, c, v) : P.bsrc ? wave<DIM>(pf.getPointPhysical(), t, v) : 0.;
                for (std::size_t i = 0; i < nb; i++) r(fc->getPtrElementLeft()->convertToSingleIndex(i, v)) = -A * u * pf.basisFunction(Base::Side::LEFT, i);
            }
            return r;
        };
        return this->faceIntegrator_.integrate(fc, f);
    }
    Vx computeRightHandSideAtFace(Base::Face *fc, const Base::Side s, Vx &l, Vx &rr, const double) override {
        std::function<Vx(Base::PhysicalFace<DIM> &)> f = [&](Base::PhysicalFace<DIM> &pf) {
            tick(); Vx &r = pf.getResultVector(s); double A = adv() * pf.getUnitNormalVector(); std::size_t nb = pf.getPhysicalElement(s).getNumberOfBasisFunctions();
            for (std::size_t v = 0; v < P.nu; v++) {
                double u = A > 0 ? trace(pf, Base::Side::LEFT, l, v) : trace(pf, Base::Side::RIGHT, rr, v);
                for (std::size_t i = 0; i < nb; i++) r(fc->getPtrElement(s)->convertToSingleIndex(i, v)) = (s == Base::Side::LEFT ? -1 : 1) * A * u * pf.basisFunction(s, i);
            }
            return r;
        };
        return this->faceIntegrator_.integrate(fc, f);
    }
    std::pair<Vx, Vx> computeBothRightHandSidesAtFace(Base::Face *fc, Vx &l, Vx &r, const double t) override { return {computeRightHandSideAtFace(fc, Base::Side::LEFT, l, r, t), computeRightHandSideAtFace(fc, Base::Side::RIGHT, l, r, t)}; }
};
#define LINEAR                                                                                                                          \
    Mx computeIntegrandStiffnessMatrixAtElement(Base::PhysicalElement<DIM> &pe) override {                                              \
        tick(); Mx &r = pe.getResultMatrix(); std::size_t nb = pe.getNumberOfBasisFunctions(); auto a = adv(); r *= 0;                          \
        for (std::size_t v = 0; v < P.nu; v++) for (std::size_t w = 0; w < P.nu; w++) for (std::size_t i = 0; i < nb; i++) for (std::size_t j = 0; j < nb; j++) \
            r(pe.convertToSingleIndex(i, v), pe.convertToSingleIndex(j, w)) = cpl(v, w) * pe.basisFunction(i) * pe.basisFunction(j) + (v == w ? pe.basisFunction(j) * (a * pe.basisFunctionDeriv(i)) : 0.); \
        return r;                                                                                                                       \
    }                                                                                                                                   \
    Base::FaceMatrix computeIntegrandStiffnessMatrixAtFace(Base::PhysicalFace<DIM> &pf) override {                                      \
        Base::FaceMatrix &r = pf.getResultMatrix(); double A = adv() * pf.getUnitNormalVector(); r *= 0; bool in = pf.isInternal();     \
        Base::Side up = A > 0 ? Base::Side::LEFT : Base::Side::RIGHT; if (!in && A <= 0) return r;                                      \
        const Base::Face *fc = pf.getFace();                                                                                            \
        for (int q = 0; q < (in ? 2 : 1); q++) { Base::Side s = q ? Base::Side::RIGHT : Base::Side::LEFT; std::size_t nb = pf.getPhysicalElement(s).getNumberOfBasisFunctions(), nu = pf.getPhysicalElement(up).getNumberOfBasisFunctions(); \
            for (std::size_t v = 0; v < P.nu; v++) for (std::size_t i = 0; i < nb; i++) for (std::size_t j = 0; j < nu; j++)            \
                r(fc->convertToSingleIndex(s, i, v), fc->convertToSingleIndex(up, j, v)) = (q ? 1 : -1) * A * pf.basisFunction(s, i) * pf.basisFunction(up, j); } \
        return r;                                                                                                                       \
    }                                                                                                                                   \
    Vx getSourceTerm(const Pt &p, const double &t, const std::size_t) override { Vx r(P.nu); for (std::size_t v = 0; v < P.nu; v++) r[v] = P.src ? 0.7 * wave<DIM>(p, 3 * t, v + 2) : 0.; return r; } \
    Vx computeIntegrandSourceTermAtFace(Base::PhysicalFace<DIM> &pf, const double t, const std::size_t) override {                      \
        Vx &r = pf.getResultVector(); r *= 0; double A = adv() * pf.getUnitNormalVector(); if (pf.isInternal() || A >= 0 || !P.bsrc) return r; \
        std::size_t nb = pf.getPhysicalElement(Base::Side::LEFT).getNumberOfBasisFunctions();                                           \
        for (std::size_t v = 0; v < P.nu; v++) for (std::size_t i = 0; i < nb; i++) r(pf.getFace()->convertToSingleIndex(Base::Side::LEFT, i, v)) = -A * wave<DIM>(pf.getPointPhysical(), t, v) * pf.basisFunction(Base::Side::LEFT, i); \
        return r;                                                                                                                       \
    }
template <std::size_t DIM>
struct Lin : public Base::HpgemAPILinear<DIM> {
    typedef Base::HpgemAPILinear<DIM> API;
    Lin(const TimeIntegration::ButcherTableau *b) : API(P.nu, P.order, b, 0, P.src, P.bsrc) {}
    COMMON
    LINEAR
};
template <std::size_t DIM>
struct Steady : public Base::HpgemAPILinearSteadyState<DIM> {
    typedef Base::HpgemAPILinearSteadyState<DIM> API;
    Steady() : API(P.nu, P.order, true, true) {}
    COMMON
    LINEAR
};
static const TimeIntegration::ButcherTableau *rule(long r) {
    static const int o[][2] = {{1, 1}, {2, 2}, {3, 3}, {4, 4}, {5, 7}, {3, 4}}; bool tvd = r == 0 || r == 2 || r == 6; if (r == 6) r = 1;
    return TimeIntegration::AllTimeIntegrators::Instance().getRule(o[r][0], o[r][1], tvd);
}
template <std::size_t DIM, class T> void norms(T &p, std::size_t v, double t, const std::string &key) {
    Writer w; w.f64(std::real(p.computeTotalError(v, t))); Vx m = p.computeMaxError(v, t); w.u64(m.size()); for (std::size_t i = 0; i < m.size(); i++) w.f64(std::real(m[i]));
    emit(key, w);
}
// ops: i<v> initial solution into v; r<a>,<b> right-hand side of a into b; R<b>:<v>,<v>.. of a combination;
// t/T time derivative likewise; m<v> solve with the mass matrix; s<v> scale; a<a>,<b> add; o step; e norm of update; n<v> norms
template <std::size_t DIM, class T>
void apiOps(T &p, const Args &a) {
    p.tasksBeforeSolving(); double time = a.f("t0"), dt = a.f("dt", 0.01); int step = 0; auto *m = p.mesh();
    for (std::size_t v = 0; v < P.nvec; v++) for (Base::Element *e : m->getElementsList(IteratorType::GLOBAL)) { auto &x = e->getTimeIntegrationVector(v); for (std::size_t i = 0; i < x.size(); i++) x[i] = P.amp * hval({P.seed, v, e->getID(), i}); }
    for (auto &op : a.list("ops")) {
        std::vector<std::size_t> n; { std::istringstream is(op.substr(1)); std::string t; while (std::getline(is, t, ',')) n.push_back(atol(t.c_str())); }
        std::string key = "o" + std::to_string(step++); std::size_t out = 0; std::vector<std::size_t> in(n.begin() + (n.empty() ? 0 : 1), n.end()); std::vector<double> cf; for (std::size_t i = 0; i < in.size(); i++) cf.push_back(0.5 + 0.25 * i);
        switch (op[0]) {
            case 'i': out = n[0]; p.setInitialSolution(out, time, 0); break;
            case 'I': out = n[0]; p.integrateInitialSolution(out, time, 0); break;
            case 'r': out = n[0]; p.computeRightHandSide(n[1], out, time); break;
            case 'R': out = n[0]; p.computeRightHandSide(in, cf, out, time); break;
            case 't': out = n[0]; p.computeTimeDerivative(n[1], out, time); break;
            case 'T': out = n[0]; p.computeTimeDerivative(in, cf, out, time); break;
            case 'm': out = n[0]; p.solveMassMatrixEquations(out); break;
            case 's': out = n[0]; p.scaleVector(out, -0.75); break;
            case 'a': out = n[0]; p.scaleAndAddVector(out, n[1], 0.375); break;
            case 'o': p.computeOneTimeStep(time, dt); break;
            case 'e': { double e, q; std::tie(e, q) = p.computeErrorAndNormOfUpdate(dt); Writer w; w.f64(e); w.f64(q); emit("u" + std::to_string(step - 1), w); break; }
            case 'n': norms<DIM>(p, n[0], time, "n" + std::to_string(step - 1)); out = n[0]; break;
        }
        dumpVec<DIM>(m, out, key, time);
    }
}
template <std::size_t DIM, class T>
int timeDep(const Args &a, T &p) {
    p.readMesh(a.s("mesh"));
    std::vector<std::string> names; for (std::size_t v = 0; v < P.nu; v++) names.push_back("var" + std::to_string(v));
    p.setOutputNames("out", "title", "solution", names);
    if (a.s("ops").empty()) {
        P.nvec = 1;
        p.solve(a.f("t0"), a.f("t1"), a.f("dt", 0.01), a.i("frames", 1), a.i("err"));
        dumpVec<DIM>(p.mesh(), 0, "final", a.f("t1"));
        if (a.i("err")) norms<DIM>(p, 0, a.f("t1"), "norms");
    } else apiOps<DIM>(p, a);
    return 0;
}
template <std::size_t DIM>
int apiScenario(const Args &a) {
    P.nu = a.i("nu", 1); P.order = a.i("order", 1); P.both = a.i("both"); P.src = a.i("src"); P.bsrc = a.i("bsrc"); P.nl = a.f("nl"); P.react = a.f("react"); P.amp = a.f("amp", 1); P.seed = a.i("seed", 1); P.dumps = a.i("dumps", 1); P.fixedNorms = a.i("fixed");
    if (a.s("adv").size()) { auto l = a.list("adv", ','); for (std::size_t d = 0; d < 3 && d < l.size(); d++) P.a[d] = atof(l[d].c_str()); }
    auto *b = rule(a.i("rule", 3)); P.nvec = b->getNumberOfStages() + 1;
    if (a.i("kind") == 0) { Gen<DIM> p(b); return timeDep<DIM>(a, p); }
    if (a.i("kind") == 1) { Lin<DIM> p(b); return timeDep<DIM>(a, p); }
    Steady<DIM> p; p.readMesh(a.s("mesh"));
    std::vector<std::string> names; for (std::size_t v = 0; v < P.nu; v++) names.push_back("var" + std::to_string(v));
    p.setOutputNames("out", "title", "solution", names);
    for (int k = 0; k < a.i("times", 1); k++) {
        p.solveSteadyStateWithPetsc(a.i("err"));
        dumpVec<DIM>(p.mesh(), 0, "final" + (k ? std::to_string(k) : std::string()), 0);
        if (a.i("err")) norms<DIM>(p, 0, 0, "norms" + (k ? std::to_string(k) : std::string()));
        P.amp *= 1.5;
    }
    return 0;
}
static int runApi(const Args &a, int, char **) {
    auto *h = hsim_host(); if (a.i("err.rank", -1) == h->rank || a.i("err.rank", -1) == -2) { tickAt = a.i("err.at"); tickDo = a.s("err.do"); }
    h->mpiFault(h->rank, 1);
    int rc = a.i("dim") == 1 ? apiScenario<1>(a) : a.i("dim") == 2 ? apiScenario<2>(a) : apiScenario<3>(a);
    h->mpiFault(h->rank, 2); if (h->console) h->count(h->rank, "tick", ticks);
    return rc;
}
static RegScenario r1("api", runApi);
}

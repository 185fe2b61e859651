// Scenarios: DG-Max's time dependent Maxwell solver (no program of the repository offers it), and its harmonic solver for a problem with a known solution.
#include "common.h"
#include "Base/ConfigurationData.h"
#include "Base/MeshManipulator.h"
#include "DGMaxProgramUtils.h"
#include "Algorithms/DGMaxTimeIntegration.h"
#include "Algorithms/DGMaxDiscretization.h"
#include "Algorithms/DivDGMaxDiscretization.h"
#include "Algorithms/HarmonicSolver.h"
#include <iostream>
#include <sstream>
#include <cmath>
#include <complex>
using namespace hpgem;
namespace rk {
template <std::size_t DIM>
struct Problem : public SeparableTimeIntegrationProblem<DIM> {
    double sigma, w; int boundary;
    typedef LinearAlgebra::SmallVector<DIM> V; typedef Geometry::PointPhysical<DIM> Pt;
    V field(const Pt &p, double s) const { V r; for (std::size_t i = 0; i < DIM; i++) { double a = s + i; for (std::size_t d = 0; d < DIM; d++) a += (1.3 + 0.4 * d - 0.3 * i) * p[d]; r[i] = std::sin(w * a) + 0.2 * s; } return r; }
    V initialCondition(const Pt &p) const override { return field(p, 0.2); }
    V initialConditionDerivative(const Pt &p) const override { return field(p, 0.7); }
    V sourceTermRef(const Pt &p) const override { return field(p, 1.1); }
    V boundaryConditionRef(Base::PhysicalFace<DIM> &f) const override { V r; if (boundary) { V n = f.getUnitNormalVector(); r = n.crossProduct(field(f.getPointPhysical(), 1.7)); } return r; }
    double timeScalingBoundary(double t) const override { return std::cos(1.7 * t); }
    double timeScalingSource(double t) const override { return 0.5 + std::sin(2.3 * t); }
    double conductivity() const override { return sigma; }
};
template <std::size_t DIM>
int timeRun(const Args &a) {
    auto structure = DGMax::determineStructureDescription(a.s("structure", "0"), DIM);
    Base::ConfigurationData conf(1, 1);
    auto mesh = DGMax::readMesh<DIM>(a.s("mesh"), &conf, *structure, 2);
    DGMaxTimeIntegration<DIM> solver(*mesh, a.i("order"), a.f("stab"));
    Problem<DIM> p; p.sigma = a.f("sigma"); p.w = a.f("w"); p.boundary = a.i("boundary");
    TimeIntegrationParameters<DIM> q; q.method = a.i("co4", 0) ? DGMaxTimeIntegration<DIM>::CO4 : DGMaxTimeIntegration<DIM>::CO2; q.stab = a.f("stab"); q.timeStepSize = a.f("dt"); q.numberOfSteps = a.i("steps"); q.snapshotStride = a.i("stride");
    for (int round = 0; round < a.i("rounds", 1); round++) {
        solver.solve(p, q);
        std::size_t snaps = (q.numberOfSteps + q.snapshotStride - 1) / q.snapshotStride + (q.numberOfSteps % q.snapshotStride == 0);
        for (std::size_t s = 0; s < snaps; s++) {
            Writer w; std::size_t n = 0; for (Base::Element *e : mesh->getElementsList(Base::IteratorType::GLOBAL)) { (void)e; n++; } w.u64(n);
            for (Base::Element *e : mesh->getElementsList(Base::IteratorType::GLOBAL)) { LinearAlgebra::MiddleSizeVector t = e->getTimeIntegrationVector(s); w.u64(e->getID()); w.u64(e->isOwnedByCurrentProcessor()); w.u64(t.size()); for (std::size_t i = 0; i < t.size(); i++) { w.f64(std::real(t[i])); w.f64(std::imag(t[i])); } }
            emit("t" + std::to_string(round) + "-" + std::to_string(s), w);
        }
        std::ostringstream o; auto *saved = std::cout.rdbuf(o.rdbuf()); auto digits = std::cout.precision(14); std::vector<typename DGMaxDiscretization<DIM>::NormType> norms = {DGMaxDiscretization<DIM>::L2, DGMaxDiscretization<DIM>::HCurl}; if (a.i("dgnorm", 0)) norms.push_back(DGMaxDiscretization<DIM>::DG);
        solver.printErrors(norms, [&](const Geometry::PointPhysical<DIM> &x, double t) { return p.field(x, 0.3 + t); }, [&](const Geometry::PointPhysical<DIM> &x, double t) { return p.field(x, 0.9 - t); });
        std::cout.precision(digits); std::cout.rdbuf(saved); Writer w; w.str(o.str()); emit("err" + std::to_string(round), w);
        p.w *= 1.1;
    }
    return 0;
}
template <std::size_t DIM>
struct Harmonic : public ExactHarmonicProblem<DIM> {
    typedef LinearAlgebra::SmallVectorC<DIM> V; typedef Geometry::PointPhysical<DIM> Pt; double om, w; int bc;
    V field(const Pt &p, double s) const { V r; for (std::size_t i = 0; i < DIM; i++) { double q = s + i; for (std::size_t d = 0; d < DIM; d++) q += (1.3 + 0.4 * d - 0.3 * i) * p[d]; r[i] = std::complex<double>(std::sin(w * q), 0.4 * std::cos(q) + 0.2 * s); } return r; }
    double omega() const override { return om; }
    V sourceTerm(const Base::Element &, const Pt &p) const override { return field(p, 1.1); }
    DGMax::BoundaryConditionType getBoundaryConditionType(const Base::Face &f) const override {
        if (f.isInternal()) return DGMax::BoundaryConditionType::INTERNAL;
        LinearAlgebra::SmallVector<DIM> n = f.getNormalVector(f.getReferenceGeometry()->getCenter().template castDimension<DIM - 1>()); std::size_t d = 0; for (std::size_t i = 1; i < DIM; i++) if (std::fabs(n[i]) > std::fabs(n[d])) d = i;
        switch ((bc + (int)d) % 3) { case 0: return DGMax::BoundaryConditionType::DIRICHLET; case 1: return DGMax::BoundaryConditionType::SILVER_MULLER; default: return DGMax::BoundaryConditionType::NEUMANN; }
    }
    V exactSolution(const Pt &p) const override { return field(p, 0.3); }
    V exactSolutionCurl(const Pt &p) const override { return field(p, 0.8); }
};
template <std::size_t DIM>
struct HDriver : public DGMax::AbstractHarmonicSolverDriver<DIM> {
    Harmonic<DIM> p; int at = -1, count, what; double om0; Base::MeshManipulator<DIM> *mesh;
    bool stop() const override { return at == count - 1; }
    void nextProblem() override { at++; if (what & 1) p.om = om0 * (1 + 0.3 * at); else p.om = om0; if (at && (what & 4)) p.bc++; if (at && (what & 10)) p.w *= 1.2; }
    const HarmonicProblem<DIM> &currentProblem() const override { return p; }
    bool hasChanged(HarmonicProblemChanges c) const override { int q = what | (what & 4 ? 8 : 0) | (what & 10 ? 10 : 0) | (what & 1 ? 8 : 0); return at == 0 || (q & (int)c); }
    void handleResult(DGMax::AbstractHarmonicResult<DIM> &r) override {
        Writer e; e.f64(r.computeL2Error(p)); emit("l2-" + std::to_string(at), e);
        Writer w; std::size_t n = 0; for (Base::Element *e : mesh->getElementsList(Base::IteratorType::GLOBAL)) { (void)e; n++; } w.u64(n);
        for (Base::Element *e : mesh->getElementsList(Base::IteratorType::GLOBAL)) { auto f = r.computeField(e, e->getReferenceGeometry()->getCenter().template castDimension<DIM>()), g = r.computeFieldCurl(e, e->getReferenceGeometry()->getCenter().template castDimension<DIM>()); w.u64(e->getID()); w.u64(e->isOwnedByCurrentProcessor()); w.u64(2 * DIM); for (std::size_t i = 0; i < DIM; i++) { w.f64(f[i].real()); w.f64(f[i].imag()); } for (std::size_t i = 0; i < DIM; i++) { w.f64(g[i].real()); w.f64(g[i].imag()); } }
        emit("h-" + std::to_string(at), w);
    }
};
template <std::size_t DIM>
int harmonicRun(const Args &a) {
    std::shared_ptr<DGMax::AbstractDiscretization<DIM>> d;
    if (a.i("div")) { DivDGMaxDiscretizationBase::Stab s; s.stab1 = 105; s.stab2 = 0; s.stab3 = 500; s.setAllFluxeTypes(a.i("div") == 2 ? DivDGMaxDiscretization<DIM>::FluxType::BREZZI : DivDGMaxDiscretization<DIM>::FluxType::IP); if (a.i("div") == 2) s.stab1 = 5, s.stab2 = 0, s.stab3 = 1; d = std::make_shared<DivDGMaxDiscretization<DIM>>(a.i("order"), s); }
    else d = std::make_shared<DGMaxDiscretization<DIM>>(a.i("order"), 100.);
    auto structure = DGMax::determineStructureDescription(a.s("structure", "0"), DIM); Base::ConfigurationData conf(d->getNumberOfUnknowns(), 1);
    auto mesh = DGMax::readMesh<DIM>(a.s("mesh"), &conf, *structure, d->getNumberOfElementMatrices());
    HDriver<DIM> driver; driver.mesh = mesh.get(); driver.count = a.i("count"); driver.what = a.i("what"); driver.om0 = a.f("omega"); driver.p.w = a.f("w"); driver.p.bc = a.i("bc");
    DGMax::HarmonicSolver<DIM> solver(d); solver.solve(*mesh, driver); return 0;
}
static int harmonic(const Args &a, int, char **) { return a.i("dim") == 2 ? harmonicRun<2>(a) : harmonicRun<3>(a); }
static RegScenario rh("dgharm", harmonic);
static int run(const Args &a, int, char **) { return a.i("dim") == 2 ? timeRun<2>(a) : timeRun<3>(a); }
static RegScenario r("dgtime", run);
}

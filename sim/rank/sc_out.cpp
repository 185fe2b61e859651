// Scenario: the output writers on data that is a known function of position, element and time.
#include "common.h"
#include "api.h"
#include "Output/VTKTimeDependentWriter.h"
#include "Output/VTKSpecificTimeWriter.h"
#include "Output/TecplotDiscontinuousSolutionWriter.h"
#include "Output/GNUPlotDiscontinuousSolutionWriter.h"
#include <fstream>
using namespace hpgem;
namespace rk {
template <std::size_t DIM> double value(Base::Element *e, const Geometry::PointReference<DIM> &p, double t, std::size_t comp) {
    Geometry::PointPhysical<DIM> x = e->referenceToPhysical(p); double s = 1 + 10 * t + 0.5 * comp, c = 0; std::size_t n = e->getPhysicalGeometry()->getNumberOfNodes();
    for (std::size_t i = 0; i < n; i++) { Geometry::PointPhysical<DIM> v = e->getPhysicalGeometry()->getLocalNodeCoordinates(i); c += v[0] / n; }
    for (std::size_t d = 0; d < DIM; d++) s += (d + 1) * x[d];
    return s + 20 * c;
}
template <std::size_t DIM> struct GnuValues : Output::SingleElementWriter<DIM> {
    double t = 0;
    void writeOutput(const Base::Element *e, const Geometry::PointReference<DIM> &p, std::ostream &o) override { o << value<DIM>(const_cast<Base::Element *>(e), p, t, 0) << " " << value<DIM>(const_cast<Base::Element *>(e), p, t, 1); }
};
template <std::size_t DIM>
int outScenario(const Args &a) {
    typedef Geometry::PointReference<DIM> PR; typedef LinearAlgebra::SmallVector<DIM> V; typedef LinearAlgebra::SmallMatrix<DIM, DIM> M;
    Api<DIM> api(1); api.addMesh(a.s("mesh"), 0, 0, 0, 0); auto *m = api.mesh(); std::string base = a.s("base", "out"); long frames = a.i("frames", 1), arrays = a.i("arrays", 1), order = a.i("order", 1);
    double t = 0, dtf = a.f("dtf", 0.25);
    auto sc = [&](Base::Element *e, const PR &p, std::size_t) { return value<DIM>(e, p, t, 0); };
    auto ve = [&](Base::Element *e, const PR &p, std::size_t) { V v; for (std::size_t d = 0; d < DIM; d++) v[d] = value<DIM>(e, p, t, 1 + d); return v; };
    auto te = [&](Base::Element *e, const PR &p, std::size_t) { M v; for (std::size_t d = 0; d < DIM; d++) for (std::size_t q = 0; q < DIM; q++) v(d, q) = value<DIM>(e, p, t, 10 + 3 * d + q); return v; };
    std::function<double(Base::Element *, const PR &, std::size_t)> fs = sc; std::function<V(Base::Element *, const PR &, std::size_t)> fv = ve; std::function<M(Base::Element *, const PR &, std::size_t)> ft = te;
    if (a.i("vtk") == 1) {
        Output::VTKTimeDependentWriter<DIM> w(base, m, order);
        for (long k = 0; k < frames; k++) { t = dtf * k; if (arrays & 1) w.template write<double>(fs, "scalar", t); if (arrays & 2) w.template write<V>(fv, "vector", t); if (arrays & 4) w.template write<M>(ft, "tensor", t); }
    } else if (a.i("vtk") == 2) {
        typedef std::pair<Base::Element *, PR> T;
        Output::VTKSpecificTimeWriter<DIM> w(base, m, 0, order);
        std::function<T(Base::Element *, const PR &, std::size_t)> ex = [](Base::Element *e, const PR &p, std::size_t) { return T(e, p); };
        std::map<std::string, std::function<double(T &)>> s; std::map<std::string, std::function<V(T &)>> v; std::map<std::string, std::function<M(T &)>> q;
        if (arrays & 1) s["scalar"] = [&](T &x) { return sc(x.first, x.second, 0); };
        if (arrays & 2) v["vector"] = [&](T &x) { return ve(x.first, x.second, 0); };
        if (arrays & 4) q["tensor"] = [&](T &x) { return te(x.first, x.second, 0); };
        w.template writeMultiple<T>(ex, s, v, q);
    }
    if (a.i("tec")) {
        std::ofstream f(base + "." + std::to_string(Base::MPIContainer::Instance().getProcessorID()) + ".dat"); std::string dims; for (std::size_t d = 0; d < DIM; d++) dims += std::to_string(d);
        Output::TecplotDiscontinuousSolutionWriter<DIM> w(f, "title", dims, "a,b");
        for (long k = 0; k < frames; k++) { t = dtf * k; w.write(m, "zone " + std::to_string(k), k > 0 && a.i("same"), [&](const Base::Element *e, const PR &p, std::ostream &o) { o << value<DIM>(const_cast<Base::Element *>(e), p, t, 0) << " " << value<DIM>(const_cast<Base::Element *>(e), p, t, 1); }, t); }
    }
    if (a.i("gnu")) {
        std::ofstream f(base + "." + std::to_string(Base::MPIContainer::Instance().getProcessorID()) + ".gnu"); std::string dims; for (std::size_t d = 0; d < DIM; d++) dims += std::to_string(d);
        Output::GNUPlotDiscontinuousSolutionWriter<DIM> w(f, "title", dims, "a b"); GnuValues<DIM> v;
        for (long k = 0; k < frames; k++) { v.t = dtf * k; w.write(m, &v); }
    }
    emit("done", std::string("1"));
    return 0;
}
static int out(const Args &a, int, char **) { return a.i("dim") == 1 ? outScenario<1>(a) : a.i("dim") == 2 ? outScenario<2>(a) : outScenario<3>(a); }
static RegScenario r("out", out);
}

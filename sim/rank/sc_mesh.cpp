// Scenarios: structure of the mesh a rank obtains, halo exchange.
#include "common.h"
#include "api.h"
#include "Base/HpgemAPIBase.h"
#include "Base/CommandLineOptions.h"
#include "Base/ConfigurationData.h"
#include "Base/GlobalData.h"
#include "Base/MeshManipulator.h"
#include "Base/MpiContainer.h"
#include "Base/Element.h"
#include "Base/Face.h"
#include "Base/Edge.h"
#include "Base/Node.h"
#include "Base/Zone.h"
#include "FE/BasisFunctionSet.h"
#include "FE/BasisFunctions1DH1ConformingLine.h"
#include "FE/BasisFunctions2DH1ConformingSquare.h"
#include "FE/BasisFunctions2DH1ConformingTriangle.h"
#include "FE/BasisFunctions3DH1ConformingCube.h"
#include "FE/BasisFunctions3DH1ConformingTetrahedron.h"
#include "FE/BasisFunctions3DH1ConformingPrism.h"
#include "Geometry/PhysicalGeometry.h"
#include "Geometry/PointPhysical.h"
using namespace hpgem;
namespace rk {
static uint64_t kindOf(Geometry::FaceType t) {
    switch (t) { case Geometry::FaceType::WALL_BC: return 0; case Geometry::FaceType::PERIODIC_BC: return 2; case Geometry::FaceType::INTERNAL: return 3; case Geometry::FaceType::SUBDOMAIN_BOUNDARY: return 4; case Geometry::FaceType::PERIODIC_SUBDOMAIN_BC: return 5; case Geometry::FaceType::PARTIAL_FACE: return 6; default: return 7; }
}
template <std::size_t DIM>
void dumpMesh(Base::MeshManipulator<DIM> *m, const std::string &key) {
    using Base::IteratorType;
    Writer w;
    std::vector<Base::Element *> all;
    for (Base::Element *e : m->getElementsList(IteratorType::GLOBAL)) all.push_back(e);
    w.u64(all.size());
    for (Base::Element *e : all) {
        w.u64(e->getID()); w.u64(e->getOwner()); w.u64(e->isOwnedByCurrentProcessor()); w.str(e->getZone().getName());
        w.u64(e->getPhysicalGeometry()->getNumberOfNodes());
        for (std::size_t i = 0; i < e->getPhysicalGeometry()->getNumberOfNodes(); i++) { Geometry::PointPhysical<DIM> p = e->getPhysicalGeometry()->getLocalNodeCoordinates(i); for (std::size_t d = 0; d < DIM; d++) w.f64(p[d]); }
        w.u64(e->getNumberOfNodes()); for (std::size_t i = 0; i < e->getNumberOfNodes(); i++) w.i64(e->getNode(i) ? (long)e->getNode(i)->getID() : -1);
        w.u64(e->getNumberOfFaces()); for (std::size_t i = 0; i < e->getNumberOfFaces(); i++) w.i64(e->getFace(i) ? (long)e->getFace(i)->getID() : -1);
        w.u64(e->getNumberOfEdges()); for (std::size_t i = 0; i < e->getNumberOfEdges(); i++) w.i64(e->getEdge(i) ? (long)e->getEdge(i)->getID() : -1);
    }
    w.u64(m->getNumberOfElements()); std::size_t n = 0; Writer w2;
    for (Base::Element *e : m->getElementsList()) { n++; w2.u64(e->getID()); }
    w.u64(n); w.raw(w2.b.data(), w2.b.size());
    auto faces = [&](IteratorType t) {
        Writer x; std::size_t k = 0;
        for (Base::Face *f : m->getFacesList(t)) {
            k++; x.u64(f->getID()); x.u64(kindOf(f->getFaceType())); x.u64(f->isInternal()); x.u64(f->isOwnedByCurrentProcessor());
            x.u64(f->getPtrElementLeft()->getID()); x.u64(f->localFaceNumberLeft());
            x.i64(f->isInternal() ? (long)f->getPtrElementRight()->getID() : -1); x.i64(f->isInternal() ? (long)f->localFaceNumberRight() : -1);
        }
        w.u64(k); w.raw(x.b.data(), x.b.size());
    };
    faces(IteratorType::GLOBAL); faces(IteratorType::LOCAL);
    auto edges = [&](IteratorType t) {
        Writer x; std::size_t k = 0;
        for (Base::Edge *f : m->getEdgesList(t)) { k++; x.u64(f->getID()); x.u64(f->isOwnedByCurrentProcessor()); x.u64(f->getNumberOfElements()); for (std::size_t i = 0; i < f->getNumberOfElements(); i++) { x.u64(f->getElement(i)->getID()); x.u64(f->getEdgeNumber(i)); } }
        w.u64(k); w.raw(x.b.data(), x.b.size());
    };
    edges(IteratorType::GLOBAL); edges(IteratorType::LOCAL);
    auto nodes = [&](IteratorType t) {
        Writer x; std::size_t k = 0;
        for (Base::Node *f : m->getNodesList(t)) { k++; x.u64(f->getID()); x.u64(f->isOwnedByCurrentProcessor()); x.u64(f->getNumberOfElements()); for (std::size_t i = 0; i < f->getNumberOfElements(); i++) { x.u64(f->getElement(i)->getID()); x.u64(f->getNodeNumber(i)); } }
        w.u64(k); w.raw(x.b.data(), x.b.size());
    };
    nodes(IteratorType::GLOBAL); nodes(IteratorType::LOCAL);
    auto pp = [&](const std::map<int, std::vector<Base::Element *>> &mp) {
        w.u64(mp.size());
        for (auto &x : mp) { w.i64(x.first); w.u64(x.second.size()); for (auto e : x.second) w.u64(e->getID()); }
    };
    pp(m->getPullElements()); pp(m->getPushElements());
    w.u64(m->getZones().size()); for (auto &z : m->getZones()) w.str(z->getName());
    emit(key, w);
}
template <std::size_t DIM>
int meshScenario(const Args &a) {
    // in a bounded scope: hpGEM finalises MPI at exit
    {
        Api<DIM> api(a.i("unknowns", 1));
        api.addMesh(a.s("mesh"), 0, 0, 0, 0);
        dumpMesh<DIM>(api.mesh(), "mesh");
        if (a.i("second")) { api.addMesh(a.s("mesh2"), 0, 0, 0, 0); dumpMesh<DIM>(api.mesh(1), "mesh2"); }
    }
    return 0;
}
static int runMesh(const Args &a, int, char **) { return a.i("dim") == 1 ? meshScenario<1>(a) : a.i("dim") == 2 ? meshScenario<2>(a) : meshScenario<3>(a); }
static RegScenario r1("mesh", runMesh);

inline FE::BasisFunctionSet *farSet(int shape, int order) {
    switch (shape) { case 0: return FE::createDGBasisFunctionSet1DH1Line(order); case 1: return FE::createDGBasisFunctionSet2DH1Square(order); case 2: return FE::createDGBasisFunctionSet2DH1Triangle(order); case 3: return FE::createDGBasisFunctionSet3DH1Cube(order); case 4: return FE::createDGBasisFunctionSet3DH1Tetrahedron(order); default: return FE::createDGBasisFunctionSet3DH1ConformingPrism(order); }
}
// an element object for every element of the mesh this rank does not own
template <std::size_t DIM>
void makeFar(const Args &a, std::map<uint64_t, Base::Element *> &far, int rank) {
    static const int pat[6][8] = {{0, 1}, {0, 1, 2, 3}, {0, 1, 2}, {0, 1, 2, 3, 4, 5, 6, 7}, {0, 1, 2, 4}, {0, 1, 2, 4, 5, 6}};
    static const int cnt[6] = {2, 4, 3, 8, 4, 6};
    int shape = a.i("shape"); static Base::Element::CollectionOfBasisFunctionSets sets; static std::vector<Geometry::PointPhysical<DIM>> pts; static Base::Zone zone("far", 0);
    sets.emplace_back(farSet(shape, a.i("order", 1))); std::vector<std::size_t> idx;
    for (int i = 0; i < cnt[shape]; i++) { LinearAlgebra::SmallVector<DIM> v; for (std::size_t d = 0; d < DIM; d++) v[d] = (pat[shape][i] >> d) & 1; pts.emplace_back(v); idx.push_back(i); }
    auto l = a.list("far", ',');
    for (std::size_t id = 0; id < l.size(); id++) { int owner = atoi(l[id].c_str()); if (owner == rank) continue; auto *e = new Base::Element(idx, &sets, pts, a.i("unknowns", 1), 1, id, zone, owner, false); e->setDefaultBasisFunctionSet(0); far[id] = e; }
}
// ops: "u<v>" new owned data in vector v; "g<v>" garbage in the ghosts of v;
// "s<v>" synchronise v; "S<v>" synchronise, then overwrite the owned data;
// "q<rank>:<elem>" rank asks for an element
template <std::size_t DIM>
int haloScenario(const Args &a) {
    Api<DIM> api(a.i("unknowns", 1));
    api.addMesh(a.s("mesh"), 0, 0, 0, 0);
    auto *m = api.mesh();
    int nvec = a.i("nvec", 2), rank = hsim_host()->rank;
    // objects standing for far-away elements: the elements of a serial copy of the mesh
    std::map<uint64_t, Base::Element *> far;
    if (a.i("conforming")) m->useDefaultConformingBasisFunctions(a.i("order", 1)); else m->useDefaultDGBasisFunctions(a.i("order", 1));
    if (a.kv.count("far")) makeFar<DIM>(a, far, hsim_host()->rank);
    api.setNumberOfTimeIntegrationVectorsGlobally(nvec);
    for (auto &x : far) x.second->setNumberOfTimeIntegrationVectors(nvec);
    auto &sub = m->getMesh().getSubmesh();
    std::vector<uint64_t> own(nvec, 0), gst(nvec, 0);
    std::map<uint64_t, Base::Element *> present, asked;
    for (Base::Element *e : m->getElementsList(Base::IteratorType::GLOBAL)) present[e->getID()] = e;
    auto fill = [&](int v, bool owned, double g) {
        for (auto *mp : {&present, &asked}) for (auto &x : *mp) { bool o = mp == &present && x.second->isOwnedByCurrentProcessor(); if (o != owned) continue; auto &t = x.second->getTimeIntegrationVector(v); for (std::size_t i = 0; i < t.size(); i++) t[i] = owned ? coef(x.first, v, own[v], i) : g; }
        if (!owned) for (auto &x : far) if (!asked.count(x.first)) { auto &t = x.second->getTimeIntegrationVector(v); for (std::size_t i = 0; i < t.size(); i++) t[i] = -3.5; }
    };
    for (int v = 0; v < nvec; v++) { fill(v, true, 0); fill(v, false, -1e300); }
    int step = 0;
    auto dump = [&](int v) {
        Writer w; w.u64(v); w.u64(gst[v]); w.u64(own[v]); w.u64(present.size() + asked.size());
        for (auto *mp : {&present, &asked}) for (auto &x : *mp) { w.u64(x.first); w.u64(mp == &present && x.second->isOwnedByCurrentProcessor()); auto &t = x.second->getTimeIntegrationVector(v); w.u64(t.size()); for (std::size_t i = 0; i < t.size(); i++) w.f64(std::real(t[i])); }
        emit("d" + std::to_string(step), w);
        Writer f; uint64_t touched = 0; for (auto &x : far) if (!asked.count(x.first)) { auto &t = x.second->getTimeIntegrationVector(v); for (std::size_t i = 0; i < t.size(); i++) if (t[i] != -3.5) touched++; }
        f.u64(touched); emit("f" + std::to_string(step), f);
    };
    for (auto &op : a.list("ops")) {
        int v = atoi(op.c_str() + 1);
        switch (op[0]) {
            case 'u': own[v]++; fill(v, true, 0); break;
            case 'g': fill(v, false, -7e77); break;
            case 's': api.synchronize(v); gst[v] = own[v]; dump(v); break;
            case 'S': api.synchronize(v); gst[v] = own[v]; own[v]++; fill(v, true, 0); dump(v); break;
            case 'q': {
                uint64_t id = atoll(op.c_str() + op.find(':') + 1);
                if (v == rank) {
                    auto it = present.find(id), jt = far.find(id);
                    if (it != present.end()) sub.addPullElement(it->second);
                    else if (jt != far.end()) { sub.addPullElement(jt->second); if (asked.emplace(id, jt->second).second) for (int q = 0; q < nvec; q++) { auto &t = jt->second->getTimeIntegrationVector(q); for (std::size_t i = 0; i < t.size(); i++) t[i] = -1e300; } }
                }
                break;
            }
        }
        step++;
    }
    // every vector, at the end
    for (int v = 0; v < nvec; v++) { api.synchronize(v); gst[v] = own[v]; dump(v); step++; }
    return 0;
}
static int runHalo(const Args &a, int, char **) { return a.i("dim") == 1 ? haloScenario<1>(a) : a.i("dim") == 2 ? haloScenario<2>(a) : haloScenario<3>(a); }
static RegScenario r2("halo", runHalo);
}

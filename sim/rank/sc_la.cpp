// Scenarios: numbering of unknowns, assembly, global vectors.
#include "common.h"
#include "api.h"
#include "Utilities/GlobalIndexing.h"
#include "Utilities/GlobalMatrix.h"
#include "Utilities/GlobalVector.h"
#include "Utilities/Table2D.h"
#include "Geometry/PhysicalGeometry.h"
#include "LinearAlgebra/MiddleSizeMatrix.h"
using namespace hpgem;
namespace rk {
using Base::IteratorType;
using Utilities::GlobalIndexing;
static GlobalIndexing::Layout layoutOf(long l) { return l == 0 ? GlobalIndexing::SEQUENTIAL : l == 1 ? GlobalIndexing::BLOCKED_PROCESSOR : GlobalIndexing::BLOCKED_GLOBAL; }
static std::vector<std::size_t> subset(const std::string &s) { std::vector<std::size_t> v; std::istringstream is(s); std::string t; while (std::getline(is, t, ',')) if (!t.empty()) v.push_back(atol(t.c_str())); return v; }
// one degree of freedom of an element: kind 0 element, 1 face, 2 edge, 3 node
struct Dof { int kind, local; std::size_t id, unknown, i; bool owned; };
template <class F>
void eachDof(const Base::Element *e, std::size_t dim, const std::vector<std::size_t> &unk, F f) {
    for (std::size_t u : unk) {
        for (std::size_t i = 0; i < e->getLocalNumberOfBasisFunctions(u); i++) f(Dof{0, 0, e->getID(), u, i, e->isOwnedByCurrentProcessor()}, e);
        for (std::size_t k = 0; k < e->getNumberOfFaces(); k++) { const Base::Face *x = e->getFace(k); for (std::size_t i = 0; i < x->getLocalNumberOfBasisFunctions(u); i++) f(Dof{1, (int)k, x->getID(), u, i, x->isOwnedByCurrentProcessor()}, x); }
        for (std::size_t k = 0; k < e->getNumberOfEdges(); k++) { const Base::Edge *x = e->getEdge(k); for (std::size_t i = 0; i < x->getLocalNumberOfBasisFunctions(u); i++) f(Dof{2, (int)k, x->getID(), u, i, x->isOwnedByCurrentProcessor()}, x); }
        if (dim > 1) for (std::size_t k = 0; k < e->getNumberOfNodes(); k++) { const Base::Node *x = e->getNode(k); for (std::size_t i = 0; i < x->getLocalNumberOfBasisFunctions(u); i++) f(Dof{3, (int)k, x->getID(), u, i, x->isOwnedByCurrentProcessor()}, x); }
    }
}
// every element copy with its unknowns: identity, global and local number
template <std::size_t DIM>
void dumpIndex(Base::MeshManipulator<DIM> *m, const GlobalIndexing &ix, const std::string &key) {
    Writer w; w.u64(ix.getNumberOfLocalBasisFunctions()); w.u64(ix.getTotalNumberOfUnknowns()); w.u64(ix.getNumberOfIncludedUnknowns());
    for (auto u : ix.getIncludedUnknowns()) w.u64(u);
    for (std::size_t u = 0; u < ix.getTotalNumberOfUnknowns(); u++) w.u64(ix.isIncludedInIndex(u));
    std::size_t n = 0; for (Base::Element *e : m->getElementsList(IteratorType::GLOBAL)) { (void)e; n++; }
    w.u64(n);
    for (Base::Element *e : m->getElementsList(IteratorType::GLOBAL)) {
        w.u64(e->getID()); w.u64(e->isOwnedByCurrentProcessor());
        Writer x; std::size_t k = 0;
        eachDof(e, DIM, ix.getIncludedUnknowns(), [&](const Dof &d, auto *ent) {
            k++; x.u64(d.kind); x.u64(d.local); x.u64(d.unknown); x.u64(d.i); x.u64(d.owned);
            long g = ix.getGlobalIndex(ent, d.unknown) + (long)d.i; x.i64(g); x.i64(d.owned ? ix.getProcessorLocalIndex(ent, d.unknown) + (long)d.i : -1); x.i64(ix.globalToProcessorLocalIndex(g));
        });
        w.u64(k); w.raw(x.b.data(), x.b.size());
        std::vector<int> v = ix.getGlobalIndices(e); w.u64(v.size()); for (int q : v) w.i64(q);
        // deliberately a used vector
        std::vector<int> v2(3, -5); ix.getGlobalIndices(e, v2); w.u64(v2 == v);
    }
    Writer f; n = 0;
    for (Base::Face *fc : m->getFacesList()) {
        n++; std::vector<int> v(7, -9); ix.getGlobalIndices(fc, v); f.u64(fc->getPtrElementLeft()->getID()); f.i64(fc->isInternal() ? (long)fc->getPtrElementRight()->getID() : -1); f.u64(v.size()); for (int q : v) f.i64(q);
    }
    w.u64(n); w.raw(f.b.data(), f.b.size());
    emit(key, w);
}
template <std::size_t DIM>
int indexScenario(const Args &a) {
    auto basis = a.list("basis", ',');
    Api<DIM> api(basis.size());
    api.addMesh(a.s("mesh"), 0, 0, 0, 0);
    auto *m = api.mesh();
    setBasis<DIM>(m, basis);
    // ops: "<layout>:<subset>[:n]" builds or resets; n: a new object
    GlobalIndexing ix; int step = 0; bool sync = a.i("sync"); uint64_t ver = 0;
    if (sync) api.setNumberOfTimeIntegrationVectorsGlobally(1);
    // an exchange directly after the numbering, while other processes may still be numbering
    auto exchange = [&]() {
        if (!sync) return;
        ver++; Writer w; uint64_t bad = 0;
        for (Base::Element *e : m->getElementsList(IteratorType::GLOBAL)) { auto &t = e->getTimeIntegrationVector(0); for (std::size_t i = 0; i < t.size(); i++) t[i] = e->isOwnedByCurrentProcessor() ? coef(e->getID(), 0, ver, i) : -1e300; }
        api.synchronize(0);
        for (Base::Element *e : m->getElementsList(IteratorType::GLOBAL)) { auto &t = e->getTimeIntegrationVector(0); for (std::size_t i = 0; i < t.size(); i++) if (t[i] != coef(e->getID(), 0, ver, i)) bad++; }
        w.u64(bad); emit("x" + std::to_string(step), w);
    };
    for (auto &op : a.list("ops")) {
        auto p = op.find(':'); auto s = subset(op.substr(p + 1)); auto l = layoutOf(atol(op.c_str()));
        if (op[0] == 'b') { auto bs = op.substr(2); std::vector<std::string> nb; std::istringstream is(bs); std::string t; while (std::getline(is, t, ',')) nb.push_back(t); setBasis<DIM>(m, nb); sync = false; continue; }
        if (op[0] == 'x') { ix.reset(nullptr, GlobalIndexing::SEQUENTIAL); continue; }
        if (step % 2) { GlobalIndexing fresh(m, l, s.empty() ? nullptr : &s); exchange(); dumpIndex<DIM>(m, fresh, "n" + std::to_string(step)); }
        else { ix.reset(m, l, s.empty() ? nullptr : &s); exchange(); ix.verifyCompleteIndex(); dumpIndex<DIM>(m, ix, "n" + std::to_string(step)); }
        step++;
    }
    return 0;
}
static int runIndex(const Args &a, int, char **) { return a.i("dim") == 1 ? indexScenario<1>(a) : a.i("dim") == 2 ? indexScenario<2>(a) : indexScenario<3>(a); }
static RegScenario r1("index", runIndex);

static uint64_t H(std::initializer_list<uint64_t> l) { uint64_t h = 99; for (auto x : l) h = hsim::hashU(h, x); return h; }
// small non-zero integers: sums are exact in every order
static bool zeros = false;
static double ival(uint64_t h) { return zeros && h % 4 == 0 ? 0 : 1 + (double)(h % 2000); }

template <std::size_t DIM>
int assembleScenario(const Args &a) {
    auto basis = a.list("basis", ',');
    Api<DIM> api(basis.size());
    api.addMesh(a.s("mesh"), 2, 2, 2, 2);
    auto *m = api.mesh();
    setBasis<DIM>(m, basis);
    auto rs = subset(a.s("rows")), cs = subset(a.s("cols"));
    bool sym = a.i("sym"), useE = a.i("useE", 1), useF = a.i("useF"), partial = a.i("partial"), vE = a.i("vE", 1), vF = a.i("vF", 1);
    int eid = a.i("eid"), fid = a.i("fid"), ver = 0; zeros = a.i("zeros");
    GlobalIndexing rix(m, layoutOf(a.i("rl")), &rs), cix;
    if (!sym) cix.reset(m, layoutOf(a.i("cl")), &cs);
    const GlobalIndexing &colix = sym ? rix : cix;
    auto rowU = rix.getIncludedUnknowns(), colU = colix.getIncludedUnknowns();
    // couplings the face matrices use
    auto coupled = [&](std::size_t ru, std::size_t cu) { return ((a.i("fmask", -1) >> (ru * 4 + cu)) & 1) != 0; };
    typedef LinearAlgebra::MiddleSizeMatrix Mx; typedef LinearAlgebra::MiddleSizeVector Vx;
    auto unkOf = [&](const Base::Element *e, const std::vector<std::size_t> &us) { std::vector<std::size_t> v; for (auto u : us) for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(u); i++) v.push_back(u); return v; };
    auto fill = [&]() {
        for (Base::Element *e : m->getElementsList(IteratorType::GLOBAL)) {
            bool o = e->isOwnedByCurrentProcessor(); auto ru = unkOf(e, rowU), cu = unkOf(e, colU);
            Mx A(ru.size(), cu.size()); for (std::size_t i = 0; i < ru.size(); i++) for (std::size_t j = 0; j < cu.size(); j++) A(i, j) = o ? ival(H({1, (uint64_t)ver, e->getID(), i, j})) : 7e6;
            e->setElementMatrix(A, eid);
            Vx v(ru.size()); for (std::size_t i = 0; i < ru.size(); i++) v[i] = o ? ival(H({2, (uint64_t)ver, e->getID(), i})) : 7e6;
            e->setElementVector(v, eid);
        }
        for (Base::Face *f : m->getFacesList()) {
            bool o = f->isOwnedByCurrentProcessor(); int ns = f->isInternal() ? 2 : 1;
            const Base::Element *E[2] = {f->getPtrElementLeft(), ns == 2 ? f->getPtrElementRight() : nullptr}; std::size_t lf[2] = {f->localFaceNumberLeft(), ns == 2 ? f->localFaceNumberRight() : 0};
            std::vector<std::size_t> ru[2], cu[2]; for (int s = 0; s < ns; s++) { ru[s] = unkOf(E[s], rowU); cu[s] = unkOf(E[s], colU); }
            if (useF) {
                Base::FaceMatrix F(ru[0].size(), ns == 2 ? ru[1].size() : 0);
                for (int s = 0; s < ns; s++) for (int t = 0; t < ns; t++) {
                    Mx A(ru[s].size(), cu[t].size());
                    for (std::size_t i = 0; i < ru[s].size(); i++) for (std::size_t j = 0; j < cu[t].size(); j++)
                        A(i, j) = partial && !coupled(ru[s][i], cu[t][j]) ? 0 : o ? ival(H({3, (uint64_t)ver, E[s]->getID(), lf[s], i, E[t]->getID(), lf[t], j})) : 3e6;
                    F.setElementMatrix(A, s ? Base::Side::RIGHT : Base::Side::LEFT, t ? Base::Side::RIGHT : Base::Side::LEFT);
                }
                f->setFaceMatrix(F, fid);
            }
            Vx v(ru[0].size() + (ns == 2 ? ru[1].size() : 0)); std::size_t k = 0;
            for (int s = 0; s < ns; s++) for (std::size_t i = 0; i < ru[s].size(); i++) v[k++] = o ? ival(H({4, (uint64_t)ver, E[s]->getID(), lf[s], i})) : 3e6;
            f->setFaceVector(v, fid);
        }
    };
    fill();
    Utilities::Table2D<bool> fc(rowU.size(), colU.size(), useF);
    if (partial) for (std::size_t i = 0; i < rowU.size(); i++) for (std::size_t j = 0; j < colU.size(); j++) fc(i, j) = useF && coupled(rowU[i], colU[j]);
    dumpIndex<DIM>(m, rix, "rix"); dumpIndex<DIM>(m, colix, "cix");
    Utilities::GlobalPetscMatrix A(rix, colix, fc, useE ? eid : -1, useF ? fid : -1);
    Utilities::GlobalPetscVector b(rix, vE ? eid : -1, vF ? fid : -1);
    int step = 0;
    // the rows on the boundary, for boundary conditions in the strong sense
    auto boundary = [&]() {
        Writer w; uint64_t n = 0, bad = 0;
        for (Base::Face *f : m->getFacesList()) if (!f->isInternal()) {
            const Base::Element *e = f->getPtrElementLeft(); auto rg = e->getReferenceGeometry(); std::size_t lf = f->localFaceNumberLeft(); auto ln = rg->getCodim1EntityLocalIndices(lf); std::set<std::size_t> on(ln.begin(), ln.end()); std::multiset<long> want, got;
            eachDof(e, DIM, rowU, [&](const Dof &d, auto *ent) {
                bool in = d.kind == 1 ? d.local == (int)lf : d.kind == 3 ? on.count(d.local) > 0 : false;
                if (d.kind == 2) { in = true; for (std::size_t q : rg->getCodim2EntityLocalIndices(d.local)) in = in && on.count(q); }
                if (in) want.insert(rix.getGlobalIndex(ent, d.unknown) + (long)d.i);
            });
            std::size_t k = 0; std::vector<int> v; A.getMatrixBCEntries(f, k, v); for (int q : v) got.insert(q);
            n++; if (got != want || k != v.size()) bad++;
        }
        w.u64(n); w.u64(bad); emit("bc" + std::to_string(step), w);
    };
    auto dump = [&]() {
        boundary(); Writer w; Mat M = A; Vec V = b; PetscInt lo = 0, hi = 0; w.u64(ver);
        MatGetOwnershipRange(M, &lo, &hi); w.i64(lo); w.i64(hi); PetscInt clo = 0, chi = 0; MatGetOwnershipRangeColumn(M, &clo, &chi); w.i64(clo); w.i64(chi);
        PetscInt gr = 0, gc = 0; MatGetSize(M, &gr, &gc); w.i64(gr); w.i64(gc);
        for (PetscInt r = lo; r < hi; r++) { PetscInt nc = 0; const PetscInt *c = nullptr; const PetscScalar *v = nullptr; if (MatGetRow(M, r, &nc, &c, &v)) { w.u64(0); continue; } w.u64(nc); for (int k = 0; k < nc; k++) { w.i64(c[k]); w.f64(PetscRealPart(v[k])); } MatRestoreRow(M, r, &nc, &c, &v); }
        VecGetOwnershipRange(V, &lo, &hi); w.i64(lo); w.i64(hi); PetscInt gs = 0; VecGetSize(V, &gs); w.i64(gs);
        const PetscScalar *p = nullptr; if (VecGetArrayRead(V, &p)) hi = lo; for (PetscInt r = 0; r < hi - lo; r++) w.f64(PetscRealPart(p[r])); VecRestoreArrayRead(V, &p);
        MatInfo inf; MatGetInfo(M, MAT_LOCAL, &inf); w.f64(inf.mallocs);
        emit("m" + std::to_string(step++), w);
    };
    dump();
    for (auto &op : a.list("ops")) {
        switch (op[0]) {
            case 'f': ver++; fill(); break;
            case 'a': A.assemble(); b.assemble(); dump(); break;
            case 'r': A.reinit(!partial); b.reinit(); dump(); break;
            case 'l': {  // other layout
                rix.reset(m, layoutOf(atol(op.c_str() + 1)), &rs); if (!sym) cix.reset(m, layoutOf(atol(op.c_str() + 3)), &cs);
                dumpIndex<DIM>(m, rix, "rix" + std::to_string(step)); dumpIndex<DIM>(m, colix, "cix" + std::to_string(step)); A.reinit(!partial); b.reinit(); dump(); break;
            }
        }
    }
    return 0;
}
static int runAssemble(const Args &a, int, char **) { return a.i("dim") == 1 ? assembleScenario<1>(a) : a.i("dim") == 2 ? assembleScenario<2>(a) : assembleScenario<3>(a); }
static RegScenario r2("assemble", runAssemble);

// ops: d<a> new data in vector a; c<a> collect; C<a>,<u> collect one unknown;
// w<b> write back; W<b>,<u> write back one unknown; x<rank>:<seed> that
// process changes some entries; r reinitialise
template <std::size_t DIM>
int vectorScenario(const Args &a) {
    auto basis = a.list("basis", ',');
    Api<DIM> api(basis.size());
    api.addMesh(a.s("mesh"), 0, 0, 0, 0);
    auto *m = api.mesh();
    setBasis<DIM>(m, basis);
    int nvec = a.i("nvec", 2), rank = hsim_host()->rank;
    api.setNumberOfTimeIntegrationVectorsGlobally(nvec);
    std::vector<std::size_t> all; for (std::size_t u = 0; u < basis.size(); u++) all.push_back(u);
    GlobalIndexing ix(m, layoutOf(a.i("layout")));
    Utilities::GlobalPetscVector b(ix, -1, -1);
    dumpIndex<DIM>(m, ix, "ix");
    auto setData = [&](int v, uint64_t ver) {
        for (Base::Element *e : m->getElementsList(IteratorType::GLOBAL)) {
            auto &t = e->getTimeIntegrationVector(v); std::size_t k = 0;
            eachDof(e, DIM, all, [&](const Dof &d, auto *) { t[k++] = e->isOwnedByCurrentProcessor() ? coef(H({(uint64_t)d.kind, d.id, d.unknown}), v, ver, d.i) : -4e7 - v; });
        }
    };
    int step = 0; uint64_t ver = 0;
    auto dump = [&](int v) {
        Writer w; w.u64(v); std::size_t n = 0; for (Base::Element *e : m->getElementsList(IteratorType::GLOBAL)) { (void)e; n++; } w.u64(n);
        for (Base::Element *e : m->getElementsList(IteratorType::GLOBAL)) {
            auto &t = e->getTimeIntegrationVector(v); std::size_t k = 0; w.u64(e->getID()); w.u64(e->isOwnedByCurrentProcessor()); w.u64(t.size());
            eachDof(e, DIM, all, [&](const Dof &d, auto *ent) { w.u64(d.kind); w.u64(d.id); w.u64(d.unknown); w.u64(d.i); w.i64(ix.getGlobalIndex(ent, d.unknown) + (long)d.i); w.f64(k < t.size() ? std::real(t[k]) : 0); k++; });
        }
        emit("v" + std::to_string(step), w);
    };
    for (int v = 0; v < nvec; v++) { setData(v, ver++); }
    for (auto &op : a.list("ops")) {
        int v = atoi(op.c_str() + 1); auto p = op.find_first_of(",:"); long q = p == std::string::npos ? 0 : atol(op.c_str() + p + 1);
        switch (op[0]) {
            case 'd': setData(v, ver++); break;
            case 'c': b.constructFromTimeIntegrationVector(v); break;
            case 'C': b.constructFromTimeIntegrationVector(v, q); break;
            case 'w': b.writeTimeIntegrationVector(v); dump(v); break;
            case 'W': b.writeTimeIntegrationVector(v, q); dump(v); break;
            case 'r': b.reinit(); break;
            case 'x': {
                Vec V = b; PetscInt N; VecGetSize(V, &N);
                if (v == rank && N > 0) for (int k = 0; k < 5; k++) { PetscInt g = H({(uint64_t)q, (uint64_t)k}) % N; PetscScalar s = coef(q, 77, 0, g); VecSetValues(V, 1, &g, &s, INSERT_VALUES); }
                VecAssemblyBegin(V); VecAssemblyEnd(V); break;
            }
        }
        step++;
    }
    return 0;
}
static int runVector(const Args &a, int, char **) { return a.i("dim") == 1 ? vectorScenario<1>(a) : a.i("dim") == 2 ? vectorScenario<2>(a) : vectorScenario<3>(a); }
static RegScenario r3("vector", runVector);
}

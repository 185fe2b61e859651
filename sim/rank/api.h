#pragma once
#include "common.h"
#include "Base/HpgemAPIBase.h"
#include "Base/CommandLineOptions.h"
#include "Base/ConfigurationData.h"
#include "Base/GlobalData.h"
#include "Base/MeshManipulator.h"
#include "Base/MpiContainer.h"
#include "Base/Element.h"
#include "Base/Face.h"
#include "Base/Edge.h"
#include "Base/Node.h"
namespace rk {
using namespace hpgem;
template <std::size_t DIM>
struct Api : public Base::HpgemAPIBase<DIM> {
    Api(std::size_t nUnk, std::size_t levels = 1) : Base::HpgemAPIBase<DIM>(new Base::GlobalData, new Base::ConfigurationData(nUnk, levels)) {}
    Base::MeshManipulator<DIM> *mesh(int i = 0) { return this->meshes_[i]; }
};
// "c2,d1,d0": basis functions of each unknown, conforming or discontinuous
template <std::size_t DIM>
void setBasis(Base::MeshManipulator<DIM> *m, const std::vector<std::string> &l) {
    for (std::size_t u = 0; u < l.size(); u++) {
        int o = atoi(l[u].c_str() + 1);
        if (u == 0) { if (l[u][0] == 'c') m->useDefaultConformingBasisFunctions(o); else m->useDefaultDGBasisFunctions(o); }
        else { if (l[u][0] == 'c') m->useDefaultConformingBasisFunctions(o, u); else m->useDefaultDGBasisFunctions(o, u); }
    }
}
}

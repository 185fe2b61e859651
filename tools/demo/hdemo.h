// Helpers of the demos: a bare hpGEM program on a given mesh file.
#include <mpi.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include "Base/CommandLineOptions.h"
#include "Base/ConfigurationData.h"
#include "Base/Edge.h"
#include "Base/Element.h"
#include "Base/Face.h"
#include "Base/GlobalData.h"
#include "Base/HpgemAPIBase.h"
#include "Base/MeshManipulator.h"
#include "Base/MpiContainer.h"
#include "Base/Node.h"
using namespace hpgem;
template <std::size_t DIM>
struct Api : public Base::HpgemAPIBase<DIM> {
    Api(std::size_t nUnk, std::size_t levels = 1) : Base::HpgemAPIBase<DIM>(new Base::GlobalData, new Base::ConfigurationData(nUnk, levels)) {}
    using Base::HpgemAPIBase<DIM>::synchronize;
    using Base::HpgemAPIBase<DIM>::setNumberOfTimeIntegrationVectorsGlobally;
    Base::MeshManipulator<DIM> *mesh(int i = 0) { return this->meshes_[i]; }
};
static int rankOf() { return Base::MPIContainer::Instance().getProcessorID(); }
static int sizeOf() { return Base::MPIContainer::Instance().getNumberOfProcessors(); }
// every process calls this at the end: exit 1 if any saw a difference
static int verdict(long bad) {
    long all = 0; MPI_Allreduce(&bad, &all, 1, MPI_LONG, MPI_SUM, MPI_COMM_WORLD);
    if (rankOf() == 0) printf(all ? "DEMO: %ld differences\n" : "DEMO: ok\n", all);
    return all ? 1 : 0;
}

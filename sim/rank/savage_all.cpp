// Driver for the granular-flow problems the SavageHutter program is compiled with but
// does not offer (takes the place of its main.cpp).
#include <fstream>
#include <iomanip>
#include "SavageHutter1DBasic.h"
#include "SavageHutter1DWidthAveraged.h"
#include "SavageHutter1DWidthHAndU.h"
#include "SavageHutter2DBasic.h"
#include "SavageHutter2DInteriorTest.h"
#include "Base/CommandLineOptions.h"
#include "Base/MpiContainer.h"
using namespace hpgem;
static auto &name = Base::register_argument<std::string>('n', "meshName", "mesh", true);
static auto &order = Base::register_argument<std::size_t>('p', "order", "order", true);
static auto &frames = Base::register_argument<std::size_t>('O', "frames", "frames", false, 1);
static auto &startTime = Base::register_argument<double>('S', "start", "start", false, 0.0);
static auto &endTime = Base::register_argument<double>('T', "end", "end", false, 1);
static auto &dt = Base::register_argument<double>('d', "step", "step", false, 0.001);
static auto &problem = Base::register_argument<std::size_t>('q', "problem", "problem", true);
struct Width : SavageHutter2DBasic {
    using SavageHutter2DBasic::SavageHutter2DBasic;
    void write() {
        auto v = widthAverage(); if (Base::MPIContainer::Instance().getProcessorID()) return;
        std::ofstream f("width.dat"); for (auto &p : v) { f << std::setprecision(15) << p.first; for (std::size_t i = 0; i < p.second.size(); i++) f << " " << p.second[i]; f << "\n"; }
    }
};
template <class P> static P *go() { P *p = new P(order.getValue(), name.getValue()); p->solve(startTime.getValue(), endTime.getValue(), dt.getValue(), frames.getValue(), false); return p; }
int main(int argc, char **argv) {
    Base::parse_options(argc, argv);
    switch (problem.getValue()) {
        case 0: go<SavageHutter1DBasic>(); break;
        case 1: go<SavageHutter1DWidthAveraged>(); break;
        case 2: go<SavageHutter1DWidthHAndU>(); break;
        case 3: go<SavageHutter2DBasic>(); break;
        case 4: go<SavageHutter2DInteriorTest>(); break;
        default: go<Width>()->write();
    }
    return 0;
}

// P01: the jobs of the other properties under further schedules.
#include "util.h"
namespace hsim {
static const std::vector<std::string> &subs() { static const std::vector<std::string> s = {"P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P14"}; return s; }
static Case genP01(uint64_t seed, bool thorough) {
    Rng r(seed); std::string sub = subs()[r.below(subs().size())]; Case c = registry().at(sub).gen(r.next(), thorough); c.set("sub", sub); c.set("schedules", thorough ? 3 : 1);
    if (c.i("n") < 2) c.set("n", 2);
    if (sub == "P05") c.set("kf", 0);  // no visits to the known findings of P05
    c.setf("k.rdv", r.chance(0.6) ? 1 : c.f("k.rdv")); return c;
}
static void runP01(Ctx &x) {
    std::string sub = x.c.s("sub"); x.schedules = x.c.i("schedules"); x.probe("jobs-of-" + sub);
    try { registry().at(sub).run(x); }
    catch (Violation &v) {
        // what the results are is the other property's matter
        if (v.cls.rfind("schedule:", 0) == 0 || (v.cls.rfind("outcome:", 0) == 0 && x.last.rc.size() > 1)) throw;
        x.probe("other-property-violated");
    }
}
static Reg p01(Property{"P01", genP01, runP01, [] { auto s = meshShrinks(); s.push_back({"schedules", 0}); s.push_back({"order", 0}); s.push_back({"nu", 1}); return s; }(), {"ops"}});
}

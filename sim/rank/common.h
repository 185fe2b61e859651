// Rank-side helpers (compiled into the rank libraries with hpGEM's headers).
#pragma once
#include <cstdlib>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "../abi/sim_abi.h"
#include "../core/job.h"
#include "Logger.h"
namespace rk {
using hsim::Writer;
struct Args {
    std::map<std::string, std::string> kv;
    explicit Args(const char *s) { std::istringstream is(s); std::string l; while (std::getline(is, l)) { auto p = l.find('='); if (p != std::string::npos) kv[l.substr(0, p)] = l.substr(p + 1); } }
    long i(const std::string &k, long d = 0) const { auto it = kv.find(k); return it == kv.end() ? d : atol(it->second.c_str()); }
    double f(const std::string &k, double d = 0) const { auto it = kv.find(k); return it == kv.end() ? d : atof(it->second.c_str()); }
    std::string s(const std::string &k, const std::string &d = "") const { auto it = kv.find(k); return it == kv.end() ? d : it->second; }
    std::vector<std::string> list(const std::string &k, char c = ';') const { std::vector<std::string> v; std::istringstream is(s(k)); std::string t; while (std::getline(is, t, c)) if (!t.empty()) v.push_back(t); return v; }
};
inline void emit(const std::string &key, const Writer &w) { auto *h = hsim_host(); h->emit(h->rank, key.c_str(), w.b.data(), w.b.size()); }
inline void emit(const std::string &key, const std::string &s) { auto *h = hsim_host(); h->emit(h->rank, key.c_str(), s.data(), s.size()); }
// records every log message, then lets hpGEM's own handler act on it
inline void hookLogger() {
    using namespace hpgem;
    LoggerOutput *o = loggerOutput;
    auto wrap = [](std::function<void(std::string, std::string)> &f, const char *lvl) {
        auto old = f; std::string l = lvl;
        f = [old, l](std::string m, std::string s) { auto *h = hsim_host(); h->log(h->rank, l.c_str(), s.c_str()); old(m, s); };
    };
    wrap(o->onFatal, "FATAL"); wrap(o->onError, "ERROR"); wrap(o->onWarn, "WARN"); wrap(o->onInfo, "INFO"); wrap(o->onVerbose, "VERBOSE"); wrap(o->onDebug, "DEBUG"); wrap(o->onFail, "FATAL");
}
typedef int (*Scenario)(const Args &, int argc, char **argv);
std::map<std::string, Scenario> &scenarios();
struct RegScenario { RegScenario(const char *n, Scenario s) { scenarios()[n] = s; } };
// value of coefficient i of element `id` in generation `ver` of vector `vec`
inline double coef(uint64_t id, uint64_t vec, uint64_t ver, uint64_t i) {
    uint64_t h = hsim::hashU(hsim::hashU(hsim::hashU(hsim::hashU(17, id), vec), ver), i);
    return (double)(int64_t)(h >> 20) / 1048576.0 - 8388608.0;
}
}

#pragma once
#include <sstream>
#include "frame.h"
namespace hsim {
typedef std::map<std::string, std::string> KV;
inline std::string args(const KV &kv) { std::string s; for (auto &x : kv) s += x.first + "=" + x.second + "\n"; return s; }
inline std::string S(int64_t v) { return std::to_string(v); }
// job of the scenario library
inline JobSpec scen(const std::string &dir, int n, KV kv, std::vector<std::string> argv = {"hpgem"}) {
    JobSpec s; s.so = "rk_real.so"; s.n = n; s.argv = argv; s.scratch = dir; s.args = args(kv); return s;
}
// what a rank reports about its mesh
struct DElem { uint64_t id, owner, owned; std::string zone; std::vector<std::array<double, 3>> x; std::vector<int64_t> nodes, faces, edges; };
struct DFace { uint64_t id, type, internal, owned, left, lf; int64_t right, rf; };
struct DEnt { uint64_t id, owned; std::vector<std::pair<uint64_t, uint64_t>> e; };
struct Dump {
    std::vector<DElem> elems; std::vector<uint64_t> localElems; uint64_t count;
    std::vector<DFace> faces, lfaces; std::vector<DEnt> edges, ledges, nodes, lnodes;
    std::map<int, std::vector<uint64_t>> pull, push; std::vector<std::string> zones;
};
Dump readDump(const std::string &s, int dim);
// compares what the ranks hold with the mesh (throws Violation)
void checkDistributed(const MMesh &m, const JobResult &r, const std::string &key, const std::string &what);
// identity of sub-entities from (element, local number), by the mesh model
struct Ident {
    int dim; std::map<std::pair<int, int>, int> face, edge, node;
    explicit Ident(const MMesh &m);
    // kind 0 element, 1 face, 2 edge, 3 node; -1: no such entity
    int of(int kind, int elem, int local) const;
};
double coefOf(uint64_t id, uint64_t vec, uint64_t ver, uint64_t i);
void noPetscErrors(const JobResult &r, const std::string &what);
std::vector<std::pair<std::string, int64_t>> meshShrinks();
void checkHalo(Ctx &x, const JobResult &r, int nrank);
// runs of the solver interfaces (p_api.cpp)
KV apiArgs(const Case &c, const MMesh &m);
void genApi(Case &c, Rng &r, bool thorough, int minRanks);
}

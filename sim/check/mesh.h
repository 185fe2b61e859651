// Independent model of an hpGEM mesh file: generator, parser, partitioner and
// writer.  Nothing here uses hpGEM code.
#pragma once
#include <array>
#include <set>
#include <string>
#include <utility>
#include <vector>
#include "../core/job.h"
namespace hsim {
struct MNode { std::vector<std::array<double, 3>> x; };
struct MElem { std::vector<std::pair<int, int>> n; int zone = 0; };
struct MEnt { std::vector<std::pair<int, int>> e; };
struct MMesh {
    int dim = 1, version = 2;
    std::vector<MNode> nodes;
    std::vector<MElem> elems;
    std::vector<MEnt> faces, edges;   // faces: dim>=2, edges: dim==3
    std::vector<std::string> zones;
    // distribution
    int npart = 1;
    std::vector<int> owner;
    std::vector<std::set<int>> shadow, nodeParts, faceParts, edgeParts;
    std::vector<std::set<int>> nodeElems;
    bool serialOk = true;

    void distribute(int np, const std::vector<int> &own);
    std::string write(int version) const;
    static MMesh parse(const std::string &text, std::string &err);
    std::array<double, 3> coord(int e, int i) const { return nodes[elems[e].n[i].first].x[elems[e].n[i].second]; }
};
// shapes: 0 line, 1 square, 2 triangle, 3 cube, 4 tetrahedron, 5 triangular prism
struct MeshParams {
    int shape = 0, nx = 2, ny = 2, nz = 2;
    int perx = 0, pery = 0, perz = 0;
    int jitter = 0;      // move interior nodes
    int shuffle = 0;     // renumber elements, nodes, faces
    int nzones = 1;
    uint64_t seed = 1;
};
const std::vector<std::vector<int>> &faceTable(int shape);
const std::vector<std::vector<int>> &edgeTable(int shape);
MMesh generate(const MeshParams &p);
// mode: 0 blocks of the numbering, 1 random, 2 slabs in x, 3 round robin,
// 4 some parts empty, 5 grown from seeds, 6 everything on one part
std::vector<int> partition(const MMesh &m, int np, int mode, uint64_t seed);
}

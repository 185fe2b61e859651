// Independent readers of the output files.
#pragma once
#include <array>
#include <map>
#include <string>
#include <vector>
#include "util.h"
namespace hsim {
struct Xml { std::string name, text; std::map<std::string, std::string> at; std::vector<Xml> kids; std::vector<const Xml *> all(const std::string &n) const { std::vector<const Xml *> v; for (auto &k : kids) if (k.name == n) v.push_back(&k); return v; } const Xml *one(const std::string &n) const { auto v = all(n); return v.size() == 1 ? v[0] : nullptr; } };
bool parseXml(const std::string &s, Xml &root, std::string &err);
struct VCell { int type; std::vector<std::array<double, 3>> x; std::map<std::string, std::vector<double>> data; };  // data: values of all points, point by point
struct VPiece { std::vector<VCell> cells; std::map<std::string, int> arrays; };                                  // array name -> components
// file names (relative) -> contents
typedef std::map<std::string, std::string> Files;
Files readFiles(const std::string &dir, const std::string &sub);
VPiece readVtu(const std::string &name, const std::string &text, int dim);
struct VFrame { double time; std::vector<VPiece> pieces; };
VFrame readPvtu(const Files &f, const std::string &name, int nproc, int dim, std::set<std::string> &used);
std::vector<VFrame> readPvd(const Files &f, const std::string &name, int nproc, int dim, std::set<std::string> &used);
struct TZone { std::string header; double time; std::vector<std::vector<std::string>> lines; size_t cells, per; bool geometry; };
struct TFile { std::vector<std::string> vars; std::vector<TZone> zones; };
TFile readTecplot(const std::string &name, const std::string &text, int dim, int missing = 0);
// every element of the mesh exactly once, in the piece of its owner
void againstMesh(const VFrame &f, const MMesh &m, int shape, int order, const std::string &what);
void againstFrame(const VFrame &serial, const VFrame &parallel, int shape, double tol, const std::string &what, bool oneScale = false);
void tecCompare(const std::vector<TFile> &serial, const std::vector<TFile> &parallel, int dim, double tol, const std::string &what);
KV outArgs(const Case &c, const MMesh &m);
void genOut(Case &c, Rng &r, bool thorough, int minRanks);
}

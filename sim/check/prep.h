// Input files for the preprocessor and what it has to make of them.
#pragma once
#include <array>
#include "util.h"
namespace hsim {
void genPrep(Case &c, Rng &r, bool thorough);
struct PrepInput { std::string name, text; std::vector<std::string> opts; };
PrepInput prepInput(Ctx &x);
JobSpec prepJob(const std::string &dir, const PrepInput &in, const Case &c);
}

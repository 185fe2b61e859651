#pragma once
#include "job.h"
namespace hsim {
// loads `n` private copies of the rank library, each in its own link namespace
bool engineLoad(const std::string &so, int n, std::string &err);
// runs one job to completion in this (forked) process
JobResult engineRun(const JobSpec &spec);
// black box readable by the parent when the process is killed
struct BlackBox { int rank; char call[64]; uint64_t steps; };
extern BlackBox *blackBox;
}

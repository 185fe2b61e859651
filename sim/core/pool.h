#pragma once
#include "job.h"
#include <map>
#include <memory>
namespace hsim {
// entry of `hsim --zygote SO N FD`
int zygoteMain(const std::string &so, int n, int fd);
class Pool {
  public:
    explicit Pool(std::string self) : self_(std::move(self)) {}
    ~Pool();
    JobResult run(const JobSpec &spec);
    int maxRanks = 8, bigRanks = 12;  // more than maxRanks processes use a second zygote
  private:
    struct Z { int pid = -1, fd = -1; };
    std::string self_;
    std::map<std::string, Z> z_;
    Z &get(const std::string &so, bool big);
    void kill(const std::string &so);
};
bool writeAll(int fd, const void *p, size_t n);
bool readAll(int fd, void *p, size_t n);
}

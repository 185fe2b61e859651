#include <cstdio>
#include "common.h"
#include "Base/CommandLineOptions.h"
#include "Base/MpiContainer.h"
#ifdef HPGEM_USE_ANY_PETSC
#include <petscsys.h>
// records what PETSc complains about (hpGEM mostly ignores its error codes)
static PetscErrorCode onPetsc(MPI_Comm, int line, const char *fun, const char *file, PetscErrorCode n, PetscErrorType p, const char *mess, void *) {
    if (p == PETSC_ERROR_INITIAL) { std::string s = std::string(fun ? fun : "?") + ": " + (mess ? mess : ""); (void)line; (void)file; hsim_host()->log(hsim_host()->rank, "PETSC", s.c_str()); }
    return n;
}
#endif
namespace rk { std::map<std::string, Scenario> &scenarios() { static std::map<std::string, Scenario> s; return s; } }
extern "C" __attribute__((visibility("default"))) int hsim_rank_main(int argc, char **argv) {
    rk::Args a(hsim_host()->args);
    rk::hookLogger();
    auto it = rk::scenarios().find(a.s("scenario"));
    if (it == rk::scenarios().end()) { hsim_host()->unsupported(hsim_host()->rank, ("scenario " + a.s("scenario")).c_str()); }
    if (!a.i("noparse")) hpgem::Base::parse_options(argc, argv);
#ifdef HPGEM_USE_ANY_PETSC
    PetscPushErrorHandler(onPetsc, nullptr);
#endif
    return it->second(a, argc, argv);
}

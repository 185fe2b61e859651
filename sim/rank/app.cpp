// Runs an unmodified hpGEM application's main as a simulated rank.
#include "common.h"
extern "C" int hsim_app_main(int, char **) __asm__("main");
extern "C" __attribute__((visibility("default"))) int hsim_rank_main(int argc, char **argv) {
    rk::hookLogger();
    return hsim_app_main(argc, argv);
}

#ifdef HSIM_PETSC_LU
// PETSc's own LU is sequential and the parallel one (MUMPS) needs Fortran MPI; a
// hard-coded LU on several processes becomes PETSc's redundant LU instead.
#include <petscpc.h>
#include <dlfcn.h>
#include <cstring>
extern "C" __attribute__((visibility("default"))) PetscErrorCode PCSetType(PC pc, PCType t) {
    typedef PetscErrorCode (*F)(PC, PCType);
    static F real = (F)dlsym(RTLD_NEXT, "PCSetType");
    int n = 1; MPI_Comm c; if (!PetscObjectGetComm((PetscObject)pc, &c)) MPI_Comm_size(c, &n);
    return real(pc, n > 1 && t && !strcmp(t, "lu") ? "redundant" : t);
}
#endif

// ABI between the simulator core (base link namespace) and the per-rank link
// namespaces (fake MPI shim, libc interposers, scenario code).  Plain C.
#ifndef HSIM_ABI_H
#define HSIM_ABI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

enum { HSIM_ANY = -1 };
enum { HSIM_SEND_STD = 0, HSIM_SEND_SYNC = 1, HSIM_SEND_BUF = 2 };
enum { HSIM_WAIT_ALL = 0, HSIM_WAIT_ANY = 1 };

// which contributions a rank needs before a collective completes locally
enum {
    HSIM_DEP_ALL = 0,
    HSIM_DEP_ROOT_GETS_ALL = 1,
    HSIM_DEP_ALL_GET_ROOT = 2,
    HSIM_DEP_PREFIX = 3
};

typedef struct {
    int srcWorld;
    int tag;
    size_t len;     // bytes of the message
    int truncated;  // message longer than the receive buffer
} HsimStatus;

enum { HSIM_IO_OPEN = 0, HSIM_IO_READ = 1, HSIM_IO_WRITE = 2, HSIM_IO_CLOSE = 3, HSIM_IO_SEEK = 4 };
typedef struct {
    size_t allow;  // bytes allowed through (<= len)
    int err;       // errno to return instead (0: none); EINTR allowed
    int eof;       // reads: pretend end of file
    int corrupt;   // reads: flip
} HsimIoVerdict;

typedef struct HsimHost {
    int rank;
    int size;
    const char *args;     // scenario argument string
    const char *scratch;  // directory whose files are simulated "disk"

    void (*note)(int rank, const char *call);   // name of the MPI call being made
    void (*yield)(int rank);                    // scheduling point
    void (*poll)(int rank);                     // scheduling point of a polling call
    // point to point
    uint64_t (*send)(int rank, int dstWorld, int ctx, int tag, const void *buf,
                     size_t len, int mode);
    uint64_t (*recv)(int rank, int ctx, int srcWorld, int tag, void *buf,
                     size_t maxlen);
    int (*done)(uint64_t op);
    void (*status)(uint64_t op, HsimStatus *st);
    void (*release)(uint64_t op);
    void (*wait)(int rank, const uint64_t *ops, int n, int mode);
    int (*pick)(int rank, int n);  // scheduler picks one of n equally legal results
    int (*probe)(int rank, int ctx, int srcWorld, int tag, int blocking,
                 HsimStatus *st);
    int (*cancel)(uint64_t op);
    // collectives
    uint64_t (*coll)(int rank, int ctx, const int *group, int n, int me,
                     int kind, const char *name, int dep, int root,
                     uint64_t sig, const void *contrib, size_t len);
    const void *(*collData)(uint64_t op, int i, size_t *len);
    int (*collOrder)(uint64_t op);
    int (*newCtx)(uint64_t op, int color);  // same result on every member
    // lifecycle
    void (*die)(int rank, const char *how, int code);  // never returns
    void (*usage)(int rank, const char *what);         // illegal MPI use; never returns
    void (*unsupported)(int rank, const char *what);   // harness gap; never returns
    void (*mpiState)(int rank, int state);             // 1 init, 2 finalized
    double (*now)(int rank);
    uint64_t (*entropy)(int rank);
    // results
    void (*emit)(int rank, const char *key, const void *data, size_t len);
    void (*log)(int rank, const char *level, const char *msg);
    // simulated disk
    void (*io)(int rank, int kind, const char *path, int fd, size_t len,
               HsimIoVerdict *v);
    // faults of the process itself
    int64_t allocFail;    // the n-th C++ allocation fails (0: never); negative: from the n-th on
    int console;          // std::cout and std::cerr go to the simulator
    void (*out)(int rank, int which, const char *s, size_t n);
    int (*mpiFault)(int rank, int what);  // 0: does this MPI call fail?  1/2: from here on / until here
    void (*count)(int rank, const char *what, uint64_t n);
} HsimHost;

// exported by the rank library
int hsim_rank_main(int argc, char **argv);
// exported by the shim
void hsim_shim_attach(const HsimHost *h);
int hsim_shim_run(int (*mainfn)(int, char **), int argc, char **argv);
const HsimHost *hsim_host(void);

#ifdef __cplusplus
}
#endif
#endif

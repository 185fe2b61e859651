// A fake libmpi.so.40 with Open MPI's ABI.  One copy lives in every simulated
// rank's link namespace.  Everything that involves another rank, time or a
// choice is forwarded to the simulator core through HsimHost; datatypes,
// reductions, communicators, attributes and requests are handled here.
#define OMPI_SKIP_MPICXX 1
#define OMPI_OMIT_MPI1_COMPAT_DECLS 0
#include <mpi.h>
#include <algorithm>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "sim_abi.h"

#define EXPORT extern "C" __attribute__((visibility("default")))

static const HsimHost *H = nullptr;
EXPORT void hsim_shim_attach(const HsimHost *h) { H = h; }
EXPORT const HsimHost *hsim_host(void) { return H; }

// ---------------------------------------------------------------- datatypes
enum Kind {
    K_NONE = 0, K_CHAR, K_SCHAR, K_UCHAR, K_BYTE, K_SHORT, K_USHORT, K_INT,
    K_UINT, K_LONG, K_ULONG, K_LLONG, K_ULLONG, K_FLOAT, K_DOUBLE, K_LDOUBLE,
    K_FCPLX, K_DCPLX, K_LDCPLX, K_BOOL, K_2INT, K_FLOATINT, K_DBLINT,
    K_LONGINT, K_SHORTINT, K_2DBL, K_PACKED, K_WCHAR, K_2FLT
};
struct Block { ptrdiff_t off; size_t len; };
struct TypeImpl {
    std::vector<Block> blocks;
    int combiner = MPI_COMBINER_NAMED;
    std::vector<int> ints;
    std::vector<MPI_Aint> aints;
    std::vector<MPI_Datatype> types;
    std::string name;
    std::map<int, void *> attrs;
};
struct ompi_datatype_t {
    int kind;
    long size;    // packed bytes
    long lb;
    long extent;
    long contiguous;
    TypeImpl *impl;
};
struct ompi_predefined_datatype_t {
    ompi_datatype_t d;
    char pad[480];
};
#define DT(name, kind, T)                                        \
    EXPORT struct ompi_predefined_datatype_t name;               \
    struct ompi_predefined_datatype_t name = {                   \
        {kind, (long)sizeof(T), 0, (long)sizeof(T), 1, nullptr}, {0}};
struct FI { float v; int i; };
struct DI { double v; int i; };
struct LI { long v; int i; };
struct SI { short v; int i; };
struct II { int v; int i; };
struct DD { double v; double i; };
struct FF { float v; float i; };
extern "C" {
DT(ompi_mpi_char, K_CHAR, char)
DT(ompi_mpi_signed_char, K_SCHAR, signed char)
DT(ompi_mpi_unsigned_char, K_UCHAR, unsigned char)
DT(ompi_mpi_byte, K_BYTE, char)
DT(ompi_mpi_packed, K_PACKED, char)
DT(ompi_mpi_short, K_SHORT, short)
DT(ompi_mpi_unsigned_short, K_USHORT, unsigned short)
DT(ompi_mpi_int, K_INT, int)
DT(ompi_mpi_unsigned, K_UINT, unsigned)
DT(ompi_mpi_long, K_LONG, long)
DT(ompi_mpi_unsigned_long, K_ULONG, unsigned long)
DT(ompi_mpi_long_long_int, K_LLONG, long long)
DT(ompi_mpi_unsigned_long_long, K_ULLONG, unsigned long long)
DT(ompi_mpi_float, K_FLOAT, float)
DT(ompi_mpi_double, K_DOUBLE, double)
DT(ompi_mpi_long_double, K_LDOUBLE, long double)
DT(ompi_mpi_wchar, K_WCHAR, int)
DT(ompi_mpi_cxx_bool, K_BOOL, bool)
DT(ompi_mpi_cxx_cplex, K_FCPLX, std::complex<float>)
DT(ompi_mpi_cxx_dblcplex, K_DCPLX, std::complex<double>)
DT(ompi_mpi_cxx_ldblcplex, K_LDCPLX, std::complex<long double>)
DT(ompi_mpi_logical, K_INT, int)
DT(ompi_mpi_character, K_CHAR, char)
DT(ompi_mpi_integer, K_INT, int)
DT(ompi_mpi_real, K_FLOAT, float)
DT(ompi_mpi_dblprec, K_DOUBLE, double)
DT(ompi_mpi_cplex, K_FCPLX, std::complex<float>)
DT(ompi_mpi_dblcplex, K_DCPLX, std::complex<double>)
DT(ompi_mpi_ldblcplex, K_LDCPLX, std::complex<long double>)
DT(ompi_mpi_2int, K_2INT, II)
DT(ompi_mpi_2integer, K_2INT, II)
DT(ompi_mpi_2real, K_2FLT, FF)
DT(ompi_mpi_2dblprec, K_2DBL, DD)
DT(ompi_mpi_float_int, K_FLOATINT, FI)
DT(ompi_mpi_double_int, K_DBLINT, DI)
DT(ompi_mpi_short_int, K_SHORTINT, SI)
DT(ompi_mpi_long_int, K_LONGINT, LI)
DT(ompi_mpi_integer1, K_SCHAR, int8_t)
DT(ompi_mpi_integer2, K_SHORT, int16_t)
DT(ompi_mpi_integer4, K_INT, int32_t)
DT(ompi_mpi_integer8, K_LONG, int64_t)
DT(ompi_mpi_real4, K_FLOAT, float)
DT(ompi_mpi_real8, K_DOUBLE, double)
DT(ompi_mpi_complex8, K_FCPLX, std::complex<float>)
DT(ompi_mpi_complex16, K_DCPLX, std::complex<double>)
DT(ompi_mpi_int8_t, K_SCHAR, int8_t)
DT(ompi_mpi_uint8_t, K_UCHAR, uint8_t)
DT(ompi_mpi_int16_t, K_SHORT, int16_t)
DT(ompi_mpi_uint16_t, K_USHORT, uint16_t)
DT(ompi_mpi_int32_t, K_INT, int32_t)
DT(ompi_mpi_uint32_t, K_UINT, uint32_t)
DT(ompi_mpi_int64_t, K_LONG, int64_t)
DT(ompi_mpi_uint64_t, K_ULONG, uint64_t)
DT(ompi_mpi_aint, K_LONG, MPI_Aint)
DT(ompi_mpi_offset, K_LONG, long)
DT(ompi_mpi_count, K_LONG, long)
DT(ompi_mpi_c_bool, K_BOOL, bool)
DT(ompi_mpi_c_float_complex, K_FCPLX, std::complex<float>)
DT(ompi_mpi_c_double_complex, K_DCPLX, std::complex<double>)
DT(ompi_mpi_c_long_double_complex, K_LDCPLX, std::complex<long double>)
struct ompi_predefined_datatype_t ompi_mpi_datatype_null = {{K_NONE, 0, 0, 0, 1, nullptr}, {0}};
}

static void packInto(const void *buf, long count, MPI_Datatype t, std::vector<char> &out) {
    if (count <= 0 || t->size == 0) return;
    size_t o = out.size();
    out.resize(o + (size_t)count * t->size);
    if (t->contiguous) {
        memcpy(&out[o], (const char *)buf + t->lb, (size_t)count * t->size);
        return;
    }
    char *p = &out[o];
    for (long i = 0; i < count; i++)
        for (auto &b : t->impl->blocks) {
            memcpy(p, (const char *)buf + i * t->extent + b.off, b.len);
            p += b.len;
        }
}
static std::vector<char> pack(const void *buf, long count, MPI_Datatype t) {
    std::vector<char> v;
    packInto(buf, count, t, v);
    return v;
}
// returns bytes consumed
static size_t unpack(const char *src, size_t n, void *buf, long count, MPI_Datatype t) {
    if (count <= 0 || t->size == 0) return 0;
    size_t total = (size_t)count * t->size;
    if (n > total) n = total;
    if (t->contiguous) {
        memcpy((char *)buf + t->lb, src, n);
        return n;
    }
    size_t used = 0;
    for (long i = 0; i < count; i++)
        for (auto &b : t->impl->blocks) {
            if (used + b.len > n) return used;
            memcpy((char *)buf + i * t->extent + b.off, src + used, b.len);
            used += b.len;
        }
    return used;
}

static MPI_Datatype newType() {
    auto *t = new ompi_datatype_t{K_NONE, 0, 0, 0, 0, new TypeImpl};
    return t;
}
static std::vector<Block> blocksOf(MPI_Datatype t) {
    if (t->contiguous) return t->size ? std::vector<Block>{{t->lb, (size_t)t->size}} : std::vector<Block>{};
    return t->impl->blocks;
}
static void addBlocks(MPI_Datatype nt, MPI_Datatype old, ptrdiff_t disp, long blocklen) {
    auto bs = blocksOf(old);
    for (long i = 0; i < blocklen; i++)
        for (auto &b : bs) {
            ptrdiff_t off = disp + i * old->extent + b.off;
            auto &v = nt->impl->blocks;
            if (!v.empty() && v.back().off + (ptrdiff_t)v.back().len == off)
                v.back().len += b.len;
            else
                v.push_back({off, b.len});
        }
}
static void finishType(MPI_Datatype t, bool hasBounds, long lb, long ub) {
    t->size = 0;
    long mn = 0, mx = 0;
    bool first = true;
    for (auto &b : t->impl->blocks) {
        t->size += b.len;
        if (first || b.off < mn) mn = b.off;
        if (first || b.off + (long)b.len > mx) mx = b.off + (long)b.len;
        first = false;
    }
    if (hasBounds) { mn = lb; mx = ub; }
    t->lb = mn;
    t->extent = mx - mn;
    t->contiguous = t->impl->blocks.empty() ||
                    (t->impl->blocks.size() == 1 && t->impl->blocks[0].off == t->lb &&
                     (long)t->impl->blocks[0].len == t->extent);
}
EXPORT int MPI_Type_size(MPI_Datatype t, int *s) { *s = (int)t->size; return 0; }
EXPORT int MPI_Type_size_x(MPI_Datatype t, MPI_Count *s) { *s = t->size; return 0; }
EXPORT int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *e) { *lb = t->lb; *e = t->extent; return 0; }
EXPORT int MPI_Type_get_true_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *e) {
    auto bs = blocksOf(t);
    long mn = 0, mx = 0; bool f = true;
    for (auto &b : bs) { if (f || b.off < mn) mn = b.off; if (f || b.off + (long)b.len > mx) mx = b.off + (long)b.len; f = false; }
    *lb = mn; *e = mx - mn; return 0;
}
EXPORT int MPI_Type_commit(MPI_Datatype *) { return 0; }
EXPORT int MPI_Type_free(MPI_Datatype *t) { *t = MPI_DATATYPE_NULL; return 0; }  // leaked: may be in use
EXPORT int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype *t) {
    *t = newType(); addBlocks(*t, o, 0, n);
    finishType(*t, true, o->lb, o->lb + (long)n * o->extent);
    (*t)->impl->combiner = MPI_COMBINER_CONTIGUOUS; (*t)->impl->ints = {n}; (*t)->impl->types = {o};
    return 0;
}
EXPORT int MPI_Type_vector(int n, int bl, int stride, MPI_Datatype o, MPI_Datatype *t) {
    *t = newType(); for (int i = 0; i < n; i++) addBlocks(*t, o, (ptrdiff_t)i * stride * o->extent, bl);
    finishType(*t, false, 0, 0);
    (*t)->impl->combiner = MPI_COMBINER_VECTOR; (*t)->impl->ints = {n, bl, stride}; (*t)->impl->types = {o};
    return 0;
}
EXPORT int MPI_Type_create_hvector(int n, int bl, MPI_Aint stride, MPI_Datatype o, MPI_Datatype *t) {
    *t = newType(); for (int i = 0; i < n; i++) addBlocks(*t, o, i * stride, bl);
    finishType(*t, false, 0, 0);
    (*t)->impl->combiner = MPI_COMBINER_HVECTOR; return 0;
}
EXPORT int MPI_Type_indexed(int n, const int bl[], const int d[], MPI_Datatype o, MPI_Datatype *t) {
    *t = newType(); for (int i = 0; i < n; i++) addBlocks(*t, o, (ptrdiff_t)d[i] * o->extent, bl[i]);
    finishType(*t, false, 0, 0);
    (*t)->impl->combiner = MPI_COMBINER_INDEXED; return 0;
}
EXPORT int MPI_Type_create_hindexed(int n, const int bl[], const MPI_Aint d[], MPI_Datatype o, MPI_Datatype *t) {
    *t = newType(); for (int i = 0; i < n; i++) addBlocks(*t, o, d[i], bl[i]);
    finishType(*t, false, 0, 0);
    (*t)->impl->combiner = MPI_COMBINER_HINDEXED; return 0;
}
EXPORT int MPI_Type_create_indexed_block(int n, int bl, const int d[], MPI_Datatype o, MPI_Datatype *t) {
    *t = newType(); for (int i = 0; i < n; i++) addBlocks(*t, o, (ptrdiff_t)d[i] * o->extent, bl);
    finishType(*t, false, 0, 0);
    (*t)->impl->combiner = MPI_COMBINER_INDEXED_BLOCK; return 0;
}
EXPORT int MPI_Type_create_struct(int n, const int bl[], const MPI_Aint d[], const MPI_Datatype o[], MPI_Datatype *t) {
    *t = newType(); for (int i = 0; i < n; i++) addBlocks(*t, o[i], d[i], bl[i]);
    finishType(*t, false, 0, 0);
    // C struct padding: round the extent up to the largest basic alignment
    long al = 1; for (int i = 0; i < n; i++) if (o[i]->kind) al = std::max(al, std::min(o[i]->size, 16L));
    if ((*t)->extent % al) { long e = ((*t)->extent + al - 1) / al * al; finishType(*t, true, (*t)->lb, (*t)->lb + e); }
    (*t)->impl->combiner = MPI_COMBINER_STRUCT; return 0;
}
EXPORT int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint lb, MPI_Aint e, MPI_Datatype *t) {
    *t = newType(); addBlocks(*t, o, 0, 1); finishType(*t, true, lb, lb + e);
    (*t)->impl->combiner = MPI_COMBINER_RESIZED; (*t)->impl->types = {o}; return 0;
}
EXPORT int MPI_Type_dup(MPI_Datatype o, MPI_Datatype *t) {
    *t = newType(); addBlocks(*t, o, 0, 1); finishType(*t, true, o->lb, o->lb + o->extent);
    (*t)->kind = o->kind; (*t)->impl->combiner = MPI_COMBINER_DUP; (*t)->impl->types = {o}; return 0;
}
EXPORT int MPI_Type_get_envelope(MPI_Datatype t, int *ni, int *na, int *nd, int *c) {
    if (!t->impl) { *ni = *na = *nd = 0; *c = MPI_COMBINER_NAMED; return 0; }
    *ni = t->impl->ints.size(); *na = t->impl->aints.size(); *nd = t->impl->types.size(); *c = t->impl->combiner; return 0;
}
EXPORT int MPI_Type_get_contents(MPI_Datatype t, int, int, int, int ints[], MPI_Aint a[], MPI_Datatype d[]) {
    if (!t->impl) return MPI_ERR_TYPE;
    std::copy(t->impl->ints.begin(), t->impl->ints.end(), ints);
    std::copy(t->impl->aints.begin(), t->impl->aints.end(), a);
    std::copy(t->impl->types.begin(), t->impl->types.end(), d); return 0;
}
EXPORT int MPI_Type_match_size(int cls, int size, MPI_Datatype *t) {
    if (cls == MPI_TYPECLASS_REAL) *t = size == 4 ? MPI_FLOAT : size == 8 ? MPI_DOUBLE : MPI_LONG_DOUBLE;
    else if (cls == MPI_TYPECLASS_INTEGER) *t = size == 1 ? MPI_INT8_T : size == 2 ? MPI_INT16_T : size == 4 ? MPI_INT32_T : MPI_INT64_T;
    else *t = size == 8 ? MPI_C_FLOAT_COMPLEX : MPI_C_DOUBLE_COMPLEX;
    return 0;
}
EXPORT int MPI_Type_get_name(MPI_Datatype t, char *n, int *l) { std::string s = t->impl ? t->impl->name : "basic"; strcpy(n, s.c_str()); *l = s.size(); return 0; }
EXPORT int MPI_Type_set_name(MPI_Datatype t, const char *n) { if (t->impl) t->impl->name = n; return 0; }
EXPORT int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return 0; }

// ---------------------------------------------------------------- ops
struct ompi_op_t { int op; MPI_User_function *fn; long commute; };
struct ompi_predefined_op_t { ompi_op_t o; char pad[480]; };
enum { O_NULL, O_MIN, O_MAX, O_SUM, O_PROD, O_LAND, O_BAND, O_LOR, O_BOR, O_LXOR, O_BXOR, O_MAXLOC, O_MINLOC, O_REPLACE, O_NOOP, O_USER };
#define OP(n, k) struct ompi_predefined_op_t n = {{k, nullptr, 1}, {0}};
extern "C" {
OP(ompi_mpi_op_null, O_NULL) OP(ompi_mpi_op_min, O_MIN) OP(ompi_mpi_op_max, O_MAX) OP(ompi_mpi_op_sum, O_SUM)
OP(ompi_mpi_op_prod, O_PROD) OP(ompi_mpi_op_land, O_LAND) OP(ompi_mpi_op_band, O_BAND) OP(ompi_mpi_op_lor, O_LOR)
OP(ompi_mpi_op_bor, O_BOR) OP(ompi_mpi_op_lxor, O_LXOR) OP(ompi_mpi_op_bxor, O_BXOR) OP(ompi_mpi_op_maxloc, O_MAXLOC)
OP(ompi_mpi_op_minloc, O_MINLOC) OP(ompi_mpi_op_replace, O_REPLACE) OP(ompi_mpi_op_no_op, O_NOOP)
}
EXPORT int MPI_Op_create(MPI_User_function *f, int commute, MPI_Op *op) { *op = new ompi_op_t{O_USER, f, commute}; return 0; }
EXPORT int MPI_Op_free(MPI_Op *op) { *op = MPI_OP_NULL; return 0; }
EXPORT int MPI_Op_commutative(MPI_Op op, int *c) { *c = op->commute; return 0; }

template <class T> static void arith(int op, const T *a, T *b, long n) {
    for (long i = 0; i < n; i++) switch (op) {
        case O_SUM: b[i] = a[i] + b[i]; break;
        case O_PROD: b[i] = a[i] * b[i]; break;
        case O_REPLACE: b[i] = a[i]; break;
        case O_NOOP: break;
        default: H->usage(H->rank, "reduction operation not defined for this datatype");
    }
}
template <class T> static void ordered(int op, const T *a, T *b, long n) {
    for (long i = 0; i < n; i++) switch (op) {
        case O_MIN: b[i] = a[i] < b[i] ? a[i] : b[i]; break;
        case O_MAX: b[i] = a[i] > b[i] ? a[i] : b[i]; break;
        case O_LAND: b[i] = a[i] && b[i]; break;
        case O_LOR: b[i] = a[i] || b[i]; break;
        case O_LXOR: b[i] = (!a[i]) != (!b[i]); break;
        default: arith(op, a + i, b + i, 1);
    }
}
template <class T> static void integral(int op, const T *a, T *b, long n) {
    for (long i = 0; i < n; i++) switch (op) {
        case O_BAND: b[i] = a[i] & b[i]; break;
        case O_BOR: b[i] = a[i] | b[i]; break;
        case O_BXOR: b[i] = a[i] ^ b[i]; break;
        default: ordered(op, a + i, b + i, 1);
    }
}
template <class P> static void loc(int op, const P *a, P *b, long n) {
    for (long i = 0; i < n; i++) {
        bool take = op == O_MAXLOC ? (a[i].v > b[i].v) : (a[i].v < b[i].v);
        if (take || (a[i].v == b[i].v && a[i].i < b[i].i)) b[i] = a[i];
    }
}
static void boolop(int op, const unsigned char *a, unsigned char *b, long n) {
    for (long i = 0; i < n; i++) switch (op) {
        case O_LAND: case O_MIN: case O_BAND: case O_PROD: b[i] = a[i] && b[i]; break;
        case O_LOR: case O_MAX: case O_BOR: case O_SUM: b[i] = a[i] || b[i]; break;
        case O_LXOR: case O_BXOR: b[i] = (!a[i]) != (!b[i]); break;
        default: b[i] = a[i];
    }
}
// inout = in op inout
static void applyOp(MPI_Op op, const void *in, void *inout, long n, MPI_Datatype t) {
    if (op->op == O_USER) {
        int len = (int)n;
        MPI_Datatype tt = t;
        op->fn((void *)in, inout, &len, &tt);
        return;
    }
    int kind = t->kind; long cnt = n;
    if (kind == K_NONE && t->impl && t->impl->combiner == MPI_COMBINER_CONTIGUOUS) {
        MPI_Datatype b = t; while (b->kind == K_NONE && b->impl && b->impl->combiner == MPI_COMBINER_CONTIGUOUS) { cnt *= b->impl->ints[0]; b = b->impl->types[0]; }
        kind = b->kind;
    }
    int o = op->op;
#define CASE(K, F, T) case K: F(o, (const T *)in, (T *)inout, cnt); break;
    switch (kind) {
        CASE(K_CHAR, integral, char) CASE(K_SCHAR, integral, signed char) CASE(K_UCHAR, integral, unsigned char)
        CASE(K_BYTE, integral, unsigned char) CASE(K_SHORT, integral, short) CASE(K_USHORT, integral, unsigned short)
        CASE(K_INT, integral, int) CASE(K_UINT, integral, unsigned) CASE(K_LONG, integral, long) CASE(K_ULONG, integral, unsigned long)
        CASE(K_LLONG, integral, long long) CASE(K_ULLONG, integral, unsigned long long) CASE(K_WCHAR, integral, int)
        CASE(K_FLOAT, ordered, float) CASE(K_DOUBLE, ordered, double) CASE(K_LDOUBLE, ordered, long double)
        CASE(K_FCPLX, arith, std::complex<float>) CASE(K_DCPLX, arith, std::complex<double>) CASE(K_LDCPLX, arith, std::complex<long double>)
        CASE(K_BOOL, boolop, unsigned char)
        CASE(K_2INT, loc, II) CASE(K_FLOATINT, loc, FI) CASE(K_DBLINT, loc, DI) CASE(K_LONGINT, loc, LI) CASE(K_SHORTINT, loc, SI)
        CASE(K_2DBL, loc, DD) CASE(K_2FLT, loc, FF)
        default: H->usage(H->rank, "reduction on a derived datatype with a predefined operation");
    }
}
EXPORT int MPI_Reduce_local(const void *in, void *inout, int n, MPI_Datatype t, MPI_Op op) { applyOp(op, in, inout, n, t); return 0; }

// ---------------------------------------------------------------- groups, comms
struct ompi_group_t { std::vector<int> *w; };
struct ompi_predefined_group_t { ompi_group_t g; char pad[480]; };
static std::vector<int> emptyGroup;
extern "C" {
struct ompi_predefined_group_t ompi_mpi_group_empty = {{&emptyGroup}, {0}};
struct ompi_predefined_group_t ompi_mpi_group_null = {{nullptr}, {0}};
}
struct CommImpl {
    int ctx; std::vector<int> group; int me; std::map<int, void *> attrs; std::string name; MPI_Errhandler eh = nullptr; bool ofWorld = false;
    // neighbourhood topology (distributed graph)
    std::vector<int> in, out; bool topo = false; int fidx = -1;
};
struct ompi_communicator_t { CommImpl *impl; };
struct ompi_predefined_communicator_t { ompi_communicator_t c; char pad[480]; };
extern "C" {
struct ompi_predefined_communicator_t ompi_mpi_comm_world = {{nullptr}, {0}};
struct ompi_predefined_communicator_t ompi_mpi_comm_self = {{nullptr}, {0}};
struct ompi_predefined_communicator_t ompi_mpi_comm_null = {{nullptr}, {0}};
struct ompi_predefined_errhandler_t { char pad[512]; };
struct ompi_predefined_errhandler_t ompi_mpi_errhandler_null, ompi_mpi_errors_are_fatal, ompi_mpi_errors_return;
struct ompi_predefined_win_t { char pad[512]; };
struct ompi_predefined_win_t ompi_mpi_win_null;
struct ompi_predefined_file_t { char pad[1024]; };
struct ompi_predefined_file_t ompi_mpi_file_null;
struct ompi_predefined_info_t { char pad[512]; };
struct ompi_predefined_info_t ompi_mpi_info_null, ompi_mpi_info_env;
struct ompi_predefined_message_t { char pad[512]; };
struct ompi_predefined_message_t ompi_message_null, ompi_message_no_proc;
struct ompi_predefined_request_t { char pad[512]; };
struct ompi_predefined_request_t ompi_request_null;
}
static int mpiInit = 0, mpiFinal = 0;
static CommImpl *C(MPI_Comm c) {
    if (!H) abort();
    if (c == MPI_COMM_WORLD) {
        auto &i = ompi_mpi_comm_world.c.impl;
        if (!i) { i = new CommImpl; i->ctx = 0; i->me = H->rank; for (int r = 0; r < H->size; r++) i->group.push_back(r); i->name = "MPI_COMM_WORLD"; }
        return i;
    }
    if (c == MPI_COMM_SELF) {
        auto &i = ompi_mpi_comm_self.c.impl;
        if (!i) { i = new CommImpl; i->ctx = 1 + H->rank; i->me = 0; i->group = {H->rank}; i->name = "MPI_COMM_SELF"; }
        return i;
    }
    if (c == MPI_COMM_NULL || !c || !c->impl) H->usage(H->rank, "invalid communicator");
    return c->impl;
}
static void active(const char *call) {
    if (!mpiInit) H->usage(H->rank, (std::string(call) + " before MPI_Init").c_str());
    if (mpiFinal) H->usage(H->rank, (std::string(call) + " after MPI_Finalize").c_str());
}
// a failing MPI call: what happens depends on the error handler of the communicator
static int failing(CommImpl *c, const char *call) {
    if (!(c->ctx == 0 || c->ofWorld) || !H->mpiFault(H->rank, 0)) return 0;
    if (!c->eh || c->eh == MPI_ERRORS_ARE_FATAL) H->die(H->rank, (std::string("MPI error in ") + call + ": code").c_str(), MPI_ERR_OTHER);
    return MPI_ERR_OTHER;
}
static void enter(const char *call) { active(call); H->note(H->rank, call); }

static int fromWorld(CommImpl *c, int w) { for (size_t i = 0; i < c->group.size(); i++) if (c->group[i] == w) return (int)i; return MPI_ANY_SOURCE; }

EXPORT int MPI_Init(int *, char ***) { if (mpiInit) H->usage(H->rank, "MPI_Init twice"); mpiInit = 1; H->mpiState(H->rank, 1); return 0; }
EXPORT int MPI_Init_thread(int *a, char ***b, int, int *prov) { *prov = MPI_THREAD_FUNNELED; return MPI_Init(a, b); }
EXPORT int MPI_Initialized(int *f) { *f = mpiInit; return 0; }
EXPORT int MPI_Finalized(int *f) { *f = mpiFinal; return 0; }
EXPORT int MPI_Query_thread(int *p) { *p = MPI_THREAD_FUNNELED; return 0; }
EXPORT int MPI_Get_processor_name(char *n, int *l) { strcpy(n, "simhost"); *l = 7; return 0; }
EXPORT int MPI_Get_library_version(char *n, int *l) { strcpy(n, "Open MPI v4.1.6, hsim"); *l = (int)strlen(n); return 0; }
EXPORT int MPI_Get_version(int *a, int *b) { *a = 3; *b = 1; return 0; }
EXPORT double MPI_Wtime(void) { return H ? H->now(H->rank) : 0.0; }
EXPORT double MPI_Wtick(void) { return 1e-9; }
EXPORT int MPI_Abort(MPI_Comm, int code) { H->die(H->rank, "MPI_Abort", code); return 0; }
EXPORT int MPI_Comm_rank(MPI_Comm c, int *r) { active("MPI_Comm_rank"); *r = C(c)->me; return 0; }
EXPORT int MPI_Comm_size(MPI_Comm c, int *s) { active("MPI_Comm_size"); *s = (int)C(c)->group.size(); return 0; }
EXPORT int MPI_Comm_remote_size(MPI_Comm, int *s) { *s = 0; return MPI_ERR_COMM; }
EXPORT int MPI_Comm_test_inter(MPI_Comm, int *f) { *f = 0; return 0; }
EXPORT int MPI_Topo_test(MPI_Comm c, int *s) { *s = C(c)->topo ? MPI_DIST_GRAPH : MPI_UNDEFINED; return 0; }
EXPORT int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) {
    if (a == b) { *r = MPI_IDENT; return 0; }
    auto *x = C(a), *y = C(b);
    if (x->ctx == y->ctx) *r = MPI_IDENT;
    else if (x->group == y->group) *r = MPI_CONGRUENT;
    else { auto s = x->group, t = y->group; std::sort(s.begin(), s.end()); std::sort(t.begin(), t.end()); *r = s == t ? MPI_SIMILAR : MPI_UNEQUAL; }
    return 0;
}
EXPORT int MPI_Comm_set_name(MPI_Comm c, const char *n) { C(c)->name = n; return 0; }
EXPORT int MPI_Comm_get_name(MPI_Comm c, char *n, int *l) { strcpy(n, C(c)->name.c_str()); *l = C(c)->name.size(); return 0; }
EXPORT int MPI_Comm_group(MPI_Comm c, MPI_Group *g) { *g = new ompi_group_t{new std::vector<int>(C(c)->group)}; return 0; }
EXPORT int MPI_Group_free(MPI_Group *g) { *g = MPI_GROUP_NULL; return 0; }
EXPORT int MPI_Group_size(MPI_Group g, int *n) { *n = g->w ? g->w->size() : 0; return 0; }
EXPORT int MPI_Group_rank(MPI_Group g, int *r) { *r = MPI_UNDEFINED; for (size_t i = 0; i < g->w->size(); i++) if ((*g->w)[i] == H->rank) *r = i; return 0; }
EXPORT int MPI_Group_incl(MPI_Group g, int n, const int *r, MPI_Group *o) { auto *v = new std::vector<int>; for (int i = 0; i < n; i++) v->push_back((*g->w)[r[i]]); *o = new ompi_group_t{v}; return 0; }
EXPORT int MPI_Group_excl(MPI_Group g, int n, const int *r, MPI_Group *o) { auto *v = new std::vector<int>; for (int i = 0; i < (int)g->w->size(); i++) if (std::find(r, r + n, i) == r + n) v->push_back((*g->w)[i]); *o = new ompi_group_t{v}; return 0; }
EXPORT int MPI_Group_translate_ranks(MPI_Group a, int n, const int *ra, MPI_Group b, int *rb) {
    for (int i = 0; i < n; i++) { rb[i] = MPI_UNDEFINED; if (ra[i] == MPI_PROC_NULL) { rb[i] = MPI_PROC_NULL; continue; } int w = (*a->w)[ra[i]]; for (size_t j = 0; j < b->w->size(); j++) if ((*b->w)[j] == w) rb[i] = j; }
    return 0;
}
// attributes
struct Keyval { MPI_Comm_copy_attr_function *cp; MPI_Comm_delete_attr_function *del; void *extra; };
static std::map<int, Keyval> &keyvals() { static auto *k = new std::map<int, Keyval>; return *k; }
static int nextKey = 100;
EXPORT int OMPI_C_MPI_COMM_NULL_COPY_FN(MPI_Comm, int, void *, void *, void *, int *flag) { *flag = 0; return 0; }
EXPORT int OMPI_C_MPI_COMM_NULL_DELETE_FN(MPI_Comm, int, void *, void *) { return 0; }
EXPORT int OMPI_C_MPI_COMM_DUP_FN(MPI_Comm, int, void *, void *in, void *out, int *flag) { *flag = 1; *(void **)out = in; return 0; }
EXPORT int MPI_Comm_create_keyval(MPI_Comm_copy_attr_function *cp, MPI_Comm_delete_attr_function *del, int *k, void *extra) { *k = nextKey++; keyvals()[*k] = {cp, del, extra}; return 0; }
EXPORT int MPI_Comm_free_keyval(int *k) { *k = MPI_KEYVAL_INVALID; return 0; }
EXPORT int MPI_Comm_set_attr(MPI_Comm c, int k, void *v) {
    auto *i = C(c); auto it = i->attrs.find(k);
    if (it != i->attrs.end()) { auto &kv = keyvals()[k]; if (kv.del) kv.del(c, k, it->second, kv.extra); }
    i->attrs[k] = v; return 0;
}
EXPORT int MPI_Comm_get_attr(MPI_Comm c, int k, void *v, int *flag) {
    static int tagub = 0x7fffffff, zero = 0, usize;
    if (k == MPI_TAG_UB) { *(int **)v = &tagub; *flag = 1; return 0; }
    if (k == MPI_WTIME_IS_GLOBAL || k == MPI_HOST || k == MPI_IO) { *(int **)v = &zero; *flag = 1; return 0; }
    if (k == MPI_UNIVERSE_SIZE) { usize = H->size; *(int **)v = &usize; *flag = 1; return 0; }
    if (k < 100) { *flag = 0; return 0; }
    auto *i = C(c); auto it = i->attrs.find(k);
    if (it == i->attrs.end()) { *flag = 0; return 0; }
    *flag = 1; *(void **)v = it->second; return 0;
}
EXPORT int MPI_Comm_delete_attr(MPI_Comm c, int k) {
    auto *i = C(c); auto it = i->attrs.find(k);
    if (it == i->attrs.end()) return 0;
    void *v = it->second; auto kv = keyvals()[k];
    if (kv.del) kv.del(c, k, v, kv.extra);
    i->attrs.erase(k); return 0;
}
EXPORT int MPI_Attr_get(MPI_Comm c, int k, void *v, int *f) { return MPI_Comm_get_attr(c, k, v, f); }
EXPORT int MPI_Attr_put(MPI_Comm c, int k, void *v) { return MPI_Comm_set_attr(c, k, v); }
EXPORT int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler e) { C(c)->eh = e; return 0; }
EXPORT int MPI_Comm_get_errhandler(MPI_Comm c, MPI_Errhandler *e) { *e = C(c)->eh ? C(c)->eh : MPI_ERRORS_ARE_FATAL; return 0; }
EXPORT int MPI_Comm_create_errhandler(MPI_Comm_errhandler_function *, MPI_Errhandler *e) { *e = (MPI_Errhandler) new char[8]; return 0; }
EXPORT int MPI_Errhandler_free(MPI_Errhandler *e) { *e = MPI_ERRHANDLER_NULL; return 0; }
EXPORT int MPI_Error_string(int e, char *s, int *l) { *l = sprintf(s, "simulated MPI error %d", e); return 0; }
EXPORT int MPI_Error_class(int e, int *c) { *c = e; return 0; }
EXPORT int MPI_Add_error_class(int *c) { static int n = 1000; *c = n++; return 0; }
EXPORT int MPI_Add_error_code(int, int *c) { static int n = 2000; *c = n++; return 0; }
EXPORT int MPI_Add_error_string(int, const char *) { return 0; }
// infos: an opaque map
struct ompi_info_t { std::map<std::string, std::string> *m; };
EXPORT int MPI_Info_create(MPI_Info *i) { *i = new ompi_info_t{new std::map<std::string, std::string>}; return 0; }
EXPORT int MPI_Info_free(MPI_Info *i) { *i = MPI_INFO_NULL; return 0; }
EXPORT int MPI_Info_dup(MPI_Info i, MPI_Info *o) { *o = new ompi_info_t{new std::map<std::string, std::string>(*i->m)}; return 0; }
EXPORT int MPI_Info_set(MPI_Info i, const char *k, const char *v) { (*i->m)[k] = v; return 0; }
EXPORT int MPI_Info_get(MPI_Info i, const char *k, int n, char *v, int *f) { auto it = i->m->find(k); *f = it != i->m->end(); if (*f) { strncpy(v, it->second.c_str(), n); v[n] = 0; } return 0; }
EXPORT int MPI_Info_get_nkeys(MPI_Info i, int *n) { *n = i->m->size(); return 0; }
EXPORT int MPI_Info_get_nthkey(MPI_Info i, int n, char *k) { auto it = i->m->begin(); std::advance(it, n); strcpy(k, it->first.c_str()); return 0; }
EXPORT int MPI_Info_delete(MPI_Info i, const char *k) { i->m->erase(k); return 0; }

// ---------------------------------------------------------------- requests
struct ReqImpl {
    enum { SEND, RECV, COLL, NIL } kind = NIL;
    uint64_t op = 0;
    bool live = false;
    bool persistent = false;
    std::vector<char> tmp;  // packed data of non-contiguous sends / receives
    bool viaTmp = false;
    void *buf = nullptr; long count = 0; MPI_Datatype type = nullptr;
    CommImpl *comm = nullptr; int peer = 0, tag = 0, mode = 0;
    std::function<void(ReqImpl *)> finish;
    MPI_Status st{};
};
struct ompi_request_t { ReqImpl *r; };
static MPI_Request mkReq(ReqImpl *r) { return new ompi_request_t{r}; }
static void emptyStatus(MPI_Status *s) { if (s) { s->MPI_SOURCE = MPI_ANY_SOURCE; s->MPI_TAG = MPI_ANY_TAG; s->MPI_ERROR = 0; s->_cancelled = 0; s->_ucount = 0; } }
static void checkTag(int tag, bool recv) { if (tag < 0 && !(recv && tag == MPI_ANY_TAG)) H->usage(H->rank, "invalid tag"); }
static void checkPeer(CommImpl *c, int p, bool recv) {
    if (p == MPI_PROC_NULL || (recv && p == MPI_ANY_SOURCE)) return;
    if (p < 0 || p >= (int)c->group.size()) H->usage(H->rank, "invalid peer rank");
}
static void startSend(ReqImpl *r) {
    r->kind = ReqImpl::SEND; r->live = true;
    if (r->peer == MPI_PROC_NULL) { r->op = 0; return; }
    if (r->count < 0) H->usage(H->rank, "negative count");
    if (r->type->contiguous)
        r->op = H->send(H->rank, r->comm->group[r->peer], r->comm->ctx, r->tag, (const char *)r->buf + r->type->lb, (size_t)r->count * r->type->size, r->mode);
    else {
        r->tmp = pack(r->buf, r->count, r->type);
        r->op = H->send(H->rank, r->comm->group[r->peer], r->comm->ctx, r->tag, r->tmp.data(), r->tmp.size(), r->mode);
    }
}
static void startRecv(ReqImpl *r) {
    r->kind = ReqImpl::RECV; r->live = true;
    if (r->peer == MPI_PROC_NULL) { r->op = 0; return; }
    if (r->count < 0) H->usage(H->rank, "negative count");
    int w = r->peer == MPI_ANY_SOURCE ? HSIM_ANY : r->comm->group[r->peer];
    int tag = r->tag == MPI_ANY_TAG ? HSIM_ANY : r->tag;
    size_t len = (size_t)r->count * r->type->size;
    if (r->type->contiguous) {
        r->viaTmp = false;
        r->op = H->recv(H->rank, r->comm->ctx, w, tag, (char *)r->buf + r->type->lb, len);
    } else {
        r->viaTmp = true; r->tmp.resize(len);
        r->op = H->recv(H->rank, r->comm->ctx, w, tag, r->tmp.data(), len);
    }
}
static bool isDone(MPI_Request q) { return q == MPI_REQUEST_NULL || !q->r->live || q->r->op == 0 || H->done(q->r->op); }
// complete a finished request; returns the status
static void complete(MPI_Request *q, MPI_Status *st) {
    if (*q == MPI_REQUEST_NULL || !(*q)->r->live) { emptyStatus(st); return; }
    ReqImpl *r = (*q)->r;
    MPI_Status s; emptyStatus(&s);
    if (r->op == 0) {
        if (r->kind == ReqImpl::RECV) { s.MPI_SOURCE = MPI_PROC_NULL; }
        if (r->kind == ReqImpl::COLL && r->finish) r->finish(r);
    } else if (r->kind == ReqImpl::RECV) {
        HsimStatus hs; H->status(r->op, &hs);
        if (hs.truncated == 2) { s._cancelled = 1; }
        else {
            if (hs.truncated) H->usage(H->rank, "MPI_ERR_TRUNCATE: message longer than the receive buffer");
            s.MPI_SOURCE = fromWorld(r->comm, hs.srcWorld); s.MPI_TAG = hs.tag; s._ucount = hs.len;
            if (r->viaTmp) unpack(r->tmp.data(), hs.len, r->buf, r->count, r->type);
        }
    } else if (r->kind == ReqImpl::COLL) {
        if (r->finish) r->finish(r);
    }
    if (r->op) H->release(r->op);
    r->op = 0; r->live = false;
    if (st) { int e = st->MPI_ERROR; *st = s; st->MPI_ERROR = e; st->MPI_ERROR = 0; }
    if (!r->persistent) { delete r; delete *q; *q = MPI_REQUEST_NULL; }
}
static void waitOps(MPI_Request *q, int n, int mode) {
    std::vector<uint64_t> ops;
    for (int i = 0; i < n; i++) if (q[i] != MPI_REQUEST_NULL && q[i]->r->live) {
        if (q[i]->r->op == 0) { if (mode == HSIM_WAIT_ANY) return; else continue; }
        ops.push_back(q[i]->r->op);
    }
    H->wait(H->rank, ops.data(), (int)ops.size(), mode);
}
static bool isActive(MPI_Request q) { return q != MPI_REQUEST_NULL && q->r->live; }
EXPORT int MPI_Wait(MPI_Request *q, MPI_Status *st) { enter("MPI_Wait"); waitOps(q, 1, HSIM_WAIT_ALL); complete(q, st); return 0; }
EXPORT int MPI_Waitall(int n, MPI_Request *q, MPI_Status *st) {
    enter("MPI_Waitall"); waitOps(q, n, HSIM_WAIT_ALL);
    for (int i = 0; i < n; i++) complete(&q[i], st == MPI_STATUSES_IGNORE ? nullptr : &st[i]);
    return 0;
}
EXPORT int MPI_Waitany(int n, MPI_Request *q, int *idx, MPI_Status *st) {
    enter("MPI_Waitany"); bool any = false; for (int i = 0; i < n; i++) any |= isActive(q[i]);
    if (!any) { *idx = MPI_UNDEFINED; emptyStatus(st); return 0; }
    waitOps(q, n, HSIM_WAIT_ANY);
    std::vector<int> d; for (int i = 0; i < n; i++) if (isActive(q[i]) && isDone(q[i])) d.push_back(i);
    *idx = d[H->pick(H->rank, (int)d.size())];
    complete(&q[*idx], st); return 0;
}
static int someDone(int n, MPI_Request *q, int *out, int *idx, MPI_Status *st) {
    int k = 0; for (int i = 0; i < n; i++) if (isActive(q[i]) && isDone(q[i])) { idx[k] = i; complete(&q[i], st == MPI_STATUSES_IGNORE ? nullptr : &st[k]); k++; }
    *out = k; return 0;
}
EXPORT int MPI_Waitsome(int n, MPI_Request *q, int *out, int *idx, MPI_Status *st) {
    enter("MPI_Waitsome"); bool any = false; for (int i = 0; i < n; i++) any |= isActive(q[i]);
    if (!any) { *out = MPI_UNDEFINED; return 0; }
    waitOps(q, n, HSIM_WAIT_ANY);
    return someDone(n, q, out, idx, st);
}
EXPORT int MPI_Test(MPI_Request *q, int *f, MPI_Status *st) { active("MPI_Test"); H->poll(H->rank); *f = isDone(*q); if (*f) complete(q, st); return 0; }
EXPORT int MPI_Testall(int n, MPI_Request *q, int *f, MPI_Status *st) {
    active("MPI_Testall"); H->poll(H->rank); *f = 1; for (int i = 0; i < n; i++) if (!isDone(q[i])) *f = 0;
    if (*f) for (int i = 0; i < n; i++) complete(&q[i], st == MPI_STATUSES_IGNORE ? nullptr : &st[i]);
    return 0;
}
EXPORT int MPI_Testany(int n, MPI_Request *q, int *idx, int *f, MPI_Status *st) {
    active("MPI_Testany"); H->poll(H->rank); bool any = false;
    for (int i = 0; i < n; i++) { any |= isActive(q[i]); if (isActive(q[i]) && isDone(q[i])) { *f = 1; *idx = i; complete(&q[i], st); return 0; } }
    *f = !any; *idx = MPI_UNDEFINED; if (!any) emptyStatus(st); return 0;
}
EXPORT int MPI_Testsome(int n, MPI_Request *q, int *out, int *idx, MPI_Status *st) {
    active("MPI_Testsome"); H->poll(H->rank); bool any = false; for (int i = 0; i < n; i++) any |= isActive(q[i]);
    if (!any) { *out = MPI_UNDEFINED; return 0; } return someDone(n, q, out, idx, st);
}
EXPORT int MPI_Request_get_status(MPI_Request q, int *f, MPI_Status *st) { H->poll(H->rank); *f = isDone(q); if (*f) emptyStatus(st); return 0; }
EXPORT int MPI_Request_free(MPI_Request *q) { *q = MPI_REQUEST_NULL; return 0; }
EXPORT int MPI_Cancel(MPI_Request *q) { if (isActive(*q) && (*q)->r->op) H->cancel((*q)->r->op); return 0; }
EXPORT int MPI_Test_cancelled(const MPI_Status *s, int *f) { *f = s->_cancelled; return 0; }
EXPORT int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *c) { if (t->size == 0) { *c = 0; return 0; } *c = s->_ucount % t->size ? MPI_UNDEFINED : (int)(s->_ucount / t->size); return 0; }
EXPORT int MPI_Get_elements(const MPI_Status *s, MPI_Datatype t, int *c) { return MPI_Get_count(s, t, c); }

static ReqImpl *p2p(const void *buf, int n, MPI_Datatype t, int peer, int tag, MPI_Comm c, int mode, bool recv) {
    auto *r = new ReqImpl; r->buf = (void *)buf; r->count = n; r->type = t; r->peer = peer; r->tag = tag; r->comm = C(c); r->mode = mode;
    checkTag(tag, recv); checkPeer(r->comm, peer, recv);
    return r;
}
#define SENDLIKE(NAME, MODE)                                                                       \
    EXPORT int MPI_##NAME(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {      \
        enter("MPI_" #NAME); if (int e = failing(C(c), "MPI_" #NAME)) return e;                   \
        auto *r = p2p(b, n, t, d, tag, c, MODE, false); startSend(r);                              \
        MPI_Request q = mkReq(r); waitOps(&q, 1, HSIM_WAIT_ALL); complete(&q, nullptr); return 0; }
#define ISENDLIKE(NAME, MODE)                                                                      \
    EXPORT int MPI_##NAME(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q) { \
        enter("MPI_" #NAME); if (int e = failing(C(c), "MPI_" #NAME)) { *q = MPI_REQUEST_NULL; return e; } \
        auto *r = p2p(b, n, t, d, tag, c, MODE, false); startSend(r); *q = mkReq(r); return 0; }
#define SENDINIT(NAME, MODE)                                                                       \
    EXPORT int MPI_##NAME(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q) { \
        active("MPI_" #NAME); auto *r = p2p(b, n, t, d, tag, c, MODE, false); r->kind = ReqImpl::SEND; r->persistent = true; *q = mkReq(r); return 0; }
SENDLIKE(Send, HSIM_SEND_STD) SENDLIKE(Ssend, HSIM_SEND_SYNC) SENDLIKE(Bsend, HSIM_SEND_BUF) SENDLIKE(Rsend, HSIM_SEND_STD)
ISENDLIKE(Isend, HSIM_SEND_STD) ISENDLIKE(Issend, HSIM_SEND_SYNC) ISENDLIKE(Ibsend, HSIM_SEND_BUF) ISENDLIKE(Irsend, HSIM_SEND_STD)
SENDINIT(Send_init, HSIM_SEND_STD) SENDINIT(Ssend_init, HSIM_SEND_SYNC) SENDINIT(Bsend_init, HSIM_SEND_BUF) SENDINIT(Rsend_init, HSIM_SEND_STD)
EXPORT int MPI_Recv_init(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *q) {
    active("MPI_Recv_init"); auto *r = p2p(b, n, t, s, tag, c, 0, true); r->kind = ReqImpl::RECV; r->persistent = true; *q = mkReq(r); return 0;
}
EXPORT int MPI_Startall(int n, MPI_Request *q) {
    enter("MPI_Startall");
    for (int i = 0; i < n; i++) { if (q[i] == MPI_REQUEST_NULL || q[i]->r->live) H->usage(H->rank, "MPI_Start on an active request"); if (q[i]->r->kind == ReqImpl::SEND) startSend(q[i]->r); else startRecv(q[i]->r); }
    return 0;
}
EXPORT int MPI_Start(MPI_Request *q) { return MPI_Startall(1, q); }
EXPORT int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st) {
    enter("MPI_Recv"); if (int e = failing(C(c), "MPI_Recv")) return e;
    auto *r = p2p(b, n, t, s, tag, c, 0, true); startRecv(r);
    MPI_Request q = mkReq(r); waitOps(&q, 1, HSIM_WAIT_ALL); complete(&q, st); return 0;
}
EXPORT int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *q) {
    enter("MPI_Irecv"); if (int e = failing(C(c), "MPI_Irecv")) { *q = MPI_REQUEST_NULL; return e; }
    auto *r = p2p(b, n, t, s, tag, c, 0, true); startRecv(r); *q = mkReq(r); return 0;
}
EXPORT int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype stt, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *st) {
    enter("MPI_Sendrecv"); MPI_Request q[2]; auto *r = p2p(rb, rn, rt, s, rtag, c, 0, true); startRecv(r); q[0] = mkReq(r);
    auto *w = p2p(sb, sn, stt, d, stag, c, 0, false); startSend(w); q[1] = mkReq(w);
    waitOps(q, 2, HSIM_WAIT_ALL); complete(&q[0], st); complete(&q[1], nullptr); return 0;
}
EXPORT int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype t, int d, int stag, int s, int rtag, MPI_Comm c, MPI_Status *st) {
    auto v = pack(b, n, t); return MPI_Sendrecv(v.data(), (int)v.size(), MPI_BYTE, d, stag, b, n, t, s, rtag, c, st);
}
static int probe(const char *nm, int s, int tag, MPI_Comm c, int block, int *flag, MPI_Status *st) {
    auto *i = C(c); checkTag(tag, true); checkPeer(i, s, true);
    HsimStatus hs; int w = s == MPI_ANY_SOURCE ? HSIM_ANY : i->group[s];
    *flag = H->probe(H->rank, i->ctx, w, tag == MPI_ANY_TAG ? HSIM_ANY : tag, block, &hs);
    if (*flag && st) { st->MPI_SOURCE = fromWorld(i, hs.srcWorld); st->MPI_TAG = hs.tag; st->MPI_ERROR = 0; st->_cancelled = 0; st->_ucount = hs.len; }
    (void)nm; return 0;
}
EXPORT int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status *st) { enter("MPI_Probe"); int f; return probe("MPI_Probe", s, tag, c, 1, &f, st); }
EXPORT int MPI_Iprobe(int s, int tag, MPI_Comm c, int *f, MPI_Status *st) { active("MPI_Iprobe"); H->poll(H->rank); return probe("MPI_Iprobe", s, tag, c, 0, f, st); }
EXPORT int MPI_Pack_size(int n, MPI_Datatype t, MPI_Comm, int *s) { *s = (int)(n * t->size); return 0; }
EXPORT int MPI_Pack(const void *b, int n, MPI_Datatype t, void *o, int osz, int *pos, MPI_Comm) { auto v = pack(b, n, t); if (*pos + (long)v.size() > osz) H->usage(H->rank, "MPI_Pack overflow"); if (!v.empty()) memcpy((char *)o + *pos, v.data(), v.size()); *pos += v.size(); return 0; }
EXPORT int MPI_Unpack(const void *b, int sz, int *pos, void *o, int n, MPI_Datatype t, MPI_Comm) { *pos += unpack((const char *)b + *pos, sz - *pos, o, n, t); return 0; }
EXPORT int MPI_Alloc_mem(MPI_Aint n, MPI_Info, void *p) { *(void **)p = malloc(n); return 0; }
EXPORT int MPI_Free_mem(void *p) { free(p); return 0; }

// ---------------------------------------------------------------- collectives
enum { CK_BARRIER = 1, CK_BCAST, CK_REDUCE, CK_ALLREDUCE, CK_GATHER, CK_GATHERV, CK_SCATTER, CK_SCATTERV, CK_ALLGATHER, CK_ALLGATHERV, CK_ALLTOALL, CK_ALLTOALLV, CK_SCAN, CK_EXSCAN, CK_REDSCAT, CK_DUP, CK_SPLIT, CK_CREATE, CK_FREE, CK_FINALIZE, CK_NBR, CK_ALLTOALLW };
static uint64_t mix(uint64_t a, uint64_t b) { a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2); return a * 0xff51afd7ed558ccdull; }
static uint64_t startColl(CommImpl *c, int kind, const char *name, int dep, int root, uint64_t sig, const std::vector<char> &contrib) {
    return H->coll(H->rank, c->ctx, c->group.data(), (int)c->group.size(), c->me, kind, name, dep, root, sig, contrib.data(), contrib.size());
}
// start, and either wait (blocking) or hand out a request
static int runColl(bool blocking, MPI_Request *q, CommImpl *c, int kind, const char *name, int dep, int root, uint64_t sig, const std::vector<char> &contrib, std::function<void(ReqImpl *)> finish) {
    enter(name); if (int e = failing(c, name)) { if (q) *q = MPI_REQUEST_NULL; return e; }
    auto *r = new ReqImpl; r->kind = ReqImpl::COLL; r->live = true; r->comm = c; r->finish = std::move(finish);
    r->op = startColl(c, kind, name, dep, root, sig, contrib);
    MPI_Request h = mkReq(r);
    if (!blocking) { *q = h; return 0; }
    waitOps(&h, 1, HSIM_WAIT_ALL); complete(&h, nullptr); return 0;
}
static std::vector<char> cd(ReqImpl *r, int i) { size_t n; const char *p = (const char *)H->collData(r->op, i, &n); return std::vector<char>(p, p + n); }
static const std::vector<char> nothing;
static void rootCheck(CommImpl *c, int root) { if (root < 0 || root >= (int)c->group.size()) H->usage(H->rank, "invalid root rank"); }

static std::vector<char> rawCopy(const void *b, long n, MPI_Datatype t) {
    std::vector<char> v; if (n <= 0) return v; size_t len = (size_t)(n - 1) * t->extent + (t->contiguous ? t->size : t->extent);
    v.assign((const char *)b, (const char *)b + len); return v;
}
static void reduceInto(ReqImpl *r, int from, int to, MPI_Op op, void *out, long n, MPI_Datatype t) {
    if (n <= 0 || from >= to) return;
    int ord = H->collOrder(r->op);
    int k = to - from;
    std::vector<std::vector<char>> c;
    for (int i = from; i < to; i++) c.push_back(cd(r, i));
    std::vector<char> acc;
    if (ord == 1 && op->commute) {  // from the last rank down
        acc = c[0];
        for (int i = k - 1; i >= 1; i--) applyOp(op, c[i].data(), acc.data(), n, t);
    } else if (ord == 2) {  // binary tree, order preserved
        for (int s = 1; s < k; s *= 2)
            for (int i = 0; i + s < k; i += 2 * s) { std::vector<char> rhs = c[i + s]; applyOp(op, c[i].data(), rhs.data(), n, t); c[i] = rhs; }
        acc = c[0];
    } else {  // right fold keeps operand order: x0 op (x1 op ( ... ))
        acc = c[k - 1];
        for (int i = k - 2; i >= 0; i--) applyOp(op, c[i].data(), acc.data(), n, t);
    }
    memcpy(out, acc.data(), acc.size());
}
static uint64_t redSig(long n, MPI_Datatype t, MPI_Op op) { return mix(mix(n * t->size, op->op), 7); }

#define BOTH(NAME, PARAMS, ARGS)                                                   \
    static int do_##NAME(bool blk, MPI_Request *q, const char *nm, PARAMS);       \
    EXPORT int MPI_##NAME(PARAMS) { return do_##NAME(true, nullptr, "MPI_" #NAME, ARGS); } \
    EXPORT int MPI_I##NAME(PARAMS, MPI_Request *q) { return do_##NAME(false, q, "MPI_I" #NAME, ARGS); } \
    static int do_##NAME(bool blk, MPI_Request *q, const char *nm, PARAMS)
#define P(...) __VA_ARGS__

static int do_barrier(bool blk, MPI_Request *q, const char *nm, MPI_Comm c) { return runColl(blk, q, C(c), CK_BARRIER, nm, HSIM_DEP_ALL, -1, 0, nothing, nullptr); }
EXPORT int MPI_Barrier(MPI_Comm c) { return do_barrier(true, nullptr, "MPI_Barrier", c); }
EXPORT int MPI_Ibarrier(MPI_Comm c, MPI_Request *q) { return do_barrier(false, q, "MPI_Ibarrier", c); }

static int do_bcast(bool blk, MPI_Request *q, const char *nm, void *b, int n, MPI_Datatype t, int root, MPI_Comm c) {
    auto *i = C(c); rootCheck(i, root); bool me = i->me == root;
    return runColl(blk, q, i, CK_BCAST, nm, HSIM_DEP_ALL_GET_ROOT, root, mix(n * t->size, 3), me ? pack(b, n, t) : nothing,
                   [=](ReqImpl *r) { if (!me) { auto v = cd(r, root); unpack(v.data(), v.size(), b, n, t); } });
}
EXPORT int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { return do_bcast(true, nullptr, "MPI_Bcast", b, n, t, root, c); }
EXPORT int MPI_Ibcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request *q) { return do_bcast(false, q, "MPI_Ibcast", b, n, t, root, c); }

static int do_reduce(bool blk, MPI_Request *q, const char *nm, const void *s, void *d, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
    auto *i = C(c); rootCheck(i, root); bool me = i->me == root;
    if (s == MPI_IN_PLACE && !me) H->usage(H->rank, "MPI_IN_PLACE at a non-root rank of MPI_Reduce");
    if (me && s == d && n > 0) H->usage(H->rank, "aliased send and receive buffers in MPI_Reduce");
    return runColl(blk, q, i, CK_REDUCE, nm, HSIM_DEP_ROOT_GETS_ALL, root, redSig(n, t, op), rawCopy(s == MPI_IN_PLACE ? d : s, n, t),
                   [=](ReqImpl *r) { if (me) reduceInto(r, 0, (int)i->group.size(), op, d, n, t); });
}
EXPORT int MPI_Reduce(const void *s, void *d, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { return do_reduce(true, nullptr, "MPI_Reduce", s, d, n, t, op, root, c); }
EXPORT int MPI_Ireduce(const void *s, void *d, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, MPI_Request *q) { return do_reduce(false, q, "MPI_Ireduce", s, d, n, t, op, root, c); }

static int do_allreduce(bool blk, MPI_Request *q, const char *nm, const void *s, void *d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    auto *i = C(c);
    if (s == d && n > 0) H->usage(H->rank, "aliased send and receive buffers in MPI_Allreduce");
    return runColl(blk, q, i, CK_ALLREDUCE, nm, HSIM_DEP_ALL, -1, redSig(n, t, op), rawCopy(s == MPI_IN_PLACE ? d : s, n, t),
                   [=](ReqImpl *r) { reduceInto(r, 0, (int)i->group.size(), op, d, n, t); });
}
EXPORT int MPI_Allreduce(const void *s, void *d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return do_allreduce(true, nullptr, "MPI_Allreduce", s, d, n, t, op, c); }
EXPORT int MPI_Iallreduce(const void *s, void *d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *q) { return do_allreduce(false, q, "MPI_Iallreduce", s, d, n, t, op, c); }

EXPORT int MPI_Scan(const void *s, void *d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    auto *i = C(c);
    return runColl(true, nullptr, i, CK_SCAN, "MPI_Scan", HSIM_DEP_PREFIX, -1, redSig(n, t, op), rawCopy(s == MPI_IN_PLACE ? d : s, n, t),
                   [=](ReqImpl *r) { reduceInto(r, 0, i->me + 1, op, d, n, t); });
}
EXPORT int MPI_Exscan(const void *s, void *d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    auto *i = C(c);
    return runColl(true, nullptr, i, CK_EXSCAN, "MPI_Exscan", HSIM_DEP_PREFIX, -1, redSig(n, t, op), rawCopy(s == MPI_IN_PLACE ? d : s, n, t),
                   [=](ReqImpl *r) { if (i->me) reduceInto(r, 0, i->me, op, d, n, t); });
}
EXPORT int MPI_Reduce_scatter(const void *s, void *d, const int *rc, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    auto *i = C(c); long n = 0, off = 0; for (size_t k = 0; k < i->group.size(); k++) { if ((int)k < i->me) off += rc[k]; n += rc[k]; }
    long mine = rc[i->me];
    return runColl(true, nullptr, i, CK_REDSCAT, "MPI_Reduce_scatter", HSIM_DEP_ALL, -1, redSig(n, t, op), rawCopy(s == MPI_IN_PLACE ? d : s, n, t),
                   [=](ReqImpl *r) { std::vector<char> tmp(std::max<long>(1, n * t->extent)); reduceInto(r, 0, (int)i->group.size(), op, tmp.data(), n, t); if (mine) memcpy(d, tmp.data() + off * t->extent, mine * t->extent); });
}
EXPORT int MPI_Reduce_scatter_block(const void *s, void *d, int rc, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    std::vector<int> v(C(c)->group.size(), rc); return MPI_Reduce_scatter(s, d, v.data(), t, op, c);
}
static int gatherv(bool blk, MPI_Request *q, const char *nm, int kind, const void *s, int sn, MPI_Datatype st, void *d, const int *rn, const int *disp, int rn1, MPI_Datatype rt, int root, bool all, MPI_Comm c) {
    auto *i = C(c); if (!all) rootCheck(i, root); bool me = all || i->me == root; int N = i->group.size();
    std::vector<int> cn, cdsp;
    if (me) for (int k = 0; k < N; k++) { cn.push_back(rn ? rn[k] : rn1); cdsp.push_back(disp ? disp[k] : k * rn1); }
    std::vector<char> contrib;
    if (s == MPI_IN_PLACE) { if (!me) H->usage(H->rank, "MPI_IN_PLACE at non-root"); contrib = pack((char *)d + (ptrdiff_t)cdsp[i->me] * rt->extent, cn[i->me], rt); }
    else contrib = pack(s, sn, st);
    uint64_t sig = rn ? 1 : (all ? mix(2, s == MPI_IN_PLACE ? (long)rn1 * rt->size : (long)sn * st->size) : 3);
    return runColl(blk, q, i, kind, nm, all ? HSIM_DEP_ALL : HSIM_DEP_ROOT_GETS_ALL, all ? -1 : root, sig, contrib, [=](ReqImpl *r) {
        if (!me) return;
        for (int k = 0; k < N; k++) {
            if (s == MPI_IN_PLACE && k == i->me) continue;
            auto v = cd(r, k);
            if (v.size() != (size_t)cn[k] * rt->size) H->usage(H->rank, (std::string(nm) + ": contribution and receive count differ").c_str());
            unpack(v.data(), v.size(), (char *)d + (ptrdiff_t)cdsp[k] * rt->extent, cn[k], rt);
        }
    });
}
EXPORT int MPI_Gather(const void *s, int sn, MPI_Datatype st, void *d, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return gatherv(true, 0, "MPI_Gather", CK_GATHER, s, sn, st, d, 0, 0, rn, rt, root, false, c); }
EXPORT int MPI_Igather(const void *s, int sn, MPI_Datatype st, void *d, int rn, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request *q) { return gatherv(false, q, "MPI_Igather", CK_GATHER, s, sn, st, d, 0, 0, rn, rt, root, false, c); }
EXPORT int MPI_Gatherv(const void *s, int sn, MPI_Datatype st, void *d, const int *rn, const int *ds, MPI_Datatype rt, int root, MPI_Comm c) { return gatherv(true, 0, "MPI_Gatherv", CK_GATHERV, s, sn, st, d, C(c)->me == root ? rn : (const int *)&ds, ds, 0, rt, root, false, c); }
EXPORT int MPI_Igatherv(const void *s, int sn, MPI_Datatype st, void *d, const int *rn, const int *ds, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request *q) { return gatherv(false, q, "MPI_Igatherv", CK_GATHERV, s, sn, st, d, C(c)->me == root ? rn : (const int *)&ds, ds, 0, rt, root, false, c); }
EXPORT int MPI_Allgather(const void *s, int sn, MPI_Datatype st, void *d, int rn, MPI_Datatype rt, MPI_Comm c) { return gatherv(true, 0, "MPI_Allgather", CK_ALLGATHER, s, sn, st, d, 0, 0, rn, rt, 0, true, c); }
EXPORT int MPI_Iallgather(const void *s, int sn, MPI_Datatype st, void *d, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request *q) { return gatherv(false, q, "MPI_Iallgather", CK_ALLGATHER, s, sn, st, d, 0, 0, rn, rt, 0, true, c); }
EXPORT int MPI_Allgatherv(const void *s, int sn, MPI_Datatype st, void *d, const int *rn, const int *ds, MPI_Datatype rt, MPI_Comm c) { return gatherv(true, 0, "MPI_Allgatherv", CK_ALLGATHERV, s, sn, st, d, rn, ds, 0, rt, 0, true, c); }
EXPORT int MPI_Iallgatherv(const void *s, int sn, MPI_Datatype st, void *d, const int *rn, const int *ds, MPI_Datatype rt, MPI_Comm c, MPI_Request *q) { return gatherv(false, q, "MPI_Iallgatherv", CK_ALLGATHERV, s, sn, st, d, rn, ds, 0, rt, 0, true, c); }

static int scatterv(bool blk, MPI_Request *q, const char *nm, int kind, const void *s, const int *sn, const int *ds, int sn1, MPI_Datatype st, void *d, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
    auto *i = C(c); rootCheck(i, root); bool me = i->me == root; int N = i->group.size();
    std::vector<char> contrib;  // header of sizes then data
    if (me) {
        std::vector<size_t> hdr; std::vector<char> body;
        for (int k = 0; k < N; k++) { size_t b0 = body.size(); packInto((const char *)s + (ptrdiff_t)(sn ? ds[k] : k * sn1) * st->extent, sn ? sn[k] : sn1, st, body); hdr.push_back(body.size() - b0); }
        contrib.assign((char *)hdr.data(), (char *)(hdr.data() + N)); contrib.insert(contrib.end(), body.begin(), body.end());
    }
    return runColl(blk, q, i, kind, nm, HSIM_DEP_ALL_GET_ROOT, root, 5, contrib, [=](ReqImpl *r) {
        if (d == MPI_IN_PLACE) return;
        auto v = cd(r, root); const size_t *h = (const size_t *)v.data(); size_t off = N * sizeof(size_t); for (int k = 0; k < i->me; k++) off += h[k];
        if (h[i->me] != (size_t)rn * rt->size) H->usage(H->rank, (std::string(nm) + ": sizes differ").c_str());
        unpack(v.data() + off, h[i->me], d, rn, rt);
    });
}
EXPORT int MPI_Scatter(const void *s, int sn, MPI_Datatype st, void *d, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return scatterv(true, 0, "MPI_Scatter", CK_SCATTER, s, 0, 0, sn, st, d, rn, rt, root, c); }
EXPORT int MPI_Iscatter(const void *s, int sn, MPI_Datatype st, void *d, int rn, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request *q) { return scatterv(false, q, "MPI_Iscatter", CK_SCATTER, s, 0, 0, sn, st, d, rn, rt, root, c); }
EXPORT int MPI_Scatterv(const void *s, const int *sn, const int *ds, MPI_Datatype st, void *d, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return scatterv(true, 0, "MPI_Scatterv", CK_SCATTERV, s, sn, ds, 0, st, d, rn, rt, root, c); }
EXPORT int MPI_Iscatterv(const void *s, const int *sn, const int *ds, MPI_Datatype st, void *d, int rn, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request *q) { return scatterv(false, q, "MPI_Iscatterv", CK_SCATTERV, s, sn, ds, 0, st, d, rn, rt, root, c); }

static int alltoallv(bool blk, MPI_Request *q, const char *nm, int kind, const void *s, const int *sn, const int *sd, int sn1, MPI_Datatype st, void *d, const int *rn, const int *rd, int rn1, MPI_Datatype rt, MPI_Comm c) {
    auto *i = C(c); int N = i->group.size();
    if (s == MPI_IN_PLACE) { s = d; sn = rn; sd = rd; sn1 = rn1; st = rt; }
    std::vector<size_t> hdr; std::vector<char> body;
    for (int k = 0; k < N; k++) { size_t b0 = body.size(); packInto((const char *)s + (ptrdiff_t)(sn ? sd[k] : k * sn1) * st->extent, sn ? sn[k] : sn1, st, body); hdr.push_back(body.size() - b0); }
    std::vector<char> contrib((char *)hdr.data(), (char *)(hdr.data() + N)); contrib.insert(contrib.end(), body.begin(), body.end());
    std::vector<int> cn, cdp; for (int k = 0; k < N; k++) { cn.push_back(rn ? rn[k] : rn1); cdp.push_back(rn ? rd[k] : k * rn1); }
    return runColl(blk, q, i, kind, nm, HSIM_DEP_ALL, -1, 6, contrib, [=](ReqImpl *r) {
        for (int k = 0; k < N; k++) {
            auto v = cd(r, k); const size_t *h = (const size_t *)v.data(); size_t off = N * sizeof(size_t); for (int m = 0; m < i->me; m++) off += h[m];
            if (h[i->me] != (size_t)cn[k] * rt->size) H->usage(H->rank, (std::string(nm) + ": send and receive counts differ").c_str());
            unpack(v.data() + off, h[i->me], (char *)d + (ptrdiff_t)cdp[k] * rt->extent, cn[k], rt);
        }
    });
}
EXPORT int MPI_Alltoall(const void *s, int sn, MPI_Datatype st, void *d, int rn, MPI_Datatype rt, MPI_Comm c) { return alltoallv(true, 0, "MPI_Alltoall", CK_ALLTOALL, s, 0, 0, sn, st, d, 0, 0, rn, rt, c); }
EXPORT int MPI_Ialltoall(const void *s, int sn, MPI_Datatype st, void *d, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request *q) { return alltoallv(false, q, "MPI_Ialltoall", CK_ALLTOALL, s, 0, 0, sn, st, d, 0, 0, rn, rt, c); }
EXPORT int MPI_Alltoallv(const void *s, const int *sn, const int *sd, MPI_Datatype st, void *d, const int *rn, const int *rd, MPI_Datatype rt, MPI_Comm c) { return alltoallv(true, 0, "MPI_Alltoallv", CK_ALLTOALLV, s, sn, sd, 0, st, d, rn, rd, 0, rt, c); }
EXPORT int MPI_Ialltoallv(const void *s, const int *sn, const int *sd, MPI_Datatype st, void *d, const int *rn, const int *rd, MPI_Datatype rt, MPI_Comm c, MPI_Request *q) { return alltoallv(false, q, "MPI_Ialltoallv", CK_ALLTOALLV, s, sn, sd, 0, st, d, rn, rd, 0, rt, c); }

// neighbourhood collectives as an all-to-all restricted to the graph
static int nbr(bool blk, MPI_Request *q, const char *nm, const void *s, const int *sn, const int *sd, MPI_Datatype st, void *d, const int *rn, const int *rd, MPI_Datatype rt, MPI_Comm c) {
    auto *i = C(c); int N = i->group.size();
    std::vector<size_t> hdr(N, 0); std::vector<std::vector<char>> parts(N); std::vector<char> body;
    for (size_t k = 0; k < i->out.size(); k++) packInto((const char *)s + (ptrdiff_t)sd[k] * st->extent, sn[k], st, parts[i->out[k]]);
    for (int k = 0; k < N; k++) { hdr[k] = parts[k].size(); body.insert(body.end(), parts[k].begin(), parts[k].end()); }
    std::vector<char> contrib((char *)hdr.data(), (char *)(hdr.data() + N)); contrib.insert(contrib.end(), body.begin(), body.end());
    std::vector<int> cn(rn, rn + i->in.size()), cdp(rd, rd + i->in.size());
    return runColl(blk, q, i, CK_NBR, nm, HSIM_DEP_ALL, -1, 8, contrib, [=](ReqImpl *r) {
        for (size_t k = 0; k < i->in.size(); k++) { auto v = cd(r, i->in[k]); const size_t *h = (const size_t *)v.data(); size_t off = N * sizeof(size_t); for (int m = 0; m < i->me; m++) off += h[m]; unpack(v.data() + off, h[i->me], (char *)d + (ptrdiff_t)cdp[k] * rt->extent, cn[k], rt); }
    });
}
EXPORT int MPI_Neighbor_alltoallv(const void *s, const int *sn, const int *sd, MPI_Datatype st, void *d, const int *rn, const int *rd, MPI_Datatype rt, MPI_Comm c) { return nbr(true, 0, "MPI_Neighbor_alltoallv", s, sn, sd, st, d, rn, rd, rt, c); }
EXPORT int MPI_Ineighbor_alltoallv(const void *s, const int *sn, const int *sd, MPI_Datatype st, void *d, const int *rn, const int *rd, MPI_Datatype rt, MPI_Comm c, MPI_Request *q) { return nbr(false, q, "MPI_Ineighbor_alltoallv", s, sn, sd, st, d, rn, rd, rt, c); }

// communicator construction
static MPI_Comm mkComm(int ctx, std::vector<int> group) {
    auto *i = new CommImpl; i->ctx = ctx; i->group = std::move(group); i->me = MPI_UNDEFINED;
    for (size_t k = 0; k < i->group.size(); k++) if (i->group[k] == H->rank) i->me = k;
    return new ompi_communicator_t{i};
}
EXPORT int MPI_Comm_dup(MPI_Comm c, MPI_Comm *out) {
    auto *i = C(c); int ctx = 0;
    runColl(true, nullptr, i, CK_DUP, "MPI_Comm_dup", HSIM_DEP_ALL, -1, 0, nothing, [&](ReqImpl *r) { ctx = H->newCtx(r->op, 0); });
    *out = mkComm(ctx, i->group); (*out)->impl->eh = i->eh; (*out)->impl->ofWorld = i->ctx == 0;
    for (auto &a : std::map<int, void *>(i->attrs)) {
        auto &kv = keyvals()[a.first]; void *nv = nullptr; int f = 0;
        if (kv.cp) kv.cp(c, a.first, kv.extra, a.second, &nv, &f);
        if (f) (*out)->impl->attrs[a.first] = nv;
    }
    return 0;
}
EXPORT int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *out) {
    auto *i = C(c); std::vector<char> ct(8); memcpy(&ct[0], &color, 4); memcpy(&ct[4], &key, 4); int ctx = 0; std::vector<std::pair<int, int>> m;
    runColl(true, nullptr, i, CK_SPLIT, "MPI_Comm_split", HSIM_DEP_ALL, -1, 0, ct, [&](ReqImpl *r) {
        for (size_t k = 0; k < i->group.size(); k++) { auto v = cd(r, k); int cc, kk; memcpy(&cc, &v[0], 4); memcpy(&kk, &v[4], 4); if (cc == color) m.push_back({kk, (int)k}); }
        if (color != MPI_UNDEFINED) ctx = H->newCtx(r->op, color);
    });
    if (color == MPI_UNDEFINED) { *out = MPI_COMM_NULL; return 0; }
    std::stable_sort(m.begin(), m.end()); std::vector<int> g; for (auto &x : m) g.push_back(i->group[x.second]);
    *out = mkComm(ctx, g); return 0;
}
EXPORT int MPI_Comm_split_type(MPI_Comm c, int, int key, MPI_Info, MPI_Comm *out) { return MPI_Comm_split(c, 0, key, out); }
EXPORT int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *out) {
    auto *i = C(c); int ctx = 0; bool in = std::find(g->w->begin(), g->w->end(), H->rank) != g->w->end();
    int color = g->w->empty() ? -1 : (*g->w)[0];
    runColl(true, nullptr, i, CK_CREATE, "MPI_Comm_create", HSIM_DEP_ALL, -1, 0, nothing, [&](ReqImpl *r) { if (in) ctx = H->newCtx(r->op, color); });
    *out = in ? mkComm(ctx, *g->w) : MPI_COMM_NULL; return 0;
}
EXPORT int MPI_Dist_graph_create_adjacent(MPI_Comm c, int ni, const int *in, const int *, int no, const int *o, const int *, MPI_Info, int, MPI_Comm *out) {
    MPI_Comm_dup(c, out); (*out)->impl->topo = true; (*out)->impl->in.assign(in, in + ni); (*out)->impl->out.assign(o, o + no); return 0;
}
EXPORT int MPI_Comm_free(MPI_Comm *c) {
    auto *i = C(*c);
    for (auto &a : std::map<int, void *>(i->attrs)) MPI_Comm_delete_attr(*c, a.first);
    *c = MPI_COMM_NULL; return 0;
}
EXPORT int MPI_Comm_disconnect(MPI_Comm *c) { return MPI_Comm_free(c); }
EXPORT int MPI_Finalize(void) {
    active("MPI_Finalize");
    // delete attributes of MPI_COMM_SELF first (the standard's finalize hook)
    for (auto &a : std::map<int, void *>(C(MPI_COMM_SELF)->attrs)) MPI_Comm_delete_attr(MPI_COMM_SELF, a.first);
    runColl(true, nullptr, C(MPI_COMM_WORLD), CK_FINALIZE, "MPI_Finalize", HSIM_DEP_ALL, -1, 0, nothing, nullptr);
    mpiFinal = 1; H->mpiState(H->rank, 2); return 0;
}

// ---------------------------------------------------------------- Fortran handles
template <class T> struct FTab { std::vector<T> v; int add(T h) { for (size_t i = 0; i < v.size(); i++) if (v[i] == h) return i; v.push_back(h); return v.size() - 1; } };
static FTab<MPI_Comm> &fcomm() { static FTab<MPI_Comm> *t = nullptr; if (!t) { t = new FTab<MPI_Comm>; t->v = {MPI_COMM_WORLD, MPI_COMM_SELF, MPI_COMM_NULL}; } return *t; }
static FTab<MPI_Op> &fop() { static FTab<MPI_Op> *t = nullptr; if (!t) { t = new FTab<MPI_Op>; t->v = {MPI_OP_NULL, MPI_MAX, MPI_MIN, MPI_SUM, MPI_PROD, MPI_LAND, MPI_BAND, MPI_LOR, MPI_BOR, MPI_LXOR, MPI_BXOR, MPI_MAXLOC, MPI_MINLOC, MPI_REPLACE}; } return *t; }
static FTab<MPI_Datatype> &ftype() { static FTab<MPI_Datatype> *t = nullptr; if (!t) { t = new FTab<MPI_Datatype>; t->v = {MPI_DATATYPE_NULL, MPI_BYTE, MPI_PACKED, MPI_DATATYPE_NULL, MPI_DATATYPE_NULL, MPI_CHARACTER, MPI_LOGICAL, MPI_INTEGER, MPI_INTEGER1, MPI_INTEGER2, MPI_INTEGER4, MPI_INTEGER8, MPI_DATATYPE_NULL, MPI_REAL, MPI_REAL4, MPI_REAL8, MPI_DATATYPE_NULL, MPI_DOUBLE_PRECISION, MPI_COMPLEX, MPI_COMPLEX8, MPI_COMPLEX16, MPI_DATATYPE_NULL, MPI_DOUBLE_COMPLEX, MPI_2REAL, MPI_2DOUBLE_PRECISION, MPI_2INTEGER}; } return *t; }
EXPORT MPI_Fint MPI_Comm_c2f(MPI_Comm c) { return fcomm().add(c); }
EXPORT MPI_Comm MPI_Comm_f2c(MPI_Fint f) { return fcomm().v[f]; }
EXPORT MPI_Fint MPI_Op_c2f(MPI_Op o) { return fop().add(o); }
EXPORT MPI_Op MPI_Op_f2c(MPI_Fint f) { return fop().v[f]; }
EXPORT MPI_Fint MPI_Type_c2f(MPI_Datatype o) { return ftype().add(o); }
EXPORT MPI_Datatype MPI_Type_f2c(MPI_Fint f) { return ftype().v[f]; }

EXPORT void hsim_unsupported(const char *what) {
    if (H) H->unsupported(H->rank, what);
    fprintf(stderr, "hsim: unsupported MPI call %s before attach\n", what);
    abort();
}

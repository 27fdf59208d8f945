// Witnesses: how a user reaches grid storage. Compiled, never linked or run.
#include "grid/grid.hpp"
#include "grid/gridstorage.hpp"
using namespace schnek;
struct Odd { char c[12]; };

#define INST(N, T, R, ST) \
typedef Grid<T, R, GridNoArgCheck, ST> N; \
typedef Array<int, R> N##I; typedef Range<int, R> N##R; \
extern "C" { \
T *w_##N##_at(N *g, N##I *i) { return &(*g)[*i]; } \
const T *w_##N##_cat(const N *g, N##I *i) { return &g->get(*i); } \
int w_##N##_lo(N *g, int d) { return g->getLo(d); } \
int w_##N##_hi(N *g, int d) { return g->getHi(d); } \
int w_##N##_dim(N *g, int d) { return g->getDims(d); } \
int w_##N##_loA(N *g, int d) { return g->getLo()[d]; } \
int w_##N##_hiA(N *g, int d) { return g->getHi()[d]; } \
int w_##N##_dimA(N *g, int d) { return g->getDims()[d]; } \
int w_##N##_rlo(N *g, int d) { return g->getRange().getLo(d); } \
int w_##N##_rhi(N *g, int d) { return g->getRange().getHi(d); } \
long w_##N##_size(N *g) { return g->getSize(); } \
T *w_##N##_raw(N *g) { return g->getRawData(); } \
T *w_##N##_begin(N *g) { return g->begin(); } \
T *w_##N##_end(N *g) { return g->end(); } \
const T *w_##N##_cbegin(N *g) { return g->cbegin(); } \
const T *w_##N##_cend(N *g) { return g->cend(); } \
long w_##N##_stride(N *g, unsigned long d) { return g->stride(d); } \
long w_##N##_stride0(N *g) { return g->stride(0); } \
long w_##N##_stride1(N *g) { return R > 1 ? g->stride(1) : 0; } \
long w_##N##_stride2(N *g) { return R > 2 ? g->stride(2) : 0; } \
long w_##N##_stride3(N *g) { return R > 3 ? g->stride(3) : 0; } \
void w_##N##_resize(N *g, N##I *lo, N##I *hi) { g->resize(*lo, *hi); } \
void w_##N##_resizeS(N *g, N##I *size) { g->resize(*size); } \
void w_##N##_resizeR(N *g, N##R *r) { g->resize(*r); } \
void w_##N##_resizeG(N *g, N *o) { g->resize(*o); } \
void w_##N##_ctor(N *g, N##I *lo, N##I *hi) { new (g) N(*lo, *hi); } \
void w_##N##_ctorS(N *g, N##I *size) { new (g) N(*size); } \
void w_##N##_ctorR(N *g, N##R *r) { new (g) N(*r); } \
void w_##N##_ctor0(N *g) { new (g) N(); } \
void w_##N##_copy(N *g, N *o) { new (g) N(*o); } \
void w_##N##_assign(N *g, N *o) { *g = *o; } \
void w_##N##_dtor(N *g) { g->~N(); } \
unsigned long w_##N##_esize() { return sizeof(T); } \
int w_##N##_rglo(N##R *r, int d) { return r->getLo(d); } \
int w_##N##_rghi(N##R *r, int d) { return r->getHi(d); } \
}
INST(c1, double, 1, SingleArrayGridStorage)
INST(c2, double, 2, SingleArrayGridStorage)
INST(c3, Odd, 3, SingleArrayGridStorage)
INST(c4, double, 4, SingleArrayGridStorage)
INST(f1, double, 1, SingleArrayGridStorageFortran)
INST(f2, double, 2, SingleArrayGridStorageFortran)
INST(f3, Odd, 3, SingleArrayGridStorageFortran)
INST(f4, double, 4, SingleArrayGridStorageFortran)
INST(l1, double, 1, LazyArrayGridStorage)
INST(l2, double, 2, LazyArrayGridStorage)
INST(l3, Odd, 3, LazyArrayGridStorage)

// Whole-grid assignment and compound assignment.  Compiled, never linked or run.
#include "grid/grid.hpp"
#include "grid/gridstorage.hpp"
#include "grid/field.hpp"
using namespace schnek;
#define INST(N, T, R, ST) INSTX(N, T, R, ST, Grid)
#define INSTX(N, T, R, ST, G) \
typedef G<T, R, GridNoArgCheck, ST> N; \
extern "C" { \
void w_##N##_set(N *g, T *v) { *g = *v; } \
N *w_##N##_rset(N *g, T *v) { return static_cast<N *>(&(*g = *v)); } \
void w_##N##_add(N *g, N *o) { *g += *o; } \
void w_##N##_sub(N *g, N *o) { *g -= *o; } \
T *w_##N##_at(N *g, Array<int, R> *i) { return &g->get(*i); } \
long w_##N##_size(N *g) { return g->getSize(); } \
T *w_##N##_begin(N *g) { return g->begin(); } \
int w_##N##_lo(N *g, int d) { return g->getLo(d); } \
int w_##N##_hi(N *g, int d) { return g->getHi(d); } \
}
INST(c1, double, 1, SingleArrayGridStorage)
INST(c2, double, 2, SingleArrayGridStorage)
INST(c3, float, 3, SingleArrayGridStorage)
INST(c4, double, 4, SingleArrayGridStorage)
INST(f1, double, 1, SingleArrayGridStorageFortran)
INST(f2, double, 2, SingleArrayGridStorageFortran)
INST(f3, float, 3, SingleArrayGridStorageFortran)
INST(l1, double, 1, LazyArrayGridStorage)
INST(l2, double, 2, LazyArrayGridStorage)
INST(l3, float, 3, LazyArrayGridStorage)
INSTX(d1, double, 1, SingleArrayGridStorage, Field)
INSTX(d2, double, 2, SingleArrayGridStorage, Field)
INSTX(d3, float, 3, SingleArrayGridStorage, Field)
#define MIX(A, B) extern "C" { \
void w_##A##_##B##_add(A *g, B *o) { *g += *o; } \
void w_##A##_##B##_sub(A *g, B *o) { *g -= *o; } }
MIX(c1, f1) MIX(c2, f2) MIX(c3, f3) MIX(f1, c1) MIX(f2, c2) MIX(f3, c3) MIX(c2, l2) MIX(l2, c2) MIX(f2, l2) MIX(l3, f3)

// Array arithmetic, every operator, operand kind and length.  Compiled, never linked or run.
#include "grid/array.hpp"
#include "grid/arrayexpression.hpp"
#include <new>
using namespace schnek;
#define OPS(X, T, N, R) X(T, N, R, add, +) X(T, N, R, sub, -) X(T, N, R, mul, *) X(T, N, R, div, /)
// binary operators: destination constructed from, or assigned, the expression
#define BIN(T, N, R, nm, op) \
void w_##N##R##_aa_##nm(Array<T, R> *o, Array<T, R> *a, Array<T, R> *b) { new (o) Array<T, R>(*a op *b); } \
void w_##N##R##_as_##nm(Array<T, R> *o, Array<T, R> *a, T *s) { new (o) Array<T, R>(*a op *s); } \
void w_##N##R##_sa_##nm(Array<T, R> *o, Array<T, R> *a, T *s) { new (o) Array<T, R>(*s op *a); } \
void w_##N##R##_ee_##nm(Array<T, R> *o, Array<T, R> *a, Array<T, R> *b, Array<T, R> *c, Array<T, R> *d) { *o = (*a - *b) op (*c - *d); } \
void w_##N##R##_ea_##nm(Array<T, R> *o, Array<T, R> *a, Array<T, R> *b, Array<T, R> *c) { *o = (*a - *b) op *c; } \
void w_##N##R##_ae_##nm(Array<T, R> *o, Array<T, R> *a, Array<T, R> *b, Array<T, R> *c) { *o = *c op (*a - *b); } \
void w_##N##R##_es_##nm(Array<T, R> *o, Array<T, R> *a, Array<T, R> *b, T *s) { *o = (*a - *b) op *s; } \
void w_##N##R##_se_##nm(Array<T, R> *o, Array<T, R> *a, Array<T, R> *b, T *s) { *o = *s op (*a - *b); } \
void w_##N##R##_al_##nm(Array<T, R> *a, Array<T, R> *b) { *a = *b op *a; } \
void w_##N##R##_ca_##nm(Array<T, R> *a, Array<T, R> *b) { *a op##= *b; } \
void w_##N##R##_cs_##nm(Array<T, R> *a, T *s) { *a op##= *s; } \
void w_##N##R##_ce_##nm(Array<T, R> *a, Array<T, R> *b, Array<T, R> *c) { *a op##= (*b - *c); } \
void w_##N##R##_cal_##nm(Array<T, R> *a) { *a op##= *a; } \
void w_##N##R##_cel_##nm(Array<T, R> *a) { *a op##= (*a - *a * *a); } \
Array<T, R> *w_##N##R##_rca_##nm(Array<T, R> *a, Array<T, R> *b) { return &(*a op##= *b); } \
Array<T, R> *w_##N##R##_rcs_##nm(Array<T, R> *a, T *s) { return &(*a op##= *s); }
// operands of different element types
#define MIX(T, N, R, nm, op) \
void w_x##R##_ee_##nm(Array<double, R> *o, Array<int, R> *a, Array<int, R> *b, Array<double, R> *c, Array<double, R> *d) { *o = (*a - *b) op (*c - *d); } \
void w_x##R##_ff_##nm(Array<double, R> *o, Array<int, R> *a, Array<int, R> *b, Array<double, R> *c, Array<double, R> *d) { *o = (*c - *d) op (*a - *b); } \
void w_x##R##_ea_##nm(Array<double, R> *o, Array<int, R> *a, Array<int, R> *b, Array<double, R> *c) { *o = (*a - *b) op *c; } \
void w_x##R##_fa_##nm(Array<double, R> *o, Array<double, R> *a, Array<double, R> *b, Array<int, R> *c) { *o = (*a - *b) op *c; } \
void w_x##R##_ae_##nm(Array<double, R> *o, Array<int, R> *a, Array<int, R> *b, Array<double, R> *c) { *o = *c op (*a - *b); } \
void w_x##R##_af_##nm(Array<double, R> *o, Array<double, R> *a, Array<double, R> *b, Array<int, R> *c) { *o = *c op (*a - *b); } \
void w_x##R##_es_##nm(Array<double, R> *o, Array<double, R> *a, Array<double, R> *b, int *s) { *o = (*a - *b) op *s; } \
void w_x##R##_se_##nm(Array<double, R> *o, Array<double, R> *a, Array<double, R> *b, int *s) { *o = *s op (*a - *b); } \
void w_x##R##_fs_##nm(Array<double, R> *o, Array<int, R> *a, Array<int, R> *b, double *s) { *o = (*a - *b) op *s; } \
void w_x##R##_sf_##nm(Array<double, R> *o, Array<int, R> *a, Array<int, R> *b, double *s) { *o = *s op (*a - *b); } \
void w_x##R##_ca_##nm(Array<double, R> *a, Array<int, R> *b) { *a op##= *b; } \
void w_x##R##_cs_##nm(Array<double, R> *a, int *s) { *a op##= *s; } \
void w_x##R##_ce_##nm(Array<double, R> *a, Array<int, R> *b, Array<int, R> *c) { *a op##= (*b - *c); }
#define MISC(T, N, R) \
void w_##N##R##_neg(Array<T, R> *o, Array<T, R> *a) { *o = -*a; } \
void w_##N##R##_pos(Array<T, R> *o, Array<T, R> *a) { *o = +*a; } \
void w_##N##R##_nege(Array<T, R> *o, Array<T, R> *a, Array<T, R> *b) { *o = -(*a - *b); } \
void w_##N##R##_pose(Array<T, R> *o, Array<T, R> *a, Array<T, R> *b) { *o = +(*a - *b); } \
void w_##N##R##_nest(Array<T, R> *o, Array<T, R> *a, Array<T, R> *b, Array<T, R> *c, T *s) { *o = (*a - *b) * *s - (*c * *a - *b * *s); } \
T w_##N##R##_sum(Array<T, R> *a) { return a->sum(); } \
T w_##N##R##_product(Array<T, R> *a) { return a->product(); } \
T w_##N##R##_sqr(Array<T, R> *a) { return a->sqr(); } \
void w_##N##R##_fill(Array<T, R> *a, T *s) { a->fill(*s); } \
Array<T, R> *w_##N##R##_rfill(Array<T, R> *a, T *s) { return &a->fill(*s); } \
void w_##N##R##_clear(Array<T, R> *a) { a->clear(); } \
void w_##N##R##_zero(Array<T, R> *o) { new (o) Array<T, R>(Array<T, R>::Zero()); } \
void w_##N##R##_ones(Array<T, R> *o) { new (o) Array<T, R>(Array<T, R>::Ones()); } \
void w_##N##R##_one(Array<T, R> *o, T *s) { new (o) Array<T, R>(*s); } \
void w_##N##R##_copy(Array<T, R> *o, Array<T, R> *a) { new (o) Array<T, R>(*a); } \
void w_##N##R##_assign(Array<T, R> *o, Array<T, R> *a) { *o = *a; } \
void w_##N##R##_copyc(Array<T, R, ArrayAssertArgCheck> *o, Array<T, R> *a) { new (o) Array<T, R, ArrayAssertArgCheck>(*a); } \
void w_##N##R##_assignc(Array<T, R, ArrayAssertArgCheck> *o, Array<T, R> *a) { *o = *a; } \
bool w_##N##R##_eq(Array<T, R> *a, Array<T, R> *b) { return *a == *b; } \
bool w_##N##R##_ne(Array<T, R> *a, Array<T, R> *b) { return *a != *b; } \
bool w_##N##R##_lt(Array<T, R> *a, Array<T, R> *b) { return *a < *b; } \
bool w_##N##R##_le(Array<T, R> *a, Array<T, R> *b) { return *a <= *b; } \
OPS(BIN, T, N, R)
#define LEN(R) MISC(double, d, R) MISC(int, i, R) OPS(MIX, , , R) \
void w_x##R##_conv(Array<double, R> *o, Array<int, R> *a) { *o = *a; } \
void w_x##R##_convi(Array<int, R> *o, Array<double, R> *a) { *o = *a; }
extern "C" {
LEN(1) LEN(2) LEN(3) LEN(4) LEN(5) LEN(7) LEN(10)
#define PROJ(R, D) void w_proj##R##_##D(Array<int, D> *o, Array<int, R> *a) { new (o) Array<int, D>(a->project<D>()); }
PROJ(2, 1) PROJ(3, 1) PROJ(3, 2) PROJ(4, 3) PROJ(4, 1) PROJ(5, 3) PROJ(3, 3)
#define PDIM(R, D) void w_pdim##R##_##D(Array<int, R - 1> *o, Array<int, R> *a) { new (o) Array<int, R - 1>(a->projectDim(D)); }
PDIM(2, 0) PDIM(2, 1) PDIM(3, 0) PDIM(3, 1) PDIM(3, 2) PDIM(4, 0) PDIM(4, 1) PDIM(4, 2) PDIM(4, 3)
typedef double T;
void w_c2(Array<T, 2> *o, T a, T b) { new (o) Array<T, 2>(a, b); }
void w_c3(Array<T, 3> *o, T a, T b, T c) { new (o) Array<T, 3>(a, b, c); }
void w_c4(Array<T, 4> *o, T a, T b, T c, T d) { new (o) Array<T, 4>(a, b, c, d); }
void w_c5(Array<T, 5> *o, T a, T b, T c, T d, T e) { new (o) Array<T, 5>(a, b, c, d, e); }
void w_c6(Array<T, 6> *o, T a, T b, T c, T d, T e, T f) { new (o) Array<T, 6>(a, b, c, d, e, f); }
void w_c7(Array<T, 7> *o, T a, T b, T c, T d, T e, T f, T g) { new (o) Array<T, 7>(a, b, c, d, e, f, g); }
void w_c8(Array<T, 8> *o, T a, T b, T c, T d, T e, T f, T g, T h) { new (o) Array<T, 8>(a, b, c, d, e, f, g, h); }
void w_c9(Array<T, 9> *o, T a, T b, T c, T d, T e, T f, T g, T h, T i) { new (o) Array<T, 9>(a, b, c, d, e, f, g, h, i); }
void w_c10(Array<T, 10> *o, T a, T b, T c, T d, T e, T f, T g, T h, T i, T j) { new (o) Array<T, 10>(a, b, c, d, e, f, g, h, i, j); }
}

// Ranges, their iterators and the forEach policies.  Compiled, never linked or run.
#include "grid/range.hpp"
#include "grid/arrayexpression.hpp"
#include "grid/iteration/range-iteration.hpp"
#include <new>
using namespace schnek;
extern "C" void sink(int a, int b, int c, int d);
template<size_t R> struct Sink { void operator()(const Array<int, R> &p) const { sink(p[0], R > 1 ? p[R > 1 ? 1 : 0] : 0, R > 2 ? p[R > 2 ? 2 : 0] : 0, R > 3 ? p[R > 3 ? 3 : 0] : 0); } };
#define ACC(T, N, R) \
T w_##N##R##_lo(const Range<T, R> *r, int d) { return r->getLo(d); } \
T w_##N##R##_hi(const Range<T, R> *r, int d) { return r->getHi(d); } \
T w_##N##R##_loA(const Range<T, R> *r, int d) { return r->getLo()[d]; } \
T w_##N##R##_hiA(const Range<T, R> *r, int d) { return r->getHi()[d]; } \
T *w_##N##R##_mlo(Range<T, R> *r, int d) { return &r->getLo(d); } \
T *w_##N##R##_mhi(Range<T, R> *r, int d) { return &r->getHi(d); } \
T *w_##N##R##_mloA(Range<T, R> *r, int d) { return &r->getLo()[d]; } \
T *w_##N##R##_mhiA(Range<T, R> *r, int d) { return &r->getHi()[d]; } \
void w_##N##R##_ctor(Range<T, R> *r, Array<T, R> *lo, Array<T, R> *hi) { new (r) Range<T, R>(*lo, *hi); } \
void w_##N##R##_ctor0(Range<T, R> *r) { new (r) Range<T, R>(); } \
void w_##N##R##_copy(Range<T, R> *r, const Range<T, R> *o) { new (r) Range<T, R>(*o); } \
void w_##N##R##_conv(Range<T, R, ArrayAssertArgCheck> *r, const Range<T, R> *o) { new (r) Range<T, R, ArrayAssertArgCheck>(*o); } \
T w_##N##R##_clo(const Range<T, R, ArrayAssertArgCheck> *r, int d) { return r->getLo(d); } \
T w_##N##R##_chi(const Range<T, R, ArrayAssertArgCheck> *r, int d) { return r->getHi(d); } \
void w_##N##R##_assign(Range<T, R> *r, const Range<T, R> *o) { *r = *o; } \
bool w_##N##R##_inside(Range<T, R> *r, Array<T, R> *p) { return r->inside(*p); } \
void w_##N##R##_grow(Range<T, R> *r, T *s) { r->grow(*s); }
#define IT(R) \
typedef Range<int, R>::iterator It##R; \
void w_it##R##_begin(It##R *o, Range<int, R> *r) { new (o) It##R(r->begin()); } \
void w_it##R##_end(It##R *o, Range<int, R> *r) { new (o) It##R(r->end()); } \
void w_it##R##_copy(It##R *o, It##R *i) { new (o) It##R(*i); } \
void w_it##R##_inc(It##R *i) { ++*i; } \
It##R *w_it##R##_rinc(It##R *i) { return &++*i; } \
void w_it##R##_post(It##R *o, It##R *i) { new (o) It##R((*i)++); } \
bool w_it##R##_eq(It##R *i, It##R *j) { return *i == *j; } \
bool w_it##R##_ne(It##R *i, It##R *j) { return *i != *j; } \
int w_it##R##_pos(It##R *i, int d) { return (**i)[d]; } \
int w_it##R##_getpos(It##R *i, int d) { return i->getPos()[d]; } \
bool w_it##R##_atEnd(It##R *i) { return i->atEnd; } \
int w_it##R##_dlo(It##R *i, int d) { return i->domain.getLo(d); } \
int w_it##R##_dhi(It##R *i, int d) { return i->domain.getHi(d); } \
void w_loop##R(Array<int, R> *lo, Array<int, R> *hi) { Range<int, R> r(*lo, *hi); for (It##R i = r.begin(); i != r.end(); ++i) Sink<R>()(*i); } \
void w_ploop##R(Array<int, R> *lo, Array<int, R> *hi) { Range<int, R> r(*lo, *hi); It##R i = r.begin(), e = r.end(); while (!(i == e)) { Sink<R>()(i.getPos()); i++; } } \
void w_rloop##R(Array<int, R> *lo, Array<int, R> *hi) { Range<int, R> r(*lo, *hi); for (auto &p : r) Sink<R>()(p); } \
void w_feC##R(Array<int, R> *lo, Array<int, R> *hi) { Range<int, R> r(*lo, *hi); RangeCIterationPolicy<R>::forEach(r, Sink<R>()); } \
void w_feF##R(Array<int, R> *lo, Array<int, R> *hi) { Range<int, R> r(*lo, *hi); RangeFortranIterationPolicy<R>::forEach(r, Sink<R>()); }
extern "C" {
ACC(int, i, 1) ACC(int, i, 2) ACC(int, i, 3) ACC(int, i, 4) ACC(int, i, 5)
ACC(double, d, 1) ACC(double, d, 2) ACC(double, d, 3) ACC(double, d, 4)
IT(1) IT(2) IT(3) IT(4)
#define GA2 T *a, T *b
#define GROW(R, P, A) void w_grow##R P { r->grow A; }
GROW(2, (Range<int, 2> *r, int a, int b), (a, b))
GROW(3, (Range<int, 3> *r, int a, int b, int c), (a, b, c))
GROW(4, (Range<int, 4> *r, int a, int b, int c, int d), (a, b, c, d))
GROW(5, (Range<int, 5> *r, int a, int b, int c, int d, int e), (a, b, c, d, e))
GROW(6, (Range<int, 6> *r, int a, int b, int c, int d, int e, int f), (a, b, c, d, e, f))
GROW(7, (Range<int, 7> *r, int a, int b, int c, int d, int e, int f, int g), (a, b, c, d, e, f, g))
GROW(8, (Range<int, 8> *r, int a, int b, int c, int d, int e, int f, int g, int h), (a, b, c, d, e, f, g, h))
GROW(9, (Range<int, 9> *r, int a, int b, int c, int d, int e, int f, int g, int h, int i), (a, b, c, d, e, f, g, h, i))
GROW(10, (Range<int, 10> *r, int a, int b, int c, int d, int e, int f, int g, int h, int i, int j), (a, b, c, d, e, f, g, h, i, j))
#define GLO(R) int w_glo##R(const Range<int, R> *r, int d) { return r->getLo(d); } int w_ghi##R(const Range<int, R> *r, int d) { return r->getHi(d); }
GLO(2) GLO(3) GLO(4) GLO(5) GLO(6) GLO(7) GLO(8) GLO(9) GLO(10)
#define PROJ(R, D) void w_proj##R##_##D(Range<int, D> *o, Range<int, R> *r) { new (o) Range<int, D>(r->project<D>()); }
PROJ(2, 1) PROJ(3, 1) PROJ(3, 2) PROJ(4, 3)
#define PDIM(R, D) void w_pdim##R##_##D(Range<int, R - 1> *o, Range<int, R> *r) { new (o) Range<int, R - 1>(r->projectDim(D)); }
PDIM(2, 0) PDIM(2, 1) PDIM(3, 0) PDIM(3, 1) PDIM(3, 2) PDIM(4, 0) PDIM(4, 1) PDIM(4, 2) PDIM(4, 3)
}

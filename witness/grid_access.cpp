// Every way of naming a grid element, on a storage and checking policy that are declared only.
#include "grid/grid.hpp"
using namespace schnek;
template<size_t rank> struct Pol {
  typedef Array<int, rank> IndexType;
  static const IndexType &check(const IndexType &pos, const IndexType &lo, const IndexType &hi);
};
template<typename T, size_t rank> struct Sto {
  typedef Array<int, rank> IndexType;
  typedef Range<int, rank> RangeType;
  Sto(); Sto(const IndexType &, const IndexType &); Sto(const RangeType &);
  int dummy;
  T &get(const IndexType &);
  const T &get(const IndexType &) const;
  const IndexType &getLo() const;
  const IndexType &getHi() const;
  const IndexType &getDims() const;
  const RangeType &getRange() const;
  int getLo(int) const;
  int getHi(int) const;
  int getDims(int) const;
  int getSize() const;
  T *getRawData() const;
  void resize(const IndexType &, const IndexType &);
  void resize(const RangeType);
  ptrdiff_t stride(size_t) const;
  typedef T *storage_iterator;
  typedef const T *const_storage_iterator;
  T *begin(); T *end();
  const T *cbegin() const; const T *cend() const;
};
#define G(R) Grid<double, R, Pol, Sto>
extern "C" {
#define ARR(R) \
double *w_arr##R(G(R) *g, Array<int, R> *i) { return &(*g)[*i]; } \
double w_carr##R(const G(R) *g, Array<int, R> *i) { return (*g)[*i]; } \
double *w_exp##R(G(R) *g, Array<int, R> *i, Array<int, R> *j) { return &(*g)[*i + *j]; } \
double w_cexp##R(const G(R) *g, Array<int, R> *i, Array<int, R> *j) { return (*g)[*i + *j]; }
ARR(1) ARR(2) ARR(3) ARR(4) ARR(5) ARR(7)
double *w_sub1(G(1) *g, int a) { return &(*g)[a]; }
double w_csub1(const G(1) *g, int a) { return (*g)[a]; }
#define CALL(R, P, A) double *w_call##R P { return &(*g) A; }
#define CCALL(R, P, A) double w_ccall##R P { return (*g) A; }
CALL(1, (G(1) *g, int a), (a))
CALL(2, (G(2) *g, int a, int b), (a, b))
CALL(3, (G(3) *g, int a, int b, int c), (a, b, c))
CALL(4, (G(4) *g, int a, int b, int c, int d), (a, b, c, d))
CALL(5, (G(5) *g, int a, int b, int c, int d, int e), (a, b, c, d, e))
CALL(6, (G(6) *g, int a, int b, int c, int d, int e, int f), (a, b, c, d, e, f))
CALL(7, (G(7) *g, int a, int b, int c, int d, int e, int f, int h), (a, b, c, d, e, f, h))
CALL(8, (G(8) *g, int a, int b, int c, int d, int e, int f, int h, int i), (a, b, c, d, e, f, h, i))
CALL(9, (G(9) *g, int a, int b, int c, int d, int e, int f, int h, int i, int j), (a, b, c, d, e, f, h, i, j))
CALL(10, (G(10) *g, int a, int b, int c, int d, int e, int f, int h, int i, int j, int k), (a, b, c, d, e, f, h, i, j, k))
CCALL(1, (const G(1) *g, int a), (a))
CCALL(2, (const G(2) *g, int a, int b), (a, b))
CCALL(3, (const G(3) *g, int a, int b, int c), (a, b, c))
CCALL(4, (const G(4) *g, int a, int b, int c, int d), (a, b, c, d))
CCALL(5, (const G(5) *g, int a, int b, int c, int d, int e), (a, b, c, d, e))
CCALL(6, (const G(6) *g, int a, int b, int c, int d, int e, int f), (a, b, c, d, e, f))
CCALL(7, (const G(7) *g, int a, int b, int c, int d, int e, int f, int h), (a, b, c, d, e, f, h))
CCALL(8, (const G(8) *g, int a, int b, int c, int d, int e, int f, int h, int i), (a, b, c, d, e, f, h, i))
CCALL(9, (const G(9) *g, int a, int b, int c, int d, int e, int f, int h, int i, int j), (a, b, c, d, e, f, h, i, j))
CCALL(10, (const G(10) *g, int a, int b, int c, int d, int e, int f, int h, int i, int j, int k), (a, b, c, d, e, f, h, i, j, k))
// the shipped policies
#define POL(R) \
const Array<int, R> *w_none##R(Array<int, R> *p, Array<int, R> *l, Array<int, R> *h) { return &GridNoArgCheck<R>::check(*p, *l, *h); } \
typedef Array<int, R, ArrayAssertArgCheck> AA##R; \
const AA##R *w_assert##R(AA##R *p, AA##R *l, AA##R *h) { return &GridAssertCheck<R>::check(*p, *l, *h); } \
void w_debug##R(AA##R *out, AA##R *p, AA##R *l, AA##R *h) { new (out) AA##R(GridDebugCheck<R>::check(*p, *l, *h)); } \
bool w_debugflag##R() { return GridDebugCheck<R>::getErrorFlag(); } \
void w_debugoff##R(AA##R *out) { new (out) AA##R(GridDebugCheck<R>::getOffending()); } \
void w_aassert##R(size_t i) { ArrayAssertArgCheck<R>().check(i); } \
void w_anone##R(size_t i) { ArrayNoArgCheck<R>().check(i); } \
int *w_aidx##R(AA##R *a, int i) { return &(*a)[i]; } \
int w_caidx##R(const AA##R *a, int i) { return (*a)[i]; } \
int *w_nidx##R(Array<int, R> *a, int i) { return &(*a)[i]; } \
int w_cnidx##R(const Array<int, R> *a, int i) { return (*a)[i]; }
POL(1) POL(2) POL(3) POL(4)
}

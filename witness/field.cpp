// Field geometry, over a storage policy that only records its range (any storage policy obeying its contract, P01/P02).
#include "grid/field.hpp"
using namespace schnek;
template<typename T, size_t rank>
struct RecordStorage {
  typedef Array<int, rank> IndexType;
  typedef Range<int, rank> RangeType;
  typedef T *storage_iterator;
  typedef const T *const_storage_iterator;
  RangeType range;
  RecordStorage() {}
  RecordStorage(const IndexType &lo, const IndexType &hi) { resize(lo, hi); }
  void resize(const IndexType &lo, const IndexType &hi) {
    for (size_t d = 0; d < rank; ++d) { range.getLo()[d] = lo[d]; range.getHi()[d] = hi[d]; }
  }
  const IndexType &getLo() const { return range.getLo(); }
  const IndexType &getHi() const { return range.getHi(); }
  int getLo(size_t k) const { return range.getLo()[k]; }
  int getHi(size_t k) const { return range.getHi()[k]; }
  const RangeType &getRange() const { return range; }
  IndexType getDims() const { return IndexType(range.getHi() - range.getLo() + 1); }
};
#define INST(R) \
typedef Field<double, R, GridNoArgCheck, RecordStorage> F##R; \
typedef Array<int, R> I##R; typedef Range<int, R> RI##R; typedef Range<double, R> D##R; typedef Array<bool, R> S##R; \
extern "C" { \
void w_ctorS##R(F##R *f, I##R *size, D##R *dom, S##R *st, int gc) { new (f) F##R(*size, *dom, *st, gc); } \
void w_ctorL##R(F##R *f, I##R *lo, I##R *hi, D##R *dom, S##R *st, int gc) { new (f) F##R(*lo, *hi, *dom, *st, gc); } \
void w_ctorR##R(F##R *f, RI##R *r, D##R *dom, S##R *st, int gc) { new (f) F##R(*r, *dom, *st, gc); } \
void w_resizeS##R(F##R *f, I##R *size, D##R *dom, S##R *st, int gc) { f->resize(*size, *dom, *st, gc); } \
void w_resizeL##R(F##R *f, I##R *lo, I##R *hi, D##R *dom, S##R *st, int gc) { f->resize(*lo, *hi, *dom, *st, gc); } \
void w_resizeR##R(F##R *f, RI##R *r, D##R *dom, S##R *st, int gc) { f->resize(*r, *dom, *st, gc); } \
void w_copy##R(F##R *f, F##R *o) { new (f) F##R(*o); } \
void w_assign##R(F##R *f, F##R *o) { *f = *o; } \
int w_lo##R(F##R *f, int d) { return f->getLo()[d]; } \
int w_hi##R(F##R *f, int d) { return f->getHi()[d]; } \
int w_ilo##R(F##R *f, int d) { return f->getInnerLo()[d]; } \
int w_ihi##R(F##R *f, int d) { return f->getInnerHi()[d]; } \
int w_irlo##R(F##R *f, int d) { return f->getInnerRange().getLo()[d]; } \
int w_irhi##R(F##R *f, int d) { return f->getInnerRange().getHi()[d]; } \
double w_dlo##R(F##R *f, int d) { return f->getDomain().getLo()[d]; } \
double w_dhi##R(F##R *f, int d) { return f->getDomain().getHi()[d]; } \
int w_st##R(F##R *f, int d) { return f->getStagger(d); } \
int w_stA##R(F##R *f, int d) { return f->getStagger()[d]; } \
int w_stArg##R(S##R *s, int d) { return (*s)[d]; } \
int w_rlo##R(RI##R *r, int d) { return r->getLo()[d]; } \
int w_rhi##R(RI##R *r, int d) { return r->getHi()[d]; } \
double w_domlo##R(D##R *r, int d) { return r->getLo()[d]; } \
double w_domhi##R(D##R *r, int d) { return r->getHi()[d]; } \
int w_pti##R(F##R *f, int d, double x) { return f->positionToIndex(d, x); } \
int w_pti2i##R(F##R *f, int d, double x) { int i; double o; f->positionToIndex(d, x, i, o); return i; } \
double w_pti2o##R(F##R *f, int d, double x) { int i; double o; f->positionToIndex(d, x, i, o); return o; } \
double w_itp##R(F##R *f, int d, int i) { return f->indexToPosition(d, i); } \
}
INST(1) INST(2) INST(3) INST(4)

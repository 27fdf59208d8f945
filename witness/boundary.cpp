// Boundary domains and sub-grids.  Compiled, never linked or run.
#include "grid/boundary.hpp"
using namespace schnek;
#define INST(R) \
typedef Boundary<R> B##R; typedef Array<int, R> I##R; typedef Range<int, R> D##R; \
extern "C" { \
void w_ctor##R(B##R *b, I##R *lo, I##R *hi, int delta) { new (b) B##R(*lo, *hi, delta); } \
void w_ctorD##R(B##R *b, D##R *r, int delta) { new (b) B##R(*r, delta); } \
void w_copy##R(B##R *b, B##R *o) { new (b) B##R(*o); } \
int w_delta##R(B##R *b) { return b->getDelta(); } \
int w_lo##R(B##R *b, int d) { return b->getDomain().getLo()[d]; } \
int w_hi##R(B##R *b, int d) { return b->getDomain().getHi()[d]; } \
int w_rlo##R(D##R *r, int d) { return r->getLo()[d]; } \
int w_rhi##R(D##R *r, int d) { return r->getHi()[d]; } \
int w_ghostlo##R(B##R *b, int d, int dim, int e) { return b->getGhostDomain(dim, e ? B##R::Max : B##R::Min).getLo()[d]; } \
int w_ghosthi##R(B##R *b, int d, int dim, int e) { return b->getGhostDomain(dim, e ? B##R::Max : B##R::Min).getHi()[d]; } \
int w_srclo##R(B##R *b, int d, int dim, int e) { return b->getGhostSourceDomain(dim, e ? B##R::Max : B##R::Min).getLo()[d]; } \
int w_srchi##R(B##R *b, int d, int dim, int e) { return b->getGhostSourceDomain(dim, e ? B##R::Max : B##R::Min).getHi()[d]; } \
int w_bndlo##R(B##R *b, int d, int dim, int e, bool s) { return b->getBoundaryDomain(dim, e ? B##R::Max : B##R::Min, s).getLo()[d]; } \
int w_bndhi##R(B##R *b, int d, int dim, int e, bool s) { return b->getBoundaryDomain(dim, e ? B##R::Max : B##R::Min, s).getHi()[d]; } \
int w_innerlo##R(B##R *b, int d) { return b->getInnerDomain().getLo()[d]; } \
int w_innerhi##R(B##R *b, int d) { return b->getInnerDomain().getHi()[d]; } \
}
INST(1) INST(2) INST(3) INST(4)
// base grid with opaque element access
template<typename T, size_t rank> struct OpaqueStorage {
  typedef Array<int, rank> IndexType;
  typedef Range<int, rank> RangeType;
  typedef T *storage_iterator; typedef const T *const_storage_iterator;
  RangeType range;
  T *data;
  T &get(const IndexType &i) { long o = 0; for (size_t d = 0; d < rank; ++d) o = o * (range.getHi()[d] - range.getLo()[d] + 1) + i[d] - range.getLo()[d]; return data[o]; }
  const T &get(const IndexType &i) const { return const_cast<OpaqueStorage *>(this)->get(i); }
  const IndexType &getLo() const { return range.getLo(); }
  const IndexType &getHi() const { return range.getHi(); }
};
#define SUB(R) \
typedef Grid<double, R, GridNoArgCheck, OpaqueStorage> G##R; typedef SubGrid<G##R> S##R; \
typedef Field<double, R, GridNoArgCheck, OpaqueStorage> F##R; typedef SubGrid<F##R> SF##R; \
extern "C" { \
double *w_gat##R(G##R *g, I##R *i) { return &g->get(*i); } \
double *w_fat##R(F##R *g, I##R *i) { return &g->get(*i); } \
int w_fst##R(F##R *g, int d) { return g->getStagger(d); } \
void w_sctor##R(S##R *s, I##R *lo, I##R *hi, G##R *g) { new (s) S##R(*lo, *hi, *g); } \
void w_sctorR##R(S##R *s, D##R *r, G##R *g) { new (s) S##R(*r, *g); } \
void w_sctorS##R(S##R *s, I##R *size, G##R *g) { new (s) S##R(*size, *g); } \
void w_sresize##R(S##R *s, I##R *lo, I##R *hi) { s->resize(*lo, *hi); } \
void w_scopy##R(S##R *s, S##R *o) { new (s) S##R(*o); } \
double *w_sat##R(S##R *s, I##R *i) { return &(*s)[*i]; } \
const double *w_scat##R(const S##R *s, I##R *i) { return &s->get(*i); } \
int w_slo##R(S##R *s, int d) { return s->getLo(d); } \
int w_shi##R(S##R *s, int d) { return s->getHi(d); } \
int w_sloA##R(S##R *s, int d) { return s->getLo()[d]; } \
int w_shiA##R(S##R *s, int d) { return s->getHi()[d]; } \
int w_sdim##R(S##R *s, int d) { return s->getDims(d); } \
int w_sdimA##R(S##R *s, int d) { return s->getDims()[d]; } \
void w_sset##R(S##R *s, double *v) { *s = *v; } \
void sinkp(double *); void sinkcp(const double *); \
bool w_sitEq##R(S##R::storage_iterator *a, S##R::storage_iterator *b) { return *a == *b; } bool w_sitNe##R(S##R::storage_iterator *a, S##R::storage_iterator *b) { return *a != *b; } \
bool w_scitEq##R(S##R::const_storage_iterator *a, S##R::const_storage_iterator *b) { return *a == *b; } bool w_scitNe##R(S##R::const_storage_iterator *a, S##R::const_storage_iterator *b) { return *a != *b; } \
void w_sloop##R(S##R *s) { for (S##R::storage_iterator i = s->begin(); i != s->end(); ++i) sinkp(&*i); } \
void w_scloop##R(S##R *s) { for (S##R::const_storage_iterator i = s->cbegin(); i != s->cend(); ++i) sinkcp(&*i); } \
void w_sghost##R(S##R *s, B##R *b, int dim, int e, G##R *g) { new (s) S##R(b->getGhostBoundary(dim, e ? B##R::Max : B##R::Min, *g)); } \
void w_fghost##R(SF##R *s, B##R *b, int dim, int e, F##R *g) { new (s) SF##R(b->getGhostBoundary(dim, e ? B##R::Max : B##R::Min, *g)); } \
int w_fslo##R(SF##R *s, int d) { return s->getLo(d); } \
int w_fshi##R(SF##R *s, int d) { return s->getHi(d); } \
double *w_fsat##R(SF##R *s, I##R *i) { return &(*s)[*i]; } \
}
SUB(1) SUB(2) SUB(3)

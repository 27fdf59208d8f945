// Domain subdivision, ghost-cell exchange, reductions.  Compiled, never linked or run.
#include "grid/mpisubdivision.hpp"
using namespace schnek;
#define INST(R) \
typedef Grid<double, R> G##R; typedef SerialSubdivision<G##R> S##R; typedef MPICartSubdivision<G##R> P##R; \
typedef DomainSubdivision<G##R> D##R; typedef Array<int, R> I##R; typedef Range<int, R> RI##R; typedef Boundary<R> B##R; \
typedef Range<double, R> RD##R; typedef Array<double, R> AD##R; \
extern "C" { \
double *w_at##R(G##R *g, I##R *i) { return &g->get(*i); } \
void w_sinit##R(S##R *s, I##R *lo, I##R *hi, int delta) { s->S##R::init(*lo, *hi, delta); } \
void w_pinit##R(P##R *s, I##R *lo, I##R *hi, int delta) { s->P##R::init(*lo, *hi, delta); } \
void w_sexch##R(S##R *s, G##R *g, size_t dim) { s->S##R::exchange(*g, dim); } \
void w_sacc##R(S##R *s, G##R *g, size_t dim) { s->S##R::accumulate(*g, dim); } \
void w_pexch##R(P##R *s, G##R *g, size_t dim) { s->P##R::exchange(*g, dim); } \
void w_pacc##R(P##R *s, G##R *g, size_t dim) { s->P##R::accumulate(*g, dim); } \
void w_sdata##R(S##R *s, size_t dim, int o, D##R::BufferType *in, D##R::BufferType *out) { s->S##R::exchangeData(dim, o, *in, *out); } \
void w_pdata##R(P##R *s, size_t dim, int o, D##R::BufferType *in, D##R::BufferType *out) { s->P##R::exchangeData(dim, o, *in, *out); } \
B##R *w_bounds##R(D##R *s) { return s->bounds.get(); } \
int w_glo##R(D##R *s, int d, int dim, int e) { return s->bounds->getGhostDomain(dim, e ? B##R::Max : B##R::Min).getLo()[d]; } \
int w_ghi##R(D##R *s, int d, int dim, int e) { return s->bounds->getGhostDomain(dim, e ? B##R::Max : B##R::Min).getHi()[d]; } \
int w_xlo##R(D##R *s, int d, int dim, int e) { return s->bounds->getGhostSourceDomain(dim, e ? B##R::Max : B##R::Min).getLo()[d]; } \
int w_xhi##R(D##R *s, int d, int dim, int e) { return s->bounds->getGhostSourceDomain(dim, e ? B##R::Max : B##R::Min).getHi()[d]; } \
int w_blo##R(B##R *b, int d) { return b->getDomain().getLo()[d]; } \
int w_bhi##R(B##R *b, int d) { return b->getDomain().getHi()[d]; } \
int w_bdelta##R(B##R *b) { return b->getDelta(); } \
int w_bilo##R(B##R *b, int d) { return b->getInnerDomain().getLo()[d]; } \
int w_bihi##R(B##R *b, int d) { return b->getInnerDomain().getHi()[d]; } \
int w_dlo##R(D##R *s, int d) { return s->getDomain().getLo()[d]; } \
int w_dhi##R(D##R *s, int d) { return s->getDomain().getHi()[d]; } \
int w_lo##R(D##R *s, int d) { return s->getLo()[d]; } \
int w_hi##R(D##R *s, int d) { return s->getHi()[d]; } \
int w_ilo##R(D##R *s, int d) { return s->getInnerLo()[d]; } \
int w_ihi##R(D##R *s, int d) { return s->getInnerHi()[d]; } \
int w_idlo##R(D##R *s, int d) { return s->getInnerDomain().getLo()[d]; } \
int w_idhi##R(D##R *s, int d) { return s->getInnerDomain().getHi()[d]; } \
int w_delta##R(D##R *s) { return s->getDelta(); } \
int w_sgdlo##R(S##R *s, int d) { return s->S##R::getGlobalDomain().getLo()[d]; } \
int w_sgdhi##R(S##R *s, int d) { return s->S##R::getGlobalDomain().getHi()[d]; } \
int w_pgdlo##R(P##R *s, int d) { return s->P##R::getGlobalDomain().getLo()[d]; } \
int w_pgdhi##R(P##R *s, int d) { return s->P##R::getGlobalDomain().getHi()[d]; } \
int w_pdims##R(P##R *s, int d) { return s->dims[d]; } \
int w_pcoord##R(P##R *s, int d) { return s->mycoord[d]; } \
int w_pprev##R(P##R *s, int d) { return s->prevcoord[d]; } \
int w_pnext##R(P##R *s, int d) { return s->nextcoord[d]; } \
int *w_apcoord##R(P##R *s) { return s->mycoord; } \
int *w_apdims##R(P##R *s) { return s->dims; } \
int *w_aprank##R(P##R *s) { return &s->ComRank; } \
int *w_apsize##R(P##R *s) { return &s->ComSize; } \
MPI_Comm *w_apcomm##R(P##R *s) { return &s->comm; } \
int *w_apprev##R(P##R *s, int d) { return &s->prevcoord[d]; } \
int *w_apnext##R(P##R *s, int d) { return &s->nextcoord[d]; } \
int w_pxsize##R(P##R *s, int d) { return s->exchSize[d]; } \
double *w_psend##R(P##R *s, int d) { return s->sendarr[d]; } \
double *w_precv##R(P##R *s, int d) { return s->recvarr[d]; } \
MPI_Comm w_pcomm##R(P##R *s) { return s->comm; } \
int w_blol##R(P##R *s, int d) { return s->P##R::isBoundLo(d); } \
int w_bhih##R(P##R *s, int d) { return s->P##R::isBoundHi(d); } \
int w_sblo##R(S##R *s, int d) { return s->S##R::isBoundLo(d); } \
int w_sbhi##R(S##R *s, int d) { return s->S##R::isBoundHi(d); } \
int w_pmaster##R(P##R *s) { return s->P##R::master(); } \
int w_pnum##R(P##R *s) { return s->P##R::procnum(); } \
int w_pcnt##R(P##R *s) { return s->P##R::procCount(); } \
int w_puid##R(P##R *s) { return s->P##R::getUniqueId(); } \
int w_smaster##R(S##R *s) { return s->S##R::master(); } \
int w_snum##R(S##R *s) { return s->S##R::procnum(); } \
int w_scnt##R(S##R *s) { return s->S##R::procCount(); } \
int w_suid##R(S##R *s) { return s->S##R::getUniqueId(); } \
void w_initD##R(D##R *s, RI##R *r, int delta) { s->init(*r, delta); } \
void w_initG##R(D##R *s, G##R *g, int delta) { s->init(*g, delta); } \
void w_initS##R(D##R *s, I##R *size, int delta) { s->init(*size, delta); } \
int w_rlo##R(RI##R *r, int d) { return r->getLo()[d]; } \
int w_rhi##R(RI##R *r, int d) { return r->getHi()[d]; } \
int w_gdlo##R(G##R *r, int d) { return r->getLo()[d]; } \
int w_gdhi##R(G##R *r, int d) { return r->getHi()[d]; } \
void w_exchall##R(D##R *s, G##R *g) { s->exchange(*g); } \
void w_accall##R(D##R *s, G##R *g) { s->accumulate(*g); } \
void w_extent##R(S##R *s, RD##R *o, RD##R *e) { new (o) RD##R(s->getInnerExtent(*e)); } \
void w_extentA##R(S##R *s, RD##R *o, AD##R *e) { new (o) RD##R(s->getInnerExtent(*e)); } \
double w_rdlo##R(RD##R *r, int d) { return r->getLo()[d]; } \
double w_rdhi##R(RD##R *r, int d) { return r->getHi()[d]; } \
}
INST(1) INST(2) INST(3)
extern "C" {
int w_bufdim(D1::BufferType *b) { return b->getDims(0); }
unsigned char *w_bufraw(D1::BufferType *b) { return b->getRawData(); }
#define RED(op) \
double w_pd_##op(P2 *s, double v) { return s->P2::op##Reduce(v); } \
int w_pi_##op(P2 *s, int v) { return s->P2::op##Reduce(v); } \
double w_sd_##op(S2 *s, double v) { return s->S2::op##Reduce(v); } \
int w_si_##op(S2 *s, int v) { return s->S2::op##Reduce(v); }
RED(avg) RED(sum) RED(min) RED(max)
}

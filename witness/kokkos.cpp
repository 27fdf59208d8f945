// reference definitions for the grid storage on Kokkos views (P37); views are modelled by stubs/Kokkos_Core.hpp
#include <new>
#include "grid/arrayexpression.hpp"
#include "grid/gridstorage/kokkos-storage.hpp"
using namespace schnek;
template<size_t R> using K = KokkosGridStorage<double, R>;
template<size_t R> using X = Array<int, R>;
template<size_t R> using G = Range<int, R>;
template<size_t R> using W = typename K<R>::ViewType;
template<size_t R> void rFollow(K<R> *g)
{
  (*g->updaters)[g] = [g](const G<R> &r, const W<R> &v)
  {
    g->range = r;
    g->view = v;
    for (size_t i = 0; i < R; ++i) g->dims[i] = r.getHi(i) - r.getLo(i) + 1;
  };
}
template<size_t R> struct View_;
template<> struct View_<1> { static W<1> make(const X<1> &l, const X<1> &h) { return W<1>("a", h[0] - l[0] + 1); } static double &at(const W<1> &v, const X<1> &p) { return v(p[0]); } };
template<> struct View_<2> { static W<2> make(const X<2> &l, const X<2> &h) { return W<2>("a", h[0] - l[0] + 1, h[1] - l[1] + 1); } static double &at(const W<2> &v, const X<2> &p) { return v(p[0], p[1]); } };
template<> struct View_<3> { static W<3> make(const X<3> &l, const X<3> &h) { return W<3>("a", h[0] - l[0] + 1, h[1] - l[1] + 1, h[2] - l[2] + 1); } static double &at(const W<3> &v, const X<3> &p) { return v(p[0], p[1], p[2]); } };
template<size_t R> void rNew(K<R> *g, const X<R> &l, const X<R> &h)
{
  new (&g->range) G<R>(l, h);
  for (size_t i = 0; i < R; ++i) g->dims[i] = h[i] - l[i] + 1;
  new (&g->view) W<R>(View_<R>::make(l, h));
  new (&g->updaters) std::shared_ptr<typename K<R>::UpdaterMapType>(new typename K<R>::UpdaterMapType);
  rFollow<R>(g);
}
template<size_t R> X<R> rOff(const K<R> &g, const X<R> &i)
{
  X<R> p;
  for (size_t d = 0; d < R; ++d) p[d] = i[d] - g.range.getLo()[d];
  return p;
}
extern "C" {
#define RANK(n) \
void w_none##n(K<n> *g) { new (g) K<n>(); } \
void r_none##n(K<n> *g) \
{ \
  new (&g->range) G<n>(X<n>(0), X<n>(0)); \
  new (&g->dims) X<n>(0); \
  new (&g->view) W<n>(); \
  new (&g->updaters) std::shared_ptr<K<n>::UpdaterMapType>(new K<n>::UpdaterMapType); \
  rFollow<n>(g); \
} \
void w_box##n(K<n> *g, const X<n> &l, const X<n> &h) { new (g) K<n>(l, h); } \
void r_box##n(K<n> *g, const X<n> &l, const X<n> &h) { rNew<n>(g, l, h); } \
void w_range##n(K<n> *g, const G<n> &r) { new (g) K<n>(r); } \
void r_range##n(K<n> *g, const G<n> &r) { rNew<n>(g, r.getLo(), r.getHi()); } \
void w_copy##n(K<n> *g, const K<n> &o) { new (g) K<n>(o); } \
void r_copy##n(K<n> *g, const K<n> &o) \
{ \
  new (&g->range) G<n>(o.range); \
  new (&g->dims) X<n>(o.dims); \
  new (&g->view) W<n>(o.view); \
  new (&g->updaters) std::shared_ptr<K<n>::UpdaterMapType>(o.updaters); \
  rFollow<n>(g); \
} \
K<n> &w_assign##n(K<n> &g, const K<n> &o) { return g = o; } \
K<n> &r_assign##n(K<n> &g, const K<n> &o) \
{ \
  g.updaters->erase(&g); \
  g.range = o.range; g.dims = o.dims; g.view = o.view; g.updaters = o.updaters; \
  rFollow<n>(&g); \
  return g; \
} \
void w_dtor##n(K<n> &g) { g.~K<n>(); } \
void r_dtor##n(K<n> &g) { typedef std::shared_ptr<K<n>::UpdaterMapType> S; g.updaters->erase(&g); g.updaters.~S(); } \
void w_resize##n(K<n> &g, const X<n> &l, const X<n> &h) { g.resize(l, h); } \
void r_resize##n(K<n> &g, const X<n> &l, const X<n> &h) \
{ \
  W<n> v(View_<n>::make(l, h)); \
  G<n> r(l, h); \
  for (auto &u: *g.updaters) u.second(r, v); \
} \
double *w_get##n(K<n> &g, const X<n> &i) { return &g.get(i); } \
double *r_get##n(K<n> &g, const X<n> &i) { return &View_<n>::at(g.view, rOff<n>(g, i)); } \
const double *w_cget##n(const K<n> &g, const X<n> &i) { return &g.get(i); } \
const double *r_cget##n(const K<n> &g, const X<n> &i) { return &View_<n>::at(g.view, rOff<n>(g, i)); } \
int w_lo##n(const K<n> &g, int k) { return g.getLo(k); } \
int r_lo##n(const K<n> &g, int k) { return g.range.getLo()[k]; } \
int w_hi##n(const K<n> &g, int k) { return g.getHi(k); } \
int r_hi##n(const K<n> &g, int k) { return g.range.getHi()[k]; } \
int w_dim##n(const K<n> &g, int k) { return g.getDims(k); } \
int r_dim##n(const K<n> &g, int k) { return g.dims[k]; } \
const X<n> *w_loA##n(const K<n> &g) { return &g.getLo(); } \
const X<n> *r_loA##n(const K<n> &g) { return &g.range.getLo(); } \
const X<n> *w_hiA##n(const K<n> &g) { return &g.getHi(); } \
const X<n> *r_hiA##n(const K<n> &g) { return &g.range.getHi(); } \
const X<n> *w_dimA##n(const K<n> &g) { return &g.getDims(); } \
const X<n> *r_dimA##n(const K<n> &g) { return &g.dims; } \
const G<n> *w_box2##n(const K<n> &g) { return &g.getRange(); } \
const G<n> *r_box2##n(const K<n> &g) { return &g.range; } \
int w_size##n(const K<n> &g) { return g.getSize(); } \
int r_size##n(const K<n> &g) { return int(g.view.size()); } \
ptrdiff_t w_stride##n(const K<n> &g, size_t d) { return g.stride(d); } \
ptrdiff_t r_stride##n(const K<n> &g, size_t d) { return ptrdiff_t(g.view.stride(d)); }
RANK(1)
RANK(2)
RANK(3)
}

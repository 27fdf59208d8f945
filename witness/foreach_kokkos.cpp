// The Kokkos iteration policy over the reference model of Kokkos.  Compiled, never linked or run.
#include "grid/range.hpp"
#include "grid/iteration/kokkos-iteration.hpp"
using namespace schnek;
extern "C" void sink(int a, int b, int c, int d);
template<size_t R> struct Sink { void operator()(const Array<int, R> &p) const { sink(p[0], R > 1 ? p[R > 1 ? 1 : 0] : 0, R > 2 ? p[R > 2 ? 2 : 0] : 0, R > 3 ? p[R > 3 ? 3 : 0] : 0); } };
#define FE(R) extern "C" void w_feK##R(Array<int, R> *lo, Array<int, R> *hi) { Range<int, R> r(*lo, *hi); RangeKokkosIterationPolicy<R>::forEach(r, Sink<R>()); }
FE(1) FE(2) FE(3) FE(4)

// Global reductions and MPI datatypes.  Compiled, never linked or run.

#include "grid.hpp"
#include "grid/mpisubdivision.hpp"
using namespace schnek;
#define RED(R, C, T, N) \
T w_##C##sum##N##R(const C##R *s, T v) { return s->C##R::sumReduce(v); } \
T w_##C##avg##N##R(const C##R *s, T v) { return s->C##R::avgReduce(v); } \
T w_##C##max##N##R(const C##R *s, T v) { return s->C##R::maxReduce(v); } \
T w_##C##min##N##R(const C##R *s, T v) { return s->C##R::minReduce(v); }
#define WIT(R) \
typedef Grid<double, R> G##R; typedef SerialSubdivision<G##R> S##R; typedef MPICartSubdivision<G##R> P##R; \
extern "C" { \
RED(R, S, double, d) RED(R, S, int, i) RED(R, P, double, d) RED(R, P, int, i) \
const MPI_Comm *w_comm##R(const P##R *s) { return &s->comm; } \
const int *w_size##R(const P##R *s) { return &s->ComSize; } \
}
WIT(1) WIT(2) WIT(3)
#define TY(N, T) extern "C" MPI_Datatype w_ty_##N() { return MpiValueType<T>::value; }
TY(schar, signed char) TY(short, short) TY(int, int) TY(long, long) TY(uchar, unsigned char) TY(ushort, unsigned short) TY(uint, unsigned) TY(ulong, unsigned long)
TY(float, float) TY(double, double) TY(ldouble, long double)

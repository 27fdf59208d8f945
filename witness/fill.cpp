// reference definitions for fields filled from expressions, buffers of data and singletons (P35)
#include <cstring>
#include "tools/fieldtools.hpp"
#include "util/databuffer.hpp"
#include "util/singleton.hpp"
#include <vector>
#include <list>
using namespace schnek;
typedef FieldFiller FF;
template<size_t R> using F = Field<double, R>;
template<size_t R> using X = Array<double, R>;
typedef DependencyUpdater U;
template<size_t R> using I = FF::impl<double, R, GridNoArgCheck, ArrayNoArgCheck, SingleArrayGridStorage>;
template<size_t R> void rFill(F<R> &f, X<R> &c, double &v, U &u)
{
  Range<int, R> d(f.getLo(), f.getHi());
  typename Range<int, R>::iterator e = d.end();
  for (typename Range<int, R>::iterator it = d.begin(); it != e; ++it)
  {
    for (size_t i = 0; i < R; ++i) c[i] = f.indexToPosition(i, (*it)[i]);
    u.update();
    f.get(*it) = v;
  }
}
struct Rec { double a; int b; };
typedef DataBuffer<Rec> DB;
typedef DB::iterator DI;
struct One : public Singleton<One> { One(); };
extern "C" {
#define RANK(n) \
void w_fill##n(F<n> &f, X<n> &c, double &v, U &u) { fill_field(f, c, v, u); } \
void r_fill##n(F<n> &f, X<n> &c, double &v, U &u) { rFill<n>(f, c, v, u); } \
void w_dep##n(F<n> &f, X<n> &c, double &v, U &u, pParameter p) { fill_field(f, c, v, u, p); } \
void r_dep##n(F<n> &f, X<n> &c, double &v, U &u, pParameter p) { u.clearDependent(); u.addDependent(p); fill_field(f, c, v, u); } \
void w_impl##n(F<n> &f, X<n> &c, double &v, U &u) { I<n> i(f, c, v, u); i.I<n>::fill(); } \
void r_impl##n(F<n> &f, X<n> &c, double &v, U &u) { fill_field(f, c, v, u); } \
void w_set##n(FF &q, F<n> &f, X<n> &c, double &v, U &u) { q.set(c, u)(f, v); } \
void r_set##n(FF &q, F<n> &f, X<n> &c, double &v, U &u) { q.implementations.push_back(FF::pImplBase(new I<n>(f, c, v, u))); } \
void w_two##n(FF &q, F<n> &f, F<n> &g, X<n> &c, double &v, double &w, U &u) { q.set(c, u)(f, v)(g, w); } \
void r_two##n(FF &q, F<n> &f, F<n> &g, X<n> &c, double &v, double &w, U &u) \
{ q.implementations.push_back(FF::pImplBase(new I<n>(f, c, v, u))); q.implementations.push_back(FF::pImplBase(new I<n>(g, c, w, u))); }
RANK(1)
RANK(2)
RANK(3)
void w_clear(FF &q) { q.clear(); }
void r_clear(FF &q) { q.implementations.clear(); }
void w_all(FF &q) { q.fillFields(); }
void r_all(FF &q) { for (const FF::pImplBase &i: q.implementations) i->fill(); }
// ---- buffers
void w_inc(DI &i) { ++i; }
void r_inc(DI &i) { i.data = i.data + sizeof(Rec); }
DI w_incp(DI &i) { return i++; }
DI r_incp(DI &i) { DI o(i.data); i.data = i.data + sizeof(Rec); return o; }
bool w_eq(DI &i, const DI &j) { return i == j; }
bool r_eq(DI &i, const DI &j) { return i.data == j.data; }
bool w_ne(DI &i, const DI &j) { return i != j; }
bool r_ne(DI &i, const DI &j) { return !(i.data == j.data); }
Rec *w_at(DI &i) { return &*i; }
Rec *r_at(DI &i) { return reinterpret_cast<Rec*>(i.data); }
Rec *w_arrow(DI &i) { return i.operator->(); }
Rec *r_arrow(DI &i) { return reinterpret_cast<Rec*>(i.data); }
unsigned char *w_begin(DB &b) { return b.begin().data; }
unsigned char *r_begin(DB &b) { return b.buffer.getRawData(); }
unsigned char *w_end(DB &b) { return b.end().data; }
unsigned char *r_end(DB &b) { return b.buffer.getRawData() + b.buffer.getSize(); }
void w_pack(DB &b, std::list<Rec*> &c) { b.makeBuffer(c); }
void r_pack(DB &b, std::list<Rec*> &c)
{
  DB::BufferType::IndexType n(c.size());
  n[0] *= int(sizeof(Rec));
  b.buffer.resize(n);
  int k = 0;
  for (Rec *r: c) { memcpy(&b.buffer(k), r, sizeof(Rec)); k += int(sizeof(Rec)); }
}
void r_pack2(DB &b, std::list<Rec*> &c)
{
  DB::BufferType::IndexType n(c.size());
  for (int i = 0; i < DB::BufferType::Rank; ++i) n[i] *= int(sizeof(Rec));
  b.buffer.resize(n);
  int k = 0;
  for (Rec *r: c) { memcpy(&b.buffer(k), r, sizeof(Rec)); k += int(sizeof(Rec)); }
}
// ---- singletons
One &w_one() { return One::instance(); }
One &r_one() { if (Singleton<One>::pInstance == 0) Singleton<One>::pInstance = new One(); return *Singleton<One>::pInstance; }
}

// reference definitions for text output of arrays and grids, and small helpers (P36)
#include <iostream>
#include <vector>
#include <list>
#include "datastream.hpp"
#include "functions.hpp"
#include "algo.hpp"
#include "typetools.hpp"
#include "generic/typelist.hpp"
#include "util/algohelper.hpp"
using namespace schnek;
typedef std::ostream O;
template<class T, size_t R> using G = Grid<T, R, GridNoArgCheck, SingleArrayGridStorage>;
typedef Array<double, 3> A3;
struct It : public std::vector<double>::iterator { };
extern "C" {
O &w_gridd1(O &o, const G<double, 1> &m) { return o << m; }
O &r_gridd1(O &o, const G<double, 1> &m)
{
  const int l0 = m.getLo(0), h0 = m.getHi(0);
  if (l0 > h0) return o;
  o << m(l0);
  for (int x0 = l0 + 1; x0 <= h0; ++x0) o << " " << m(x0);
  return o;
}
O &w_gridd2(O &o, const G<double, 2> &m) { return o << m; }
O &r_gridd2(O &o, const G<double, 2> &m)
{
  const int l0 = m.getLo(0), h0 = m.getHi(0);
  const int l1 = m.getLo(1), h1 = m.getHi(1);
  if (l0 > h0 || l1 > h1) return o;
  for (int x1 = l1; x1 <= h1; ++x1)
  {
    o << m(l0, x1);
    for (int x0 = l0 + 1; x0 <= h0; ++x0) o << " " << m(x0, x1);
    o << "\n";
  }
  return o;
}
O &w_gridd3(O &o, const G<double, 3> &m) { return o << m; }
O &r_gridd3(O &o, const G<double, 3> &m)
{
  const int l0 = m.getLo(0), h0 = m.getHi(0);
  const int l1 = m.getLo(1), h1 = m.getHi(1);
  const int l2 = m.getLo(2), h2 = m.getHi(2);
  if (l0 > h0 || l1 > h1 || l2 > h2) return o;
  for (int x2 = l2; x2 <= h2; ++x2)
  {
    for (int x1 = l1; x1 <= h1; ++x1)
    {
      o << m(l0, x1, x2);
      for (int x0 = l0 + 1; x0 <= h0; ++x0) o << " " << m(x0, x1, x2);
      o << "\n";
    }
    o << "\n";
  }
  return o;
}
O &w_gridd4(O &o, const G<double, 4> &m) { return o << m; }
O &r_gridd4(O &o, const G<double, 4> &m)
{
  const int l0 = m.getLo(0), h0 = m.getHi(0);
  const int l1 = m.getLo(1), h1 = m.getHi(1);
  const int l2 = m.getLo(2), h2 = m.getHi(2);
  const int l3 = m.getLo(3), h3 = m.getHi(3);
  if (l0 > h0 || l1 > h1 || l2 > h2 || l3 > h3) return o;
  for (int x3 = l3; x3 <= h3; ++x3)
  {
    for (int x2 = l2; x2 <= h2; ++x2)
    {
      for (int x1 = l1; x1 <= h1; ++x1)
      {
        o << m(l0, x1, x2, x3);
        for (int x0 = l0 + 1; x0 <= h0; ++x0) o << " " << m(x0, x1, x2, x3);
        o << "\n";
      }
      o << "\n";
    }
  }
  return o;
}
O &w_gridd5(O &o, const G<double, 5> &m) { return o << m; }
O &r_gridd5(O &o, const G<double, 5> &m)
{
  const int l0 = m.getLo(0), h0 = m.getHi(0);
  const int l1 = m.getLo(1), h1 = m.getHi(1);
  const int l2 = m.getLo(2), h2 = m.getHi(2);
  const int l3 = m.getLo(3), h3 = m.getHi(3);
  const int l4 = m.getLo(4), h4 = m.getHi(4);
  if (l0 > h0 || l1 > h1 || l2 > h2 || l3 > h3 || l4 > h4) return o;
  for (int x4 = l4; x4 <= h4; ++x4)
  {
    for (int x3 = l3; x3 <= h3; ++x3)
    {
      for (int x2 = l2; x2 <= h2; ++x2)
      {
        for (int x1 = l1; x1 <= h1; ++x1)
        {
          o << m(l0, x1, x2, x3, x4);
          for (int x0 = l0 + 1; x0 <= h0; ++x0) o << " " << m(x0, x1, x2, x3, x4);
          o << "\n";
        }
        o << "\n";
      }
    }
  }
  return o;
}
O &w_gridi1(O &o, const G<int, 1> &m) { return o << m; }
O &r_gridi1(O &o, const G<int, 1> &m)
{
  const int l0 = m.getLo(0), h0 = m.getHi(0);
  if (l0 > h0) return o;
  o << m(l0);
  for (int x0 = l0 + 1; x0 <= h0; ++x0) o << " " << m(x0);
  return o;
}
O &w_gridi2(O &o, const G<int, 2> &m) { return o << m; }
O &r_gridi2(O &o, const G<int, 2> &m)
{
  const int l0 = m.getLo(0), h0 = m.getHi(0);
  const int l1 = m.getLo(1), h1 = m.getHi(1);
  if (l0 > h0 || l1 > h1) return o;
  for (int x1 = l1; x1 <= h1; ++x1)
  {
    o << m(l0, x1);
    for (int x0 = l0 + 1; x0 <= h0; ++x0) o << " " << m(x0, x1);
    o << "\n";
  }
  return o;
}
O &w_gridi3(O &o, const G<int, 3> &m) { return o << m; }
O &r_gridi3(O &o, const G<int, 3> &m)
{
  const int l0 = m.getLo(0), h0 = m.getHi(0);
  const int l1 = m.getLo(1), h1 = m.getHi(1);
  const int l2 = m.getLo(2), h2 = m.getHi(2);
  if (l0 > h0 || l1 > h1 || l2 > h2) return o;
  for (int x2 = l2; x2 <= h2; ++x2)
  {
    for (int x1 = l1; x1 <= h1; ++x1)
    {
      o << m(l0, x1, x2);
      for (int x0 = l0 + 1; x0 <= h0; ++x0) o << " " << m(x0, x1, x2);
      o << "\n";
    }
    o << "\n";
  }
  return o;
}
O &w_gridi4(O &o, const G<int, 4> &m) { return o << m; }
O &r_gridi4(O &o, const G<int, 4> &m)
{
  const int l0 = m.getLo(0), h0 = m.getHi(0);
  const int l1 = m.getLo(1), h1 = m.getHi(1);
  const int l2 = m.getLo(2), h2 = m.getHi(2);
  const int l3 = m.getLo(3), h3 = m.getHi(3);
  if (l0 > h0 || l1 > h1 || l2 > h2 || l3 > h3) return o;
  for (int x3 = l3; x3 <= h3; ++x3)
  {
    for (int x2 = l2; x2 <= h2; ++x2)
    {
      for (int x1 = l1; x1 <= h1; ++x1)
      {
        o << m(l0, x1, x2, x3);
        for (int x0 = l0 + 1; x0 <= h0; ++x0) o << " " << m(x0, x1, x2, x3);
        o << "\n";
      }
      o << "\n";
    }
  }
  return o;
}
O &w_gridi5(O &o, const G<int, 5> &m) { return o << m; }
O &r_gridi5(O &o, const G<int, 5> &m)
{
  const int l0 = m.getLo(0), h0 = m.getHi(0);
  const int l1 = m.getLo(1), h1 = m.getHi(1);
  const int l2 = m.getLo(2), h2 = m.getHi(2);
  const int l3 = m.getLo(3), h3 = m.getHi(3);
  const int l4 = m.getLo(4), h4 = m.getHi(4);
  if (l0 > h0 || l1 > h1 || l2 > h2 || l3 > h3 || l4 > h4) return o;
  for (int x4 = l4; x4 <= h4; ++x4)
  {
    for (int x3 = l3; x3 <= h3; ++x3)
    {
      for (int x2 = l2; x2 <= h2; ++x2)
      {
        for (int x1 = l1; x1 <= h1; ++x1)
        {
          o << m(l0, x1, x2, x3, x4);
          for (int x0 = l0 + 1; x0 <= h0; ++x0) o << " " << m(x0, x1, x2, x3, x4);
          o << "\n";
        }
        o << "\n";
      }
    }
  }
  return o;
}
O &w_arr1(O &o, const Array<double, 1> &a) { return o << a; }
O &r_arr1(O &o, const Array<double, 1> &a) { o << a[0]; return o; }
O &w_arr2(O &o, const Array<double, 2> &a) { return o << a; }
O &r_arr2(O &o, const Array<double, 2> &a) { o << a[0]; o << " "; o << a[1]; return o; }
O &w_arr3(O &o, const Array<double, 3> &a) { return o << a; }
O &r_arr3(O &o, const Array<double, 3> &a) { o << a[0]; o << " "; o << a[1]; o << " "; o << a[2]; return o; }
O &w_arr6(O &o, const Array<double, 6> &a) { return o << a; }
O &r_arr6(O &o, const Array<double, 6> &a) { o << a[0]; o << " "; o << a[1]; o << " "; o << a[2]; o << " "; o << a[3]; o << " "; o << a[4]; o << " "; o << a[5]; return o; }
// ---- helpers
double w_min(double a, double b) { return schnek::min(a, b); }
double r_min(double a, double b) { return a > b ? b : a; }
double w_max(double a, double b) { return schnek::max(a, b); }
double r_max(double a, double b) { return a > b ? a : b; }
int w_mini(int a, int b) { return schnek::min(a, b); }
int r_mini(int a, int b) { return b < a ? b : a; }
int w_maxi(int a, int b) { return schnek::max(a, b); }
int r_maxi(int a, int b) { return b < a ? a : b; }
int w_sgn0(double a) { return signum0(a); }
int r_sgn0(double a) { if (a > 0) return 1; if (a < 0) return -1; return 0; }
int w_sgn(double a) { return signum(a); }
int r_sgn(double a) { if (a < 0) return -1; return 1; }
int w_sgn0i(int a) { return signum0(a); }
int r_sgn0i(int a) { if (a > 0) return 1; if (a < 0) return -1; return 0; }
float w_minf(float a, float b) { return schnek::min(a, b); }
float r_minf(float a, float b) { return b < a ? b : a; }
float w_maxf(float a, float b) { return schnek::max(a, b); }
float r_maxf(float a, float b) { return b < a ? a : b; }
int w_sgn0f(float a) { return signum0(a); }
int r_sgn0f(float a) { if (a > 0) return 1; if (a < 0) return -1; return 0; }
int w_sgnf(float a) { return signum(a); }
int r_sgnf(float a) { if (a < 0) return -1; return 1; }
int w_sgni(int a) { return signum(a); }
int r_sgni(int a) { if (a < 0) return -1; return 1; }
long w_minl(long a, long b) { return schnek::min(a, b); }
long r_minl(long a, long b) { return b < a ? b : a; }
long w_maxl(long a, long b) { return schnek::max(a, b); }
long r_maxl(long a, long b) { return b < a ? a : b; }
int w_sgn0l(long a) { return signum0(a); }
int r_sgn0l(long a) { if (a > 0) return 1; if (a < 0) return -1; return 0; }
int w_sgnl(long a) { return signum(a); }
int r_sgnl(long a) { if (a < 0) return -1; return 1; }
unsigned w_minu(unsigned a, unsigned b) { return schnek::min(a, b); }
unsigned r_minu(unsigned a, unsigned b) { return b < a ? b : a; }
unsigned w_maxu(unsigned a, unsigned b) { return schnek::max(a, b); }
unsigned r_maxu(unsigned a, unsigned b) { return b < a ? a : b; }
void w_cross(A3 &r, const A3 &a, const A3 &b) { crossProduct(r, a, b); }
void r_cross(A3 &r, const A3 &a, const A3 &b) { r[0] = a[1]*b[2] - a[2]*b[1]; r[1] = a[2]*b[0] - a[0]*b[2]; r[2] = a[0]*b[1] - a[1]*b[0]; }
double w_mean(std::list<double> &l) { return mean(l.begin(), l.end()); }
double r_mean(std::list<double> &l) { double s = 0; int n = 0; for (double x: l) { s += x; ++n; } return s/double(n); }
void w_add(calcsum<double> &c, const double &x) { c(x); }
void r_add(calcsum<double> &c, const double &x) { c.sum = c.sum + x; }
double w_sum(calcsum<double> &c) { return c.result(); }
double r_sum(calcsum<double> &c) { return c.sum; }
void w_sum0(calcsum<double> &c) { new (&c) calcsum<double>(); }
void r_sum0(calcsum<double> &c) { c.sum = 0; }
void w_sumC(calcsum<double> &c, const calcsum<double> &d) { new (&c) calcsum<double>(d); }
void r_sumC(calcsum<double> &c, const calcsum<double> &d) { c.sum = d.sum; }
// ---- lists of types
typedef generic::TypeList<int, double, char, long, float> TL;
typedef Typelist<int, Typelist<double, Typelist<char, NullType> > > OL;
int w_types()
{
  return (std::is_same<TL::get<0>::type, int>::value ? 1 : 0) + (std::is_same<TL::get<1>::type, double>::value ? 2 : 0) + (std::is_same<TL::get<2>::type, char>::value ? 4 : 0)
    + (std::is_same<TL::get<3>::type, long>::value ? 8 : 0) + (std::is_same<TL::get<4>::type, float>::value ? 16 : 0) + 32*TL::size + 1000*generic::TypeList<>::size;
}
int r_types() { return 31 + 32*5; }
int w_typesO()
{
  return (std::is_same<TypeAtNonStrict<OL, 0, float>::Result, int>::value ? 1 : 0) + (std::is_same<TypeAtNonStrict<OL, 1, float>::Result, double>::value ? 2 : 0)
    + (std::is_same<TypeAtNonStrict<OL, 2, float>::Result, char>::value ? 4 : 0) + (std::is_same<TypeAtNonStrict<OL, 3, float>::Result, float>::value ? 8 : 0);
}
int r_typesO() { return 15; }
}

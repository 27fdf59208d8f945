// reference definitions for functions in expressions (P22)
#include "variables.hpp"
#include "variables/expression.hpp"
#include "variables/function_expression.hpp"
#include <boost/math/special_functions/gamma.hpp>
#include <boost/math/special_functions/digamma.hpp>
#include <boost/math/special_functions/bessel.hpp>
#include <cmath>
using namespace schnek;
namespace schnek { namespace internal { double min(double, double); double max(double, double); double minI(int, int); double maxI(int, int); double normal(double, double, double); } }
typedef std::string string;
typedef double dbl;
typedef ExpressionVariant EV;
typedef ExpressionList::iterator It;
template<class T> using pE = std::shared_ptr<Expression<T> >;
static inline void conv(EV &a, EV &r, int *) {
  if (a.which() == 0) r = EV(boost::get<pE<int> >(a));
  else if (a.which() == 1) r = EV(pE<int>(new TypecastOp<int, dbl, FastCast>(boost::get<pE<dbl> >(a))));
  else r = EV(pE<int>(new TypecastOp<int, string, FastCast>(boost::get<pE<string> >(a)))); }
static inline void conv(EV &a, EV &r, dbl *) {
  if (a.which() == 0) r = EV(pE<dbl>(new TypecastOp<dbl, int, FastCast>(boost::get<pE<int> >(a))));
  else if (a.which() == 1) r = EV(boost::get<pE<dbl> >(a));
  else r = EV(pE<dbl>(new TypecastOp<dbl, string, FastCast>(boost::get<pE<string> >(a)))); }
static inline void conv(EV &a, EV &r, string *) {
  if (a.which() == 0) r = EV(pE<string>(new TypecastOp<string, int, FastCast>(boost::get<pE<int> >(a))));
  else if (a.which() == 1) r = EV(pE<string>(new TypecastOp<string, dbl, FastCast>(boost::get<pE<dbl> >(a))));
  else r = EV(boost::get<pE<string> >(a)); }
template<class T> static inline void step(It &i, It end, ExpressionList &out) { if (i == end) throw WrongNumberOfArgsException(); EV r; conv(*i, r, (T*)0); out.push_back(r); ++i; }
template<class T> static inline T arg(It i) { return boost::get<pE<T> >(*i)->eval(); }
static inline bool isc(EV &v) { return v.which() == 0 ? boost::get<pE<int> >(v)->isConstant() : v.which() == 1 ? boost::get<pE<dbl> >(v)->isConstant() : boost::get<pE<string> >(v)->isConstant(); }
static inline DependencyList deps(EV &v) { return v.which() == 0 ? boost::get<pE<int> >(v)->getDependencies() : v.which() == 1 ? boost::get<pE<dbl> >(v)->getDependencies() : boost::get<pE<string> >(v)->getDependencies(); }
#define FN(N, R, SIG, STEPS, CALL) \
typedef R (*F##N) SIG; typedef FunctionExpression<R, F##N> E##N; \
extern "C" { \
void w_new##N(E##N &e, F##N f, ExpressionList &a, bool u) { new (&e) E##N(f, a, u); } \
void r_new##N(E##N &e, F##N f, ExpressionList &a, bool u) { new (&e.args) ExpressionList(); e.f = f; e.updateAlways = u; It i = a.begin(), end = a.end(); STEPS if (i != end) throw WrongNumberOfArgsException(); } \
R w_eval##N(E##N &e) { return e.E##N::eval(); } \
R r_eval##N(E##N &e) { F##N f = e.f; It i = e.args.begin(); CALL } \
bool w_const##N(E##N &e) { return e.E##N::isConstant(); } \
bool r_const##N(E##N &e) { if (e.updateAlways) return false; bool c = true; for (It i = e.args.begin(); i != e.args.end(); ++i) if (c) c = isc(*i); return c; } \
bool r_const2##N(E##N &e) { if (e.updateAlways) return false; for (It i = e.args.begin(); i != e.args.end(); ++i) if (!isc(*i)) return false; return true; } \
bool r_const3##N(E##N &e) { if (e.updateAlways) return false; bool c = true; for (It i = e.args.begin(); i != e.args.end(); ++i) { bool d = isc(*i); c = c && d; } return c; } \
bool r_const4##N(E##N &e) { bool c = !e.updateAlways; for (It i = e.args.begin(); i != e.args.end(); ++i) if (c) c = isc(*i); return c; } \
bool r_const5##N(E##N &e) { bool c = !e.updateAlways; for (It i = e.args.begin(); i != e.args.end(); ++i) { bool d = isc(*i); c = c && d; } return c; } \
bool r_const6##N(E##N &e) { for (It i = e.args.begin(); i != e.args.end(); ++i) if (!isc(*i)) return false; return !e.updateAlways; } \
bool r_const7##N(E##N &e) { bool c = true; for (It i = e.args.begin(); i != e.args.end(); ++i) if (c) c = isc(*i); return c && !e.updateAlways; } \
DependencyList w_deps##N(E##N &e) { return e.E##N::getDependencies(); } \
DependencyList r_deps##N(E##N &e) { DependencyList d; for (It i = e.args.begin(); i != e.args.end(); ++i) { DependencyList x = deps(*i); d.insert(x.begin(), x.end()); } if (e.updateAlways) d.insert(-1); return d; } \
DependencyList r_deps2##N(E##N &e) { DependencyList d; if (e.updateAlways) d.insert(-1); for (It i = e.args.begin(); i != e.args.end(); ++i) { DependencyList x = deps(*i); d.insert(x.begin(), x.end()); } return d; } \
void w_reg##N(FunctionRegistry &r, string n, F##N f, bool u) { r.registerFunction(n, f, u); } \
void r_reg##N(FunctionRegistry &r, string n, F##N f, bool u) { (*r.funcs)[n] = FunctionRegistry::pEntryBase(new FunctionRegistry::Entry<F##N>(f, u)); } \
EV w_entry##N(FunctionRegistry::Entry<F##N> &x, ExpressionList &a) { return x.FunctionRegistry::Entry<F##N>::getExpression(a); } \
EV r_entry##N(FunctionRegistry::Entry<F##N> &x, ExpressionList &a) { return EV(pE<R>(new E##N(x.f, a, x.updateAlways))); } \
}
#define S(T) step<T>(i, end, e.args);
#define A1(T) T a1 = arg<T>(i); ++i;
#define A2(T) T a2 = arg<T>(i); ++i;
#define A3(T) T a3 = arg<T>(i); ++i;
FN(0, dbl, (), , return f();)
FN(F, dbl, (dbl), S(dbl), A1(dbl) return f(a1);)
FN(FF, dbl, (dbl, dbl), S(dbl) S(dbl), A1(dbl) A2(dbl) return f(a1, a2);)
FN(FI, dbl, (dbl, int), S(dbl) S(int), A1(dbl) A2(int) return f(a1, a2);)
FN(IF, dbl, (int, dbl), S(int) S(dbl), A1(int) A2(dbl) return f(a1, a2);)
FN(II, int, (int, int), S(int) S(int), A1(int) A2(int) return f(a1, a2);)
FN(FFF, dbl, (dbl, dbl, dbl), S(dbl) S(dbl) S(dbl), A1(dbl) A2(dbl) A3(dbl) return f(a1, a2, a3);)
FN(IFI, dbl, (int, dbl, int), S(int) S(dbl) S(int), A1(int) A2(dbl) A3(int) return f(a1, a2, a3);)
extern "C" {
EV w_get(FunctionRegistry &r, string n, ExpressionList &a) { return r.getExpression(n, a); }
EV r_get(FunctionRegistry &r, string n, ExpressionList &a) { if (r.funcs->count(n) == 0) throw FunctionNotFoundException(n); return (*r.funcs)[n]->getExpression(a); }
void w_regNew(FunctionRegistry &r) { new (&r) FunctionRegistry(); }
void r_regNew(FunctionRegistry &r) { new (&r.funcs) std::shared_ptr<FunctionRegistry::FExprMap>(new FunctionRegistry::FExprMap()); }
void w_regCopy(FunctionRegistry &r, const FunctionRegistry &s) { new (&r) FunctionRegistry(s); }
void r_regCopy(FunctionRegistry &r, const FunctionRegistry &s) { new (&r.funcs) std::shared_ptr<FunctionRegistry::FExprMap>(s.funcs); }
// ---- built-in functions
void w_cmath(FunctionRegistry &r) { registerCMath(r); }
void w_utility(FunctionRegistry &r) { registerUtilityFunctions(r); }
void w_special(FunctionRegistry &r) { registerSpecialFunctions(r); }
void w_all(FunctionRegistry &r) { registerAllFunctions(r); }
dbl w_min(dbl a, dbl b) { return internal::min(a, b); }
dbl r_min(dbl a, dbl b) { return b < a ? b : a; }
dbl r_min2(dbl a, dbl b) { return a < b ? a : b; }
dbl w_max(dbl a, dbl b) { return internal::max(a, b); }
dbl r_max(dbl a, dbl b) { return a < b ? b : a; }
dbl r_max2(dbl a, dbl b) { return b < a ? a : b; }
dbl w_minI(int a, int b) { return internal::minI(a, b); }
dbl r_minI(int a, int b) { return a < b ? a : b; }
dbl w_maxI(int a, int b) { return internal::maxI(a, b); }
dbl r_maxI(int a, int b) { return a < b ? b : a; }
dbl w_normal(dbl x, dbl s, dbl m) { return internal::normal(x, s, m); }
dbl r_normal(dbl x, dbl s, dbl m) { dbl y = (x - m)/s; return std::exp(-y*y/2.0); }
}
typedef dbl (*f1)(dbl); typedef dbl (*f2)(dbl, dbl); typedef dbl (*fi)(int, dbl); typedef dbl (*fl)(dbl, int);
static inline void ref_cmath(FunctionRegistry &r)
{
#define R1(n) r.registerFunction(#n, static_cast<f1>(n), false);
#define R2(n) r.registerFunction(#n, static_cast<f2>(n), false);
  R1(cos) R1(sin) R1(tan) R1(acos) R1(asin) R1(atan) R1(cosh) R1(sinh) R1(tanh) R1(exp) R1(log) R1(log10) R1(sqrt) R1(ceil) R1(fabs) R1(floor)
  R2(atan2) R2(pow) R2(fmod)
  r.registerFunction("ldexp", static_cast<fl>(ldexp), false);
}
static inline void ref_utility(FunctionRegistry &r)
{
  r.registerFunction("min", internal::min, false); r.registerFunction("max", internal::max, false);
  r.registerFunction("minI", internal::minI, false); r.registerFunction("maxI", internal::maxI, false);
}
static inline void ref_special(FunctionRegistry &r)
{
  r.registerFunction("gamma", static_cast<f1>(boost::math::tgamma), false);
  r.registerFunction("lgamma", static_cast<f1>(boost::math::lgamma), false);
  r.registerFunction("digamma", static_cast<f1>(boost::math::digamma), false);
  r.registerFunction("besselj", static_cast<fi>(boost::math::cyl_bessel_j), false);
  r.registerFunction("bessely", static_cast<fi>(boost::math::cyl_neumann), false);
  r.registerFunction("normal", internal::normal, false);
}
extern "C" {
void r_cmath(FunctionRegistry &r) { ref_cmath(r); }
void r_utility(FunctionRegistry &r) { ref_utility(r); }
void r_special(FunctionRegistry &r) { ref_special(r); }
void r_all(FunctionRegistry &r) { ref_cmath(r); ref_utility(r); ref_special(r); }
}

// reference definitions for expressions (P20)
#include "variables.hpp"
#include "variables/expression.hpp"
#include "variables/operators.hpp"
#include <cmath>
using namespace schnek;
using namespace schnek::expression;
typedef std::string string;
typedef double dbl;
// ---- leaves
#define LEAF(N, T) \
extern "C" { \
void w_val_new##N(Value<T> &e, T x) { new (&e) Value<T>(x); } \
void r_val_new##N(Value<T> &e, T x) { new (&e) Value<T>(T()); e.val = x; } \
T w_val_eval##N(Value<T> &e) { return e.Value<T>::eval(); } \
T r_val_eval##N(Value<T> &e) { return e.val; } \
bool w_val_const##N(Value<T> &e) { return e.Value<T>::isConstant(); } \
bool r_val_const##N(Value<T> &e) { return true; } \
DependencyList w_val_deps##N(Value<T> &e) { return e.Value<T>::getDependencies(); } \
DependencyList r_val_deps##N(Value<T> &e) { return DependencyList(); } \
T *w_val_ref##N(Value<T> &e) { return &e.getReference(); } \
T *r_val_ref##N(Value<T> &e) { return &e.val; } \
void w_ref_new##N(ReferencedValue<T> &e, pVariable &v) { new (&e) ReferencedValue<T>(v); } \
void r_ref_new##N(ReferencedValue<T> &e, pVariable &v) { new (&e) ReferencedValue<T>(pVariable()); e.var = v; } \
T w_ref_eval##N(ReferencedValue<T> &e) { return e.ReferencedValue<T>::eval(); } \
T r_ref_eval##N(ReferencedValue<T> &e) { return boost::get<T>(e.var->getValue()); } \
bool w_ref_const##N(ReferencedValue<T> &e) { return e.ReferencedValue<T>::isConstant(); } \
bool r_ref_const##N(ReferencedValue<T> &e) { return e.var->isConstant(); } \
DependencyList w_ref_deps##N(ReferencedValue<T> &e) { return e.ReferencedValue<T>::getDependencies(); } \
DependencyList r_ref_deps##N(ReferencedValue<T> &e) { DependencyList d; d.insert(e.var->getId()); return d; } \
void w_ext_new##N(ExternalValue<T> &e, T *p) { new (&e) ExternalValue<T>(p); } \
void r_ext_new##N(ExternalValue<T> &e, T *p) { new (&e) ExternalValue<T>(0); e.var = p; } \
T w_ext_eval##N(ExternalValue<T> &e) { return e.ExternalValue<T>::eval(); } \
T r_ext_eval##N(ExternalValue<T> &e) { return *e.var; } \
bool w_ext_const##N(ExternalValue<T> &e) { return e.ExternalValue<T>::isConstant(); } \
bool r_ext_const##N(ExternalValue<T> &e) { return false; } \
DependencyList w_ext_deps##N(ExternalValue<T> &e) { return e.ExternalValue<T>::getDependencies(); } \
DependencyList r_ext_deps##N(ExternalValue<T> &e) { return DependencyList(); } \
T w_call##N(Expression<T> &e) { return e(); } \
T r_call##N(Expression<T> &e) { return e.eval(); } \
ValueVariant w_visit_eval##N(ExpressionEvaluator<ValueVariant> &v, std::shared_ptr<Expression<T> > e) { return v(e); } \
ValueVariant r_visit_eval##N(ExpressionEvaluator<ValueVariant> &v, std::shared_ptr<Expression<T> > e) { return ValueVariant(e->eval()); } \
DependencyList w_visit_deps##N(DependenciesGetter &v, std::shared_ptr<Expression<T> > e) { return v(e); } \
DependencyList r_visit_deps##N(DependenciesGetter &v, std::shared_ptr<Expression<T> > e) { return e->getDependencies(); } \
}
LEAF(I, int) LEAF(F, dbl) LEAF(S, string)
// ---- unary operators
#define UN(OP, N, T, RES) \
extern "C" { \
void w_un_new##OP##N(UnaryOp<Operator##OP<T>, T> &e, std::shared_ptr<Expression<T> > x) { new (&e) UnaryOp<Operator##OP<T>, T>(x); } \
void r_un_new##OP##N(UnaryOp<Operator##OP<T>, T> &e, std::shared_ptr<Expression<T> > x) { new (&e) UnaryOp<Operator##OP<T>, T>(std::shared_ptr<Expression<T> >()); e.expr = x; } \
T w_un_eval##OP##N(UnaryOp<Operator##OP<T>, T> &e) { return e.UnaryOp<Operator##OP<T>, T>::eval(); } \
T r_un_eval##OP##N(UnaryOp<Operator##OP<T>, T> &e) { T x = e.expr->eval(); return RES; } \
bool w_un_const##OP##N(UnaryOp<Operator##OP<T>, T> &e) { return e.UnaryOp<Operator##OP<T>, T>::isConstant(); } \
bool r_un_const##OP##N(UnaryOp<Operator##OP<T>, T> &e) { return e.expr->isConstant(); } \
DependencyList w_un_deps##OP##N(UnaryOp<Operator##OP<T>, T> &e) { return e.UnaryOp<Operator##OP<T>, T>::getDependencies(); } \
DependencyList r_un_deps##OP##N(UnaryOp<Operator##OP<T>, T> &e) { return e.expr->getDependencies(); } \
}
UN(Id, I, int, x) UN(Id, F, dbl, x) UN(Id, S, string, x)
UN(Neg, I, int, -x) UN(Neg, F, dbl, -x) UN(Neg, S, string, string(""))
UN(Inv, I, int, 1/x) UN(Inv, F, dbl, 1/x) UN(Inv, S, string, string(""))
// ---- the expression that stands for an operand on the negative side of a chain
#define NEGATE(OP, N, T, RES) \
extern "C" { \
std::shared_ptr<Expression<T> > w_negate##OP##N(std::shared_ptr<Expression<T> > x) { return Operator##OP<T>::negate(x); } \
std::shared_ptr<Expression<T> > r_negate##OP##N(std::shared_ptr<Expression<T> > x) { return RES; } \
}
#define NEGATES(N, T) \
NEGATE(Add, N, T, (std::make_shared<UnaryOp<OperatorNeg<T>, T> >(x))) NEGATE(Subtract, N, T, (std::make_shared<UnaryOp<OperatorNeg<T>, T> >(x))) \
NEGATE(Multiply, N, T, (std::make_shared<UnaryOp<OperatorInv<T>, T> >(x))) NEGATE(Divide, N, T, (std::make_shared<UnaryOp<OperatorInv<T>, T> >(x))) \
NEGATE(Exponent, N, T, x)
NEGATES(I, int) NEGATES(F, dbl) NEGATES(S, string)
// ---- binary operators
template<class Op, class T>
void ref_binary(BinaryOp<Op, T> &e, std::shared_ptr<Expression<T> > a, std::shared_ptr<Expression<T> > b, bool positive)
{
  typedef BinaryOp<Op, T> Self;
  typedef BinaryOp<typename Op::Inverted, T> Inv;
  std::shared_ptr<Self> sa = std::dynamic_pointer_cast<Self>(a), sb = std::dynamic_pointer_cast<Self>(b);
  std::shared_ptr<Inv> ia = std::dynamic_pointer_cast<Inv>(a), ib = std::dynamic_pointer_cast<Inv>(b);
  std::list<ExpressionInfo<T> > l;
  if (sa) l.insert(l.end(), sa->expressions.begin(), sa->expressions.end());
  else if (ia) l.insert(l.end(), ia->expressions.begin(), ia->expressions.end());
  else l.push_back(ExpressionInfo<T>(true, a));
  if (!sb && !ib) l.push_back(ExpressionInfo<T>(positive, b));
  else {
    std::list<ExpressionInfo<T> > &r = sb ? sb->expressions : ib->expressions;
    typename std::list<ExpressionInfo<T> >::iterator i = r.begin();
    if (!positive) { l.push_back(ExpressionInfo<T>(!i->positive, i->expression)); ++i; }
    l.insert(l.end(), i, r.end());
  }
  new (&e.expressions) std::list<ExpressionInfo<T> >(l);
}
#define BIN(OP, N, T, POS, RES, EPOS, ENEG) \
extern "C" { \
void w_bin_new##OP##N(BinaryOp<Operator##OP<T>, T> &e, std::shared_ptr<Expression<T> > a, std::shared_ptr<Expression<T> > b) { new (&e) BinaryOp<Operator##OP<T>, T>(a, b); } \
void r_bin_new##OP##N(BinaryOp<Operator##OP<T>, T> &e, std::shared_ptr<Expression<T> > a, std::shared_ptr<Expression<T> > b) { ref_binary<Operator##OP<T>, T>(e, a, b, POS); } \
T w_op##OP##N(T x, T y) { return Operator##OP<T>::eval(x, y); } \
T r_op##OP##N(T x, T y) { return RES; } \
T w_bin_eval##OP##N(BinaryOp<Operator##OP<T>, T> &e) { return e.BinaryOp<Operator##OP<T>, T>::eval(); } \
T r_bin_eval##OP##N(BinaryOp<Operator##OP<T>, T> &e) { \
  typename std::list<ExpressionInfo<T> >::iterator i = e.expressions.begin(); \
  T x = i->expression->eval(); \
  for (++i; i != e.expressions.end(); ++i) { T y = i->expression->eval(); if (i->positive) x = EPOS; else x = ENEG; } \
  return x; } \
bool w_bin_const##OP##N(BinaryOp<Operator##OP<T>, T> &e) { return e.BinaryOp<Operator##OP<T>, T>::isConstant(); } \
bool r_bin_const##OP##N(BinaryOp<Operator##OP<T>, T> &e) { for (ExpressionInfo<T> &i: e.expressions) if (!i.expression->isConstant()) return false; return true; } \
bool r_bin_constA##OP##N(BinaryOp<Operator##OP<T>, T> &e) { bool c = true; for (ExpressionInfo<T> &i: e.expressions) c = c && i.expression->isConstant(); return c; } \
DependencyList w_bin_deps##OP##N(BinaryOp<Operator##OP<T>, T> &e) { return e.BinaryOp<Operator##OP<T>, T>::getDependencies(); } \
DependencyList r_bin_deps##OP##N(BinaryOp<Operator##OP<T>, T> &e) { DependencyList d; for (ExpressionInfo<T> &i: e.expressions) { DependencyList s = i.expression->getDependencies(); d.insert(s.begin(), s.end()); } return d; } \
}
#define ALLBIN(OP, POS, RES, EP, EN) BIN(OP, I, int, POS, RES, EP, EN) BIN(OP, F, dbl, POS, RES, EP, EN)
ALLBIN(Add, true, x+y, x+y, x-y)
ALLBIN(Subtract, false, x-y, x+y, x-y)
ALLBIN(Multiply, true, x*y, x*y, x/y)
ALLBIN(Divide, false, x/y, x*y, x/y)
ALLBIN(Exponent, true, pow(x,y), pow(x,y), pow(x,y))
BIN(Add, S, string, true, x+y, x+y, string(""))
BIN(Subtract, S, string, false, string(""), x+y, string(""))
BIN(Multiply, S, string, true, string(""), string(""), string(""))
BIN(Divide, S, string, false, string(""), string(""), string(""))
BIN(Exponent, S, string, true, string(""), string(""), string(""))
// a chain converted operand by operand
#define CHAIN(OP) \
extern "C" { \
void w_chain##OP(BinaryOp<Operator##OP<double>, double> &e, const BinaryOp<Operator##OP<int>, int> &c) { new (&e) BinaryOp<Operator##OP<double>, double>(c); } \
void r_chain##OP(BinaryOp<Operator##OP<double>, double> &e, const BinaryOp<Operator##OP<int>, int> &c) { \
  new (&e.expressions) std::list<ExpressionInfo<double> >(); \
  for (const ExpressionInfo<int> &i: c.expressions) \
    e.expressions.push_back(ExpressionInfo<double>(i.positive, std::shared_ptr<Expression<double> >(new TypecastOp<double, int>(i.expression)))); } \
}
CHAIN(Add) CHAIN(Subtract) CHAIN(Multiply) CHAIN(Divide)

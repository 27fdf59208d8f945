// reference definitions for type conversions (P21) and functions in expressions (P22)
#include "variables.hpp"
#include "variables/expression.hpp"
#include "variables/operators.hpp"
#include "variables/function_expression.hpp"
#include "parser/parsertoken.hpp"
using namespace schnek;
typedef std::string string;
typedef double dbl;
typedef ExpressionVariant EV;
template<class T> using pE = std::shared_ptr<Expression<T> >;
static inline pE<int> gI(EV &a) { return boost::get<pE<int> >(a); }
static inline pE<dbl> gF(EV &a) { return boost::get<pE<dbl> >(a); }
static inline pE<string> gS(EV &a) { return boost::get<pE<string> >(a); }
static inline void both(TypePromoter &t, const EV &a, const EV &b) { t.result1 = a; t.result2 = b; }
extern "C" {
// ---- promotion of operands: integer -> float -> string
void w_prom(TypePromoter &t, EV &a, EV &b) { boost::apply_visitor(t, a, b); }
void r_prom(TypePromoter &t, EV &a, EV &b)
{
  int i = a.which(), j = b.which();
  if (i == 0)
  {
    if (j == 0) both(t, EV(gI(a)), EV(gI(b)));
    else if (j == 1) both(t, EV(pE<dbl>(new TypecastOp<dbl, int>(gI(a)))), EV(gF(b)));
    else both(t, EV(pE<string>(new TypecastOp<string, int, LexicalCast>(gI(a)))), EV(gS(b)));
  }
  else if (i == 1)
  {
    if (j == 0) both(t, EV(gF(a)), EV(pE<dbl>(new TypecastOp<dbl, int>(gI(b)))));
    else if (j == 1) both(t, EV(gF(a)), EV(gF(b)));
    else both(t, EV(pE<string>(new TypecastOp<string, dbl, LexicalCast>(gF(a)))), EV(gS(b)));
  }
  else
  {
    if (j == 0) both(t, EV(gS(a)), EV(pE<string>(new TypecastOp<string, int, LexicalCast>(gI(b)))));
    else if (j == 1) both(t, EV(gS(a)), EV(pE<string>(new TypecastOp<string, dbl, LexicalCast>(gF(b)))));
    else both(t, EV(gS(a)), EV(gS(b)));
  }
}
const EV &w_promA(TypePromoter &t) { return t.getResultA(); }
const EV &r_promA(TypePromoter &t) { return t.result1; }
const EV &w_promB(TypePromoter &t) { return t.getResultB(); }
const EV &r_promB(TypePromoter &t) { return t.result2; }
// ---- assignment: to the type of the variable
EV w_assign(TypePromoterAssign &t, EV &a, EV &b) { return boost::apply_visitor(t, a, b); }
EV r_assign(TypePromoterAssign &t, EV &a, EV &b)
{
  int i = a.which(), j = b.which();
  if (i == 0)
  {
    if (j == 0) return EV(gI(b));
    if (j == 1) return EV(pE<int>(new TypecastOp<int, dbl>(gF(b))));
    return EV(pE<int>(new TypecastOp<int, string, LexicalCast>(gS(b))));
  }
  if (i == 1)
  {
    if (j == 0) return EV(pE<dbl>(new TypecastOp<dbl, int>(gI(b))));
    if (j == 1) return EV(gF(b));
    return EV(pE<dbl>(new TypecastOp<dbl, string, LexicalCast>(gS(b))));
  }
  if (j == 0) return EV(pE<string>(new TypecastOp<string, int, LexicalCast>(gI(b))));
  if (j == 1) return EV(pE<string>(new TypecastOp<string, dbl, LexicalCast>(gF(b))));
  return EV(gS(b));
}
}
// ---- casts
#define CAST(N, T, U, C, CC) \
extern "C" { \
T w_cast##N(TypecastOp<T, U, C> &e) { return e.TypecastOp<T, U, C>::eval(); } \
T r_cast##N(TypecastOp<T, U, C> &e) { return CC<T>(e.expr->eval()); } \
bool w_castConst##N(TypecastOp<T, U, C> &e) { return e.TypecastOp<T, U, C>::isConstant(); } \
bool r_castConst##N(TypecastOp<T, U, C> &e) { return e.expr->isConstant(); } \
DependencyList w_castDeps##N(TypecastOp<T, U, C> &e) { return e.TypecastOp<T, U, C>::getDependencies(); } \
DependencyList r_castDeps##N(TypecastOp<T, U, C> &e) { return e.expr->getDependencies(); } \
void w_castNew##N(TypecastOp<T, U, C> &e, pE<U> x) { new (&e) TypecastOp<T, U, C>(x); } \
void r_castNew##N(TypecastOp<T, U, C> &e, pE<U> x) { new (&e) TypecastOp<T, U, C>(pE<U>()); e.expr = x; } \
}
CAST(FI, dbl, int, StaticCast, static_cast) CAST(IF, int, dbl, StaticCast, static_cast)
CAST(SI, string, int, LexicalCast, boost::lexical_cast) CAST(SF, string, dbl, LexicalCast, boost::lexical_cast)
CAST(IS, int, string, LexicalCast, boost::lexical_cast) CAST(FS, dbl, string, LexicalCast, boost::lexical_cast)
CAST(fFI, dbl, int, FastCast, static_cast) CAST(fIF, int, dbl, FastCast, static_cast)
CAST(fSI, string, int, FastCast, boost::lexical_cast) CAST(fSF, string, dbl, FastCast, boost::lexical_cast)
CAST(fIS, int, string, FastCast, boost::lexical_cast) CAST(fFS, dbl, string, FastCast, boost::lexical_cast)
// ---- operators applied to operands of any type
template<template<class> class Op> static inline EV ref_un(EV &a)
{
  if (a.which() == 0) return EV(pE<int>(new UnaryOp<Op<int>, int>(gI(a))));
  if (a.which() == 1) return EV(pE<dbl>(new UnaryOp<Op<dbl>, dbl>(gF(a))));
  return EV(pE<string>(new UnaryOp<Op<string>, string>(gS(a))));
}
template<template<class> class Op> static inline EV ref_bin(EV &a, EV &b)
{
  if (a.which() == 0) return EV(pE<int>(new BinaryOp<Op<int>, int>(gI(a), gI(b))));
  if (a.which() == 1) return EV(pE<dbl>(new BinaryOp<Op<dbl>, dbl>(gF(a), gF(b))));
  return EV(pE<string>(new BinaryOp<Op<string>, string>(gS(a), gS(b))));
}
#define UN(OP) \
extern "C" { \
EV w_un##OP(UnaryOperatorVisitor<expression::Operator##OP> &v, EV &a) { return boost::apply_visitor(v, a); } \
EV r_un##OP(UnaryOperatorVisitor<expression::Operator##OP> &v, EV &a) { return ref_un<expression::Operator##OP>(a); } \
}
#define BIN(OP) \
extern "C" { \
EV w_bin##OP(BinaryOperatorVisitor<expression::Operator##OP> &v, EV &a) { return boost::apply_visitor(v, a); } \
EV r_bin##OP(BinaryOperatorVisitor<expression::Operator##OP> &v, EV &a) { return ref_bin<expression::Operator##OP>(a, v.arg2); } \
}
UN(Id) UN(Neg) BIN(Add) BIN(Subtract) BIN(Multiply) BIN(Divide) BIN(Exponent)

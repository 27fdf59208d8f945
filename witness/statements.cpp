// reference definitions for the actions of the setup file parser (P29)
#include "parser/parsertoken.hpp"
#include "parser/deckgrammar.hpp"
#include "variables/block.hpp"
#include "variables/operators.hpp"
#include "parser/tokenlist.hpp"
#include "parser/deckscanner.hpp"
#include <boost/lexical_cast.hpp>
using namespace schnek;
typedef std::string string;
typedef double dbl;
typedef ParserToken PT;
typedef ExpressionVariant EV;
template<class T> using pE = std::shared_ptr<Expression<T> >;
#define FAIL(tok) throw ParserError("", tok)
static inline void take(PT &t, PT &o) { t.context = o.context; t.atomTok = o.atomTok; }
static inline void atomOf(PT &t, PT &o, int id) { take(t, o); if (o.type != PT::atom) FAIL(t.atomTok); if (t.atomTok.token != id) FAIL(t.atomTok); }
template<class T> static inline pVariable evalE(pE<T> e, Token &tok) { if (!e) FAIL(tok); if (e->isConstant()) return pVariable(new Variable(e->eval())); return pVariable(new Variable(e)); }
static inline pVariable evalV(EV &v, Token &tok)
{
  if (v.which() == 0) return evalE<int>(boost::get<pE<int> >(v), tok);
  if (v.which() == 1) return evalE<dbl>(boost::get<pE<dbl> >(v), tok);
  return evalE<string>(boost::get<pE<string> >(v), tok);
}
static inline EV toExpr(ValueVariant &v)
{
  if (v.which() == 0) return EV(pE<int>(new Value<int>(boost::get<int>(v))));
  if (v.which() == 1) return EV(pE<dbl>(new Value<dbl>(boost::get<dbl>(v))));
  return EV(pE<string>(new Value<string>(boost::get<string>(v))));
}
template<template<class> class Op> static inline EV ref_un(EV &a)
{
  if (a.which() == 0) return EV(pE<int>(new UnaryOp<Op<int>, int>(boost::get<pE<int> >(a))));
  if (a.which() == 1) return EV(pE<dbl>(new UnaryOp<Op<dbl>, dbl>(boost::get<pE<dbl> >(a))));
  return EV(pE<string>(new UnaryOp<Op<string>, string>(boost::get<pE<string> >(a))));
}
template<template<class> class Op> static inline EV ref_bin(const EV &a, const EV &b)
{
  if (a.which() == 0) return EV(pE<int>(new BinaryOp<Op<int>, int>(boost::get<pE<int> >(a), boost::get<pE<int> >(b))));
  if (a.which() == 1) return EV(pE<dbl>(new BinaryOp<Op<dbl>, dbl>(boost::get<pE<dbl> >(a), boost::get<pE<dbl> >(b))));
  return EV(pE<string>(new BinaryOp<Op<string>, string>(boost::get<pE<string> >(a), boost::get<pE<string> >(b))));
}
// a - b - c is (a - b) - c also when a is a floating point number and b and c are integers: the chain b - c is not converted as a whole
template<template<class> class Op> static inline EV ref_bin2(const EV &da, const EV &db)
{
  TypePromoter p;
  boost::apply_visitor(p, const_cast<EV &>(da), const_cast<EV &>(db));
  EV b = p.getResultB();
  if (db.which() == 0 && da.which() == 1)
  {
    pE<int> e = boost::get<pE<int> >(db);
    pE<dbl> c;
    if (auto x = std::dynamic_pointer_cast<BinaryOp<Op<int>, int> >(e)) c = pE<dbl>(new BinaryOp<Op<dbl>, dbl>(*x));
    else if (auto y = std::dynamic_pointer_cast<BinaryOp<typename Op<int>::Inverted, int> >(e)) c = pE<dbl>(new BinaryOp<Op<dbl>, dbl>(*y));
    if (c) b = c;
  }
  return ref_bin<Op>(p.getResultA(), b);
}
extern "C" {
// ---- tokens of the parser
void w_ptNew(PT &t) { new (&t) PT(); }
void r_ptNew(PT &t) { new (&t.context) ParserContext(); new (&t.atomTok) Token(); t.type = PT::none; new (&t.data) EV(); new (&t.var) pVariable(); new (&t.chainedToken) pParserToken(); }
void w_ptTok(PT &t, const Token a, ParserContext c) { new (&t) PT(a, c); }
void r_ptTok(PT &t, const Token a, ParserContext c) { new (&t.context) ParserContext(c); new (&t.atomTok) Token(a); t.type = PT::atom; new (&t.data) EV(); new (&t.var) pVariable(); new (&t.chainedToken) pParserToken(); }
void w_ptCopy(PT &t, const PT &o) { new (&t) PT(o); }
void r_ptCopy(PT &t, const PT &o) { new (&t.context) ParserContext(o.context); new (&t.atomTok) Token(o.atomTok); t.type = o.type; new (&t.data) EV(o.data); new (&t.var) pVariable(o.var); new (&t.chainedToken) pParserToken(o.chainedToken); }
void w_ptAssign(PT &t, const PT &o) { t = o; }
void r_ptAssign(PT &t, const PT &o) { t.context.variables = o.context.variables; t.context.funcReg = o.context.funcReg; t.context.blockClasses = o.context.blockClasses; t.context.blockTree = o.context.blockTree;
  t.atomTok.filename = o.atomTok.filename; t.atomTok.line = o.atomTok.line; t.atomTok.token = o.atomTok.token; t.atomTok.str = o.atomTok.str; t.type = o.type; t.data = o.data; t.var = o.var; t.chainedToken = o.chainedToken; }
int w_ptType(PT &t) { return t.getType(); }
int r_ptType(PT &t) { return t.type; }
string w_ptStr(PT &t) { return t.getString(); }
string r_ptStr(PT &t) { return t.atomTok.str; }
void w_append(PT &t, PT &o) { t.append(o); }
void r_append(PT &t, PT &o) { t.chainedToken = pParserToken(new PT(o)); }
// ---- values
void w_int(PT &t, PT &o) { t.assignInteger(o); }
void r_int(PT &t, PT &o) { atomOf(t, o, INTEGER); t.data = EV(pE<int>(new Value<int>(boost::lexical_cast<int>(t.atomTok.str)))); t.type = PT::int_type; }
void w_float(PT &t, PT &o) { t.assignFloat(o); }
void r_float(PT &t, PT &o) { atomOf(t, o, FLOAT); t.data = EV(pE<dbl>(new Value<dbl>(boost::lexical_cast<dbl>(t.atomTok.str)))); t.type = PT::float_type; }
void w_string(PT &t, PT &o) { t.assignString(o); }
void r_string(PT &t, PT &o) { atomOf(t, o, STRING); t.data = EV(pE<string>(new Value<string>(t.atomTok.str))); t.type = PT::string_type; }
void w_iden(PT &t, PT &o) { t.assignIdentifier(o); }
void r_iden(PT &t, PT &o)
{
  atomOf(t, o, IDENTIFIER);
  pVariable v = t.context.variables->getCurrentBlock()->getVariable(t.atomTok.str);
  int y = v->getType();
  if (y == Variable::int_type) t.data = EV(pE<int>(new ReferencedValue<int>(v)));
  else if (y == Variable::float_type) t.data = EV(pE<dbl>(new ReferencedValue<dbl>(v)));
  else if (y == Variable::string_type) t.data = EV(pE<string>(new ReferencedValue<string>(v)));
  else FAIL(t.atomTok);
  t.type = PT::expression;
}
void w_list(PT &t) { t.makeExpressionList(); }
void r_list(PT &t) { if (t.type != PT::expression) FAIL(t.atomTok); t.type = PT::expressionlist; }
void w_fun0(PT &t, PT &f) { t.assignFunction(f); }
void r_fun0(PT &t, PT &f) { take(t, f); ExpressionList a; t.data = t.context.funcReg->getExpression(f.atomTok.str, a); t.type = PT::expression; }
void w_fun(PT &t, PT &f, PT &x) { t.assignFunction(f, x); }
void r_fun(PT &t, PT &f, PT &x)
{
  take(t, x);
  ExpressionList a;
  a.push_front(x.data);
  for (pParserToken p = x.chainedToken; p; p = p->chainedToken) a.push_front(p->data);
  t.data = t.context.funcReg->getExpression(f.atomTok.str, a);
  t.type = PT::expression;
}
void r_fun2(PT &t, PT &f, PT &x)
{
  take(t, x);
  ExpressionList a;
  a.push_front(x.data);
  for (PT *p = x.chainedToken.get(); p; p = p->chainedToken.get()) a.push_front(p->data);
  t.data = t.context.funcReg->getExpression(f.atomTok.str, a);
  t.type = PT::expression;
}
void r_fun3(PT &t, PT &f, PT &x)
{
  take(t, x);
  ExpressionList a;
  for (PT *p = &x; p; p = p->chainedToken.get()) a.push_front(p->data);
  t.data = t.context.funcReg->getExpression(f.atomTok.str, a);
  t.type = PT::expression;
}
// ---- statements
void w_evalx(PT &t, PT &i, PT &e) { t.evaluateExpression(i, e); }
void r_evalx(PT &t, PT &i, PT &e) { atomOf(t, i, IDENTIFIER); t.data = e.data; t.type = PT::statement; }
static inline void refDecl(PT &t, PT &d)
{
  int k = d.atomTok.token;
  if (d.type != PT::atom) FAIL(d.atomTok);
  if (t.type == PT::statement)
  {
    if (k == INT_DECL) { if (t.var->getType() != Variable::int_type) FAIL(d.atomTok); }
    else if (k == FLOAT_DECL) { if (t.var->getType() != Variable::float_type) FAIL(d.atomTok); }
    else if (k == STRING_DECL) { if (t.var->getType() != Variable::string_type) FAIL(d.atomTok); }
    else FAIL(d.atomTok);
  }
  else if (t.type == PT::atom)
  {
    if (t.atomTok.token != IDENTIFIER) FAIL(t.atomTok);
    if (k == INT_DECL) t.var = pVariable(new Variable(0));
    else if (k == FLOAT_DECL) t.var = pVariable(new Variable(0.0));
    else if (k == STRING_DECL) t.var = pVariable(new Variable(string("")));
    else FAIL(d.atomTok);
  }
  else FAIL(t.atomTok);
}
void r_store(PT &t, PT &d)
{
  t.var = evalV(t.data, t.atomTok);
  refDecl(t, d);
  t.context.variables->addVariable(t.atomTok.str, t.var);
  if (t.chainedToken) t.chainedToken->storeVariable(d);
}
void w_update(PT &t) { t.updateVariable(); }
void r_update(PT &t)
{
  pVariable v = t.context.variables->getCurrentBlock()->getVariable(t.atomTok.str);
  EV old;
  if (v->isConstant()) { ValueVariant x = v->getValue(); old = toExpr(x); }
  else old = v->getExpression();
  TypePromoterAssign promote;
  EV e = boost::apply_visitor(promote, old, t.data);
  *v = *evalV(e, t.atomTok);
}
// ---- blocks
void w_block(PT &t, PT &n) { t.createBlock(n); }
void r_block(PT &t, PT &n)
{
  if (t.type != PT::atom || t.atomTok.token != IDENTIFIER || n.type != PT::atom || n.atomTok.token != IDENTIFIER) FAIL(t.atomTok);
  string name = n.atomTok.str, cls = t.atomTok.str;
  string outer = t.context.variables->getCurrentBlock()->getClassName();
  if (t.context.blockClasses->restrictBlocks() && !t.context.blockClasses->hasChild(outer, cls)) FAIL(n.atomTok);
  t.context.variables->createBlock(name, cls);
  BlockClassDescriptor &d = t.context.blockClasses->get(cls);
  if (d.hasBlockFactory())
  {
    pBlock b = d.makeBlock(name);
    b->setContext(t.context.variables->getCurrentBlock());
    b->setup();
    t.context.blockTree->addChild(b);
  }
  else t.context.blockTree->moveDown();
}
void w_end(PT &t) { t.endBlock(); }
void r_end(PT &t) { if (!t.context.variables->getCurrentBlock()->getParent()) FAIL(t.atomTok); t.context.variables->cursorUp(); t.context.blockTree->moveUp(); }
// ---- scanner tokens
void w_tok(Token &t, string f, int l, int k, string s) { new (&t) Token(f, l, k, s); }
void r_tok(Token &t, string f, int l, int k, string s) { new (&t.filename) string(f); t.line = l; t.token = k == PATHIDENTIFIER ? IDENTIFIER : k; new (&t.str) string(s); }
void w_tokCopy(Token &t, const Token &o) { new (&t) Token(o); }
void r_tokCopy(Token &t, const Token &o) { new (&t.filename) string(o.filename); t.line = o.line; t.token = o.token; new (&t.str) string(o.str); }
string w_tokFile(Token &t) { return t.getFilename(); }
string r_tokFile(Token &t) { return t.filename; }
int w_tokLine(Token &t) { return t.getLine(); }
int r_tokLine(Token &t) { return t.line; }
int w_tokId(Token &t) { return t.getToken(); }
int r_tokId(Token &t) { return t.token; }
string w_tokStr(Token &t) { return t.getString(); }
string r_tokStr(Token &t) { return t.str; }
void w_ins(TokenList &l, int n, int k) { l.insert(n, k); }
void r_ins(TokenList &l, int n, int k) { l.tlist.push_back(Token(l.filename, n, k, "")); }
void w_insStr(TokenList &l, int n, int k, char *s, size_t len) { l.insert(n, k, s, len); }
void r_insStr(TokenList &l, int n, int k, char *s, size_t len) { l.tlist.push_back(Token(l.filename, n, k, string(s, len))); }
void w_reset(TokenList &l) { l.reset(); }
void r_reset(TokenList &l) { l.tlist.clear(); }
void w_resetF(TokenList &l, string f) { l.reset(f); }
void r_resetF(TokenList &l, string f) { l.tlist.clear(); l.filename = f; }
int w_errLine(ParserError &e) { return e.getLine(); }
int r_errLine(ParserError &e) { return e.atomToken.line; }
string w_errFile(ParserError &e) { return e.getFilename(); }
string r_errFile(ParserError &e) { return e.atomToken.filename; }
void w_scan(DeckScanner &s, std::istream *i) { s.scan(i); }
void r_scan(DeckScanner &s, std::istream *i) { s.input = i; s.tokens.tlist.clear(); s.do_scan(s.tokens); }
}
#define UN(OP) \
extern "C" { \
void w_un##OP(PT &t, PT &a) { t.assignUnaryOperator<expression::Operator##OP>(a); } \
void r_un##OP(PT &t, PT &a) { take(t, a); t.type = PT::expression; t.data = ref_un<expression::Operator##OP>(a.data); } \
}
#define BIN(OP) \
extern "C" { \
void w_bin##OP(PT &t, PT &a, PT &b) { t.assignBinaryOperator<expression::Operator##OP>(a, b); } \
void r_bin##OP(PT &t, PT &a, PT &b) { take(t, a); t.type = PT::expression; t.data = ref_bin2<expression::Operator##OP>(a.data, b.data); } \
}
UN(Id) UN(Neg) BIN(Add) BIN(Subtract) BIN(Multiply) BIN(Divide) BIN(Exponent)

// reference definitions for the variable tree and the variables (P18, P19)
#include "variables.hpp"
#include "variables/expression.hpp"
#include <boost/algorithm/string/split.hpp>
#include <boost/algorithm/string/classification.hpp>
using namespace schnek;
typedef std::list<std::string> Path;
extern "C" {
// ---- P18: lookup
bool r_exists(BlockVariables &b, Path path, bool upward)
{
  std::string name = path.front();
  if (path.size()>1) {
    if (b.childrenByName.count(name)) {
      path.pop_front();
      return b.childrenByName[name]->exists(path, false);
    }
  } else if (b.vars.count(name)) return true;
  if (!upward || !b.parent) return false;
  return b.parent->exists(path, true);
}
pVariable r_get(BlockVariables &b, Path path, bool upward)
{
  std::string name = path.front();
  if (path.size()>1) {
    if (b.childrenByName.count(name)) {
      path.pop_front();
      return b.childrenByName[name]->getVariable(path, false);
    }
  } else if (b.vars.count(name)) return b.vars[name];
  if (!upward || !b.parent) throw VariableNotFoundException("");
  return b.parent->getVariable(path, true);
}
bool r_existsName(BlockVariables &b, std::string name) { Path path; boost::split(path, name, boost::is_any_of(":")); return b.exists(path, true); }
bool w_existsName(BlockVariables &b, std::string name) { return b.exists(name); }
pVariable r_getName(BlockVariables &b, std::string name) { Path path; boost::split(path, name, boost::is_any_of(":")); return b.getVariable(path, true); }
pVariable w_getName(BlockVariables &b, std::string name) { return b.getVariable(name); }
bool r_addVariable(BlockVariables &b, std::string name, pVariable v)
{
  if (b.vars.count(name)) return false;
  b.vars[name] = v;
  return true;
}
bool w_addVariable(BlockVariables &b, std::string name, pVariable v) { return b.addVariable(name, v); }
bool r_addChild(BlockVariables &b, pBlockVariables c)
{
  if (b.childrenByName.count(c->name)) return false;
  b.childrenByName[c->name] = c;
  b.childrenByClassName[c->className].push_back(c);
  b.children.push_back(c);
  return true;
}
bool w_addChild(BlockVariables &b, pBlockVariables c) { return b.addChild(c); }
pBlockVariables r_new(std::string n, std::string c, pBlockVariables p)
{
  pBlockVariables b(new BlockVariables("", "", pBlockVariables()));
  b->name = n; b->className = c; b->parent = p;
  return b;
}
pBlockVariables w_new(std::string n, std::string c, pBlockVariables p) { return pBlockVariables(new BlockVariables(n, c, p)); }
const VariableMap *r_vars(BlockVariables &b) { return &b.vars; }
const VariableMap *w_vars(BlockVariables &b) { return &b.getVariables(); }
const BlockVariablesList *r_children(BlockVariables &b) { return &b.children; }
const BlockVariablesList *w_children(BlockVariables &b) { return &b.getChildren(); }
pBlockVariables r_parent(BlockVariables &b) { return b.parent; }
pBlockVariables w_parent(BlockVariables &b) { return b.getParent(); }
std::string r_name(BlockVariables &b) { return b.name; }
std::string w_name(BlockVariables &b) { return b.getBlockName(); }
std::string r_class(BlockVariables &b) { return b.className; }
std::string w_class(BlockVariables &b) { return b.getClassName(); }
// ---- P18: storage
void r_storage(VariableStorage &s, std::string n, std::string c)
{
  s.root = pBlockVariables(new BlockVariables(n, c, pBlockVariables()));
  s.cursor = s.root;
}
void w_storage(VariableStorage &s, std::string n, std::string c) { new (&s) VariableStorage(n, c); }
void r_storageCopy(VariableStorage &s, const VariableStorage &o) { s.root = o.root; s.cursor = o.cursor; }
void w_storageCopy(VariableStorage &s, const VariableStorage &o) { new (&s) VariableStorage(o); }
void r_reset(VariableStorage &s) { s.cursor = s.root; }
void w_reset(VariableStorage &s) { s.resetCursor(); }
void r_up(VariableStorage &s) { if (s.cursor->parent) s.cursor = s.cursor->parent; else s.cursor = s.root; }
void w_up(VariableStorage &s) { s.cursorUp(); }
void r_addVar(VariableStorage &s, std::string n, pVariable v) { if (s.cursor->vars.count(n)) throw DuplicateVariableException(); s.cursor->vars[n] = v; }
void w_addVar(VariableStorage &s, std::string n, pVariable v) { s.addVariable(n, v); }
pBlockVariables r_createBlock(VariableStorage &s, std::string n, std::string c)
{
  pBlockVariables b(new BlockVariables(n, c, s.cursor));
  if (s.cursor->childrenByName.count(b->name)) throw DuplicateBlockException();
  s.cursor->childrenByName[b->name] = b;
  s.cursor->childrenByClassName[b->className].push_back(b);
  s.cursor->children.push_back(b);
  s.cursor = b;
  return b;
}
pBlockVariables w_createBlock(VariableStorage &s, std::string n, std::string c) { return s.createBlock(n, c); }
pBlockVariables r_root(VariableStorage &s) { return s.root; }
pBlockVariables w_root(VariableStorage &s) { return s.getRootBlock(); }
pBlockVariables r_current(VariableStorage &s) { return s.cursor; }
pBlockVariables w_current(VariableStorage &s) { return s.getCurrentBlock(); }
// ---- P19: variables
#define CT(N, T, K, FIXED, FIELD) \
void r_var##N(Variable &v, T x, bool ini, bool ro) { new (&v.expression) ExpressionVariant(); new (&v.var) ValueVariant(); v.FIELD = x; v.type = Variable::K; v.fixed = FIXED; v.initialised = ini; v.readonly = ro; new (&v.uniqueId) std::shared_ptr<Unique<Variable> >(new Unique<Variable>()); } \
void w_var##N(Variable &v, T x, bool ini, bool ro) { new (&v) Variable(x, ini, ro); }
CT(I, int, int_type, true, var)
CT(F, double, float_type, true, var)
CT(S, std::string, string_type, true, var)
CT(IE, pIntExpression, int_type, false, expression)
CT(FE, pFloatExpression, float_type, false, expression)
CT(SE, pStringExpression, string_type, false, expression)
void r_varDefI(Variable &v, int x) { new (&v) Variable(x, true, false); }
void w_varDefI(Variable &v, int x) { new (&v) Variable(x); }
void r_varDefF(Variable &v, double x) { new (&v) Variable(x, true, false); }
void w_varDefF(Variable &v, double x) { new (&v) Variable(x); }
void r_varDefS(Variable &v, std::string x) { new (&v) Variable(x, true, false); }
void w_varDefS(Variable &v, std::string x) { new (&v) Variable(x); }
void r_varDefFE(Variable &v, pFloatExpression x) { new (&v) Variable(x, true, false); }
void w_varDefFE(Variable &v, pFloatExpression x) { new (&v) Variable(x); }
void r_varDefSE(Variable &v, pStringExpression x) { new (&v) Variable(x, true, false); }
void w_varDefSE(Variable &v, pStringExpression x) { new (&v) Variable(x); }
void r_varDefIE(Variable &v, pIntExpression x) { new (&v) Variable(x, true, false); }
void w_varDefIE(Variable &v, pIntExpression x) { new (&v) Variable(x); }
void r_varCopy(Variable &v, const Variable &o) { v.expression = o.expression; v.var = o.var; v.type = o.type; v.fixed = o.fixed; v.initialised = o.initialised; v.readonly = o.readonly; v.uniqueId = o.uniqueId; }
void w_varCopy(Variable &v, const Variable &o) { new (&v) Variable(o); }
Variable *r_assign(Variable &v, const Variable &o)
{
  if (v.type != o.type) throw TypeMismatchException();
  if (v.readonly) throw ReadOnlyAssignmentException();
  v.var = o.var; v.expression = o.expression; v.fixed = o.fixed; v.initialised = o.initialised; v.uniqueId = o.uniqueId;
  return &v;
}
Variable *w_assign(Variable &v, const Variable &o) { return &(v = o); }
const ValueVariant *r_evalExpr(Variable &v) { ExpressionEvaluator<ValueVariant> e; v.var = boost::apply_visitor(e, v.expression); return &v.var; }
const ValueVariant *w_evalExpr(Variable &v) { return &v.evaluateExpression(); }
const ValueVariant *r_evaluate(Variable &v) { if (!v.fixed) v.evaluateExpression(); return &v.var; }
const ValueVariant *w_evaluate(Variable &v) { return &v.evaluate(); }
int r_type(Variable &v) { return v.type; }
int w_type(Variable &v) { return v.getType(); }
ValueVariant r_value(Variable &v) { return v.var; }
ValueVariant w_value(Variable &v) { return v.getValue(); }
const ExpressionVariant *r_expr(Variable &v) { return &v.expression; }
const ExpressionVariant *w_expr(Variable &v) { return &v.getExpression(); }
bool r_const(Variable &v) { return v.fixed; }
bool w_const(Variable &v) { return v.isConstant(); }
bool r_ro(Variable &v) { return v.readonly; }
bool w_ro(Variable &v) { return v.isReadOnly(); }
bool r_ini(Variable &v) { return v.initialised; }
bool w_ini(Variable &v) { return v.isInitialised(); }
long r_id(Variable &v) { return v.uniqueId->getId(); }
long w_id(Variable &v) { return v.getId(); }
}

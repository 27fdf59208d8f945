// reference definitions for blocks: life cycle (P25), tree (P26), shared data (P27), parameters (P28)
#include "variables/block.hpp"
#include "variables/blockdata.hpp"
#include "variables/blockparameters.hpp"
#include "variables/expression.hpp"
#include "grid/array.hpp"
using namespace schnek;
typedef std::string string;
typedef double dbl;
extern "C" {
// ---- life cycle
void r_evalPars(Block &b) { b.blockParameters.evaluate(); for (pBlock c: b.children) c->evaluateParameters(); }
void r_setup(Block &b) { b.initParameters(b.blockParameters); for (pBlock c: b.children) c->setup(); }
void r_register(Block &b) { b.registerData(); for (pBlock c: b.children) c->registerHierarchy(); }
void r_preInit(Block &b) { b.preInit(); for (pBlock c: b.children) c->preInitHierarchy(); }
void r_init(Block &b) { b.init(); for (pBlock c: b.children) c->initHierarchy(); }
void r_postInit(Block &b) { b.postInit(); for (pBlock c: b.children) c->postInitHierarchy(); }
void w_initAll(Block &b) { b.initAll(); }
void r_initAll(Block &b)
{
  Block *r = &b;
  while (r->parent) r = r->parent.get();
  r->evaluateParameters();
  r->registerHierarchy();
  r->preInitHierarchy();
  r->initHierarchy();
  r->postInitHierarchy();
}
void r_initAll2(Block &b)
{
  Block *r = &b;
  for (pBlock p = b.parent; p; p = p->parent) r = p.get();
  r->evaluateParameters();
  r->registerHierarchy();
  r->preInitHierarchy();
  r->initHierarchy();
  r->postInitHierarchy();
}
// ---- tree
void w_blockAdd(Block &b, pBlock c) { b.addChild(c); }
void r_blockAdd(Block &b, pBlock c) { b.children.push_back(c); }
pBlock w_blockParent(Block &b) { return b.getParent(); }
pBlock r_blockParent(Block &b) { return b.parent; }
BlockList w_blockChildren(Block &b) { return b.getChildren(); }
BlockList r_blockChildren(Block &b) { return b.children; }
void w_blockSetParent(Block &b, pBlock p) { b.setParent(p); }
void r_blockSetParent(Block &b, pBlock p) { b.parent = p; }
void w_setName(Block &b, const string &n) { b.setName(n); }
void r_setName(Block &b, const string &n) { b.name = n; }
string w_getName(Block &b) { return b.getName(); }
string r_getName(Block &b) { return b.name; }
void w_setContext(Block &b, pBlockVariables v) { b.setContext(v); }
void r_setContext(Block &b, pBlockVariables v) { b.blockParameters.block = v; }
pBlockVariables w_localVars(Block &b) { return b.getLocalVariables(); }
pBlockVariables r_localVars(Block &b) { return b.blockParameters.block; }
pBlockVariables w_getVars(Block &b) { return b.getVariables(); }
pBlockVariables r_getVars(Block &b) { pBlockVariables v = b.blockParameters.block; while (v->getParent()) v = v->getParent(); return v; }
void w_tree(BlockTree &t) { new (&t) BlockTree(); }
void r_tree(BlockTree &t) { new (&t.root) pBlock(); new (&t.cursor) pBlock(); new (&t.depth) std::stack<int>(); }
void w_treeAdd(BlockTree &t, pBlock c) { t.addChild(c); }
void r_treeAdd(BlockTree &t, pBlock c)
{
  if (t.cursor) { t.cursor->addChild(c); c->parent = t.cursor; }
  t.cursor = c;
  if (!t.root) t.root = c;
  t.depth.push(0);
}
void w_treeDown(BlockTree &t) { t.moveDown(); }
void r_treeDown(BlockTree &t) { if (!t.depth.empty()) ++t.depth.top(); }
void w_treeUp(BlockTree &t) { t.moveUp(); }
void r_treeUp(BlockTree &t)
{
  if (t.depth.empty()) return;
  if (t.depth.top() != 0) { --t.depth.top(); return; }
  t.cursor = t.cursor->parent;
  t.depth.pop();
}
pBlock w_treeRoot(BlockTree &t) { return t.getRoot(); }
pBlock r_treeRoot(BlockTree &t) { return t.root; }
}
// ---- shared data
template<class T> static inline bool ref_getData(Block &b, string key, T *&data, bool upward)
{
  BlockData<T> &d = BlockData<T>::instance();
  if (d.exists(b.getId(), key)) { data = d.get(b.getId(), key); return true; }
  boost::iterator_range<string::iterator> dot = boost::find_first(key, ".");
  if (!dot.empty())
  {
    string head(key.begin(), dot.begin()), tail(dot.end(), key.end());
    int n = 0;
    for (pBlock c: b.children) if (c->getName() == head && c->getData(tail, data, false)) ++n;
    if (n > 1) throw DuplicateVariableException();
    if (n == 1) return true;
  }
  if (upward && b.parent) return b.parent->getData(key, data, true);
  int n = 0;
  for (pBlock c: b.children) if (c->getData(key, data, false)) ++n;
  if (n > 1) throw DuplicateVariableException();
  return n != 0;
}
#define DATA(N, T) \
extern "C" { \
bool w_getData##N(Block &b, string key, T *&data, bool up) { return b.getData(key, data, up); } \
bool r_getData##N(Block &b, string key, T *&data, bool up) { return ref_getData<T>(b, key, data, up); } \
void w_addData##N(Block &b, string key, T &data) { b.addData(key, data); } \
void r_addData##N(Block &b, string key, T &data) { BlockData<T>::instance().add(b.getId(), key, data); } \
void w_retrieve##N(Block &b, string key, T &data) { b.retrieveData(key, data); } \
void r_retrieve##N(Block &b, string key, T &data) { T *p; if (!b.getData(key, p, true)) throw VariableNotFoundException("Could not find Block variable " + key); data = *p; } \
void w_retrieveP##N(Block &b, string key, T *&data) { b.retrieveData(key, data); } \
void r_retrieveP##N(Block &b, string key, T *&data) { T **pp; if (b.getData(key, pp, true)) { data = *pp; return; } if (!b.getData(key, data, true)) throw VariableNotFoundException("Could not find Block variable " + key); } \
void w_bdAdd##N(BlockData<T> &d, long id, string key, T &x) { d.add(id, key, x); } \
void r_bdAdd##N(BlockData<T> &d, long id, string key, T &x) { if (d.blockDataMap.count(id) == 0) d.blockDataMap[id] = BlockData<T>::pDataMap(new BlockData<T>::DataMap()); (*d.blockDataMap[id])[key] = &x; } \
void r_bdAdd2##N(BlockData<T> &d, long id, string key, T &x) { BlockData<T>::pDataMap &m = d.blockDataMap[id]; if (!m) m = BlockData<T>::pDataMap(new BlockData<T>::DataMap()); (*m)[key] = &x; } \
T *w_bdGet##N(BlockData<T> &d, long id, string key) { return d.get(id, key); } \
T *r_bdGet##N(BlockData<T> &d, long id, string key) { \
  if (d.blockDataMap.count(id) == 0) throw VariableNotFoundException("Could not find Block that holds variable " + key); \
  if (d.blockDataMap[id]->count(key) == 0) throw VariableNotFoundException("Could not find Block variable " + key); \
  return (*d.blockDataMap[id])[key]; } \
bool w_bdExists##N(BlockData<T> &d, long id, string key) { return d.exists(id, key); } \
bool r_bdExists##N(BlockData<T> &d, long id, string key) { if (d.blockDataMap.count(id) == 0) return false; return d.blockDataMap[id]->count(key) > 0; } \
}
DATA(I, int) DATA(F, dbl)
// ---- parameters
#define PAR(N, T) \
extern "C" { \
void w_parEval##N(ConcreteParameter<T> &p) { p.ConcreteParameter<T>::evaluate(); } \
void r_parEval##N(ConcreteParameter<T> &p) { \
  if (!p.variable->isInitialised()) throw VariableNotInitialisedException(p.varName); \
  if (p.variable->isReadOnly()) return; \
  if (p.variable->isConstant()) *p.value = boost::get<T>(p.variable->getValue()); \
  else *p.value = boost::get<T>(p.variable->evaluateExpression()); } \
void w_parUpdate##N(ConcreteParameter<T> &p) { p.ConcreteParameter<T>::update(); } \
void r_parUpdate##N(ConcreteParameter<T> &p) { if (!p.variable->isReadOnly()) *p.value = boost::get<T>(p.variable->getValue()); } \
void w_constEval##N(ConstantParameter<T> &p) { p.ConstantParameter<T>::evaluate(); } \
void r_constEval##N(ConstantParameter<T> &p) { } \
void w_constUpdate##N(ConstantParameter<T> &p) { p.ConstantParameter<T>::update(); } \
void r_constUpdate##N(ConstantParameter<T> &p) { } \
pParameter w_addPar##N(BlockParameters &b, string n, T *v, pParametersGroup g, bool hasDefault, const T &def, BlockParameters::Permissions perm) { return b.addParameter(n, v, g, hasDefault, def, perm); } \
pParameter r_addPar##N(BlockParameters &b, string n, T *v, pParametersGroup g, bool hasDefault, const T &def, BlockParameters::Permissions perm) { \
  pVariable var; \
  if (perm == BlockParameters::readwrite) var = pVariable(new Variable(def, hasDefault, false)); \
  else { std::shared_ptr<Expression<T> > e(new ExternalValue<T>(v)); if (hasDefault) *v = def; var = pVariable(new Variable(e, true, true)); } \
  b.block->addVariable(n, var); \
  pParameter par(new ConcreteParameter<T>(n, var, v, g)); \
  b.parameterMap[n] = par; \
  return par; } \
pParameter r_addParB##N(BlockParameters &b, string n, T *v, pParametersGroup g, bool hasDefault, const T &def, BlockParameters::Permissions perm) { \
  pVariable var; \
  if (perm != BlockParameters::readonly) var = pVariable(new Variable(def, hasDefault, false)); \
  else { std::shared_ptr<Expression<T> > e(new ExternalValue<T>(v)); if (hasDefault) *v = def; var = pVariable(new Variable(e, true, true)); } \
  b.block->addVariable(n, var); \
  pParameter par(new ConcreteParameter<T>(n, var, v, g)); \
  b.parameterMap[n] = par; \
  return par; } \
pParameter w_addPar1##N(BlockParameters &b, string n, T *v, BlockParameters::Permissions perm) { return b.addParameter(n, v, perm); } \
pParameter r_addPar1##N(BlockParameters &b, string n, T *v, BlockParameters::Permissions perm) { pParametersGroup g(new ParametersGroup()); return b.addParameter(n, v, g, false, T(), perm); } \
pParameter w_addPar2##N(BlockParameters &b, string n, T *v, const T &def, BlockParameters::Permissions perm) { return b.addParameter(n, v, def, perm); } \
pParameter r_addPar2##N(BlockParameters &b, string n, T *v, const T &def, BlockParameters::Permissions perm) { pParametersGroup g(new ParametersGroup()); return b.addParameter(n, v, g, true, def, perm); } \
pParameter w_addConst##N(BlockParameters &b, string n, const T &x) { return b.addConstant(n, x); } \
pParameter r_addConst##N(BlockParameters &b, string n, const T &x) { \
  pVariable var(new Variable(x, true, true)); \
  b.block->addVariable(n, var); \
  pParameter par(new ConstantParameter<T>(n, var, x)); \
  b.parameterMap[n] = par; \
  return par; } \
}
PAR(I, int) PAR(F, dbl) PAR(S, string)
#define NEED SCHNEK_REQUIRE(3 <= ext.length(), "addArrayParameter: extension string not long enough! Rank = " + boost::lexical_cast<string>(3) + ",  extension.length = " + boost::lexical_cast<string>(ext.length()) + " (\"" + ext + "\")");
typedef Array<pParameter, 3> P3;
typedef Array<dbl, 3> F3;
extern "C" {
P3 w_addArr(BlockParameters &b, string n, F3 &v, BlockParameters::Permissions perm, string ext) { return b.addArrayParameter(n, v, perm, ext); }
P3 w_addArrD(BlockParameters &b, string n, F3 &v, F3 def, BlockParameters::Permissions perm, string ext) { return b.addArrayParameter(n, v, def, perm, ext); }
P3 w_addArrS(BlockParameters &b, string n, F3 &v, dbl def, BlockParameters::Permissions perm, string ext) { return b.addArrayParameter(n, v, def, perm, ext); }
P3 r_addArr(BlockParameters &b, string n, F3 &v, BlockParameters::Permissions perm, string ext) { NEED P3 r; for (int i = 0; i < 3; ++i) r[i] = b.addParameter(n + ext[i], &v[i], perm); return r; }
static inline P3 ref_addArrD(BlockParameters &b, string n, F3 &v, F3 def, BlockParameters::Permissions perm, string ext) { NEED P3 r; for (int i = 0; i < 3; ++i) r[i] = b.addParameter(n + ext[i], &v[i], def[i], perm); return r; }
P3 r_addArrD(BlockParameters &b, string n, F3 &v, F3 def, BlockParameters::Permissions perm, string ext) { return ref_addArrD(b, n, v, def, perm, ext); }
P3 r_addArrS(BlockParameters &b, string n, F3 &v, dbl def, BlockParameters::Permissions perm, string ext) { NEED P3 r; for (int i = 0; i < 3; ++i) r[i] = b.addParameter(n + ext[i], &v[i], def, perm); return r; }
P3 w_addArr0(BlockParameters &b, string n, F3 &v) { return b.addArrayParameter(n, v); }
P3 r_addArr0(BlockParameters &b, string n, F3 &v) { return b.addArrayParameter(n, v, BlockParameters::readwrite, "xyzuvw"); }
void w_evaluate(BlockParameters &b) { b.evaluate(); }
void r_evaluate(BlockParameters &b) { for (std::map<string, pParameter>::iterator i = b.parameterMap.begin(); i != b.parameterMap.end(); ++i) i->second->evaluate(); }
bool w_canEval(Parameter &p) { return p.canEvaluate(); }
bool r_canEval(Parameter &p) { return p.variable && p.variable->isInitialised(); }
pVariable w_parVar(Parameter &p) { return p.getVariable(); }
pVariable r_parVar(Parameter &p) { return p.variable; }
pParametersGroup w_parDeps(Parameter &p) { return p.getAllowedDeps(); }
pParametersGroup r_parDeps(Parameter &p) { return p.allowedDeps; }
void w_grpAddP(ParametersGroup &g, pParameter p) { g.add(p); }
void r_grpAddP(ParametersGroup &g, pParameter p) { g.parameters.insert(p->getVariable()->getId()); }
void w_grpAddArr(ParametersGroup &g, Array<pParameter, 2> &a) { g.addArray(a); }
void r_grpAddArr(ParametersGroup &g, Array<pParameter, 2> &a) { for (size_t i = 0; i < 2; ++i) g.add(a[i]); }
void w_grpAddV(ParametersGroup &g, pVariable v) { g.add(v); }
void r_grpAddV(ParametersGroup &g, pVariable v) { g.parameters.insert(v->getId()); }
bool w_grpIsP(ParametersGroup &g, pParameter p) { return g.isElement(p); }
bool r_grpIsP(ParametersGroup &g, pParameter p) { return g.parameters.count(p->getVariable()->getId()) > 0; }
bool w_grpIsV(ParametersGroup &g, pVariable v) { return g.isElement(v); }
bool r_grpIsV(ParametersGroup &g, pVariable v) { return g.parameters.count(v->getId()) > 0; }
bool w_grpHas(ParametersGroup &g, std::set<long> &ids) { return g.hasElements(ids); }
bool r_grpHas(ParametersGroup &g, std::set<long> &ids) { for (std::set<long>::iterator i = g.parameters.begin(); i != g.parameters.end(); ++i) ids.erase(*i); return ids.empty(); }
}

// reference definitions for the dependency graph and the updater (P24)
#include "variables/dependencies.hpp"
#include "variables/expression.hpp"
using namespace schnek;
typedef DependencyMap DM;
typedef DependencyUpdater DU;
typedef DM::VarInfo VarInfo;
extern "C" {
void r_construct_rec(DM &m, const pBlockVariables vars)
{
  for (VariableMap::value_type it: vars->getVariables())
  {
    pVariable v = it.second;
    if (v->isConstant()) continue;
    DependenciesGetter get;
    std::set<long> dep = boost::apply_visitor(get, v->getExpression());
    if (dep.count(-1) > 0) { dep.erase(-1); dep.insert(m.dummyVar->getId()); }
    long id = v->getId();
    if (m.dependencies.count(id) > 0) throw SchnekException();
    m.dependencies[id] = VarInfo(v, dep, std::set<long>());
  }
  for (pBlockVariables ch: vars->getChildren()) m.constructMapRecursive(ch);
}
void w_construct(DM &m, const pBlockVariables vars) { m.constructMap(vars); }
void r_construct(DM &m, const pBlockVariables vars)
{
  m.dependencies.clear();
  m.dependencies[m.dummyVar->getId()] = VarInfo(m.dummyVar, std::set<long>(), std::set<long>());
  m.constructMapRecursive(vars);
  for (DM::DepMap::value_type e: m.dependencies)
    for (long id: e.second.dependsOn)
      if (m.dependencies.count(id) > 0) m.dependencies[id].modifies.insert(e.first);
}
void w_list(DM &m, const DM::VariableSet &ind, const DM::VariableSet &dep, DM::VariableList &l) { m.makeUpdateList(ind, dep, l); }
void r_list(DM &m, const DM::VariableSet &ind, const DM::VariableSet &dep, DM::VariableList &l)
{
  DM::pRefDepMap pred = m.makeUpdatePredecessors(ind, dep);
  DM::pRefDepMap foll = m.makeUpdateFollowers(ind, pred);
  m.makeUpdateOrder(foll, l);
}
DM::pRefDepMap w_pred(DM &m, const DM::VariableSet &ind, const DM::VariableSet &dep) { return m.makeUpdatePredecessors(ind, dep); }
DM::pRefDepMap r_pred(DM &m, const DM::VariableSet &ind, const DM::VariableSet &dep)
{
  std::list<VarInfo*> work;
  DM::pRefDepMap seen(new DM::RefDepMap());
  for (pVariable v: dep)
  {
    long id = v->getId();
    if (m.dependencies.count(id) == 0) continue;
    VarInfo *vi = &m.dependencies[id];
    work.push_back(vi);
    (*seen)[id] = vi;
  }
  while (!work.empty())
  {
    VarInfo *vi = work.front();
    work.pop_front();
    for (long id: vi->dependsOn)
    {
      if (seen->count(id) > 0) continue;
      if (id >= 0 && m.dependencies.count(id) == 0) continue;
      if (id < 0)
      {
        for (pVariable v: ind)
        {
          long i = v->getId();
          if (seen->count(i) == 0) { VarInfo *p = &m.dependencies[i]; work.push_back(p); (*seen)[i] = p; }
        }
      }
      else { VarInfo *p = &m.dependencies[id]; work.push_back(p); (*seen)[id] = p; }
    }
  }
  return seen;
}
DM::pRefDepMap w_foll(DM &m, const DM::VariableSet &ind, DM::pRefDepMap pred) { return m.makeUpdateFollowers(ind, pred); }
DM::pRefDepMap r_foll(DM &m, const DM::VariableSet &ind, DM::pRefDepMap pred)
{
  std::list<VarInfo*> work;
  DM::pRefDepMap seen(new DM::RefDepMap());
  for (pVariable v: ind)
  {
    long id = v->getId();
    if (pred->count(id) == 0) continue;
    VarInfo *vi = (*pred)[id];
    work.push_back(vi);
    (*seen)[id] = vi;
  }
  while (!work.empty())
  {
    VarInfo *vi = work.front();
    work.pop_front();
    for (long id: vi->modifies)
    {
      if (seen->count(id) > 0 || pred->count(id) == 0) continue;
      VarInfo *p = (*pred)[id];
      work.push_back(p);
      (*seen)[id] = p;
    }
  }
  return seen;
}
void w_order(DM &m, DM::pRefDepMap deps, DM::VariableList &l) { m.makeUpdateOrder(deps, l); }
void r_order(DM &m, DM::pRefDepMap deps, DM::VariableList &l)
{
  std::list<VarInfo*> work;
  l.clear();
  for (DM::RefDepMap::value_type e: *deps)
  {
    int n = 0;
    VarInfo *vi = e.second;
    work.push_back(vi);
    for (long id: vi->dependsOn) if (deps->count(id) > 0) ++n;
    vi->counter = n;
  }
  while (!work.empty())
  {
    VarInfo *next = 0;
    std::list<VarInfo*>::iterator it = work.begin();
    while (next == 0 && it != work.end())
    {
      if ((*it)->counter == 0) next = *it; else ++it;
    }
    assert(next != 0);
    work.erase(it);
    l.push_back(next->v);
    for (long id: next->modifies)
    {
      if (deps->count(id) == 0) continue;
      VarInfo *vi = (*deps)[id];
      --vi->counter;
      assert(vi->counter >= 0);
    }
  }
}
void r_order2(DM &m, DM::pRefDepMap deps, DM::VariableList &l)
{
  std::list<VarInfo*> work;
  l.clear();
  for (DM::RefDepMap::value_type e: *deps)
  {
    int n = 0;
    VarInfo *vi = e.second;
    work.push_back(vi);
    for (long id: vi->dependsOn) if (deps->count(id) > 0) ++n;
    vi->counter = n;
  }
  while (!work.empty())
  {
    std::list<VarInfo*>::iterator it = work.begin();
    while (it != work.end() && (*it)->counter != 0) ++it;
    assert(it != work.end());
    VarInfo *next = *it;
    work.erase(it);
    l.push_back(next->v);
    for (long id: next->modifies)
    {
      if (deps->count(id) == 0) continue;
      VarInfo *vi = (*deps)[id];
      --vi->counter;
      assert(vi->counter >= 0);
    }
  }
}
void r_order3(DM &m, DM::pRefDepMap deps, DM::VariableList &l)
{
  std::list<VarInfo*> work;
  l.clear();
  for (DM::RefDepMap::value_type e: *deps)
  {
    int n = 0;
    VarInfo *vi = e.second;
    work.push_back(vi);
    for (long id: vi->dependsOn) if (deps->count(id) > 0) ++n;
    vi->counter = n;
  }
  while (!work.empty())
  {
    VarInfo *next = 0;
    std::list<VarInfo*>::iterator it = work.begin();
    for (; it != work.end(); ++it) if ((*it)->counter == 0) { next = *it; break; }
    assert(next != 0);
    work.erase(it);
    l.push_back(next->v);
    for (long id: next->modifies)
    {
      if (deps->count(id) == 0) continue;
      VarInfo *vi = (*deps)[id];
      --vi->counter;
      assert(vi->counter >= 0);
    }
  }
}
void w_recreate(DM &m) { m.recreate(); }
void r_recreate(DM &m) { m.constructMap(m.blockVars); }
pBlockVariables w_vars(DM &m) { return m.getBlockVariables(); }
pBlockVariables r_vars(DM &m) { return m.blockVars; }
void w_new(DM &m, const pBlockVariables v) { new (&m) DM(v); }
void r_new(DM &m, const pBlockVariables v)
{
  static int dummy = 0;
  new (&m.dependencies) DM::DepMap();
  new (&m.blockVars) pBlockVariables();
  new (&m.dummyVar) pVariable();
  std::shared_ptr<Expression<int> > e(new ExternalValue<int>(&dummy));
  m.dummyVar = pVariable(new Variable(e, true, true));
  m.blockVars = v;
  m.constructMap(v);
}
void w_all(DM &m) { m.updateAll(); }
void r_all(DM &m)
{
  DM::pRefDepMap deps(new DM::RefDepMap());
  for (DM::DepMap::value_type &e: m.dependencies) deps->insert(DM::RefDepMap::value_type(e.first, &e.second));
  DM::VariableList l;
  m.makeUpdateOrder(deps, l);
  for (pVariable v: l) { try { v->evaluateExpression(); } catch (...) {} }
}
void r_all2(DM &m)
{
  DM::pRefDepMap deps(new DM::RefDepMap());
  for (DM::DepMap::value_type &e: m.dependencies) (*deps)[e.first] = &e.second;
  DM::VariableList l;
  m.makeUpdateOrder(deps, l);
  for (pVariable v: l) { try { v->evaluateExpression(); } catch (...) {} }
}
void w_updater(DU &u, pDependencyMap d) { new (&u) DU(d); }
void r_updater(DU &u, pDependencyMap d)
{
  new (&u.updateList) DU::VariableList();
  new (&u.independentVars) DU::VariableSet();
  new (&u.dependentVars) DU::VariableSet();
  new (&u.dependentParameters) DU::ParameterSet();
  new (&u.dependencies) pDependencyMap(d);
  u.isValid = true;
  assert(d->dummyVar->isReadOnly());
  u.independentVars.insert(d->dummyVar);
}
void w_addInd(DU &u, pParameter p) { u.addIndependent(p); }
void r_addInd(DU &u, pParameter p) { assert(p->getVariable()->isReadOnly()); u.independentVars.insert(p->getVariable()); u.isValid = false; }
void w_addDep(DU &u, pParameter p) { u.addDependent(p); }
void r_addDep(DU &u, pParameter p)
{
  assert(!!p);
  if (p->getVariable()->isConstant()) { p->update(); return; }
  u.dependentParameters.insert(p);
  u.dependentVars.insert(p->getVariable());
  u.isValid = false;
}
void w_clear(DU &u) { u.clearDependent(); }
void r_clear(DU &u) { u.dependentParameters.clear(); u.dependentVars.clear(); u.isValid = false; }
void w_addIndArr(DU &u, Array<pParameter, 3> a) { u.addIndependentArray(a); }
static inline void ref_addIndArr(DU &u, Array<pParameter, 3> a) { for (size_t i = 0; i < 3; ++i) u.addIndependent(a[i]); }
void r_addIndArr(DU &u, Array<pParameter, 3> a) { ref_addIndArr(u, a); }
void w_addDepArr(DU &u, Array<pParameter, 3> a) { u.addDependentArray(a); }
static inline void ref_addDepArr(DU &u, Array<pParameter, 3> a) { for (size_t i = 0; i < 3; ++i) u.addDependent(a[i]); }
void r_addDepArr(DU &u, Array<pParameter, 3> a) { ref_addDepArr(u, a); }
void w_update(DU &u) { u.update(); }
void r_update(DU &u)
{
  if (!u.isValid) { u.dependencies->makeUpdateList(u.independentVars, u.dependentVars, u.updateList); u.isValid = true; }
  for (pVariable v: u.updateList) v->evaluateExpression();
  for (pParameter p: u.dependentParameters) p->update();
}
}

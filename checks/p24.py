"""P24: dependents are updated, after what they depend on"""
from .adtlib import *

RULE = REF + "graph: one node per non-constant variable of all blocks, edges from every dependency; closure: the nodes to update are those reachable from the independent and needed by the dependent variables; order: every node after the nodes it depends on; updater: the cached list is rebuilt after every change and evaluated in order before the parameters are written."
DM = "_ZN6schnek13DependencyMap"
KEEP = r"^%s(21constructMapRecursive|12constructMap|22makeUpdatePredecessors|19makeUpdateFollowers|15makeUpdateOrder|14makeUpdateList)E" % DM
ROWS = [
    ("graph", (DM + "21constructMapRecursiveESt10shared_ptrINS_14BlockVariablesEE", "r_construct_rec"), "DependencyMap::constructMapRecursive", (1,)),
    ("graph", (DM + "12constructMapESt10shared_ptrINS_14BlockVariablesEE", "r_construct"), "DependencyMap::constructMap", (1,)),
    ("graph", "new", "DependencyMap::DependencyMap", (1,)),
    ("graph", "recreate", "DependencyMap::recreate", ()),
    ("graph", "vars", "DependencyMap::getBlockVariables", ()),
]


def run():
    chk = Check("P24", RULE)
    mod = module("deps.cpp", lib=("src/variables/dependencies.cpp",), keep=KEEP)
    chk.module(mod)
    A = AdtAnalyzer(mod)
    n = lambda p: [x for x in mod.funcs if x.startswith(DM + p)][0]
    rows = ROWS + [
        ("closure", (n("22makeUpdatePredecessors"), "r_pred"), "DependencyMap::makeUpdatePredecessors", (), {"bag": True}),
        ("closure", (n("19makeUpdateFollowers"), "r_foll"), "DependencyMap::makeUpdateFollowers", (3,), {"bag": True}),
        ("order", (n("15makeUpdateOrder"), ("r_order", "r_order2", "r_order3")), "DependencyMap::makeUpdateOrder", (1,), {"bag": True}),
        ("order", (n("14makeUpdateList"), "r_list"), "DependencyMap::makeUpdateList", ()),
        ("updater", ("w_all", ("r_all", "r_all2")), "DependencyMap::updateAll", ()),
        ("updater", "updater", "DependencyUpdater::DependencyUpdater", (1,)),
        ("updater", "addInd", "DependencyUpdater::addIndependent", (1,)),
        ("updater", "addDep", "DependencyUpdater::addDependent", (1,)),
        ("updater", "addIndArr", "DependencyUpdater::addIndependentArray", (1,)),
        ("updater", "addDepArr", "DependencyUpdater::addDependentArray", (1,)),
        ("updater", "clear", "DependencyUpdater::clearDependent", ()),
        ("updater", "update", "DependencyUpdater::update", ()),
    ]
    table(chk, A, rows)
    chk.floor = 17
    return chk.finish()

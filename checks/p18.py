"""P18: variable names resolve by scope"""
from .adtlib import *

RULE = REF + "lookup: a path of several names descends into the named child and never comes back up, a single name is looked up here and then in the enclosing blocks; declare: a second declaration of a name is refused; access; cursor: blocks nest."
EX = "_ZN6schnek14BlockVariables6existsENSt7__cxx114listINS1_12basic_stringIcSt11char_traitsIcESaIcEEESaIS7_EEEb"
GET = "_ZN6schnek14BlockVariables11getVariableENSt7__cxx114listINS1_12basic_stringIcSt11char_traitsIcESaIcEEESaIS7_EEEb"
ROWS = [
    ("lookup", (EX, "r_exists"), "BlockVariables::exists(path, upward)", (1,)),
    ("lookup", (GET, "r_get"), "BlockVariables::getVariable(path, upward)", (2,)),
    ("lookup", "existsName", "BlockVariables::exists(name)", (1,)),
    ("lookup", "getName", "BlockVariables::getVariable(name)", (2,)),
    ("declare", "addVariable", "BlockVariables::addVariable", (1, 2)),
    ("declare", "addChild", "BlockVariables::addChild", (1,)),
    ("declare", "new", "BlockVariables::BlockVariables", (1, 2, 3)),
    ("access", "vars", "BlockVariables::getVariables", ()),
    ("access", "children", "BlockVariables::getChildren", ()),
    ("access", "parent", "BlockVariables::getParent", ()),
    ("access", "name", "BlockVariables::getBlockName", ()),
    ("access", "class", "BlockVariables::getClassName", ()),
    ("cursor", "storage", "VariableStorage::VariableStorage", (1, 2)),
    ("cursor", "storageCopy", "VariableStorage copy constructor", ()),
    ("cursor", "reset", "VariableStorage::resetCursor", ()),
    ("cursor", "up", "VariableStorage::cursorUp", ()),
    ("cursor", "addVar", "VariableStorage::addVariable", (1, 2)),
    ("cursor", "createBlock", "VariableStorage::createBlock", (2, 3)),
    ("cursor", "root", "VariableStorage::getRootBlock", ()),
    ("cursor", "current", "VariableStorage::getCurrentBlock", ()),
]


def run():
    chk = Check("P18", RULE)
    mod = module("vars.cpp", lib=("src/variables/variables.cpp",), keep=r"^_ZN6schnek14BlockVariables(6exists|11getVariable)ENSt7__cxx114list")
    chk.module(mod)
    chk.floor = 20
    table(chk, AdtAnalyzer(mod), ROWS)
    return chk.finish()

"""P19: variables keep their type; read-only variables are never changed by assignment"""
from .adtlib import *

RULE = REF + "construct/copy/access: type, value, expression and flags are kept as given; assign: type mismatch first, then read-only, otherwise value, expression, flags; evaluate: expressions are evaluated into the value."
NEW = {"ignore_effects": r"Unique<schnek::Variable>"}
ROWS = [("construct", "var" + n, "Variable(%s, initialised, readonly)" % t, (1,) if n[0] == "S" or n[-1] == "E" else ()) for n, t in
        (("I", "int"), ("F", "double"), ("S", "std::string"), ("IE", "pIntExpression"), ("FE", "pFloatExpression"), ("SE", "pStringExpression"))]
ROWS += [("construct", "varDef" + n, "Variable(%s) default arguments" % t, (1,) if n != "I" and n != "F" else ()) for n, t in
         (("I", "int"), ("F", "double"), ("S", "std::string"), ("IE", "pIntExpression"), ("FE", "pFloatExpression"), ("SE", "pStringExpression"))]
ROWS += [
    ("copy", "varCopy", "Variable copy constructor", ()),
    ("assign", "assign", "Variable::operator=", ()),
    ("evaluate", "evalExpr", "Variable::evaluateExpression", ()),
    ("evaluate", "evaluate", "Variable::evaluate", ()),
    ("access", "type", "Variable::getType", ()),
    ("access", "value", "Variable::getValue", ()),
    ("access", "expr", "Variable::getExpression", ()),
    ("access", "const", "Variable::isConstant", ()),
    ("access", "ro", "Variable::isReadOnly", ()),
    ("access", "ini", "Variable::isInitialised", ()),
    ("access", "id", "Variable::getId", ()),
]


def run():
    chk = Check("P19", RULE)
    mod = module("vars.cpp", lib=("src/variables/variables.cpp",), keep=r"^_ZN6schnek14BlockVariables(6exists|11getVariable)ENSt7__cxx114list")
    chk.module(mod)
    chk.floor = 23
    table(chk, AdtAnalyzer(mod), ROWS)
    return chk.finish()

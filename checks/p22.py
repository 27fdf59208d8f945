"""P22: functions in expressions"""
from .adtlib import *
from .p21 import V

RULE = REF + "arguments: exactly as many arguments as the function has parameters, each converted to the parameter's type, anything else is an exception; value: the function applied to the arguments' values in their order; constancy: all arguments constant and not to be updated always; dependencies: the union of the arguments'; registry: a name stands for the function registered last under it, an unknown name is an exception; builtin: the documented names stand for the functions of that name."
REG = r"_ZN6schnek16FunctionRegistry16registerFunctionI"
SIG = (("0", "double()"), ("F", "double(double)"), ("FF", "double(double, double)"), ("FI", "double(double, int)"), ("IF", "double(int, double)"),
       ("II", "int(int, int)"), ("FFF", "double(double, double, double)"), ("IFI", "double(int, double, int)"))
ROWS = [("registry", "get", "FunctionRegistry::getExpression", (2,)), ("registry", "regNew", "FunctionRegistry::FunctionRegistry", ()), ("registry", "regCopy", "FunctionRegistry copy", ())]
for N, S in SIG:
    W = "FunctionExpression<%s>" % S
    ROWS += [("arguments", "new" + N, W + " constructor", (), {"ignore_cells": r"^a0$", "throw_mem": False}),
             ("value", "eval" + N, W + "::eval", ()),
             ("constancy", ("w_const" + N, tuple("r_const" + k + N for k in ("", "2", "3", "4", "5", "6", "7"))), W + "::isConstant", ()),
             ("dependencies", ("w_deps" + N, ("r_deps" + N, "r_deps2" + N)), W + "::getDependencies", ()),
             ("registry", "reg" + N, "FunctionRegistry::registerFunction<%s>" % S, (1,)),
             ("registry", "entry" + N, "FunctionRegistry::Entry<%s>::getExpression" % S, ())]
BUILTIN = [("builtin", x, "registered functions: " + x, (), {"check_order": False}) for x in ("cmath", "utility", "special", "all")]
BUILTIN += [("builtin", (("w_" + x), ("r_" + x, "r_" + x + "2") if x in ("min", "max") else "r_" + x), "built-in function " + x, ()) for x in ("min", "max", "minI", "maxI", "normal")]


def run():
    chk = Check("P22", RULE)
    mod = module("functions.cpp", extra_flags=V)
    chk.module(mod)
    table(chk, AdtAnalyzer(mod), ROWS)
    mod = module("functions.cpp", lib=("src/variables/function_expression.cpp",), opaque_extra=REG + "|" + OPAQUE)
    chk.module(mod)
    table(chk, AdtAnalyzer(mod), BUILTIN)
    chk.floor = 60
    return chk.finish()

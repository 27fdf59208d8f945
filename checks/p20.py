"""P20: expressions evaluate to the value their text denotes"""
from .adtlib import *

RULE = REF + "leaf, unary, operator, binary: the value of each expression node from those of its operands, chains from left to right; constancy: constant exactly when all operands are; dependencies: the union of those of all operands."
ROWS = []
for N, T in (("I", "int"), ("F", "double"), ("S", "std::string")):
    by = (1,) if N == "S" else ()
    s = 1 if N == "S" else 0
    ROWS += [
        ("leaf", "val_new" + N, "Value<%s>::Value" % T, by),
        ("leaf", "val_eval" + N, "Value<%s>::eval" % T, ()),
        ("constancy", "val_const" + N, "Value<%s>::isConstant" % T, ()),
        ("dependencies", "val_deps" + N, "Value<%s>::getDependencies" % T, ()),
        ("leaf", "val_ref" + N, "Value<%s>::getReference" % T, ()),
        ("leaf", "ref_new" + N, "ReferencedValue<%s>::ReferencedValue" % T, ()),
        ("leaf", "ref_eval" + N, "ReferencedValue<%s>::eval" % T, ()),
        ("constancy", "ref_const" + N, "ReferencedValue<%s>::isConstant" % T, ()),
        ("dependencies", "ref_deps" + N, "ReferencedValue<%s>::getDependencies" % T, ()),
        ("leaf", "ext_new" + N, "ExternalValue<%s>::ExternalValue" % T, ()),
        ("leaf", "ext_eval" + N, "ExternalValue<%s>::eval" % T, ()),
        ("constancy", "ext_const" + N, "ExternalValue<%s>::isConstant" % T, ()),
        ("dependencies", "ext_deps" + N, "ExternalValue<%s>::getDependencies" % T, ()),
        ("leaf", "call" + N, "Expression<%s>::operator()" % T, ()),
        ("leaf", "visit_eval" + N, "ExpressionEvaluator(Expression<%s>)" % T, (2,)),
        ("dependencies", "visit_deps" + N, "DependenciesGetter(Expression<%s>)" % T, (2,)),
    ]
    for OP in ("Id", "Neg", "Inv"):
        W = "UnaryOp<Operator%s, %s>" % (OP, T)
        ROWS += [("unary", "un_new" + OP + N, W + " constructor", (1,)), ("unary", "un_eval" + OP + N, W + "::eval", ()),
                 ("constancy", "un_const" + OP + N, W + "::isConstant", ()), ("dependencies", "un_deps" + OP + N, W + "::getDependencies", ())]
    for OP in ("Add", "Subtract", "Multiply", "Divide", "Exponent"):
        W = "BinaryOp<Operator%s, %s>" % (OP, T)
        ROWS += [("unary", "negate" + OP + N, "Operator%s<%s>::negate" % (OP, T), (1,)),
                 ("operator", "op" + OP + N, "Operator%s<%s>::eval" % (OP, T), (s, s + 1) if N == "S" else ()),
                 ("binary", "bin_new" + OP + N, W + " constructor", (1, 2), {"ignore_cells": r"^a0$"}), ("binary", "bin_eval" + OP + N, W + "::eval", ()),
                 ("constancy", ("w_bin_const" + OP + N, ("r_bin_const" + OP + N, "r_bin_constA" + OP + N)), W + "::isConstant", ()), ("dependencies", "bin_deps" + OP + N, W + "::getDependencies", ())]
ROWS += [("binary", "chain" + OP, "BinaryOp<Operator%s, double> from a chain of integers" % OP, (), {"ignore_cells": r"^a0$"}) for OP in ("Add", "Subtract", "Multiply", "Divide")]


def run():
    chk = Check("P20", RULE)
    mod = module("expr.cpp")
    chk.module(mod)
    chk.floor = 150
    table(chk, AdtAnalyzer(mod, pure="^virtual3$"), ROWS)
    return chk.finish()

"""P21: conversions between the types of the setup language"""
from .adtlib import *

RULE = REF + "promotion: the operands of a binary operator are brought to the wider of their types (integer, float, string); assignment: the value is brought to the variable's type; cast: the value of a cast, its constancy and dependencies follow its operand's; operator: an operator node has the type of its operands."
V = ("-I%s/witness/variant" % ir.VERIF,)
ROWS = [("promotion", "prom", "TypePromoter", ()), ("promotion", "promA", "TypePromoter::getResultA", ()), ("promotion", "promB", "TypePromoter::getResultB", ()),
        ("assignment", "assign", "TypePromoterAssign", ())]
for N, W in (("FI", "double, int"), ("IF", "int, double"), ("SI", "string, int, LexicalCast"), ("SF", "string, double, LexicalCast"), ("IS", "int, string, LexicalCast"), ("FS", "double, string, LexicalCast"),
             ("fFI", "double, int, FastCast"), ("fIF", "int, double, FastCast"), ("fSI", "string, int, FastCast"), ("fSF", "string, double, FastCast"), ("fIS", "int, string, FastCast"), ("fFS", "double, string, FastCast")):
    ROWS += [("cast", "cast" + N, "TypecastOp<%s>::eval" % W, ()), ("cast", "castConst" + N, "TypecastOp<%s>::isConstant" % W, ()),
             ("cast", "castDeps" + N, "TypecastOp<%s>::getDependencies" % W, ()), ("cast", "castNew" + N, "TypecastOp<%s> constructor" % W, (1,))]
ROWS += [("operator", "un" + o, "UnaryOperatorVisitor<Operator%s>" % o, ()) for o in ("Id", "Neg")]
ROWS += [("operator", "bin" + o, "BinaryOperatorVisitor<Operator%s>" % o, ()) for o in ("Add", "Subtract", "Multiply", "Divide", "Exponent")]


def run():
    chk = Check("P21", RULE)
    mod = module("convert.cpp", extra_flags=V)
    chk.module(mod)
    table(chk, AdtAnalyzer(mod), ROWS)
    chk.floor = 59
    return chk.finish()

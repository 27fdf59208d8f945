"""P36: text output of arrays and grids, numeric and type helpers"""
from .adtlib import *
from .p35 import U

RULE = REF + "text: every element is written exactly once, first index fastest, blanks between the elements of a row, a line break after each row and a further one after each plane; an empty grid writes nothing; number: minimum, maximum, sign, mean, sum and cross product; type: the n-th type of a list of types."
ROWS = [("text", "grid%s%d" % (t, n), "operator<<(ostream, Grid<%s, %d>)" % (T, n), ()) for t, T in (("d", "double"), ("i", "int")) for n in (1, 2, 3, 4, 5)]
ROWS += [("text", "arr%d" % n, "operator<<(ostream, Array<double, %d>)" % n, ()) for n in (1, 2, 3, 6)]
ROWS += [("number", k, t, ()) for k, t in (("min", "min"), ("max", "max"), ("mini", "min<int>"), ("maxi", "max<int>"), ("sgn0", "signum0"), ("sgn", "signum"), ("sgn0i", "signum0<int>"), ("minf", "min<float>"), ("maxf", "max<float>"), ("sgn0f", "signum0<float>"), ("sgnf", "signum<float>"), ("sgni", "signum<int>"), ("minl", "min<long>"), ("maxl", "max<long>"), ("sgn0l", "signum0<long>"), ("sgnl", "signum<long>"), ("minu", "min<unsigned>"), ("maxu", "max<unsigned>"), ("cross", "crossProduct"), ("mean", "mean"),
         ("add", "calcsum::operator()"), ("sum", "calcsum::result"), ("sum0", "calcsum::calcsum"), ("sumC", "calcsum copy"))]
ROWS += [("type", "types", "TypeList::get", ()), ("type", "typesO", "TypeAtNonStrict", ())]


def run():
    chk = Check("P36", RULE)
    mod = module("text.cpp", passes=U)
    chk.module(mod)
    table(chk, AdtAnalyzer(mod), ROWS)
    chk.floor = len(ROWS)
    return chk.finish()

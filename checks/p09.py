"""P09: forEach policies."""
from engine.report import Check
from engine.val import *
from engine import ir
from engine.absint import Analyzer, Memory
from .gridlib import arg
from .p08 import visit

RULE = ("Induction over the loop equations of each forEach policy (ranks 1-4; the Kokkos policy over a reference model of parallel_for on Range/MDRangePolicy): "
        "the functor is called exactly once for each point of the closed range, with that point, and never otherwise (also for empty ranges); the C policy is "
        "last-index-fastest, the Fortran policy first-index-fastest.")


def run():
    chk = Check("P09", RULE, ["Kokkos::parallel_for calls its functor once for every index of [begin,end) of the execution policy (reference model in witness/stubs)"])
    el = lambda n, k: V(Poly.atom(("mem", arg(n).single() + Poly.const(4 * k), None, "i32")))
    mods = [ir.prepare("ranges.cpp"), ir.prepare("foreach_kokkos.cpp", extra_flags=["-I" + ir.VERIF + "/witness/stubs"])]
    for mod in mods:
        chk.module(mod)
    As = [Analyzer(m) for m in mods]
    for R in (1, 2, 3, 4):
        dims = [(el("lo", d), el("hi", d)) for d in range(R)]
        visit(chk, As[0], "w_feC%d" % R, dims, "C", "RangeCIterationPolicy<%d>::forEach" % R)
        visit(chk, As[0], "w_feF%d" % R, dims, "F", "RangeFortranIterationPolicy<%d>::forEach" % R)
        visit(chk, As[1], "w_feK%d" % R, dims, "any", "RangeKokkosIterationPolicy<%d>::forEach" % R)
    chk.floor = 40
    return chk.finish()

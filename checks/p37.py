"""P37: grid storage on Kokkos views"""
import re
from .adtlib import *
from .p35 import U
from engine import refeq
from engine.absint import dem

RULE = REF + ("access: an element access reaches the view at the index relative to the lower bound; bounds: the bounds, sizes and strides are those of the grid; "
              "share: every way of creating or re-pointing a grid registers an updater of that grid with the grids sharing the view and leaves the former ones; "
              "a resize passes the new range and a new view of its extent to every registered grid; every updater registered is itself compared with the reference updater.")
OPS = [("access", "get", "get"), ("access", "cget", "get const"), ("bounds", "lo", "getLo(k)"), ("bounds", "hi", "getHi(k)"), ("bounds", "dim", "getDims(k)"), ("bounds", "loA", "getLo"),
       ("bounds", "hiA", "getHi"), ("bounds", "dimA", "getDims"), ("bounds", "box2", "getRange"), ("bounds", "size", "getSize"), ("bounds", "stride", "stride"),
       ("share", "none", "default constructor"), ("share", "box", "constructor from bounds"), ("share", "range", "constructor from a range"), ("share", "copy", "copy constructor"),
       ("share", "assign", "assignment"), ("share", "dtor", "destructor"), ("share", "resize", "resize")]


def run():
    chk = Check("P37", RULE)
    mod = module("kokkos.cpp", passes=U, keep=r"_ZNSt17_Function_handler.*9_M_invoke", extra_flags=["-I" + ir.VERIF + "/witness/stubs"])
    chk.module(mod)
    A = AdtAnalyzer(mod, pure=r"Kokkos::View<.*>::(at|size|stride|data|extent)\(")
    A.closures = {}
    hs = sorted({h for l in mod.info["handlers"].values() for h in l})
    for n in (1, 2, 3):
        mine = [h for h in hs if "RangeIiLm%dE" % n in h]
        ref = [h for h in mine if "rFollow" in h]
        if len(ref) != 1:
            raise ToolError("reference updater not found")
        for h in mine:
            if h == ref[0]:
                continue
            A.closures[h] = ref[0]
            try:
                d = refeq.compare(A, h, ref[0])[0]
            except (refeq.Undecided, refeq.TooComplex) as e:
                chk.undecided("updater, rank %d" % n, str(e))
                continue
            m = re.search(r"KokkosGridStorage<.*?>::(.*)::\{lambda", dem(h))
            chk.ob("share", not d, "updater registered by %s, rank %d" % (m.group(1).split("(schnek")[0] if m else dem(h)[:100], n), "behaves as its reference definition" if not d else d[0])
    for n in (1, 2, 3):
        table(chk, A, [(g, "%s%d" % (f, n), "KokkosGridStorage %s, rank %d" % (t, n), ()) for g, f, t in OPS])
    chk.floor = 3 * len(OPS) + 3
    return chk.finish()

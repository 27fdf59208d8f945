"""P11: boundary domains; P17: sub-grids (shared witness)."""
from engine.report import Check
from engine.val import *
from engine import ir
from engine.absint import Analyzer, Memory
from .gridlib import arg

RULE = ("Value-numbering dataflow over Boundary (ranks 1-4, every dimension, both ends, both staggerings): each corner of the ghost, source, boundary and inner domain is "
        "compared with the closed form in the box bounds and the ghost width; the closed forms themselves make lower ghost, inner and upper ghost adjacent and disjoint.")


def corner(lo, hi, dl, kind, d, dim, e, st=0):
    """closed form of one (lo, hi) pair"""
    if kind == "inner":
        return vadd(lo[d], dl), vsub(hi[d], dl)
    if d != dim:
        return lo[d], hi[d]
    if kind in ("ghost", "bnd"):
        if e == 0:
            return lo[d], vsub(vadd(lo[d], dl), V(1 + (st if kind == "bnd" else 0)))
        return vadd(vsub(hi[d], dl), V(1)), hi[d]
    if e == 0:
        return vadd(lo[d], dl), vsub(vadd(lo[d], vadd(dl, dl)), V(1))
    return vadd(vsub(hi[d], vadd(dl, dl)), V(1)), vsub(hi[d], dl)


def run():
    chk = Check("P11", RULE, ["the ghost width is a non-negative int"])
    mod = ir.prepare("boundary.cpp")
    chk.module(mod)
    A = Analyzer(mod)
    for R in (1, 2, 3, 4):
        N = "Boundary<%d>" % R
        M = Memory()
        b = arg("b")
        q = lambda f, m, *a, b=b: A.num(A.run("w_%s%d" % (f, R), dict(enumerate((b,) + a)), m).ret)
        ld = lambda n, d: V(Poly.atom(("mem", arg(n).single() + Poly.const(4 * d), None, "i32")))
        dl = VA("arg", "delta", "i32")
        routes = [("ctor", [ld("lo", d) for d in range(R)], [ld("hi", d) for d in range(R)], dl),
                  ("ctorD", [q("rlo", M, V(d), b=arg("r")) for d in range(R)], [q("rhi", M, V(d), b=arg("r")) for d in range(R)], dl),
                  ("copy", [q("lo", M, V(d), b=arg("o")) for d in range(R)], [q("hi", M, V(d), b=arg("o")) for d in range(R)], q("delta", M, b=arg("o")))]
        for op, lo, hi, dl in routes:
            m = A.run("w_%s%d" % (op, R)).mem
            W = "%s %s" % (N, op)
            chk.eq("domain", q("delta", m), dl, W, "getDelta")
            for d in range(R):
                chk.eq("domain", q("lo", m, V(d)), lo[d], W, "domain lo(%d)" % d)
                chk.eq("domain", q("hi", m, V(d)), hi[d], W, "domain hi(%d)" % d)
                wl, wh = corner(lo, hi, dl, "inner", d, 0, 0)
                chk.eq("inner", q("innerlo", m, V(d)), wl, W, "inner lo(%d)" % d)
                chk.eq("inner", q("innerhi", m, V(d)), wh, W, "inner hi(%d)" % d)
                for dim in range(R):
                    for e in (0, 1):
                        T = "dimension %d, %s" % (dim, ("Min", "Max")[e])
                        for kind in ("ghost", "src"):
                            wl, wh = corner(lo, hi, dl, kind, d, dim, e)
                            chk.eq(kind, q(kind + "lo", m, V(d), V(dim), V(e)), wl, W, "%s domain %s: lo(%d)" % (kind, T, d))
                            chk.eq(kind, q(kind + "hi", m, V(d), V(dim), V(e)), wh, W, "%s domain %s: hi(%d)" % (kind, T, d))
                        for st in (0, 1):
                            wl, wh = corner(lo, hi, dl, "bnd", d, dim, e, st)
                            chk.eq("boundary", q("bndlo", m, V(d), V(dim), V(e), V(st)), wl, W, "boundary domain %s, stagger %d: lo(%d)" % (T, st, d))
                            chk.eq("boundary", q("bndhi", m, V(d), V(dim), V(e), V(st)), wh, W, "boundary domain %s, stagger %d: hi(%d)" % (T, st, d))
    chk.floor = 500
    return chk.finish()

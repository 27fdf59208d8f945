"""P07: ranges as sets of points."""
from engine.report import Check
from engine.val import *
from engine import ir
from engine.absint import Analyzer, Memory
from .gridlib import arg

RULE = ("Value-numbering dataflow over Range (ranks 1-5, int and double): bounds observed through every accessor after each constructor, copy, conversion, "
        "assignment, grow overload (ranks 2-10) and projection equal the specified box, and inside(p) is equivalent to lo<=p<=hi in all dimensions.")
SZ = {"d": 8, "i": 4}
TAG = {"d": "d", "i": "i32"}


def run():
    chk = Check("P07", RULE)
    mod = ir.prepare("ranges.cpp")
    chk.module(mod)
    A = Analyzer(mod)
    el = lambda n, t, k: V(Poly.atom(("mem", arg(n).single() + Poly.const(SZ[t] * k), None, TAG[t])))
    for t, Rs in (("i", (1, 2, 3, 4, 5)), ("d", (1, 2, 3, 4))):
        for R in Rs:
            W = lambda x: "w_%s%d_%s" % (t, R, x)
            N = "Range<%s,%d>" % ("int" if t == "i" else "double", R)

            def bounds(mem, r, pre=""):
                m = mem or Memory()
                return [(A.num(A.run(W(pre + "lo"), {0: r, 1: V(d)}, m).ret), A.num(A.run(W(pre + "hi"), {0: r, 1: V(d)}, m).ret)) for d in range(R)]

            def allacc(mem, r, want, what):
                b = bounds(mem, r)
                for d in range(R):
                    chk.eq("bounds", b[d][0], want[d][0], "%s %s" % (N, what), "getLo(%d)" % d)
                    chk.eq("bounds", b[d][1], want[d][1], "%s %s" % (N, what), "getHi(%d)" % d)
                    for x, k in (("loA", 0), ("hiA", 1)):
                        chk.eq("bounds", A.num(A.run(W(x), {0: r, 1: V(d)}, mem).ret), want[d][k], "%s %s" % (N, what), "%s(%d)" % (x, d))
                    for x, k in (("mlo", 0), ("mhi", 1), ("mloA", 0), ("mhiA", 1)):
                        p = A.num(A.run(W(x), {0: r, 1: V(d)}, mem).ret)
                        chk.eq("bounds", mem.load(p, SZ[t], TAG[t]), want[d][k], "%s %s" % (N, what), "%s(%d)" % (x, d))
            box = [(el("lo", t, d), el("hi", t, d)) for d in range(R)]
            ob = bounds(None, arg("o"))
            rb = bounds(None, arg("r"))
            allacc(A.run(W("ctor")).mem, arg("r"), box, "constructor")
            allacc(A.run(W("ctor0")).mem, arg("r"), [(V(0), V(0))] * R, "default constructor")
            allacc(A.run(W("copy")).mem, arg("r"), ob, "copy constructor")
            allacc(A.run(W("assign")).mem, arg("r"), ob, "assignment")
            m = A.run(W("conv")).mem
            b = bounds(m, arg("r"), "c")
            for d in range(R):
                for k in (0, 1):
                    chk.eq("bounds", b[d][k], ob[d][k], "%s converting copy" % N, "bound %d" % d)
            s = el("s", t, 0)
            allacc(A.run(W("grow")).mem, arg("r"), [(vsub(l, s), vadd(h, s)) for l, h in rb], "grow(s)")
            r = A.run(W("inside"))
            g = 1
            for d in range(R):
                p = el("p", t, d)
                g = g_and(g, g_and(g_not(g_cmp("lt", p, rb[d][0], t == "i")), g_not(g_cmp("lt", rb[d][1], p, t == "i"))))
            chk.geq("inside", r.ret.g, g, N, "inside(p)")
            chk.ob("inside", not [e for e in r.events if e.kind == "store" and "alloca" not in show(e.args[0])], N, "inside has no effect")
    for R in range(2, 11):
        b = lambda m, r: [(A.num(A.run("w_glo%d" % R, {0: r, 1: V(d)}, m).ret), A.num(A.run("w_ghi%d" % R, {0: r, 1: V(d)}, m).ret)) for d in range(R)]
        o = b(Memory(), arg("r"))
        m = A.run("w_grow%d" % R).mem
        for d, (l, h) in enumerate(b(m, arg("r"))):
            x = VA("arg", "abcdefghij"[d], "i32")
            chk.eq("grow", l, vsub(o[d][0], x), "Range<int,%d>::grow" % R, "lower bound %d" % d)
            chk.eq("grow", h, vadd(o[d][1], x), "Range<int,%d>::grow" % R, "upper bound %d" % d)
    acc = lambda R, m, r, d: (A.num(A.run("w_i%d_lo" % R, {0: r, 1: V(d)}, m).ret), A.num(A.run("w_i%d_hi" % R, {0: r, 1: V(d)}, m).ret))
    for R, D in ((2, 1), (3, 1), (3, 2), (4, 3)):
        m = A.run("w_proj%d_%d" % (R, D)).mem
        for d in range(D):
            for k in (0, 1):
                chk.eq("project", acc(D, m, arg("o"), d)[k], acc(R, Memory(), arg("r"), d)[k], "Range<int,%d>::project<%d>" % (R, D), "bound %d" % d)
    for R in (2, 3, 4):
        for D in range(R):
            m = A.run("w_pdim%d_%d" % (R, D)).mem
            for d in range(R - 1):
                for k in (0, 1):
                    chk.eq("project", acc(R - 1, m, arg("o"), d)[k], acc(R, Memory(), arg("r"), d if d < D else d + 1)[k], "Range<int,%d>::projectDim(%d)" % (R, D), "bound %d" % d)
    chk.floor = 300
    return chk.finish()

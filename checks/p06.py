"""P06: array arithmetic."""
from engine.report import Check
from engine.val import *
from engine import ir
from engine.absint import Analyzer, Memory
from .gridlib import arg

RULE = ("Value-numbering dataflow over every Array operator (+ - * / unary, compound, expression assignment and construction) for every operand kind "
        "(array, expression, scalar; same and mixed element types; destination aliasing an operand), lengths 1-5, 7 and 10: the symbolic value "
        "left in each component equals the scalar operation on the corresponding operand components, nothing outside the array is written; "
        "comparisons are equivalent to the conjunction/disjunction over all components; sum, product, sqr, fill, clear, projections and constructors "
        "equal their definition.")
SZ = {"d": 8, "i": 4}
TAG = {"d": "d", "i": "i32"}
LENS = (1, 2, 3, 4, 5, 7, 10)


def run():
    chk = Check("P06", RULE)
    mod = ir.prepare("arrays.cpp")
    chk.module(mod)
    A = Analyzer(mod)

    def el(n, t, k):
        return V(Poly.atom(("mem", arg(n).single() + Poly.const(SZ[t] * k), None, TAG[t])))

    def opf(nm, t):
        if nm == "add":
            return vadd
        if nm == "sub":
            return vsub
        if nm == "mul":
            return vmul
        if t == "d":
            return vdiv
        return lambda a, b: V(1) if a == b else vfn("idiv", a, b)

    def dest(fn, o, t, R, want, what):
        r = A.run(fn)
        for k in range(R):
            chk.eq("element", r.mem.load(vadd(arg(o), V(SZ[t] * k)), SZ[t], TAG[t]), want(k), "Array<%s,%d> %s" % ("double" if t == "d" else "int", R, what), "component %d" % k)
        # no other object is written
        for e in r.events:
            if e.kind in ("store", "memcpy", "memset") and e.guard != 0:
                p = e.args[0].single()
                d = (p - arg(o).single()).const_val() if p is not None else None
                if p is not None and "alloca" in show(p):
                    continue
                chk.ob("frame", d is not None and 0 <= d < SZ[t] * R, fn, "only the destination's %d components are written (%s)" % (R, show(e.args[0])[:80]))
        return r

    for R in LENS:
        for t in "di":
            e = lambda n, k, t=t: el(n, t, k)
            s = lambda k, t=t: el("s", t, 0)
            ab = lambda k: vsub(e("a", k), e("b", k))
            cd = lambda k: vsub(e("c", k), e("d", k))
            for nm in ("add", "sub", "mul", "div"):
                f = opf(nm, t)
                W = lambda x: "w_%s%d_%s_%s" % (t, R, x, nm)
                dest(W("aa"), "o", t, R, lambda k: f(e("a", k), e("b", k)), "array %s array" % nm)
                dest(W("as"), "o", t, R, lambda k: f(e("a", k), s(k)), "array %s scalar" % nm)
                dest(W("sa"), "o", t, R, lambda k: f(s(k), e("a", k)), "scalar %s array" % nm)
                dest(W("ee"), "o", t, R, lambda k: f(ab(k), cd(k)), "expression %s expression" % nm)
                dest(W("ea"), "o", t, R, lambda k: f(ab(k), e("c", k)), "expression %s array" % nm)
                dest(W("ae"), "o", t, R, lambda k: f(e("c", k), ab(k)), "array %s expression" % nm)
                dest(W("es"), "o", t, R, lambda k: f(ab(k), s(k)), "expression %s scalar" % nm)
                dest(W("se"), "o", t, R, lambda k: f(s(k), ab(k)), "scalar %s expression" % nm)
                dest(W("al"), "a", t, R, lambda k: f(e("b", k), e("a", k)), "a = b %s a" % nm)
                dest(W("ca"), "a", t, R, lambda k: f(e("a", k), e("b", k)), "%s= array" % nm)
                dest(W("cs"), "a", t, R, lambda k: f(e("a", k), s(k)), "%s= scalar" % nm)
                dest(W("ce"), "a", t, R, lambda k: f(e("a", k), vsub(e("b", k), e("c", k))), "%s= expression" % nm)
                dest(W("cal"), "a", t, R, lambda k: f(e("a", k), e("a", k)), "a %s= a" % nm)
                dest(W("cel"), "a", t, R, lambda k: f(e("a", k), vsub(e("a", k), vmul(e("a", k), e("a", k)))), "a %s= a-a*a" % nm)
                for x in ("rca", "rcs"):
                    chk.eq("reference", A.num(A.run(W(x)).ret), arg("a"), W(x), "returns the array itself")
            W = lambda x: "w_%s%d_%s" % (t, R, x)
            dest(W("neg"), "o", t, R, lambda k: vneg(e("a", k)), "-array")
            dest(W("pos"), "o", t, R, lambda k: e("a", k), "+array")
            dest(W("nege"), "o", t, R, lambda k: vneg(ab(k)), "-expression")
            dest(W("pose"), "o", t, R, lambda k: ab(k), "+expression")
            dest(W("nest"), "o", t, R, lambda k: vsub(vmul(ab(k), s(k)), vsub(vmul(e("c", k), e("a", k)), vmul(e("b", k), s(k)))), "nested expression")
            dest(W("fill"), "a", t, R, s, "fill")
            chk.eq("reference", A.num(A.run(W("rfill")).ret), arg("a"), W("rfill"), "returns the array itself")
            dest(W("clear"), "a", t, R, lambda k: V(0), "clear")
            dest(W("zero"), "o", t, R, lambda k: V(0), "Zero")
            dest(W("ones"), "o", t, R, lambda k: V(1), "Ones")
            dest(W("one"), "o", t, R, s, "constructor from one value")
            for x in ("copy", "assign", "copyc", "assignc"):
                dest(W(x), "o", t, R, lambda k: e("a", k), x)
            su, pr, sq = V(0), V(1), V(0)
            eq, lt, le = 1, 1, 1
            isint = t == "i"
            for k in range(R):
                su, pr, sq = vadd(su, e("a", k)), vmul(pr, e("a", k)), vadd(sq, vmul(e("a", k), e("a", k)))
                eq = g_and(eq, g_cmp("eq", e("a", k), e("b", k), isint))
                lt = g_and(lt, g_cmp("lt", e("a", k), e("b", k), isint))
                le = g_and(le, g_not(g_cmp("lt", e("b", k), e("a", k), isint)))
            for x, v in (("sum", su), ("product", pr), ("sqr", sq)):
                chk.eq("reduce", A.num(A.run(W(x)).ret), v, W(x), x)
            for x, g in (("eq", eq), ("ne", g_not(eq)), ("lt", lt), ("le", le)):
                r = A.run(W(x)).ret
                chk.geq("compare", r.g if hasattr(r, "g") else v_to_guard(r), g, W(x), x)
        # mixed element types
        i = lambda n, k: el(n, "i", k)
        d = lambda n, k: el(n, "d", k)
        for nm in ("add", "sub", "mul", "div"):
            f = opf(nm, "d")
            W = lambda x: "w_x%d_%s_%s" % (R, x, nm)
            iab = lambda k: vsub(i("a", k), i("b", k))
            dab = lambda k: vsub(d("a", k), d("b", k))
            dcd = lambda k: vsub(d("c", k), d("d", k))
            for x, w, txt in (("ee", lambda k: f(iab(k), dcd(k)), "int expression %s double expression"),
                              ("ff", lambda k: f(dcd(k), iab(k)), "double expression %s int expression"),
                              ("ea", lambda k: f(iab(k), d("c", k)), "int expression %s double array"),
                              ("fa", lambda k: f(dab(k), i("c", k)), "double expression %s int array"),
                              ("ae", lambda k: f(d("c", k), iab(k)), "double array %s int expression"),
                              ("af", lambda k: f(i("c", k), dab(k)), "int array %s double expression"),
                              ("es", lambda k: f(dab(k), i("s", 0)), "double expression %s int"),
                              ("se", lambda k: f(i("s", 0), dab(k)), "int %s double expression"),
                              ("fs", lambda k: f(iab(k), d("s", 0)), "int expression %s double"),
                              ("sf", lambda k: f(d("s", 0), iab(k)), "double %s int expression")):
                dest(W(x), "o", "d", R, w, txt % nm)
            dest(W("ca"), "a", "d", R, lambda k: f(d("a", k), i("b", k)), "double %s= int array" % nm)
            dest(W("cs"), "a", "d", R, lambda k: f(d("a", k), i("s", 0)), "double %s= int" % nm)
            dest(W("ce"), "a", "d", R, lambda k: f(d("a", k), vsub(i("b", k), i("c", k))), "double %s= int expression" % nm)
        dest("w_x%d_conv" % R, "o", "d", R, lambda k: i("a", k), "= int array")
    for R, D in ((2, 1), (3, 1), (3, 2), (4, 3), (4, 1), (5, 3), (3, 3)):
        dest("w_proj%d_%d" % (R, D), "o", "i", D, lambda k: el("a", "i", k), "project<%d>" % D)
    for R in (2, 3, 4):
        for D in range(R):
            dest("w_pdim%d_%d" % (R, D), "o", "i", R - 1, lambda k: el("a", "i", k if k < D else k + 1), "projectDim(%d)" % D)
    for R in range(2, 11):
        dest("w_c%d" % R, "o", "d", R, lambda k: VA("arg", "abcdefghij"[k], "d"), "constructor from %d values" % R)
    chk.floor = 2000
    return chk.finish()

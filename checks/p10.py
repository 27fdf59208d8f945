"""P10: field geometry."""
from engine.report import Check
from engine.val import *
from engine import ir
from engine.absint import Analyzer, Memory
from .gridlib import arg

RULE = ("Value-numbering dataflow over every constructor, resize overload, copy and assignment of Field (ranks 1-4) and over its observers: stored range, inner range, "
        "domain, stagger; indexToPosition and both positionToIndex overloads are compared, as real-valued rational functions, with the affine map of the documented geometry "
        "and its floor-inverse.")


def half():
    return vdiv(V(1), V(2))


def unwrap(v, *names):
    """argument of nested functions names(...(x)); None if v is not of that form"""
    for n in names:
        out = []
        for g, p in v.cases:
            a = p.single_atom()
            k = atom_key(a) if a is not None else None
            if not k or k[0] != "fn" or k[1] != n:
                return None
            out.append((g, k[2][0]))
        v = Val(out)
    return v


def whole(v):
    """converting an already rounded number to an integer does not change it"""
    def fn(k):
        a = k[2][0].single_atom() if k[0] == "fn" and k[1] == "trunc" else None
        return V(Poly.atom(atom_key(a))) if a is not None and atom_key(a)[:2] in (("fn", "floor"), ("fn", "ceil")) else None
    return Subst(fn).val(v)


def run():
    chk = Check("P10", RULE, ["the storage policy keeps the range it is resized to (P01, P02)"])
    mod = ir.prepare("field.cpp")
    chk.module(mod)
    A = Analyzer(mod)
    for R in (1, 2, 3, 4):
        N = "Field<rank %d>" % R
        f = arg("f")

        def obs(op, mem, d, *more, f=f):
            a = {0: f, 1: V(d)}
            for i, x in enumerate(more):
                a[2 + i] = x
            return A.num(A.run("w_%s%d" % (op, R), a, mem).ret)

        def spec(mem, grp, where, ilo, ihi, dlo, dhi, st, g):
            """observers of field f in mem against inner range, domain, stagger, ghost width"""
            for d in range(R):
                for op, want in (("lo", vsub(ilo[d], g)), ("hi", vadd(ihi[d], g)), ("ilo", ilo[d]), ("ihi", ihi[d]), ("irlo", ilo[d]), ("irhi", ihi[d]),
                                 ("dlo", dlo[d]), ("dhi", dhi[d]), ("st", st[d]), ("stA", st[d])):
                    chk.eq(grp, obs(op, mem, d), want, where, "%s(%d)" % (op, d))
                n = vadd(vsub(ihi[d], ilo[d]), V(1))
                L = vsub(dhi[d], dlo[d])
                sh = vmul(half(), st[d])
                i, x = VA("arg", "i", "i32"), VA("arg", "x", "d")
                pos = vadd(dlo[d], vdiv(vmul(L, vadd(vsub(i, ilo[d]), sh)), n))
                chk.eq(grp, obs("itp", mem, d, i), pos, where, "indexToPosition(%d, i)" % d)
                real = vadd(vsub(vdiv(vmul(vsub(x, dlo[d]), n), L), sh), ilo[d])
                for op in ("pti", "pti2i"):
                    got = obs(op, mem, d, x)
                    u = unwrap(got, "trunc", "floor")
                    if chk.ob(grp, u is not None, where, "%s(%d, x) is an integer rounded down (%s)" % (op, d, show(got)[:120])):
                        chk.eq(grp, u, real, where, "%s(%d, x) before rounding" % (op, d))
                fl = obs("pti2i", mem, d, x)
                chk.eq(grp, whole(vadd(obs("pti2o", mem, d, x), fl)), real, where, "offset(%d) is the distance to the rounded index" % d)
        M = Memory()
        ld = lambda n, d: V(Poly.atom(("mem", arg(n).single() + Poly.const(4 * d), None, "i32")))
        A2 = lambda op, a, d: A.num(A.run("w_%s%d" % (op, R), {0: arg(a), 1: V(d)}, M).ret)
        dlo = [A2("domlo", "dom", d) for d in range(R)]
        dhi = [A2("domhi", "dom", d) for d in range(R)]
        st = [A2("stArg", "st", d) for d in range(R)]
        gc = VA("arg", "gc", "i32")
        B = {"S": ([V(0)] * R, [vsub(ld("size", d), V(1)) for d in range(R)]),
             "L": ([ld("lo", d) for d in range(R)], [ld("hi", d) for d in range(R)]),
             "R": ([A2("rlo", "r", d) for d in range(R)], [A2("rhi", "r", d) for d in range(R)])}
        for k, (lo, hi) in B.items():
            for op in ("ctor", "resize"):
                r = A.run("w_%s%s%d" % (op, k, R))
                spec(r.mem, op, "%s %s(%s)" % (N, op, {"S": "size", "L": "low, high", "R": "range"}[k]), lo, hi, dlo, dhi, st, gc)
        # copies
        o = arg("o")
        g = lambda op, d: obs(op, M, d, f=o)
        for op in ("copy", "assign"):
            r = A.run("w_%s%d" % (op, R))
            lo0 = [g("lo", d) for d in range(R)]
            gcv = vsub(g("ilo", 0), lo0[0])
            spec(r.mem, op, "%s %s" % (N, op), [g("ilo", d) for d in range(R)], [g("ihi", d) for d in range(R)],
                 [g("dlo", d) for d in range(R)], [g("dhi", d) for d in range(R)], [g("st", d) for d in range(R)], gcv)
    chk.floor = 500
    return chk.finish()

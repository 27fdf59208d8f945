"""P08: range iteration."""
from engine.report import Check
from engine.val import *
from engine import ir
from engine.absint import Analyzer, Memory
from engine.loops import covers, nonempty
from .gridlib import arg

RULE = ("Value-numbering dataflow over Range::iterator (ranks 1-4): begin is the lower corner and not at end, end compares equal only to the state reached by "
        "incrementing the upper corner, and for every position inside the range the increment yields the lexicographic successor with the last dimension fastest. "
        "By induction over the loop equations, the loops a user writes (prefix/postfix increment, range-for) visit each point of the range exactly once, in that order.")


def run():
    chk = Check("P08", RULE)
    mod = ir.prepare("ranges.cpp")
    chk.module(mod)
    A = Analyzer(mod)
    el = lambda n, k: V(Poly.atom(("mem", arg(n).single() + Poly.const(4 * k), None, "i32")))
    for R in (1, 2, 3, 4):
        W = lambda x: "w_it%d_%s" % (R, x)
        N = "Range<int,%d>::iterator" % R
        num = lambda f, i, m, d: A.num(A.run(W(f), {0: i, 1: V(d)}, m).ret)

        def state(m, i, f="pos"):
            e = A.run(W("atEnd"), {0: i}, m).ret
            return [num(f, i, m, d) for d in range(R)], (e.g if hasattr(e, "g") else v_to_guard(e)), [(num("dlo", i, m, d), num("dhi", i, m, d)) for d in range(R)]

        def cmp(f, m, i, j):
            e = A.run(W(f), {0: i, 1: j}, m).ret
            return e.g if hasattr(e, "g") else v_to_guard(e)
        M = Memory()
        rl = [A.num(A.run("w_i%d_lo" % R, {0: arg("r"), 1: V(d)}, M).ret) for d in range(R)]
        rh = [A.num(A.run("w_i%d_hi" % R, {0: arg("r"), 1: V(d)}, M).ret) for d in range(R)]
        mb = A.run(W("begin")).mem
        p, e, dm = state(mb, arg("o"))
        chk.ob("begin", e == 0, N, "begin() is not at the end")
        for d in range(R):
            chk.eq("begin", p[d], rl[d], N, "begin() coordinate %d" % d)
            chk.eq("begin", dm[d][0], rl[d], N, "iterates its own range")
            chk.eq("begin", dm[d][1], rh[d], N, "iterates its own range")
        # copies
        p0, e0, dm0 = state(M, arg("i"))
        g0, _, _ = state(M, arg("i"), "getpos")
        mc = A.run(W("copy")).mem
        for f in ("pos", "getpos"):
            pc, ec, dc = state(mc, arg("o"), f)
            for d in range(R):
                chk.eq("copy", pc[d], p0[d], N, "copy: coordinate %d" % d)
                chk.eq("copy", dc[d][0], dm0[d][0], N, "copy: range")
                chk.eq("copy", dc[d][1], dm0[d][1], N, "copy: range")
            chk.geq("copy", ec, e0, N, "copy: end flag")
        # increment from any position inside a range
        ax = []
        for d in range(R):
            ax += [(dm0[d][0].single() - p0[d].single(), False), (p0[d].single() - dm0[d][1].single(), False)]
        succ = [None] * R
        carry = 1
        for d in range(R - 1, -1, -1):
            last = g_cmp("eq", p0[d], dm0[d][1])
            succ[d] = vguard(carry, vguard(last, dm0[d][0], vadd(p0[d], V(1))), p0[d])
            carry = g_and(carry, last)
        for f, i in (("inc", "i"), ("post", "i")):
            r = A.run(W(f))
            p1, e1, d1 = state(r.mem, arg("i"))
            for d in range(R):
                chk.eq("successor", p1[d], succ[d], N, "%s: coordinate %d" % (f, d), g_and(g_not(carry), g_not(e0)), ax)
                chk.eq("successor", d1[d][0], dm0[d][0], N, "%s: range unchanged" % f)
            if f == "post":
                po, eo, do = state(r.mem, arg("o"))
                for d in range(R):
                    chk.eq("successor", po[d], p0[d], N, "postfix increment returns the old position (%d)" % d)
                chk.geq("successor", eo, e0, N, "postfix increment returns the old state")
            # the state after the upper corner equals end(), no earlier state does
            er = A.run(W("end"), {0: arg("E"), 1: arg("r")}, r.mem)
            m2 = er.mem
            # identify the range of the iterator with r
            eqv = cmp("eq", m2, arg("i"), arg("E"))
            same = []
            for d in range(R):
                for k, x in ((0, rl[d]), (1, rh[d])):
                    q = dm0[d][k].single() - x.single()
                    same += [(q, False), (-q, False)]
            chk.ob("end", g_equiv(g_and(eqv, g_not(e0)), g_and(carry, g_not(e0)), ax + same), N, "%s: the end is reached exactly after the upper corner (%s)" % (f, show_guard(eqv)[:200]))
            chk.ob("end", g_equiv(cmp("ne", m2, arg("i"), arg("E")), g_not(eqv)), N, "!= is the negation of ==")
        # equality compares the end flag and every coordinate
        q0, f0, _ = state(M, arg("j"))
        want = g_not(ite(e0, g_not(f0), f0))
        for d in range(R):
            want = g_and(want, g_cmp("eq", p0[d], q0[d]))
        chk.geq("equality", cmp("eq", M, arg("i"), arg("j")), want, N, "==")
        chk.eq("successor", A.num(A.run(W("rinc")).ret), arg("i"), N, "prefix increment returns the iterator")
        # whole loops
        dims = [(el("lo", d), el("hi", d)) for d in range(R)]
        for f in ("loop", "ploop", "rloop"):
            visit(chk, A, "w_%s%d" % (f, R), dims, "C", "iteration of Range<int,%d> (%s)" % (R, {"loop": "begin/end, ++i", "ploop": "i++", "rloop": "range for"}[f]), nonempty(dims))
    chk.floor = 100
    return chk.finish()


def visit(chk, A, fn, dims, order, where, extra=()):
    R = len(dims)
    r = A.run(fn)
    evs = [e for e in r.events if e.kind == "call" and e.name == "sink"]
    if not chk.ob("visit", len(evs) == 1, where, "one call of the functor in the loop (found %d)" % len(evs)):
        return
    ev = evs[0]
    cs, why = covers(A, r, ev, dims, order, 1, extra)
    if not chk.ob("visit", bool(cs), where, "every point of the closed range exactly once, no other, %s order: %s" % ({"C": "last index fastest", "F": "first index fastest", "any": "any"}[order], why or "proved by induction")):
        return
    from engine.loops import idx
    best = None
    for c in cs:
        bad = [d for d in range(R) if not v_equal(c.at(ev.args[d]), idx(d), 1, c.axioms)]
        if best is None or len(bad) < len(best[0]):
            best = (bad, c)
    for d in range(R):
        chk.ob("visit", d not in best[0], where, "coordinate %d passed to the functor is the visited point's (%s)" % (d, show(best[1].at(ev.args[d]))[:100]))

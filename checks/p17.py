"""P17: sub-grids are windows onto their base grid."""
from engine.report import Check
from engine.val import *
from engine import ir
from engine.absint import Analyzer, Memory
from engine.loops import covers, nonempty, idx, strip_versions
from .gridlib import arg
from .p05 import local
from .p11 import corner

RULE = ("Value-numbering dataflow over SubGrid (ranks 1-3; every constructor, resize, copy, and the sub-grids returned by Boundary::getGhostBoundary): bounds and dimensions "
        "are the requested ones, every element access returns the base grid's element at the same index, and by induction over the loop equations iteration and assignment "
        "touch each element of the window exactly once and nothing else.")


def run():
    chk = Check("P17", RULE)
    mod = ir.prepare("boundary.cpp")
    chk.module(mod)
    A = Analyzer(mod)
    for R in (1, 2, 3):
        N = "SubGrid<rank %d>" % R
        s = arg("s")
        q = lambda f, m, *a: A.num(A.run("w_%s%d" % (f, R), dict(enumerate(a)), m).ret)
        ld = lambda n, d: V(Poly.atom(("mem", arg(n).single() + Poly.const(4 * d), None, "i32")))

        def spec(m, where, lo, hi, base, at="at"):
            for d in range(R):
                for f, want in (("slo", lo[d]), ("shi", hi[d]), ("sloA", lo[d]), ("shiA", hi[d]), ("sdim", vadd(vsub(hi[d], lo[d]), V(1))), ("sdimA", vadd(vsub(hi[d], lo[d]), V(1)))):
                    chk.eq("bounds", q(f, m, s, V(d)), want, where, "%s(%d)" % (f, d))
            want = q("gat", m, base, arg("i"))
            for f in ("sat", "scat"):
                chk.eq("element", q(f, m, s, arg("i")), want, where, "element access (%s) is the base grid's element with the same index" % f)
        M = Memory()
        L = [ld("lo", d) for d in range(R)]
        H = [ld("hi", d) for d in range(R)]
        rl = [q("rlo", M, arg("r"), V(d)) for d in range(R)]
        rh = [q("rhi", M, arg("r"), V(d)) for d in range(R)]
        for op, lo, hi in (("sctor", L, H), ("sctorR", rl, rh), ("sctorS", [V(0)] * R, [vsub(ld("size", d), V(1)) for d in range(R)])):
            m = A.run("w_%s%d" % (op, R)).mem
            spec(m, "%s constructor %s" % (N, op), lo, hi, arg("g"))
        # resize keeps the base grid
        m0 = A.run("w_sctor%d" % R, {1: arg("l0"), 2: arg("h0")}).mem
        spec(A.run("w_sresize%d" % R, {}, m0).mem, N + " resize", L, H, arg("g"))
        m0 = A.run("w_sctor%d" % R, {0: arg("o")}).mem
        spec(A.run("w_scopy%d" % R, {}, m0).mem, N + " copy", L, H, arg("g"))
        # ghost sub-grids
        b = arg("b")
        bl = [q("lo", M, b, V(d)) for d in range(R)]
        bh = [q("hi", M, b, V(d)) for d in range(R)]
        dl = q("delta", M, b)
        for dim in range(R):
            for e in (0, 1):
                m = A.run("w_sghost%d" % R, {2: V(dim), 3: V(e)}).mem
                lo = [q("ghostlo", M, b, V(d), V(dim), V(e)) for d in range(R)]
                hi = [q("ghosthi", M, b, V(d), V(dim), V(e)) for d in range(R)]
                spec(m, "%s from getGhostBoundary(%d,%s)" % (N, dim, ("Min", "Max")[e]), lo, hi, arg("g"))
                m = A.run("w_fghost%d" % R, {2: V(dim), 3: V(e)}).mem
                st = q("fst", M, arg("g"), V(dim))
                for d in range(R):
                    w0 = corner(bl, bh, dl, "bnd", d, dim, e, 0)
                    w1 = corner(bl, bh, dl, "bnd", d, dim, e, 1)
                    pick = lambda k: vguard(g_cmp("eq", st, V(1)), w1[k], w0[k])
                    W = "SubGrid<Field, rank %d> from getGhostBoundary(%d,%s)" % (R, dim, ("Min", "Max")[e])
                    chk.eq("bounds", q("fslo", m, s, V(d)), pick(0), W, "lo(%d) follows the field's stagger" % d)
                    chk.eq("bounds", q("fshi", m, s, V(d)), pick(1), W, "hi(%d) follows the field's stagger" % d)
                chk.eq("element", q("fsat", m, s, arg("i")), q("fat", m, arg("g"), arg("i")), "SubGrid<Field, rank %d>" % R, "element access")
        for f in ("sit", "scit"):
            chk.eq("window", vadd(q(f + "Eq", M), q(f + "Ne", M)), V(1), "%s iterator" % N, "== is the opposite of != (%s)" % f)
        # iteration and assignment
        m0 = A.run("w_sctor%d" % R).mem
        dims = [(L[d], H[d]) for d in range(R)]
        mi = m0.copy()
        for d in range(R):
            mi.store(vadd(arg("I"), V(4 * d)), 4, idx(d), ("w", d))
        elem = q("gat", mi, arg("g"), arg("I"))
        for f, nm in (("sloop", "sinkp"), ("scloop", "sinkcp"), ("sset", None)):
            r = A.run("w_%s%d" % (f, R), {}, m0.copy())
            W = "%s %s" % (N, {"sloop": "iteration", "scloop": "const iteration", "sset": "operator=(value)"}[f])
            evs = [e for e in r.events if (e.kind == "call" and e.name == nm) or (nm is None and e.kind == "store" and not local(e))]
            if not chk.ob("window", len(evs) == 1 and evs[0].loops, W, "one access, inside a loop (found %d)" % len(evs)):
                continue
            ev = evs[0]
            cs, why = covers(A, r, ev, dims, "any", 1, nonempty(dims))
            if not chk.ob("window", bool(cs), W, "each point of the window exactly once: %s" % (why or "proved by induction")):
                continue
            ok = [c for c in cs if v_equal(strip_versions(c.at(ev.args[0])), strip_versions(elem), 1, c.axioms)]
            chk.ob("window", bool(ok), W, "the accessed element is the base grid's at that point (%s)" % show(cs[0].at(ev.args[0]))[:200])
            if nm is None and ok:
                chk.eq("window", strip_versions(ok[0].at(ev.args[1])), V(Poly.atom(("mem", arg("v").single(), None, "d"))), W, "the stored value")
    chk.floor = 200
    return chk.finish()

"""P05: whole-grid assignment and compound assignment."""
from engine.report import Check
from engine.val import *
from engine import ir
from engine.absint import Analyzer, Memory, base_of
from engine.loops import covers, nonempty, idx, strip_versions
from .gridlib import arg, WHAT

RULE = ("Induction over the loop equations of Grid::operator=(value), operator+= and operator-= (same and mixed storage; C order, Fortran order, lazy; ranks 1-4): "
        "the loop stores exactly once to every element of the destination and to nothing else; the stored value is the assigned value, or the element's previous value "
        "plus/minus the source grid's element with the same index.")
ES = {"c1": 8, "c2": 8, "c3": 4, "c4": 8, "f1": 8, "f2": 8, "f3": 4, "l1": 8, "l2": 8, "l3": 4, "d1": 8, "d2": 8, "d3": 4}


def local(e):
    """the event writes a local variable (one of several, perhaps)"""
    for p in {p for _, p in e.args[0].cases}:
        b = base_of(p)[0]
        if b is None or b.single_atom() is None or atom_key(b.single_atom())[0] != "alloca":
            return False
    return True


def run():
    chk = Check("P05", RULE, ["the operands of += and -= have the same range (documented requirement)"])
    mod = ir.prepare("grid_ops.cpp")
    chk.module(mod)
    A = Analyzer(mod)
    T = lambda n: "f" if ES[n] == 4 else "d"

    def at(n, g, R):
        m = Memory()
        for d in range(R):
            m.store(vadd(arg("I"), V(4 * d)), 4, idx(d), ("w", d))
        return A.num(A.run("w_%s_at" % n, {0: arg(g), 1: arg("I")}, m).ret)

    def lohi(n, g, R):
        q = lambda f, d: A.num(A.run("w_%s_%s" % (n, f), {0: arg(g), 1: V(d)}).ret)
        return [(q("lo", d), q("hi", d)) for d in range(R)]

    def num(n, f, g):
        return A.num(A.run("w_%s_%s" % (n, f), {0: arg(g)}).ret)

    def readings(r, ev, n, o, R):
        """possible readings of the loop: (cover, destination address, source address)"""
        why = []
        if o is None or o[0] == n[0]:
            for g in ("g",) + (("o",) if o else ()):
                dims = [(V(0), vsub(num(n, "size", g), V(1)))]
                cs, w = covers(A, r, ev, dims, "any", 1, [(-num(n, "size", g).single(), False)])
                why.append(w)
                lin = lambda q: vadd(num(n, "begin", q), vmul(V(ES[n]), idx(0)))
                for c in cs:
                    yield c, lin("g"), lin("o") if o else None, why
        for nn, g in ((n, "g"),) + (((o, "o"),) if o else ()):
            dims = lohi(nn, g, R)
            cs, w = covers(A, r, ev, dims, "any", 1, nonempty(dims))
            why.append(w)
            for c in cs:
                yield c, at(n, "g", R), at(o, "o", R) if o else None, why
        yield None, None, None, why

    def elementwise(fn, n, o, what, where):
        R = int(n[1])
        r = A.run(fn)
        evs = [e for e in r.events if e.kind == "store" and not local(e)]
        if not chk.ob(what, len(evs) == 1 and evs[0].loops, where, "one store statement, inside a loop (found %d)" % len(evs)):
            return
        ev = evs[0]
        if not chk.ob(what, ev.size == ES[n], where, "stores whole elements (%d bytes)" % ev.size):
            return
        best = None
        for c, ga, oa, why in readings(r, ev, n, o, R):
            if c is None:
                break
            da = v_diff(c.at(ev.args[0]), ga, 1, c.axioms)
            load = lambda a: V(Poly.atom(("mem", a.single(), None, T(n))))
            val = strip_versions(c.at(ev.args[1]))
            if what == "set":
                want = V(Poly.atom(("mem", arg("v").single(), None, T(n))))
            else:
                want = (vadd if what == "add" else vsub)(load(ga), load(oa))
            dv = v_diff(val, want, 1, c.axioms)
            bad = [(q, d) for q, d in (("address", da), ("value", dv)) if d is not None]
            if best is None or len(bad) < len(best):
                best = bad
            if not bad:
                break
        if best is None:
            chk.ob(what, False, where, "the loop visits every element exactly once: " + "; ".join(w for w in why if w)[:400])
        elif best:
            for q, d in best:
                chk.ob(what, False, where, "stored %s: computed %s, required %s" % (q, show(d[0])[:200], show(d[1])[:200]))
        else:
            chk.ob(what, True, where, "every element visited once")
            chk.ob(what, True, where, "address is the element's")
            chk.ob(what, True, where, "value is as specified")

    for n in ES:
        N = "Grid<rank %s, %s>" % (n[1], WHAT[n[0]]) if n[0] != "d" else "Field<rank %s>" % n[1]
        elementwise("w_%s_set" % n, n, None, "set", N + "::operator=(value)")
        chk.eq("set", A.num(A.run("w_%s_rset" % n).ret), arg("g"), N, "operator= returns the grid")
        for f in ("add", "sub"):
            elementwise("w_%s_%s" % (n, f), n, n, f, "%s::operator%s= (same storage)" % (N, "+" if f == "add" else "-"))
    for a, b in ("c1 f1,c2 f2,c3 f3,f1 c1,f2 c2,f3 c3,c2 l2,l2 c2,f2 l2,l3 f3".split(",")[i].split() for i in range(10)):
        for f in ("add", "sub"):
            elementwise("w_%s_%s_%s" % (a, b, f), a, b, f, "Grid<rank %s>::operator%s= (%s, %s)" % (a[1], "+" if f == "add" else "-", WHAT[a[0]], WHAT[b[0]]))
    chk.floor = 130
    return chk.finish()

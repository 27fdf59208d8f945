"""P01: address map of the single-array grid storages."""
import re
from engine.report import Check
from engine.val import *
from engine import absint, fnmodel
from engine.absint import Memory, base_of
from . import gridlib as gl
from .gridlib import arg, V

RULE = ("For every storage class x rank 1..4 and every constructor/resize overload, a gated value-numbering dataflow over the "
        "compiled witness derives the polynomial each observer (bounds, dims, size, raw/begin/end, stride, element address const and "
        "non-const) computes after the operation, through the registered update callbacks; each must equal the specified polynomial "
        "(row-major / column-major), the new[] operand must equal element size x product of dims (lazy: at least that, and reallocated "
        "whenever the kept buffer is smaller), and no 32-bit product may feed an address or size.")


def run():
    chk = Check("P01", RULE, ["grids registered for updates are those shown by P02"])
    mod = gl.prepare()
    chk.module(mod)
    for cls in gl.CLASSES:
        S = gl.Store(mod, cls)
        for op in ("ctor", "ctorS", "ctorR", "resize", "resizeS", "resizeR", "resizeG"):
            one(chk, S, op)
        widths(chk, S)
    chk.floor = 2500
    return chk.finish()


def one(chk, S, op):
    g = arg("g")
    mem0 = Memory()
    if op.startswith("resize"):
        S.grid_invariant(g, mem0)
    lo, hi = S.bounds(op, mem0)
    m, ev, r = gl.notified(chk, S, op, g, mem0, "notify")
    if m is None:
        return
    where = "%s::%s" % (S.where, op)
    if op.startswith("resize"):
        base = S.creation("ctor0")
        fn = list(S.slots(base.mem, g.single()).values())
        chk.ob("registered", len(fn) == 1 and fnmodel.fnobj_of(fn[0]) is not None, where, "the constructor registers the grid's updater")
    else:
        fn = list(S.slots(m, g.single()).values())
        chk.ob("registered", len(fn) == 1 and fnmodel.fnobj_of(fn[0]) is not None, where, "the updater is registered before the notification")
    if len(fn) != 1 or fnmodel.fnobj_of(fn[0]) is None:
        return
    h = gl.fire(S, ev, fn[0], m, "cb")
    mem = gl.later_stores(r, ev, h.mem)
    n = gl.prod(gl.dims_of(lo, hi))
    news = gl.heap_new(r)
    if not chk.ob("allocation", len(news) == 1, where, "one array allocation per operation (found %d)" % len(news)):
        return
    nw = news[0]
    ptr = S.acc("raw", g, mem)
    if not S.lazy:
        chk.eq("allocation", nw.args[0], vmul(V(S.es), n), where, "bytes allocated")
        chk.geq("allocation", nw.guard, 1, where, "the buffer is replaced")
        chk.eq("allocation", ptr, nw.res, where, "the grid uses the new buffer")
        gl.accessors(chk, S, g, mem, lo, hi, ptr, "observer", where)
    else:
        lazy(chk, S, op, g, r, mem0, mem, lo, hi, n, nw, where)


def lazy(chk, S, op, g, r, mem0, mem, lo, hi, n, nw, where):
    ptr = S.acc("raw", g, mem)
    G = nw.guard
    # capacity field: a member that after the operation holds (bytes allocated)/(element size) whenever it reallocates
    cap = None
    G0 = g.single()
    for p, (sz, v) in mem.cells.items():
        d = (p - G0).const_val()
        if d is None or sz != 8:
            continue
        if v_diff(vmul(v, V(S.es)), nw.args[0], G) is None:
            old = mem0.load(V(p), 8, "i64") if op.startswith("resize") else V(0)
            if v_diff(v, old, g_not(G)) is None:
                cap = (p, old)
    if not chk.ob("lazy-capacity", cap is not None, where, "the grid records the capacity of its buffer: set to the allocated length when it reallocates, kept otherwise"):
        return
    room = g_cmp("lt", cap[1], n, True)
    chk.ob("lazy-capacity", g_implies(room, G), where, "a buffer shorter than the requested size is always replaced (reallocation condition: %s)" % show_guard(G)[:200])
    # the new capacity has room for n elements: capacity - n is a non-negative term
    ok = True
    for gg, p in vsub(nw.args[0], vmul(V(S.es), n)).cases:
        c = g_and(g_and(gg, G), g_cmp("lt", V(p), V(0), True))
        ax = []
        for q in [p] + [atom_key(v)[1] for v in g_support(c) if atom_key(v)[0] in ("lt", "eq")]:
            for a in q.atoms():
                k = atom_key(a)
                if k[0] == "fn" and k[1] in ("trunc", "sqrt"):
                    ax.append((-Poly.atom(k), False))     # square roots and their truncations are >= 0
        if g_feasible(c, ax):
            ok = False
            bad = p
    chk.ob("lazy-capacity", ok, where, "the allocated buffer has room for all elements" + ("" if ok else ": spare room %s" % show(bad)[:200]))
    chk.eq("allocation", ptr, nw.res, where, "after reallocation the grid uses the new buffer", G)
    gl.accessors(chk, S, g, mem, lo, hi, ptr, "observer", where)


def widths(chk, S):
    """32-bit products of run-time values in the address and size computations"""
    names = ["w_%s_%s" % (S.N, o) for o in ("at", "cat", "resize", "ctor", "end", "cend", "size")] + ["w_%s_stride%d" % (S.N, d) for d in range(S.R)]
    base = S.creation("ctor0")
    for p, (sz, v) in base.mem.cells.items():
        k = fnmodel.fnobj_of(v)
        if k and k[1] not in names:
            names.append(k[1])
    for nme in names:
        f = S.mod.funcs.get(nme)
        bad = None
        for b, il in f.blocks.items():
            for ins in il:
                if ins.op == "mul" and ins.ty == ("int", 32) and not any(o[0] == "c" for o in ins.ops):
                    bad = ins
        chk.ob("width", bad is None, "%s %s" % (S.where, nme), "sizes and positions are multiplied in 64 bit" + ("" if bad is None else " (32-bit product at %s)" % S.mod.dbg.where(bad.dbg)))

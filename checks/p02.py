"""P02: coherence of grids sharing one buffer."""
from engine.report import Check
from engine.val import *
from engine import fnmodel
from engine.absint import Memory, base_of
from . import gridlib as gl
from .gridlib import arg, V

RULE = ("For every single-array storage class and rank: (a) after copy construction and assignment every observer of the copy computes the same "
        "polynomial as the same observer of the source; (b) after every way of creating or re-pointing a grid, the registry of the data it "
        "shares maps the grid to an updater, and running that updater at the notification point of a resize of another sharing grid yields "
        "the specified bounds, size, buffer and element addresses; updaters write only the grid they belong to; (c) destruction and "
        "re-pointing remove the grid from the registry of the old data on every path, also when both already share; (d) the resize walks the "
        "whole registry of its own data.")
OBS = ["size", "raw", "begin", "end", "cbegin", "cend"]
OBSD = ["lo", "hi", "dim", "loA", "hiA", "dimA", "rlo", "rhi"]


def run():
    chk = Check("P02", RULE)
    mod = gl.prepare()
    chk.module(mod)
    for cls in gl.CLASSES:
        S = gl.Store(mod, cls)
        same(chk, S, "copy")
        same(chk, S, "assign")
        for route in S.routes():
            follows(chk, S, route)
        leaves(chk, S)
    chk.floor = 2000
    return chk.finish()


def observe(S, s, mem):
    out = {}
    for o in OBS:
        out[o] = S.acc(o, s, mem)
    for o in OBSD:
        for d in range(S.R):
            out[(o, d)] = S.acc(o, s, mem, V(d))
    for d in range(S.R):
        out[("stride", d)] = S.acc("stride%d" % d, s, mem)
    for o in ("at", "cat"):
        out[o] = S.A.num(S.run(o, {0: s, 1: arg("i")}, mem).ret)
    return out


def same(chk, S, route):
    g, o = arg("g"), arg("o")
    where = "%s %s" % (S.where, "copy constructor" if route == "copy" else "assignment")
    mem0 = Memory()
    if route == "assign":
        S.grid_invariant(g, mem0, True)
    before = observe(S, o, mem0)
    r = S.run(route, {0: g, 1: o}, mem0)
    a, b = observe(S, g, r.mem), observe(S, o, r.mem)
    for k in a:
        chk.eq("copy-observer", a[k], before[k], where, "%s of the copy" % (k,))
        chk.eq("source-unchanged", b[k], before[k], where, "%s of the source" % (k,))
    # hidden state used by a later resize of the copy must be the source's too: lazily kept capacity
    if S.lazy:
        rb = S.run("resize", {0: g}, r.mem.copy(), "x")
        m2 = mem0.copy()
        rs = S.run("resize", {0: o}, m2, "x")
        n1, n2 = gl.heap_new(rb), gl.heap_new(rs)
        chk.ob("lazy-state", len(n1) == 1 and len(n2) == 1 and g_equiv(n1[0].guard, n2[0].guard) and v_diff(n1[0].args[0], n2[0].args[0], n1[0].guard) is None,
               where, "a resize of the copy reallocates under the same condition and to the same length as a resize of the source")


def follows(chk, S, route):
    g, o2 = arg("g"), arg("o2")
    where = "%s created by %s" % (S.where, route)
    mem0 = Memory()
    if route == "assign":
        S.grid_invariant(g, mem0, True)
    r = S.run(route, {0: g}, mem0, "n")
    D = r.mem.load(g, 8, "p")
    mem = r.mem.copy()
    reg = S.slots(mem, g.single())
    live = {m: v for m, v in reg.items() if v.const() != 0}
    if not chk.ob("registered", len(live) == 1 and fnmodel.fnobj_of(list(live.values())[0]) is not None, where,
                  "the grid is registered exactly once (found %d)" % len(live)):
        return
    mp, fn = list(live.items())[0]
    k = fnmodel.fnobj_of(fn)
    chk.ob("registered", k[2][0] == g, where, "the registered updater is the grid's own")
    off = (mp - D.single()).const_val() if D.single() is not None else None
    chk.ob("registered", off is not None, where, "the registry belongs to the data the grid shares after the operation")
    # another grid o2 sharing D is resized
    S.grid_invariant(o2, mem)
    mem.store(o2, 8, D, ("x",))
    lo = [mem.load(vadd(arg("lor"), V(4 * d)), 4, "i32") for d in range(S.R)]
    hi = [mem.load(vadd(arg("hir"), V(4 * d)), 4, "i32") for d in range(S.R)]
    m, ev, rr = gl.notified(chk, S, "resize", o2, mem, "notify", "r")
    if m is None:
        return
    # the registry that is walked is the one of D
    L = rr.loops[ev.loops[-1]]
    beg = [e for e in rr.events if e.kind == "call" and gl.method_name(e.dname) in ("begin", "end") and "std::map" in e.dname]
    chk.ob("notify", len(beg) >= 2 and all(e.args[0] == V(mp) for e in beg), where, "the resize walks the registry the grid is entered in, from begin to end (%s)" % [show(e.args[0])[:60] for e in beg])
    D2 = m.load(o2, 8, "p")
    h = gl.fire(S, ev, fn, m, "cb")
    for e in h.events:
        if e.kind != "store":
            continue
        p = e.args[0].single()
        b = base_of(p)[0] if p is not None else None
        if b is not None and atom_key(b.single_atom())[0] == "alloca":
            continue
        chk.ob("updater-effects", b == g.single(), where, "the updater writes only its own grid (writes %s)" % show(e.args[0])[:100])
    ptr = S.acc("raw", o2, m)
    fin = gl.later_stores(rr, ev, h.mem)
    gl.accessors(chk, S, g, fin, lo, hi, ptr, "follows-resize", where)
    if S.lazy:
        # the capacity of the shared buffer that decides about later reallocations
        nw = gl.heap_new(rr)
        O0 = o2.single()
        caps = []
        for p, (sz, v) in m.cells.items():
            d = (p - O0).const_val()
            if d is not None and sz == 8 and len(nw) == 1 and v_diff(vmul(v, V(S.es)), nw[0].args[0], nw[0].guard) is None:
                caps.append((d, v))
        ok = any(v_equal(fin.load(vadd(g, V(d)), 8, "i64"), v) for d, v in caps)
        chk.ob("follows-resize", ok, where, "the capacity recorded by the sharing grid is that of the new buffer")
    if route == "assign":
        self_share(chk, S)


def self_share(chk, S):
    """assignment between two grids that already share the data keeps the registration"""
    g, o = arg("g"), arg("o")
    where = "%s assignment between grids that already share" % S.where
    mem = Memory()
    D = VA("arg", "shared", "p")
    mem.store(g, 8, D, ("x",))
    mem.store(o, 8, D, ("x",))
    S.grid_invariant(g, mem, True)
    r = S.run("assign", {0: g, 1: o}, mem, "s")
    live = [v for v in S.slots(r.mem, g.single()).values() if v.const() != 0]
    chk.ob("registered", len(live) == 1 and fnmodel.fnobj_of(live[0]) is not None, where, "the grid stays registered")
    mem = Memory()
    S.grid_invariant(g, mem, True)
    r = S.run("assign", {0: g, 1: g}, mem, "t")
    live = [v for v in S.slots(r.mem, g.single()).values() if v.const() != 0]
    chk.ob("registered", len(live) == 1 and fnmodel.fnobj_of(live[0]) is not None, "%s self assignment" % S.where, "the grid stays registered")


def leaves(chk, S):
    g = arg("g")
    for op in ("dtor", "assign"):
        mem = Memory()
        S.grid_invariant(g, mem)
        D = mem.load(g, 8, "p").single()
        # where is the registry relative to the shared data?
        off = S.registry_offset()
        if off is None:
            chk.ob("deregistered", False, "%s %s" % (S.where, op), "no registry found")
            continue
        sl = fnmodel.slot(D + off, g.single())
        mem.cells[sl] = (8, fnmodel.fnobj("old", [g]))
        r = S.run(op, {0: g}, mem, "d")
        v = r.mem.cells.get(sl)
        chk.ob("deregistered", v is not None and v[1].const() == 0, "%s %s" % (S.where, "destructor" if op == "dtor" else "assignment"),
               "the grid is removed from the registry of the data it shared before, on every path (%s)" % (show(v[1])[:80] if v else "gone"))

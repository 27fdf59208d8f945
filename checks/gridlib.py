"""Shared by P01-P03: classes under analysis, resize scenario, accessor specification."""
import re
from engine import ir, absint, fnmodel
from engine.val import *
from engine.absint import Memory, dem, method_name, base_of
from engine.ir import ToolError

KEEP = r"_ZNSt17_Function_handler.*9_M_invoke|_ZNSt15_Sp_counted_ptrIP.*_M_disposeEv"
CLASSES = [("c1", 1, "C", 8), ("c2", 2, "C", 8), ("c3", 3, "C", 12), ("c4", 4, "C", 8),
           ("f1", 1, "F", 8), ("f2", 2, "F", 8), ("f3", 3, "F", 12), ("f4", 4, "F", 8),
           ("l1", 1, "C", 8), ("l2", 2, "C", 8), ("l3", 3, "C", 12)]
WHAT = {"c": "SingleArrayGridStorage", "f": "SingleArrayGridStorageFortran", "l": "LazyArrayGridStorage"}


def arg(n):
    return VA("arg", n, "p")


class Store:
    def __init__(self, mod, cls):
        self.mod = mod
        self.N, self.R, self.order, self.es = cls
        self.A = absint.Analyzer(mod, fnmodel.MODELS)
        self.lazy = self.N[0] == "l"
        self.where = "%s<rank %d>" % (WHAT[self.N[0]], self.R)

    def run(self, op, args=None, mem=None, tag=""):
        return self.A.run("w_%s_%s" % (self.N, op), args, mem, tag)

    def acc(self, op, s, mem, *more):
        a = {0: s}
        for i, x in enumerate(more):
            a[i + 1] = x
        r = self.run(op, a, mem)
        if r.ret is None:
            raise ToolError("no return value from accessor %s" % op)
        return self.A.num(r.ret)

    # ---- requested bounds of an operation
    def bounds(self, op, mem):
        R = self.R
        m = mem or Memory()
        if op in ("resize", "ctor"):
            return ([m.load(vadd(arg("lo"), V(4 * d)), 4, "i32") for d in range(R)],
                    [m.load(vadd(arg("hi"), V(4 * d)), 4, "i32") for d in range(R)])
        if op in ("resizeS", "ctorS"):
            return [V(0)] * R, [vsub(m.load(vadd(arg("size"), V(4 * d)), 4, "i32"), V(1)) for d in range(R)]
        if op in ("resizeR", "ctorR"):
            return ([self.acc("rglo", arg("r"), m, V(d)) for d in range(R)],
                    [self.acc("rghi", arg("r"), m, V(d)) for d in range(R)])
        if op == "resizeG":
            return ([self.acc("lo", arg("o"), m, V(d)) for d in range(R)],
                    [self.acc("hi", arg("o"), m, V(d)) for d in range(R)])
        raise KeyError(op)

    def routes(self):
        return ["ctor0", "ctor", "ctorS", "ctorR", "copy", "assign"]

    def creation(self, route, s="g", mem=None, tag=""):
        r = self.run(route, {0: arg(s)}, mem, tag)
        return r

    def slots(self, mem, key):
        out = {}
        for p, (sz, v) in mem.cells.items():
            a = p.single_atom()
            if a is not None and atom_key(a)[0] == "mapslot" and atom_key(a)[2] == key:
                out[atom_key(a)[1]] = v
        return out

    def grid_invariant(self, s, mem, registered=False):
        """memory of an existing grid s: its own function members are the ones its constructors install"""
        base = self.creation("ctor0", "g")
        G = arg("g").single()
        S = s.single()
        m = mem
        sub = {}
        for p, (sz, v) in base.mem.cells.items():
            k = fnmodel.fnobj_of(v)
            if k and (p - G).const_val() is not None:
                caps = [s if c == arg("g") else None for c in k[2]]
                m.cells[S + (p - G)] = (8, fnmodel.fnobj(k[1], caps))
        if registered:
            off = self.registry_offset()
            fn = [v for v in self.slots(base.mem, G).values() if fnmodel.fnobj_of(v)]
            if off is not None and fn:
                D = m.load(s, 8, "p").single()
                k = fnmodel.fnobj_of(fn[0])
                m.cells[fnmodel.slot(D + off, S)] = (8, fnmodel.fnobj(k[1], [s if c == arg("g") else None for c in k[2]]))
        return m

    def registry_offset(self):
        """position of the registry in the shared data"""
        c = self.run("copy", {0: arg("g"), 1: arg("o")}, Memory(), "l")
        mp = list(self.slots(c.mem, arg("g").single()))
        DO = Memory().load(arg("o"), 8, "p").single()
        return mp[0] - DO if len(mp) == 1 else None


def later_stores(r, ev, mem):
    """apply the stores that follow the callback event"""
    for e in r.events:
        if e.no > ev.no and e.kind == "store" and not e.loops:
            b = base_of(e.args[0].single())[0] if e.args[0].single() is not None else None
            if b is not None and atom_key(b.single_atom())[0] == "alloca":
                continue
            mem.store(e.args[0], e.size, e.args[1], ("later", e.no))
    return mem


def prod(vs):
    p = V(1)
    for v in vs:
        p = vmul(p, v)
    return p


def dims_of(lo, hi):
    return [vadd(vsub(h, l), V(1)) for l, h in zip(lo, hi)]


def accessors(chk, S, s, mem, lo, hi, ptr, grp, where, ctx=1, extra=()):
    """all observers of grid s in memory mem against the specification (lo, hi, buffer ptr)"""
    R = S.R
    dm = dims_of(lo, hi)
    for d in range(R):
        for op in ("lo", "loA", "rlo"):
            chk.eq(grp, S.acc(op, s, mem, V(d)), lo[d], where, "lower bound %d via %s" % (d, op), ctx, extra)
        for op in ("hi", "hiA", "rhi"):
            chk.eq(grp, S.acc(op, s, mem, V(d)), hi[d], where, "upper bound %d via %s" % (d, op), ctx, extra)
        for op in ("dim", "dimA"):
            chk.eq(grp, S.acc(op, s, mem, V(d)), dm[d], where, "dimension %d via %s" % (d, op), ctx, extra)
    n = prod(dm)
    chk.eq(grp, S.acc("size", s, mem), n, where, "getSize", ctx, extra)
    for op in ("raw", "begin", "cbegin"):
        chk.eq(grp, S.acc(op, s, mem), ptr, where, op, ctx, extra)
    for op in ("end", "cend"):
        chk.eq(grp, S.acc(op, s, mem), vadd(ptr, vmul(V(S.es), n)), where, op, ctx, extra)
    st = [None] * R
    acc = V(1)
    for d in (range(R - 1, -1, -1) if S.order == "C" else range(R)):
        st[d] = acc
        acc = vmul(acc, dm[d])
    off = V(0)
    i = arg("i")
    for d in range(R):
        chk.eq(grp, S.acc("stride%d" % d, s, mem), st[d], where, "stride(%d)" % d, ctx, extra)
        off = vadd(off, vmul(st[d], vsub(mem.load(vadd(i, V(4 * d)), 4, "i32"), lo[d])))
    want = vadd(ptr, vmul(V(S.es), off))
    for op in ("at", "cat"):
        r = S.run(op, {0: s, 1: i}, mem)
        chk.eq(grp, S.A.num(r.ret), want, where, "element address via %s" % op, ctx, extra)


def resized(S, op, s, mem, tag=""):
    """analyse operation op on grid s; returns (result, callback events)"""
    r = S.run(op, {0: s}, mem, tag)
    cb = [e for e in r.events if e.kind == "call" and fnmodel.CA.match(e.dname) and e.loops]
    return r, cb


def prepare():
    return ir.prepare("grid_storage.cpp", keep=KEEP)


def notified(chk, S, op, g, mem, grp, tag=""):
    """Analyse `op` (resize / constructor) on grid g.  Returns (memory when the registered updaters
    are called, callback event, result).  Obligations: the updaters of every sharing grid are called,
    once each, in every iteration over the registry of the grid's own shared data."""
    where = "%s %s" % (S.where, op)
    r, cb = resized(S, op, g, mem, tag)
    if not chk.ob(grp, len(cb) == 1, where, "one loop notifies the registered grids (found %d notification calls)" % len(cb)):
        return None, None, r
    ev = cb[0]
    where = "%s (%s)" % (where, S.mod.dbg.where(ev.ins.dbg) if hasattr(S.mod, "dbg") else "")
    L = r.loops[ev.loops[-1]]
    body = [e for e in r.events if e.loops and e.loops[-1] == L.header]
    # executed in every iteration
    chk.ob(grp, g_implies(L.latch_guard, ev.guard) or ev.guard == L.latch_guard, where, "the notification is executed in every iteration")
    chk.ob(grp, L.entry_guard == 1 or not_only_iter(L.entry_guard) is None, where, "the notification loop is entered unconditionally")
    return ev.mem, ev, r


def not_only_iter(g):
    """None if every condition in guard g is an iterator comparison"""
    for v in guard_atoms(g):
        s = show_atom(v)
        if "_Rb_tree" not in s and "iterator" not in s:
            return s
    return None


def guard_atoms(g):
    out = set()
    for row in g_rows(g):
        for v, b in row:
            out.add(v)
    return out


def fire(S, ev, fn, mem, tag):
    """what the stored updater fn does when called with the callback's arguments"""
    k = fnmodel.fnobj_of(fn)
    return fnmodel.call_handler(S.A, k[1], k[2], ev.args[1:], mem, tag=tag)


def heap_new(r):
    return [e for e in r.events if e.kind == "call" and e.name in ("_Znam", "_ZnamRKSt9nothrow_t", "_ZnamSt11align_val_t")]

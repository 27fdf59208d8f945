"""P03: ownership of element buffers."""
import re
from engine.report import Check
from engine.val import *
from engine import fnmodel
from engine.absint import Memory, base_of, dem
from engine.ir import ToolError
from . import gridlib as gl
from .gridlib import arg, V

RULE = ("Ownership analysis per storage class and rank over all events of constructors, copy, assignment, destructor, every resize overload and "
        "the disposer of the shared data: resize releases the old buffer with delete[] exactly when it is non-null and it is being replaced, "
        "nothing else releases an element buffer, the disposer of the shared data releases it once with delete[], every raw pointer handed to "
        "a shared_ptr is a fresh allocation handed over once, and after a resize and its callbacks no member of the grid or of its data holds "
        "the released address.")
DEL = re.compile(r"^_ZdaPv|^_ZdlPv|^free$")


def run():
    chk = Check("P03", RULE)
    mod = gl.prepare()
    chk.module(mod)
    for cls in gl.CLASSES:
        S = gl.Store(mod, cls)
        ptr_off = None
        for op in ("resize", "resizeS", "resizeR", "resizeG"):
            ptr_off = resize(chk, S, op)
        for op in ("ctor0", "ctor", "ctorS", "ctorR", "copy", "assign", "dtor"):
            others(chk, S, op)
        dispose(chk, S, ptr_off)
    chk.floor = 200
    return chk.finish()


def dels(r):
    return [e for e in r.events if e.kind == "call" and DEL.match(e.name)]


def resize(chk, S, op):
    g = arg("g")
    where = "%s %s" % (S.where, op)
    mem = Memory()
    S.grid_invariant(g, mem)
    old = S.acc("raw", g, mem)
    k = atom_key(old.single().single_atom())
    D = mem.load(g, 8, "p").single()
    off = (k[1] - D).const_val()
    r = S.run(op, {0: g}, mem)
    news = gl.heap_new(r)
    ds = dels(r)
    if not chk.ob("replace", len(ds) == 1 and len(news) == 1, where, "one release and one allocation (found %d, %d)" % (len(ds), len(news))):
        return off
    d, n = ds[0], news[0]
    chk.ob("matching-form", d.name.startswith("_ZdaPv"), where, "released with delete[] (%s)" % dem(d.name))
    chk.eq("replace", d.args[0], old, where, "the released buffer is the old one", d.guard)
    nz = g_not(g_cmp("eq", old, V(0)))
    chk.ob("replace", g_equiv(g_and(d.guard, nz), g_and(n.guard, nz)), where,
           "the old buffer is released exactly when it is replaced (released if %s, replaced if %s)" % (show_guard(d.guard)[:150], show_guard(n.guard)[:150]))
    chk.ob("replace", not d.loops and not n.loops, where, "not in a loop")
    # nothing keeps the released address
    cb = [e for e in r.events if e.kind == "call" and fnmodel.CA.match(e.dname) and e.loops]
    m = r.mem
    if len(cb) == 1:
        base = S.creation("ctor0")
        fn = list(S.slots(base.mem, g.single()).values())
        if len(fn) == 1 and fnmodel.fnobj_of(fn[0]):
            m = gl.later_stores(r, cb[0], gl.fire(S, cb[0], fn[0], cb[0].mem, "cb").mem)
            # use after release: the callbacks and everything later must not dereference the old buffer
    for p, (sz, v) in m.cells.items():
        b = base_of(p)[0]
        if b is None or b not in (g.single(), D):
            continue
        for gg, q in v.cases:
            if g_feasible(g_and(gg, g_and(d.guard, nz))) and old.single().single_atom() in q.atoms():
                chk.ob("stale", False, where, "member at %s still refers to the released buffer: %s" % (show(p), show(q)[:100]))
    chk.ob("stale", True, where, "no member refers to the released buffer")
    pv = m.load(V(D + Poly.const(off)), 8, "p")
    chk.eq("replace", pv, n.res, where, "the data refers to the new buffer", n.guard)
    own(chk, S, r, where)
    return off


def own(chk, S, r, where):
    seen = []
    for e in r.events:
        if e.kind != "call" or "shared_ptr" not in e.dname or len(e.args) != 2:
            continue
        mm = re.search(r"shared_ptr<.*>::(?:__)?shared_ptr(<.*>)?\(([^()]*)\)$", e.dname) or re.search(r"shared_ptr<.*>::reset(<.*>)?\(([^()]*)\)$", e.dname)
        if not mm or not mm.group(2).endswith("*"):
            continue
        p = e.args[1].single()
        a = p.single_atom() if p is not None else None
        fresh = a is not None and atom_key(a)[0] == "call" and atom_key(a)[1].startswith("_Znw")
        chk.ob("single-owner", fresh and p not in seen, where, "a shared_ptr takes over a fresh allocation that has no other owner (%s)" % show(e.args[1])[:80])
        seen.append(p)


def others(chk, S, op):
    g = arg("g")
    where = "%s %s" % (S.where, op)
    mem = Memory()
    if op in ("assign", "dtor"):
        S.grid_invariant(g, mem)
    r = S.run(op, {0: g}, mem)
    ds = [d for d in dels(r) if d.args[0].const() != 0 and g_feasible(d.guard)]
    chk.ob("no-release", not ds, where, "releases no element buffer (%s)" % [show(d.args[0])[:60] for d in ds])
    n = gl.heap_new(r)
    want = 1 if op in ("ctor", "ctorS", "ctorR") else 0
    chk.ob("no-release", len(n) == want, where, "allocates %d element buffers (found %d)" % (want, len(n)))
    own(chk, S, r, where)


def dispose(chk, S, off):
    # the disposer belonging to this class' data: matched by the element type and rank in the symbol of the constructor's shared_ptr
    r = S.creation("ctor0")
    sp = [e for e in r.events if e.kind == "call" and "shared_ptr" in e.dname and len(e.args) == 2 and atom_key(e.args[1].single().single_atom())[0] == "call"]
    if not sp:
        raise ToolError("no shared_ptr is constructed in the default constructor of %s" % S.where)
    ty = re.search(r"shared_ptr<(.*)>::(?:__)?shared_ptr(<.*>)?\((.*)\)$", sp[0].dname).group(3).rstrip("*").strip()
    cands = [f for f in S.mod.funcs if "_M_dispose" in f and ("<%s*," % ty) in dem(f).replace(" *", "*")]
    if not cands:
        raise ToolError("no disposer found for %s" % ty)
    where = "disposer of %s" % ty
    for f in cands:
        T = arg("this")
        r = S.A.run(f, {0: T})
        ds = dels(r)
        # pointer to the data kept in the control block
        dd = [d for d in ds if d.name.startswith("_ZdaPv")]
        single = [d for d in ds if d.name.startswith("_ZdlPv")]
        if not chk.ob("final-release", len(dd) == 1 and len(single) == 1 and len(ds) == 2, where, "the last owner releases the element buffer once with delete[] and the data object once (found %s)" % [d.name for d in ds]):
            continue
        D = single[0].args[0].single()
        want = V(Poly.atom(("mem", D + Poly.const(off), None, "p")))
        chk.eq("final-release", dd[0].args[0], want, where, "the released array is the element buffer", dd[0].guard)
        nz = g_and(g_not(g_cmp("eq", want, V(0))), g_not(g_cmp("eq", V(D), V(0))))
        chk.ob("final-release", g_implies(nz, dd[0].guard) and not dd[0].loops, where, "released whenever it exists (if %s)" % show_guard(dd[0].guard)[:150])

"""Comparison of a repository function with its reference definition.

Both are summarised by the same dataflow pass (AdtAnalyzer); the summaries are renamed to a common
form (loops by order, counters to init + step*iteration, accumulators by loop and initial value)
and compared: how the function leaves (return value, exception types) and when, what it leaves in
memory, which effectful calls it makes, when and in which order, and the recurrences of its loops.
If the two do not even have the same number of loops the comparison is undecided (not a violation).
"""
import os, re
from .val import *
from .absint import Bool, base_of, Memory, under, PURE_C
from .loops import carried
from .adt import key_of
from .ir import ToolError


SHOWN = 260 if SHOWD == 6 else 5000


class Undecided(Exception):
    pass


def _v(x):
    return guard_to_val(x.g) if isinstance(x, Bool) else x


class Canon:
    def __init__(self, A, res, fname):
        self.A, self.res = A, res
        f = res.func
        rpo = A.cfg(f)[2]
        pos = {b: i for i, b in enumerate(rpo)}
        self.heads = [h for h in sorted(res.loops, key=lambda h: pos.get(h, 1 << 30)) if hasattr(res.loops[h], "entry_guard")]
        self.lid = {h: i for i, h in enumerate(self.heads)}
        self.map = {}          # carried key -> Val
        self.accs = []         # (atom key, lid, Var) in order of first use
        self.accn = {}
        self.vars = {}
        self.pending = {}
        self.lxs = {}
        self.statics = {}
        self.axioms = list(getattr(res, "axioms", ()))
        self.fname = fname
        self.sub = self.mksub()
        for h in self.heads:
            L = res.loops[h]
            for v in carried(A, L):
                v.next = under(v.next, getattr(L, "latch_guard", 1))
                d = vsub(v.next, VA(*v.key)).const() if isinstance(v.next, Val) else None
                k = (v.key)
                if d is not None:
                    init = self.val(v.init)
                    self.map[k] = vadd(init, vmul(V(d), VA("cnt", self.lid[h], "i64"))) if d != 0 else init
                    self.sub = self.mksub()
                else:
                    self.vars[k] = (self.lid[h], v)

    def mksub(self):
        s = Subst(self.fn)
        s.deep = True
        s.gfn = self.gfn
        return s

    def fn(self, k):
        if k[0] in ("phi", "lmem"):
            r = self.map.get(k)
            if r is not None:
                return r
            if k in self.vars:
                l, v = self.vars[k]
                if k in self.pending:
                    raise Undecided("cyclic initial value")
                self.pending[k] = 1
                init = self.val(v.init)
                del self.pending[k]
                n = self.accn.get((l, init), 0)
                self.accn[(l, init)] = n + 1
                a = ("acc", l, init, n, "i64" if k[-1] == "i32" else k[-1])
                self.map[k] = V(Poly.atom(a))
                self.accs.append((a, l, v))
                if k[-1].startswith("i") and init.single() is not None:
                    ds = [vsub(V(q), VA(*k)).const() for g, q in v.next.cases]
                    if all(d is not None and d >= 0 for d in ds):
                        self.axioms.append((init.single() - Poly.atom(a), False))
                return self.map[k]
            if k[0] == "phi" and k[2] in self.lid:
                return V(Poly.atom(("phi", self.lid[k[2]], "i64")))
            return None
        if k[0] == "deref":
            from .adt import deref, itb_of
            s = self.sub.poly(k[1])
            if any(itb_of(p) is not None for g, p in s.cases):
                return vmap(deref, s)
            return None
        if k[0] == "mem" and (k[2] is not None or k[3] == "i64"):
            # the content of a cell, whether it was last looked at as a number or as a pointer
            s = self.sub.poly(k[1])
            return vmap(lambda p: Poly.atom(("mem", p, "v" if k[2] is not None else None, "p" if k[3] == "i64" else k[3])), s)
        if k[0] == "global" and k[1].startswith("_ZZ"):
            # function-local statics, by order of use
            n = self.statics.setdefault(k[1], len(self.statics))
            return V(Poly.atom(("global", "static %d" % n, "p")))
        if k[0] == "exc":
            return V(Poly.atom(("exc", "p")))
        if k[0] == "alloca":
            return V(Poly.atom(("alloca", "p")))
        if k[0] == "undef":
            return V(Poly.atom(("undef", "x")))
        return None

    def gfn(self, k):
        if k[0] == "eq" and len(k[1].t) == 2:
            # two different pointer arguments are different objects
            ks = [atom_key(m[0][0]) if len(m) == 1 and m[0][1] == 1 else None for m, c in k[1].t]
            if all(x is not None and x[0] == "arg" and x[-1] == "p" for x in ks) and k[1].t[0][1] == -k[1].t[1][1]:
                return 0
        if k[0] == "loopexit":
            return self.taken(k[2], k[3], k[4])
        return None

    def taken(self, h, b, s):
        """the (exclusive, exhaustive) condition that loop h is left through the edge b -> s,
        by the canonical conditions of its exits and not by the order of its blocks"""
        key = (h, b, s)
        if key in self.lxs:
            return self.lxs[key]
        if h not in self.lid:
            return g_atom(("lx", None, str(key)))
        cs = {(x[0], x[1]): self.guard(x[2]) for x in self.res.loops[h].exits if x[2] != 0}
        order = sorted(set(cs.values()))
        rest, by = 1, {}
        for i, c in enumerate(order):
            y = rest if i == len(order) - 1 else g_and(rest, g_atom(("lx", self.lid[h], c)))
            by[c] = y
            rest = g_and(rest, g_not(y))
        for (b2, s2), c in cs.items():
            self.lxs[(h, b2, s2)] = by[c]
        return self.lxs.get(key, 0)

    def val(self, v):
        return self.sub.val(_v(v))

    def guard(self, g):
        return self.sub.guard(g)


def exits(A, res, skip):
    """kind -> (guard, ret, mem)"""
    out = {}
    if res.rets:
        out["return"] = (res.ret_guard, res.ret, res.mem)
    thr = {}
    for e in res.events:
        if e.kind == "throw":
            thr.setdefault(e.etype, []).append(e)
    for t, es in thr.items():
        g = 0
        for e in es:
            g = g_or(g, e.guard)
        m = A.merge([(e.guard, e.mem) for e in es], g)
        out["throw " + t] = (g, None, m)
    return out


ALGO = re.compile(r"\bstd::(all_of|any_of|none_of|for_each|find\w*|count\w*|accumulate|copy\w*|transform|search|equal|max\w*|min\w*|sort\w*|stable\w*|fill\w*|generate\w*|inner_product|reduce|remove\w*|replace\w*|unique|merge|set_\w+|lower\w*|upper\w*|binary_\w*|partition\w*|mem_fn|function|bind|invoke|__invoke\w*|__find\w*|__copy\w*|__accumulate\w*)\b[<(]")
BULK = re.compile(r"::(insert|assign|splice|merge|remove|operator=|erase|append)\b")


def _bulk(res, members=True):
    """does the function call anything that may work on many elements at once"""
    return any(e.kind == "call" and (ALGO.search(e.dname) or (members and BULK.search(e.dname))) for e in res.events)


def deep(p):
    """a name of p that tells values apart, whatever their size"""
    return show(p) + " " + dkey(p)


def observable(p, skip):
    b, off = base_of(p)
    if b is None:
        return p.const_val() is None and "alloca" not in show(p, max(0, SHOWD - 6))
    k = key_of(b)
    if k[0] in ("alloca", "exc", "local"):
        return False
    if k[0] == "arg" and k[1] in skip:
        return False
    return "alloca" not in show(p, max(0, SHOWD - 6))


def thrown_cells(kind, ri, rr, mi, mr):
    """(offset, size, content, required content) of the words of the object thrown, when one place on either side throws it"""
    from .absint import guess_tag
    at = []
    for r in (ri, rr):
        es = [e for e in r.events if e.kind == "throw" and "throw " + e.etype == kind]
        p = es[0].args[0].single() if len(es) == 1 else None
        if p is None:
            raise Undecided("%s is thrown in more than one place" % kind[6:])
        at.append(p)
    offs = {}
    for p, m in zip(at, (mi, mr)):
        for q, (sz, v) in m.cells.items():
            if base_of(q)[0] == base_of(p)[0] and (q - p).const_val() is not None:
                offs.setdefault(((q - p).const_val(), sz), guess_tag(sz, v, q))
    for (off, sz), tg in sorted(offs.items()):
        yield off, sz, mi.load1(at[0] + Poly.const(off), sz, tg), mr.load1(at[1] + Poly.const(off), sz, tg)


def blocks_of(mi, mr, skip):
    """(address, size, type) of the words in blocks copied or cleared as a whole by either side, and observable; what may be
    padding (not a whole word and not known as a field of its own) only if both sides write it as part of a block"""
    from .absint import TAGS, guess_tag
    out = []
    seen = set()

    def solid(r):
        """contents known: not a merge of unknown contents"""
        if r[2] not in ("copy", "const"):
            return False
        if r[4] is None or hasattr(r[4], "cells"):
            return True
        for _, m in r[4].ins:
            for x in m.regions:
                d = (x[0] - r[0]).const_val()
                if base_of(x[0])[0] == base_of(r[0])[0] and (d is None or x[1] is None or (d < r[1] and d + x[1] > 0)) and not solid(x):
                    return False
        return True

    def blk(m, q, sz):
        for dst, ln, kind, src, snap in reversed(m.regions):
            d = (q - dst).const_val()
            if d is not None and ln is not None and 0 <= d and d + sz <= ln:
                return solid((dst, ln, kind, src, snap))
        return False
    for m in (mi, mr):
        for dst, ln, kind, src, snap in m.regions:
            if kind not in ("copy", "const") or ln is None or ln > 1024 or not observable(dst, skip) or not solid((dst, ln, kind, src, snap)):
                continue
            sp = src.single() if kind == "copy" else None
            d = 0
            while d < ln:
                q = dst + Poly.const(d)
                s2 = sp + Poly.const(d) if sp is not None else None
                sz = tg = None
                for mm in (mi, mr):
                    c = mm.cells.get(q)
                    if c is not None and sz is None:
                        sz, tg = c[0], guess_tag(c[0], c[1], q)
                if sz is None and s2 is not None and hasattr(snap, "cells") and s2 in snap.cells:
                    c = snap.cells[s2]
                    sz, tg = c[0], guess_tag(c[0], c[1], s2)
                for z in (8, 4, 1, 2):
                    if sz is None and ((q, z) in TAGS or (s2 is not None and (s2, z) in TAGS)):
                        sz, tg = z, TAGS.get((q, z)) or TAGS.get((s2, z))
                known = sz is not None
                if sz is None:
                    sz = 8 if d % 8 == 0 and ln - d >= 8 else 4 if d % 4 == 0 and ln - d >= 4 else 1
                    # not over the start of another field
                    for k in range(1, sz):
                        r = q + Poly.const(k)
                        if any(r in mm.cells for mm in (mi, mr)) or any((r, z) in TAGS for z in (8, 4, 2, 1)) or (s2 is not None and any((s2 + Poly.const(k), z) in TAGS for z in (8, 4, 2, 1))):
                            sz = 4 if k >= 4 and d % 4 == 0 else 1
                            break
                    tg = "i%d" % (8 * sz)
                if (q, sz) not in seen and d + sz <= ln:
                    seen.add((q, sz))
                    whole = known or sz == 8 or (ln % 8 and ln == sz) or (blk(mi, q, sz) and blk(mr, q, sz))
                    if whole and not any(q in mm.cells for mm in (mi, mr)):
                        out.append((q, sz, tg))
                d += sz
    return out


def invariant(p):
    return not any(a[0] in ("cnt", "acc", "phi", "lmem") for a in nested(p))


def nested(x):
    if isinstance(x, Poly):
        for a in x.atoms():
            k = atom_key(a)
            yield k
            for y in k[1:]:
                yield from nested(y)
    elif isinstance(x, Val):
        for _, p in x.cases:
            yield from nested(p)
    elif isinstance(x, tuple):
        for y in x:
            yield from nested(y)


def bounded(c, L, l):
    """a counter that goes up from 0 in steps of 1 to the (unchanging) length of something never passes it"""
    g = c.guard(getattr(L, "latch_guard", 0))
    if g in (0, 1):
        return []
    cnt = Poly.atom(("cnt", l, "i64"))
    out = []
    for a in g_support(g):
        k = atom_key(a)
        if k[0] not in ("eq", "lt"):
            continue
        for n in (cnt - k[1], cnt + k[1]):
            if invariant(n) and not g_feasible(lt0(n, True), c.axioms) and not g_feasible(g_and(g, eq0(cnt - n)), [(cnt - n, False)]):
                out.append((cnt - n, False))
    return out


def effects(res):
    out = []
    for e in res.events:
        if e.kind == "call" and getattr(e, "effect", False):
            out.append(e)
        elif e.kind == "memcpy" and e.loops and e.args[0].single() is not None and observable(e.args[0].single(), ()):
            # blocks of bytes stored in a loop
            if all(a.single() is not None for a in e.args):
                e.ident, e.desc, e.occ = "bytes copied", tuple(a.single() for a in e.args), 0
                out.append(e)
    return out


def compare(A, impl, ref, skip=(), ignore_cells=None, unordered=None, ignore_effects=None, throw_mem=True, init=None, check_order=True, args=None, throws=True, bag=False, thrown=False):
    """list of differences (text); raises Undecided.  impl, ref: function names"""
    fi, fr = A.mod.funcs.get(impl), A.mod.funcs.get(ref)
    if fi is None or fr is None:
        raise Undecided("function %s is not present" % (impl if fi is None else ref))
    def mkargs(f):
        a = {}
        for k, (t, n, at_) in enumerate(f.params):
            if t == ("int", 1):
                a[k] = Bool(g_atom(("bool", Poly.atom(("arg", "a%d" % k, "i1")))))
            else:
                from .absint import ttag
                a[k] = VA("arg", "a%d" % k, ttag(t))
            if args and k in args:
                a[k] = args[k]
        return a
    if len(fi.params) != len(fr.params):
        raise Undecided("different number of parameters")
    A.bag = bag
    ri = A.run(impl, mkargs(fi), init.copy() if init else None)
    rr = A.run(ref, mkargs(fr), init.copy() if init else None)
    skip = tuple("a%d" % k for k in skip)
    # values carried through a loop from the same start are told apart by the order of their use; any pairing that matches will do
    first = None
    for attempt in range(3):
        r = _compare(A, ri, rr, impl, ref, skip, ignore_cells, unordered, ignore_effects, throw_mem, check_order, throws, attempt, thrown)
        if first is None:
            first = r
        if not r[0]:
            return r
    return first


def _compare(A, ri, rr, impl, ref, skip, ignore_cells, unordered, ignore_effects, throw_mem, check_order, throws, attempt, thrown):
    ci, cr = Canon(A, ri, impl), Canon(A, rr, ref)

    def skey(x):
        return show(x[0]) if attempt == 0 else deep(x[0])
    if len(ci.heads) != len(cr.heads):
        mine = {str(getattr(e, "ident", None)) for e in ri.events if e.kind == "call" and hasattr(e, "ident")}
        theirs = {str(getattr(e, "ident", None)) for e in rr.events if e.kind == "call"}
        if not ci.heads and not _bulk(ri) and mine <= theirs:
            return ["does not iterate: the required behaviour depends on every element, and nothing called here does"], ri, rr
        if not _bulk(ri, False) and mine <= theirs:
            di, dr = {}, {}
            for d, r, f in ((di, ri, max), (dr, rr, min)):
                for e in r.events:
                    if e.kind == "call" and getattr(e, "effect", False):
                        d[str(e.ident)] = f(d.get(str(e.ident), len(e.loops)), len(e.loops))
            for k in sorted(di):
                if di[k] == 0 and dr.get(k, 0) > 0:
                    return ["%s is called at most once; required for every element" % short(demn(k))], ri, rr
        raise Undecided("%d loops, the reference definition has %d" % (len(ci.heads), len(cr.heads)))
    for c, r in ((ci, ri), (cr, rr)):
        for h in c.heads:
            c.axioms += bounded(c, r.loops[h], c.lid[h])
    diffs = []

    def ax():
        return tuple(ci.axioms) + tuple(cr.axioms)

    def dif(what, a, b, g=1):
        d = v_diff(a, b, g, ax())
        if d is None:
            return
        p, q, row = d
        diffs.append("%s: computed %s, required %s%s" % (what, show(p)[:SHOWN], show(q)[:SHOWN],
                     (" when " + " and ".join(("" if b_ else "not ") + show_atom(v) for v, b_ in row)[:300]) if row else ""))

    def gdif(what, a, b):
        if not g_equiv(a, b, ax()):
            diffs.append("%s: under the condition %s, required %s" % (what, show_guard(a)[:300], show_guard(b)[:300]))
            return True
        return False
    # ---- exits
    xi, xr = exits(A, ri, skip), exits(A, rr, skip)
    for kind in sorted(set(xi) | set(xr)):
        if kind.startswith("throw") and not throws:
            continue
        gi, vi, mi = xi.get(kind, (0, None, None))
        gr, vr, mr = xr.get(kind, (0, None, None))
        a, b = ci.guard(gi), cr.guard(gr)
        if gdif(kind, a, b):
            continue
        if a == 0 or not g_feasible(a):
            continue
        if vi is not None and vr is not None and not hasattr(vi, "el"):
            dif("value returned", ci.val(vi), cr.val(vr), a)
        elif hasattr(vi, "el") and hasattr(vr, "el"):
            for j, (x, y) in enumerate(zip(vi.el, vr.el)):
                dif("value returned (part %d)" % j, ci.val(x), cr.val(y), a)
        if thrown and kind.startswith("throw") and mi is not None and mr is not None:
            for off, sz, x, y in thrown_cells(kind, ri, rr, mi, mr):
                dif("object thrown, at byte %d" % off, ci.val(x), cr.val(y), a)
        if kind.startswith("throw") and not throw_mem:
            continue
        if mi is None or mr is None:
            continue
        cells = {}
        for m in (mi, mr):
            for p, (sz, v) in m.cells.items():
                if observable(p, skip) and not (ignore_cells and re.search(ignore_cells, show(p))):
                    cells.setdefault((p, sz), 1)
        def canon_cells(c, m, ks):
            out = {}
            for p, sz in ks:
                cc = m.cells.get(p)
                if cc is None or cc[0] != sz:
                    continue
                q = c.val(V(p))
                for g, qq in q.cases:
                    out[(qq, sz)] = (c.val(cc[1]), p)
            return out
        ks = sorted(cells, key=skey)
        oi, orr = canon_cells(ci, mi, ks[::-1] if attempt == 2 else ks), canon_cells(cr, mr, ks)
        for k in sorted(set(oi) | set(orr), key=skey):
            p, sz = k
            from .absint import guess_tag
            if k in oi:
                x = oi[k][0]
            else:
                x = ci.val(mi.load1(orr[k][1], sz, guess_tag(sz, mr.cells[orr[k][1]][1], orr[k][1])))
            if k in orr:
                y = orr[k][0]
            else:
                y = cr.val(mr.load1(oi[k][1], sz, guess_tag(sz, mi.cells[oi[k][1]][1], oi[k][1])))
            if x == y:
                continue
            dif("content of %s%s" % (show(p)[:SHOWN], "" if kind == "return" else " at " + kind), x, y, a)
        # ---- blocks of memory copied or cleared as a whole
        for q, sz, tg in blocks_of(mi, mr, skip):
            if (q, sz) in oi or (q, sz) in orr or (ignore_cells and re.search(ignore_cells, show(q))):
                continue
            if ci.val(V(q)) != V(q) or cr.val(V(q)) != V(q):
                continue
            x, y = ci.val(mi.load1(q, sz, tg)), cr.val(mr.load1(q, sz, tg))
            if x != y:
                dif("content of %s%s" % (show(q)[:SHOWN], "" if kind == "return" else " at " + kind), x, y, a)
    # ---- effects
    def keyed(c, res):
        out = []
        for e in effects(res):
            nm = e.ident if isinstance(e.ident, str) else str(e.ident[:2] if e.ident[0] != "indirect" else "indirect")
            if e.name == "__assert_fail" or re.search(r"\b(\w*Exception|\w*Error)::\1\(", e.dname):
                continue      # exceptions are compared by type
            if ignore_effects and re.search(ignore_effects, e.dname):
                continue
            ds = []
            for x in e.desc:
                if isinstance(x, tuple):
                    x = x[1]
                ds.append(c.val(V(x)))
            ls = tuple(c.lid[h] for h in e.loops if h in c.lid)
            if hasattr(e, "text"):
                ds.append(c.val(e.text))
            out.append((nm, ls, e.occ, tuple(ds), c.guard(e.guard), e))
        return pieces(out)
    ei, er = keyed(ci, ri), keyed(cr, rr)

    def group(es):
        d = {}
        for nm, ls, occ, ds, g, e in es:
            k = (nm, ls, occ, ds)
            d[k] = g_or(d.get(k, 0), g)
        return d
    di, dr = group(ei), group(er)
    li = [k for k in di if not (k in dr and g_equiv(di[k], dr[k], ax()))]
    lr = [k for k in dr if not (k in di and g_equiv(di[k], dr[k], ax()))]
    for k in list(li):
        for k2 in lr:
            if k[:2] == k2[:2] and len(k[3]) == len(k2[3]) and g_equiv(di[k], dr[k2], ax()) and all(v_equal(x, y, di[k], ax()) for x, y in zip(k[3], k2[3])):
                li.remove(k)
                lr.remove(k2)
                break
    nmf = lambda k: short(demn(k[0]))
    for k in li:
        if not g_feasible(di[k], ax()):
            continue
        same = [k2 for k2 in lr if k2[0] == k[0]]
        diffs.append("call %s(%s) under %s%s" % (nmf(k), ", ".join(show(x)[:80] for x in k[3]), show_guard(di[k])[:200],
                     "; required: (%s) under %s" % (", ".join(show(x)[:80] for x in same[0][3]), show_guard(dr[same[0]])[:200]) if same else " is not part of the reference behaviour"))
    for k in lr:
        if any(k2[0] == k[0] for k2 in li) or not g_feasible(dr[k], ax()):
            continue
        diffs.append("missing call %s(%s) under %s" % (nmf(k), ", ".join(show(x)[:80] for x in k[3]), show_guard(dr[k])[:200]))
    if check_order and not li and not lr:
        oi = order(A, ri, ei, unordered)
        orr = order(A, rr, er, unordered)
        for a, b in sorted(oi - orr, key=str):
            if (b, a) in orr:
                diffs.append("%s happens before %s; required the other way round" % (nmf(a), nmf(b)))
    # ---- loops
    for h1, h2 in zip(ci.heads, cr.heads):
        L1, L2 = ri.loops[h1], rr.loops[h2]
        gdif("loop is entered", ci.guard(L1.entry_guard), cr.guard(L2.entry_guard))
        gdif("loop continues", ci.guard(getattr(L1, "latch_guard", 0)), cr.guard(getattr(L2, "latch_guard", 0)))
        # what one iteration leaves at addresses that vary with the iteration
        w = []
        for c, r, L in ((ci, ri, L1), (cr, rr, L2)):
            d = {}
            lg = getattr(L, "latch_guard", 1)
            for p, (sz, v) in sorted(getattr(L, "varcells", {}).items(), key=skey):
                if ignore_cells and re.search(ignore_cells, show(p)):
                    continue
                for g, q in c.val(V(p)).cases:
                    if not observable(q, skip):
                        continue
                    d[(q, sz)] = (c.val(under(v, lg)), p)
            w.append((d, c.guard(lg)))
        (d1, g1), (d2, g2) = w
        for k in sorted(set(d1) | set(d2), key=skey):
            if k in d1 and k in d2:
                if not v_equal(d1[k][0], d2[k][0], g_and(g1, g2), ax()):
                    dif("content of %s after an iteration" % show(k[0])[:SHOWN], d1[k][0], d2[k][0], g1)
            else:
                d, c = (d1, ci) if k in d1 else (d2, cr)
                x, p = d[k]
                old = (ri.loops[h1] if d is d1 else rr.loops[h2]).head_mem.load1(p, k[1], guess(x))
                if v_equal(x, c.val(old), g1, ax()):
                    continue
                diffs.append("content of %s after an iteration: %s" % (show(k[0])[:SHOWN],
                             "set to %s, required unchanged" % show(x)[:SHOWN] if d is d1 else "unchanged, required %s" % show(x)[:SHOWN]))
    done = 0
    while done < max(len(ci.accs), len(cr.accs)) and done < 40:
        xs = {a: v for a, l, v in ci.accs}
        ys = {a: v for a, l, v in cr.accs}
        for a in [x[0] for x in ci.accs[done:]] + [x[0] for x in cr.accs[done:]]:
            if a in xs and a in ys:
                lh = ci.heads[a[1]]
                g = ci.guard(getattr(ri.loops[lh], "latch_guard", 1))
                dif("value carried through loop %d (starting from %s)" % (a[1], show(a[2])[:60]), ci.val(xs[a].next), cr.val(ys[a].next), g)
        done = max(len(xs), len(ys))
    if diffs:
        have = lib_queries(rr)
        new = lib_queries(ri) - have
        if "find" in have:
            new.discard("rfind")        # the last occurrence is not the first
        if new:
            raise Undecided("written with the library function %s, which the analysis does not interpret" % sorted(new)[0])
    return diffs, ri, rr


LOSSY = re.compile(r"basic_string<.*::(find\w*|rfind|substr|compare|replace|copy)\(")


def lib_queries(res):
    """library functions called whose results are uninterpreted terms"""
    out = set()
    for e in res.events:
        if e.kind != "call" or re.search(r"shared_ptr<.*::(use_count|unique)\(", e.dname):
            continue        # depends on who else holds the object, whatever else is known
        if LOSSY.search(e.dname):
            out.add(LOSSY.search(e.dname).group(1))
        elif getattr(e, "occ", 0) is None and isinstance(getattr(e, "ident", None), str) and e.name not in PURE_C:
            out.add(e.ident if e.ident.startswith("boost::algorithm::") else short(e.dname).split("(")[0])
    return out


def guess(v):
    """type tag of a value"""
    for _, p in v.cases:
        for a in p.atoms():
            k = atom_key(a)
            if isinstance(k[-1], str) and re.fullmatch(r"p|i\d+|f\d+|double|float|x", k[-1]):
                return k[-1]
    return "p"


def pieces(es):
    """text written in several adjacent pieces is the same as written in one"""
    from .adt import cat, is_lit
    if not any(hasattr(x[5], "text") for x in es):
        return es
    changed = True
    while changed:
        changed = False
        for disjoint in (False, True):
            out = []
            for x in es:
                if hasattr(x[5], "text"):
                    q = x[3][-1].single()
                    if q is not None and is_lit(q) == "":
                        changed = True
                        continue
                    j = len(out) - 1
                    while j >= 0 and g_and(out[j][4], x[4]) == 0 and not disjoint:
                        j -= 1          # happens on other paths
                    y = out[j] if j >= 0 else None
                    if y is not None and hasattr(y[5], "text") and y[1] == x[1] and y[3][:-1] == x[3][:-1]:
                        t = None
                        try:
                            if y[4] == x[4]:
                                t = cat(under(y[3][-1], x[4]), under(x[3][-1], x[4]))
                            elif disjoint and g_and(y[4], x[4]) == 0:
                                t = vguard(y[4], y[3][-1], x[3][-1])
                        except TooComplex:
                            t = None
                        if t is not None and len(t.cases) <= 16:
                            out[j] = (y[0], y[1], 0, y[3][:-1] + (t,), g_or(y[4], x[4]), y[5])
                            changed = True
                            continue
                out.append(x)
            es = out
    seen, out = {}, []
    for x in es:
        if hasattr(x[5], "text"):
            k = (x[1], x[3])
            seen[k] = seen.get(k, -1) + 1
            x = x[:2] + (seen[k],) + x[3:]
        out.append(x)
    return out


def order(A, res, es, unordered):
    """pairs of calls of which the first happens before the second (in the same iteration of the loops that contain both)"""
    out = set()
    succ = {b: A.succs(i[-1]) for b, i in res.func.blocks.items() if i}
    heads = {h: i for i, h in enumerate(res.loops)}
    reach = {}

    def after(b, cut):
        """blocks reachable from the end of block b without entering the heads in cut"""
        if (b, cut) not in reach:
            seen, st = set(), [b]
            while st:
                for s in succ.get(st.pop(), ()):
                    if s not in seen and s not in cut:
                        seen.add(s)
                        st.append(s)
            reach[(b, cut)] = seen
        return reach[(b, cut)]
    for i, x in enumerate(es):
        if unordered and re.search(unordered, x[5].dname):
            continue
        for y in es[i + 1:]:
            if unordered and re.search(unordered, y[5].dname):
                continue
            if x[5].dname == y[5].dname and re.match(r"H5[A-Z]close$|MPI_\w+_free$", x[5].dname):
                continue        # distinct handles are released in any order
            rel = [e[5] for e in (x, y) if re.match(r"H5[SP]close$|MPI_\w+_free$", e[5].dname)]
            if rel and all(not any(a == b for b in (y if r is x[5] else x)[5].args) for r in rel for a in r.args[:1]):
                continue        # a released handle only matters to calls that use it
            if x[1] == y[1]:
                if g_and(x[4], y[4]) != 0:
                    out.add((x[:4], y[:4]))
                continue
            cut = frozenset(h for h in x[5].loops if h in y[5].loops)
            bx, by = x[5].ins.blk, y[5].ins.blk
            a, b = by in after(bx, cut), bx in after(by, cut)
            if a and not b:
                out.add((x[:4], y[:4]))
            elif b and not a:
                out.add((y[:4], x[:4]))
    return out


def demn(n):
    from .absint import dem
    return dem(n) if n.startswith("_Z") else n


def check(chk, A, group, impl, ref, what, **kw):
    """one obligation per function; `ref` may be several equivalent definitions, of which one has to match"""
    try:
        rs = []
        for one in ([ref] if isinstance(ref, str) else ref):
            r = None
            try:
                r = compare(A, impl, one, **kw)
            except (Undecided, TooComplex) as e:
                rs.append(e)
                continue
            rs.append(r)
            if not r[0]:
                break
        ok = [r for r in rs if isinstance(r, tuple) and not r[0]]
        if not ok and isinstance(rs[0], Exception):
            raise rs[0]
        r = ok[0] if ok else rs[0]
    except (Undecided, TooComplex, ToolError) as e:
        chk.undecided(what, str(e))
        return None
    except (KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError, RecursionError) as e:
        if os.environ.get("VERIF_STRICT"):
            raise
        chk.undecided(what, "analysis stopped: %r" % (e,))
        return None
    diffs, ri, rr = r
    n = 2 + len(ri.events) + len(ri.loops)
    chk.ob(group, not diffs, what, "behaves as its reference definition" if not diffs else diffs[0])
    for d in diffs[1:4]:
        chk.ob(group, False, what, d)
    chk.facts = getattr(chk, "facts", 0) + n
    return r

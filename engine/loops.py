"""Which points does a loop (nest) visit?

covers() proves, by induction over the loop equations recorded by the dataflow pass, that an event
inside a loop nest happens exactly once for every point of a given box (and for no other), for
  * nests of counted loops (one per dimension; any direction of counting), and
  * a single loop driven by an odometer (a tuple of counters that wrap: Range::iterator).
Derived loop-carried values (a second odometer or pointer in lockstep, an end flag) are handled by
inductive guesses.  The obligations are implications between guards (linear arithmetic over the
box bounds); nothing is enumerated.
"""
from itertools import permutations, product
from .val import *
from .absint import Bool, base_of, halves


def _val(x):
    if isinstance(x, Bool):
        return guard_to_val(x.g)
    return x


class Var:
    """one loop-carried quantity"""

    def __init__(self, key, init, nxt):
        self.key, self.init, self.next = key, init, nxt


def loaded(v):
    """the two 32-bit words of a 64-bit word read from memory"""
    lo, hi = [], []
    for g, p in v.cases:
        a = p.single_atom()
        k = atom_key(a) if a is not None else None
        if k is None or k[0] != "mem" or k[3] != "i64":
            return None
        lo.append((g, Poly.atom(("mem", k[1], k[2], "i32"))))
        hi.append((g, Poly.atom(("mem", k[1] + Poly.const(4), k[2], "i32"))))
    return Val(lo), Val(hi)


def carried(A, L):
    out = []
    for n, (at, init, nxt, ins) in L.phis.items():
        if isinstance(at, Bool):
            v = [x for x in g_support(at.g)]
            key = atom_key(atom_key(v[0])[1].single_atom())
        else:
            key = atom_key(at.single().single_atom())
        if nxt is None:
            continue
        if key[0] == "pack":
            hi, hn = halves(_val(init)) or loaded(_val(init)), halves(_val(nxt)) or loaded(_val(nxt))
            if hi and hn:
                for j in (0, 1):
                    out.append(Var(atom_key(key[1 + j].single().single_atom()), hi[j], hn[j]))
            continue
        out.append(Var(key, _val(init), _val(nxt)))
    for p, (sz, v) in L.head_mem.cells.items():
        a = v.single().single_atom() if v.single() is not None else None
        if a is None:
            continue
        k = atom_key(a)
        if k[0] == "lmem" and k[2] == L.header:
            init = L.entry_mem.load1(p, sz, k[4])
            nxt = None
            for b, eg, m in getattr(L, "latches", []):
                x = m.load1(p, sz, k[4])
                nxt = x if nxt is None else vguard(eg, x, nxt)
            if nxt is not None:
                out.append(Var(k, init, nxt))
    return out


def _mentions(v, keys):
    """does value v depend on any of the atoms in keys"""
    hit = []

    def fn(k):
        if k in keys:
            hit.append(k)
        return None
    Subst(fn).val(v)
    return bool(hit)


def strip_versions(v):
    """forget which version of memory a load saw (callers argue that separately)"""
    def fn(k):
        if k[0] == "mem" and k[2] is not None:
            s = Subst(fn).poly(k[1])
            return vmap(lambda p: Poly.atom(("mem", p, None) + k[3:]), s)
        return None
    return Subst(fn).val(v)


def idx(d):
    return VA("idx", d, "i64")


def box_axioms(dims):
    ax = []
    for d, (lo, hi) in enumerate(dims):
        x = idx(d).single()
        ax.append((lo.single() - x, False))
        ax.append((x - hi.single(), False))
    return ax


def nonempty(dims):
    return [(lo.single() - hi.single(), False) for lo, hi in dims]


def linear(dims, seq=None):
    """position of the point idx in the enumeration of the box; seq lists dimensions fastest first (default: last fastest)"""
    out, f = V(0), V(1)
    for d in (seq if seq is not None else range(len(dims) - 1, -1, -1)):
        lo, hi = dims[d]
        out = vadd(out, vmul(f, vsub(idx(d), lo)))
        f = vmul(f, vadd(vsub(hi, lo), V(1)))
    return out


class Cover:
    def __init__(self, sub, dims):
        self.sub = sub
        self.dims = dims
        self.axioms = box_axioms(dims)

    def at(self, v):
        return self.sub.val(v)

    def atg(self, g):
        return self.sub.guard(g)


def affine(A, res, ev, dims, order, ctx=1, extra=()):
    loops = [res.loops[h] for h in ev.loops]
    D = len(dims)
    if len(loops) != D:
        return [], "the nest has %d loops for %d dimensions" % (len(loops), D)
    inv = {}
    n = [VA("iter", j, "i64") for j in range(D)]
    allkeys = set()
    for j, L in enumerate(loops):
        cs = carried(A, L)
        keys = {c.key for c in cs}
        allkeys |= keys
        for c in cs:
            if c.init.single() is None or c.next.single() is None:
                continue
            step = c.next.single() - Poly.atom(c.key)
            if _mentions(V(step), keys):
                continue
            inv[c.key] = (j, c.init, step)

    memo = {}

    def fn(k, at):
        if k in inv:
            j, init, step = inv[k]
            return vadd(sub.val(init), vmul(sub.poly(step), at[j]))
        return None
    errs = []
    outs = []
    perms = {"C": [tuple(range(D))], "F": [tuple(range(D - 1, -1, -1))]}.get(order) or list(permutations(range(D)))
    N = [vadd(vsub(hi, lo), V(1)) for lo, hi in dims]
    for perm in perms:          # loop j runs over dimension perm[j]
        ok = True
        for j in range(D):
            Nj = N[perm[j]].single()
            inner = [(Poly.const(1) - N[perm[i]].single(), False) for i in range(j + 1, D)]
            outer = []
            for i in range(j):
                outer += [(-n[i].single(), False), (n[i].single() - N[perm[i]].single(), True)]
            zero = [n[i] for i in range(j)] + [V(0)] * (D - j)
            sub = Subst(lambda k: fn(k, zero))
            ga = sub.guard(ev.guard)
            if not g_equiv(ga, g_and(ctx, lt0(-Nj, True)), list(extra) + inner + outer):
                ok = False
                errs.append("first iteration along dimension %d happens if %s" % (perm[j], show_guard(ga)[:160]))
                break
            cur = [n[i] for i in range(j + 1)] + [V(0)] * (D - j - 1)
            nxt = [n[i] for i in range(j)] + [vadd(n[j], V(1))] + [V(0)] * (D - j - 1)
            sub = Subst(lambda k: fn(k, cur))
            lat = sub.guard(loops[j].latch_guard)
            sub = Subst(lambda k: fn(k, nxt))
            gb = g_and(lat, sub.guard(ev.guard))
            here = [(-n[j].single(), False), (n[j].single() - Nj, True)]
            if not g_equiv(g_and(gb, ctx), g_and(ctx, lt0(n[j].single() + Poly.const(1) - Nj, True)), list(extra) + inner + outer + here):
                ok = False
                errs.append("the loop over dimension %d continues if %s" % (perm[j], show_guard(gb)[:200]))
                break
        if not ok:
            continue
        dirs = [(0,) * D] if order in ("C", "F") else list(product((0, 1), repeat=D))
        for dr in dirs:
            at = []
            for j in range(D):
                lo, hi = dims[perm[j]]
                at.append(vsub(idx(perm[j]), lo) if not dr[j] else vsub(hi, idx(perm[j])))
            holder = {}

            def fn2(k, at=at, holder=holder):
                if k in inv:
                    j, init, step = inv[k]
                    return vadd(holder["s"].val(init), vmul(holder["s"].poly(step), at[j]))
                return None
            holder["s"] = Subst(fn2)
            outs.append(Cover(holder["s"], dims))
    return outs, "; ".join(errs)


def odometer(A, res, ev, dims, order, ctx=1, extra=()):
    if len(ev.loops) != 1:
        return [], "not a single loop"
    L = res.loops[ev.loops[0]]
    D = len(dims)
    cs = carried(A, L)
    cand = [[c for c in cs if v_equal(c.init, lo)] for lo, hi in dims]
    if any(not c for c in cand):
        return [], "no loop variable starts at the lower bound of dimension %d" % [i for i, c in enumerate(cand) if not c][0]
    ne = list(extra) + nonempty(dims)
    ax = ne + box_axioms(dims)
    seq = range(D - 1, -1, -1) if order != "F" else range(D)     # fastest first
    errs = []
    outs = []
    for choice in product(*cand):
        if len({c.key for c in choice}) != D:
            continue
        # successor of x
        succ = [None] * D
        carry = 1
        for d in seq:
            lo, hi = dims[d]
            last = g_cmp("eq", idx(d), hi)
            succ[d] = vguard(carry, vguard(last, lo, vadd(idx(d), V(1))), idx(d))
            carry = g_and(carry, last)
        atend = carry
        base = {c.key: idx(d) for d, c in enumerate(choice)}
        others = [c for c in cs if c.key not in base]
        guesses = {}
        for c in others:
            gs = [c.init]
            for d in range(D):
                gs.append(vadd(idx(d), vsub(c.init, dims[d][0])))
            # a running count
            if c.next.single() is not None:
                k = (c.next.single() - Poly.atom(c.key)).const_val()
                if k is not None and k != 0:
                    gs.insert(1, vadd(c.init, vmul(V(k), linear(dims, seq))))
            # a function of the current point (an element address, say): its initial value with the lower corner replaced by the point
            lows = {}
            for d in range(D):
                a = dims[d][0].single().single_atom()
                if a is not None:
                    lows[atom_key(a)] = idx(d)
            if lows:
                gs.append(Subst(lambda k: lows.get(k)).val(c.init))
            guesses[c.key] = gs
        def by_level(got, want, g):
            """got == want wherever there is a next point: one case per carry level, with the wrapping coordinates replaced by their bounds"""
            full = {}
            for d in seq:
                s3 = Subst(lambda k: full.get(k[1]) if k[0] == "idx" else None)
                lo, hi = dims[d]
                here = g_and(s3.guard(g), lt0(idx(d).single() - hi.single(), True))
                if v_diff(s3.val(got), s3.val(want), here, ax) is not None:
                    return False
                full[d] = hi
            return True
        pick = {c.key: 0 for c in others}
        ok = False
        for _ in range(60):
            m = dict(base)
            for c in others:
                if pick[c.key] < len(guesses[c.key]):
                    m[c.key] = guesses[c.key][pick[c.key]]
            sub = Subst(lambda k: m.get(k))
            lat = sub.guard(L.latch_guard)
            s2 = Subst(lambda k: succ[k[1]] if k[0] == "idx" else None)
            ch = False
            for c in others:
                if pick[c.key] >= len(guesses[c.key]):
                    continue
                want = s2.val(guesses[c.key][pick[c.key]])
                got = sub.val(c.next)
                if v_diff(got, want, g_and(g_and(lat, ctx), g_not(atend)), ax) is not None and not by_level(got, want, g_and(lat, ctx)):
                    pick[c.key] += 1
                    ch = True
            if not ch:
                ok = True
                break
        if not ok:
            continue
        # evg at the first point
        s0 = Subst(lambda k: {c.key: c.init for c in cs}.get(k))
        g0 = s0.guard(ev.guard)
        if not g_equiv(g0, ctx, ne):
            errs.append("the first point is visited if %s" % show_guard(g0)[:160])
            continue
        nm = {c.key: sub.val(c.next) for c in cs}
        sn = Subst(lambda k: nm.get(k))
        gn = g_and(lat, sn.guard(ev.guard))
        if not g_equiv(g_and(gn, ctx), g_and(ctx, g_not(atend)), ax):
            errs.append("after point x another point is visited if %s" % show_guard(gn)[:200])
            continue
        bad = False
        for d, c in enumerate(choice):
            df = v_diff(sub.val(c.next), succ[d], g_and(g_and(lat, ctx), g_not(atend)), ax)
            if df is not None:
                errs.append("coordinate %d of the next point is %s, required %s" % (d, show(df[0])[:100], show(df[1])[:100]))
                bad = True
                break
        if bad:
            continue
        outs.append(Cover(sub, dims))
    return outs, "; ".join(errs[:3])


def covers(A, res, ev, dims, order="any", ctx=1, extra=()):
    """list of Cover (possible readings of the loop variables as box coordinates), reason if empty.
    dims: [(lo, hi)] closed bounds (single-case values)"""
    if not ev.loops:
        return [], "not inside a loop"
    o1, e1 = affine(A, res, ev, dims, order, ctx, extra)
    if o1:
        return o1, ""
    o2, e2 = odometer(A, res, ev, dims, order, ctx, extra)
    return o2, "" if o2 else (e2 if len(ev.loops) == 1 and len(dims) > 1 else e1) or e1

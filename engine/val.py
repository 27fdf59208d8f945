"""Abstract values of the dataflow analysis.

A numeric value is a *gated polynomial*: a finite partition of guards, each with one
polynomial over atoms (function arguments, initial memory cells, results of opaque calls,
loop-carried unknowns).  Guards are ROBDDs over comparison atoms.  This is the lattice of a
(gated, polynomial) global value numbering: two expressions are equal if they have the same
normal form.  Nothing here runs the analysed code or calls a solver; the only arithmetic
reasoning is the normal form and a bounds closure (Fourier-Motzkin on the handful of
comparison literals of one guard) used to discard contradictory guard rows.
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(100000)

# ------------------------------------------------------------------ atoms
_atoms = []           # id -> key tuple
_atom_ids = {}


def atom_id(key):
    i = _atom_ids.get(key)
    if i is None:
        i = len(_atoms)
        _atoms.append(key)
        _atom_ids[key] = i
    return i


def atom_key(i):
    return _atoms[i]


# ------------------------------------------------------------------ polynomials
class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, terms):
        # terms: dict monomial -> coeff ; monomial = tuple of (atom, exp)
        self.t = tuple(sorted((m, c) for m, c in terms.items() if c != 0))
        self._h = hash(self.t)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    @staticmethod
    def const(c):
        c = norm(c)
        return Poly({(): c}) if c != 0 else ZERO

    @staticmethod
    def atom(key):
        return Poly({((atom_id(key), 1),): 1})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and self.t[0][0] == ())

    def const_val(self):
        if not self.t:
            return 0
        if self.is_const():
            return self.t[0][1]
        return None

    def const_part(self):
        for m, c in self.t:
            if m == ():
                return c
        return 0

    def drop_const(self):
        d = dict(self.t)
        d.pop((), None)
        return Poly(d)

    def add(self, o, k=1):
        d = dict(self.t)
        for m, c in o.t:
            d[m] = norm(d.get(m, 0) + k * c)
        return Poly(d)

    def __add__(self, o):
        return self.add(o)

    def __sub__(self, o):
        return self.add(o, -1)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t})

    def scale(self, k):
        return Poly({m: norm(c * k) for m, c in self.t})

    def __mul__(self, o):
        a = self.const_val()
        if a is not None:
            return o.scale(a)
        b = o.const_val()
        if b is not None:
            return self.scale(b)
        d = {}
        for m1, c1 in self.t:
            for m2, c2 in o.t:
                m = mono_mul(m1, m2)
                d[m] = norm(d.get(m, 0) + c1 * c2)
        return Poly(d)

    def atoms(self):
        s = set()
        for m, _ in self.t:
            for a, _e in m:
                s.add(a)
        return s

    def single_atom(self):
        """atom id if the polynomial is exactly one atom"""
        if len(self.t) == 1 and self.t[0][1] == 1:
            m = self.t[0][0]
            if len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def __repr__(self):
        return show(self)


def norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def mono_mul(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
        if d[x] == 0:
            del d[x]
    return tuple(sorted(d.items()))


ZERO = Poly({})
ONE = Poly({(): 1})


def poly_inv(q):
    """1/q as a polynomial over (possibly negative) atom powers and inverse atoms."""
    c = q.const_val()
    if c is not None:
        if c == 0:
            return Poly.atom(("inv", q))
        return Poly.const(Fraction(1) / Fraction(c))
    # factor out the monomial gcd and the leading coefficient
    monos = [dict(m) for m, _ in q.t]
    common = {}
    for a in monos[0]:
        es = [m.get(a, 0) for m in monos]
        if all(e > 0 for e in es):
            common[a] = min(es)
        elif all(e < 0 for e in es):
            common[a] = max(es)
    inv_common = tuple(sorted((a, -e) for a, e in common.items()))
    r = Poly({mono_mul(m, inv_common): c for m, c in q.t})
    lead = r.t[-1][1]
    r = r.scale(Fraction(1) / Fraction(lead))
    res = Poly({inv_common: norm(Fraction(1) / Fraction(lead))})
    if r == ONE:
        return res
    # inverse of an inverse
    return res * Poly.atom(("inv", r))


def clear_inv(p):
    """multiply out inverse atoms: returns (num, den) with no inv atoms (one level)."""
    den = ONE
    num = p
    for _ in range(12):
        invs = [a for a in num.atoms() if atom_key(a)[0] == "inv"]
        if not invs:
            break
        a = invs[0]
        q = atom_key(a)[1]
        emax = 1
        for m, _c in num.t:
            emax = max(emax, dict(m).get(a, 0))
        # num * q^emax
        out = ZERO
        for m, c in num.t:
            d = dict(m)
            e = d.pop(a, 0)
            term = Poly({tuple(sorted(d.items())): c})
            for _i in range(emax - e):
                term = term * q
            out = out + term
        num = out
        for _i in range(emax):
            den = den * q
    return num, den


def poly_equal(a, b):
    """equality of rational functions in the atoms"""
    if a == b:
        return True
    d = a - b
    if any(atom_key(x)[0] == "inv" for x in d.atoms()):
        n, _ = clear_inv(d)
        return n == ZERO
    return False


import os, hashlib
SHOWD = int(os.environ.get("SHOWD", "6"))


def show_atom(i, depth=0):
    return show_key(atom_key(i), depth)


def show_key(k, depth=0):
    if depth > SHOWD:
        return "..."
    h = k[0]
    if h == "arg":
        return str(k[1])
    if h == "mem":
        return "[%s]%s" % (show(k[1], depth + 1), ("'%s" % (k[2],)) if k[2] else "")
    if h == "call":
        return "%s(%s)%s" % (short(k[1]), ", ".join(show(x, depth + 1) if isinstance(x, (Poly, Val)) else str(x) for x in k[2]),
                             ("#%s" % (k[3],)) if k[3] else "")
    if h == "inv":
        return "1/(%s)" % show(k[1], depth + 1)
    if h == "fn":
        return "%s(%s)" % (k[1], ", ".join(show(x, depth + 1) for x in k[2]))
    if h == "lt":
        return "(%s < 0)" % show(k[1], depth + 1)
    if h == "eq":
        return "(%s == 0)" % show(k[1], depth + 1)
    return "<%s>" % " ".join(str(x) if not isinstance(x, (Poly, Val)) else show(x, depth + 1) for x in k)


_dk = {}


def dkey(x):
    if isinstance(x, Poly):
        r = _dk.get(x)
        if r is None:
            r = _dk[x] = hashlib.md5(repr(sorted((sorted((dkey(atom_key(a)), e) for a, e in m), str(c)) for m, c in x.t)).encode()).hexdigest()
        return r
    if isinstance(x, Val):
        return "V" + "".join(dkey(q) for g, q in x.cases)
    if isinstance(x, tuple):
        return "(" + ",".join(dkey(y) for y in x) + ")"
    return str(x)


def short(n):
    return n if len(n) < 70 else n[:67] + "..."


def show(p, depth=0):
    if isinstance(p, Val):
        if len(p.cases) == 1:
            return show(p.cases[0][1], depth)
        return "{" + "; ".join("%s if %s" % (show(q, depth + 1), show_guard(g, depth + 1)) for g, q in p.cases) + "}"
    if not p.t:
        return "0"
    out = []
    for m, c in p.t:
        ms = "*".join(show_atom(a, depth + 1) + ("" if e == 1 else "^%d" % e) for a, e in m)
        if ms == "":
            out.append(str(c))
        elif c == 1:
            out.append(ms)
        elif c == -1:
            out.append("-" + ms)
        else:
            out.append("%s*%s" % (c, ms))
    return " + ".join(out)


# ------------------------------------------------------------------ guards (ROBDD)
# node ids: 0 False, 1 True, else index in _nodes (var, lo, hi)
_nodes = [None, None]
_uniq = {}
_ite_cache = {}


def mk(var, lo, hi):
    if lo == hi:
        return lo
    k = (var, lo, hi)
    n = _uniq.get(k)
    if n is None:
        n = len(_nodes)
        _nodes.append(k)
        _uniq[k] = n
    return n


def var_of(n):
    return _nodes[n][0] if n > 1 else 1 << 60


def ite(f, g, h):
    if f == 1:
        return g
    if f == 0:
        return h
    if g == h:
        return g
    if g == 1 and h == 0:
        return f
    k = (f, g, h)
    r = _ite_cache.get(k)
    if r is not None:
        return r
    v = min(var_of(f), var_of(g), var_of(h))

    def co(n, b):
        if n <= 1 or _nodes[n][0] != v:
            return n
        return _nodes[n][2] if b else _nodes[n][1]
    r = mk(v, ite(co(f, 0), co(g, 0), co(h, 0)), ite(co(f, 1), co(g, 1), co(h, 1)))
    _ite_cache[k] = r
    return r


def g_and(a, b):
    return ite(a, b, 0)


def g_or(a, b):
    return ite(a, 1, b)


def g_not(a):
    return ite(a, 0, 1)


def g_atom(key):
    return mk(atom_id(key), 0, 1)


def g_restrict(f, c):
    """Coudert-Madre restrict: simplify f under care set c (c != False)."""
    memo = {}

    def rec(f, c):
        if c == 1 or f <= 1:
            return f
        if c == 0:
            return f
        k = (f, c)
        if k in memo:
            return memo[k]
        vf, vc = var_of(f), var_of(c)
        if vc < vf:
            r = rec(f, g_or(_nodes[c][1], _nodes[c][2]))
        else:
            v, fl, fh = _nodes[f]
            cl, ch = (_nodes[c][1], _nodes[c][2]) if vc == v else (c, c)
            if cl == 0:
                r = rec(fh, ch)
            elif ch == 0:
                r = rec(fl, cl)
            else:
                r = mk(v, rec(fl, cl), rec(fh, ch))
        memo[k] = r
        return r
    return rec(f, c)


def g_support(f):
    seen = set()
    vs = set()

    def rec(n):
        if n <= 1 or n in seen:
            return
        seen.add(n)
        vs.add(_nodes[n][0])
        rec(_nodes[n][1])
        rec(_nodes[n][2])
    rec(f)
    return vs


def g_rows(f, limit=4096):
    """the guard's satisfying rows as literal lists"""
    rows = []

    def rec(n, lits):
        if len(rows) > limit:
            raise TooComplex("guard with too many rows")
        if n == 0:
            return
        if n == 1:
            rows.append(list(lits))
            return
        v, lo, hi = _nodes[n]
        lits.append((v, False))
        rec(lo, lits)
        lits.pop()
        lits.append((v, True))
        rec(hi, lits)
        lits.pop()
    rec(f, [])
    return rows


def g_rows_iter(f, limit=4096):
    """the same one after the other"""
    n = 0
    stack = [(f, ())]
    while stack:
        x, lits = stack.pop()
        if x == 0:
            continue
        if x == 1:
            n += 1
            if n > limit:
                raise TooComplex("guard with too many rows")
            r = []
            while lits:
                lits, l = lits
                r.append(l)
            yield r[::-1]
            continue
        v, lo, hi = _nodes[x]
        stack.append((hi, (lits, (v, True))))
        stack.append((lo, (lits, (v, False))))


class TooComplex(Exception):
    pass


def show_guard(f, depth=0):
    if f == 0:
        return "false"
    if f == 1:
        return "true"
    rows = g_rows(f)
    if len(rows) > 6:
        return "<guard over %s>" % ", ".join(show_atom(v, depth + 2) for v in g_support(f))
    return " or ".join(" and ".join(("" if b else "not ") + show_atom(v, depth + 1) for v, b in r) for r in rows)


# comparison guards -------------------------------------------------
def _int_poly(p):
    return all(not isinstance(c, Fraction) for _, c in p.t)


def _primitive(p):
    """scale to integer coprime coefficients (positive factor)"""
    from math import gcd
    l = 1
    for _, c in p.t:
        if isinstance(c, Fraction):
            l = l * c.denominator // gcd(l, c.denominator)
    if any(isinstance(c, float) for _, c in p.t):
        return p
    q = p.scale(l)
    g = 0
    for _, c in q.t:
        g = gcd(g, abs(int(c)))
    return q.scale(Fraction(1, g)) if g > 1 else q


def lt0(p, isint):
    c = p.const_val()
    if c is not None:
        return 1 if c < 0 else 0
    p = _primitive(p)
    if isint:
        lead = [c for m, c in p.t if m != ()][-1]
        if lead < 0:
            # p < 0  <=>  not (-p - 1 < 0)
            return g_not(g_atom(("lt", -p - ONE, True)))
        return g_atom(("lt", p, True))
    return g_atom(("lt", p, False))


def above_of(p):
    """p = +-(q - the next larger key after q)"""
    for i in (0, 1):
        m = p.t[i][0]
        if len(m) == 1 and m[0][1] == 1:
            k = atom_key(m[0][0])
            if k[0] == "fn" and k[1] == "nextkey" and k[2][1] == Poly({p.t[1 - i][0]: 1}):
                return True
    return False


def eq0(p, isint=True):
    c = p.const_val()
    if c is not None:
        return 1 if c == 0 else 0
    p = _primitive(p)
    if len(p.t) == 2 and p.t[0][1] == -p.t[1][1] and above_of(p):
        return 0
    lead = p.t[-1][1]
    if lead < 0:
        p = -p
    # two different allocas / globals are never equal
    return g_atom(("eq", p))


def feasible_row(row, extra=()):
    """row: literals (var,bool). Conservative: False only if contradictory."""
    ineqs = []      # (coef dict, const, strict): sum + const (<|<=) 0
    neqs = []

    def addp(p, strict, isint):
        d = {m: c for m, c in p.t if m != ()}
        k = p.const_part()
        if isint and strict:
            k = k + 1
            strict = False
        ineqs.append((d, k, strict))
    for v, b in row:
        k = atom_key(v)
        if k[0] == "lt":
            if b:
                addp(k[1], True, k[2])
            else:
                addp(-k[1], False, k[2])
        elif k[0] == "eq":
            if b:
                addp(k[1], False, False)
                addp(-k[1], False, False)
            else:
                neqs.append(k[1])
        elif k[0] == "bool" and isinstance(k[1], Poly):
            q = k[1] - Poly.const(1) if b else k[1]
            addp(q, False, False)
            addp(-q, False, False)
    for p, strict in extra:
        addp(p, strict, True)
    seen = set()
    for d, _c, _s in list(ineqs) + [({m: c for m, c in p.t if m != ()}, 0, 0) for p in neqs]:
        for m in d:
            if m not in seen and len(m) == 1 and m[0][1] == 1:
                k = atom_key(m[0][0])
                if (k[0] == "fn" and k[1] == "size") or k[0] == "cnt":
                    seen.add(m)
                    ineqs.append(({m: -1}, 0, False))
    if not _fm(ineqs):
        return False
    todo = list(neqs)
    again = True
    while again and todo:
        again = False
        for p in list(todo):
            d = {m: c for m, c in p.t if m != ()}
            c0 = p.const_part()
            n = {m: -c for m, c in d.items()}
            s1 = _fm(ineqs + [(d, c0, True)])
            s2 = _fm(ineqs + [(n, -c0, True)])
            if not s1 and not s2:
                return False
            if not s1 or not s2:
                # one side remains; for integers at least one away
                isint = all(isinstance(atom_key(x)[-1], str) and atom_key(x)[-1] in ("i8", "i16", "i32", "i64") for m in d for x, e in m) and all(c == int(c) for c in list(d.values()) + [c0])
                k = 1 if isint else 0
                ineqs.append((d, c0 + k, not isint) if s1 else (n, -c0 + k, not isint))
                todo.remove(p)
                again = True
    return True


def _fm(ineqs):
    """Fourier-Motzkin bounds closure; True = not shown contradictory"""
    cur = [(dict(d), c, s) for d, c, s in ineqs]
    for _ in range(60):
        vs = {}
        nxt = []
        for d, c, s in cur:
            d = {m: x for m, x in d.items() if x != 0}
            if not d:
                if c > 0 or (c == 0 and s):
                    return False
                continue
            nxt.append((d, c, s))
        cur = nxt
        for d, c, s in cur:
            for m, x in d.items():
                e = vs.setdefault(m, [0, 0])
                e[0 if x > 0 else 1] += 1
        if not vs:
            return True
        m = min(vs, key=lambda m: vs[m][0] * vs[m][1])
        pos = [t for t in cur if t[0].get(m, 0) > 0]
        neg = [t for t in cur if t[0].get(m, 0) < 0]
        rest = [t for t in cur if t[0].get(m, 0) == 0]
        if len(pos) * len(neg) > 400:
            return True
        out = rest
        for dp, cp, sp in pos:
            for dn, cn, sn in neg:
                a, b = dp[m], -dn[m]
                d = {}
                for mm, x in dp.items():
                    d[mm] = d.get(mm, 0) + b * x
                for mm, x in dn.items():
                    d[mm] = d.get(mm, 0) + a * x
                d.pop(m, None)
                out.append((d, b * cp + a * cn, sp or sn))
        cur = out
    return True


def g_feasible(f, extra=()):
    """extra: list of (poly, strict) constraints poly (<|<=) 0"""
    if f == 0:
        return False
    if f == 1 and not extra:
        return True
    for row in g_rows_iter(f):
        if feasible_row(row, extra):
            return True
    return False


def g_implies(a, b, extra=()):
    return not g_feasible(g_and(a, g_not(b)), extra)


def g_equiv(a, b, extra=()):
    return a == b or (g_implies(a, b, extra) and g_implies(b, a, extra))


def g_subst(f, fn):
    """rebuild guard, mapping each guard-atom key through fn(key)->guard"""
    memo = {}

    def rec(n):
        if n <= 1:
            return n
        if n in memo:
            return memo[n]
        v, lo, hi = _nodes[n]
        r = ite(fn(atom_key(v)), rec(hi), rec(lo))
        memo[n] = r
        return r
    return rec(f)


# ------------------------------------------------------------------ gated values
class Val:
    """cases: tuple of (guard, Poly); guards disjoint."""
    __slots__ = ("cases", "_h")

    def __init__(self, cases):
        d = {}
        order = []
        for g, p in cases:
            if g == 0:
                continue
            if p in d:
                d[p] = g_or(d[p], g)
            else:
                d[p] = g
                order.append(p)
        if len(d) == 1:
            self.cases = ((1, order[0]),)
        else:
            self.cases = tuple(sorted(((d[p], p) for p in order), key=lambda x: (hash(x[1]), x[0])))
        self._h = hash(self.cases)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Val) and self.cases == o.cases

    def single(self):
        return self.cases[0][1] if len(self.cases) == 1 else None

    def const(self):
        p = self.single()
        return None if p is None else p.const_val()

    def __repr__(self):
        return show(self)


MAXCASES = 64


def V(p):
    if isinstance(p, Val):
        return p
    if isinstance(p, (int, Fraction)):
        p = Poly.const(p)
    return Val(((1, p),))


def VA(*key):
    return V(Poly.atom(tuple(key)))


def vmap(f, *vals):
    """apply a polynomial function casewise"""
    acc = [(1, ())]
    for v in vals:
        nxt = []
        for g, ps in acc:
            for g2, p in v.cases:
                gg = g_and(g, g2)
                if gg != 0:
                    nxt.append((gg, ps + (p,)))
        acc = nxt
        if len(acc) > MAXCASES:
            acc2 = [(g, ps) for g, ps in acc if g_feasible(g)]
            if len(acc2) > MAXCASES:
                raise TooComplex("value with more than %d cases" % MAXCASES)
            acc = acc2
    out = []
    for g, ps in acc:
        r = f(*ps)
        if isinstance(r, Val):
            for g2, p in r.cases:
                out.append((g_and(g, g2), p))
        else:
            out.append((g, r))
    return Val(out)


def vadd(a, b):
    return vmap(lambda x, y: x + y, a, b)


def vsub(a, b):
    return vmap(lambda x, y: x - y, a, b)


def vmul(a, b):
    return vmap(lambda x, y: x * y, a, b)


def vdiv(a, b):
    return vmap(lambda x, y: x * poly_inv(y), a, b)


def vneg(a):
    return vmap(lambda x: -x, a)


def vguard(g, a, b):
    """g ? a : b"""
    return Val([(g_and(g, h), p) for h, p in a.cases] + [(g_and(g_not(g), h), p) for h, p in b.cases])


def vfn(name, *vals):
    return vmap(lambda *ps: Poly.atom(("fn", name, tuple(ps))), *vals)


def g_cmp(pred, a, b, isint=True):
    """guard of comparison between two Vals. pred in lt le gt ge eq ne"""
    acc = 0
    for g1, p in a.cases:
        for g2, q in b.cases:
            g = g_and(g1, g2)
            if g == 0:
                continue
            d = p - q
            if pred == "lt":
                r = lt0(d, isint)
            elif pred == "ge":
                r = g_not(lt0(d, isint))
            elif pred == "gt":
                r = lt0(-d, isint)
            elif pred == "le":
                r = g_not(lt0(-d, isint))
            elif pred == "eq":
                r = eq0(d)
            else:
                r = g_not(eq0(d))
            acc = g_or(acc, g_and(g, r))
    return acc


def v_equal(a, b, ctx=1, extra=()):
    """a == b under guard ctx (for all atom valuations not contradictory)"""
    return v_diff(a, b, ctx, extra) is None


def v_diff(a, b, ctx=1, extra=()):
    for g1, p in a.cases:
        for g2, q in b.cases:
            if poly_equal(p, q):
                continue
            g = g_and(g_and(g1, g2), ctx)
            if g == 0:
                continue
            # equalities in the guard may make them equal
            for row in g_rows_iter(g):
                if not feasible_row(row, extra):
                    continue
                d = p - q
                c = d.const_val()
                if c is None and row:
                    # is p-q forced to zero by the row?
                    dd = {m: x for m, x in d.t if m != ()}
                    ex1 = not feasible_row(row, tuple(extra) + ((d, True),))
                    ex2 = not feasible_row(row, tuple(extra) + ((-d, True),))
                    if ex1 and ex2:
                        continue
                return (p, q, row)
    return None


# ------------------------------------------------------------------ substitution
class Subst:
    """substitute atoms by values, recursively inside composite atoms"""

    def __init__(self, fn):
        self.fn = fn          # key -> Val or None (None: recurse)
        self.deep = False     # also rebuild atoms of unknown kinds
        self.gfn = None       # guard-atom key -> guard or None
        self.pm = {}
        self.am = {}

    def atom(self, a):
        if a in self.am:
            return self.am[a]
        k = atom_key(a)
        r = self.fn(k)
        if r is None:
            r = self.rebuild(k)
        self.am[a] = r
        return r

    def rebuild(self, k):
        if k[0] == "inv":
            return vmap(poly_inv, self.poly(k[1]))
        leaves = []

        def walk(x):
            if isinstance(x, Poly):
                leaves.append(self.poly(x))
            elif isinstance(x, Val):
                leaves.append(self.val(x))
            elif isinstance(x, tuple):
                for y in x:
                    walk(y)
        if k[0] in ("fn", "mem", "call"):
            walk(k[1] if k[0] == "mem" else k[2])
            if k[0] == "call" and isinstance(k[1], tuple):
                walk(k[1])
        elif self.deep:
            walk(k)
        else:
            return V(Poly.atom(k))
        if not leaves:
            return V(Poly.atom(k))

        def f(*ps):
            it = iter(ps)

            def re_(x):
                if isinstance(x, (Poly, Val)):
                    return next(it)
                if isinstance(x, tuple):
                    return tuple(re_(y) for y in x)
                return x
            if k[0] == "mem":
                return Poly.atom(("mem", re_(k[1])) + k[2:])
            if k[0] in ("fn", "call"):
                a2 = re_(k[2])
                a1 = re_(k[1]) if k[0] == "call" and isinstance(k[1], tuple) else k[1]
                return Poly.atom((k[0], a1, a2) + k[3:])
            return Poly.atom(re_(k))
        return vmap(f, *leaves)

    def poly(self, p):
        if p in self.pm:
            return self.pm[p]
        acc = V(ZERO)
        for m, c in p.t:
            term = V(Poly.const(c))
            for a, e in m:
                av = self.atom(a)
                if e < 0:
                    av = vmap(poly_inv, av)
                for _ in range(abs(e)):
                    term = vmul(term, av)
            acc = vadd(acc, term)
        self.pm[p] = acc
        return acc

    def guard(self, g):
        def f(k):
            if self.gfn is not None:
                r = self.gfn(k)
                if r is not None:
                    return r
            if k[0] == "lt":
                v = self.poly(k[1])
                acc = 0
                for gg, p in v.cases:
                    acc = g_or(acc, g_and(gg, lt0(p, k[2])))
                return acc
            if k[0] == "eq":
                v = self.poly(k[1])
                acc = 0
                for gg, p in v.cases:
                    acc = g_or(acc, g_and(gg, eq0(p)))
                return acc
            if k[0] == "bool":
                v = self.poly(k[1])
                acc = 0
                for gg, p in v.cases:
                    acc = g_or(acc, g_and(gg, to_bool(p)))
                return acc
            return g_atom(k)
        return g_subst(g, f)

    def val(self, v):
        out = []
        for g, p in v.cases:
            gg = self.guard(g)
            if gg == 0:
                continue
            for g2, q in self.poly(p).cases:
                out.append((g_and(gg, g2), q))
        return Val(out)


def loop_atoms(v=None, g=None):
    """values that depend on the state of a loop the analysis did not resolve"""
    out = set()

    def fn(k):
        if k[0] in ("phi", "lmem"):
            out.add(k)
            return V(Poly.atom(k))
        return None
    s = Subst(fn)
    if v is not None:
        s.val(v)
    if g is not None:
        s.guard(g)
    return out


def to_bool(p):
    """i1 view of an integer polynomial"""
    c = p.const_val()
    if c is not None:
        return 1 if int(c) & 1 else 0
    return g_atom(("bool", p))


def v_to_guard(v):
    acc = 0
    for g, p in v.cases:
        acc = g_or(acc, g_and(g, to_bool(p)))
    return acc


def guard_to_val(g):
    if g == 1:
        return V(1)
    if g == 0:
        return V(0)
    return Val(((g, ONE), (g_not(g), ZERO)))

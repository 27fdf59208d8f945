"""Gated polynomial value-numbering dataflow analysis over flat LLVM IR (see ir.py, val.py).

One forward pass over the (loop-cut) control-flow graph; values at joins are gated, memory is a
map from symbolic addresses to values, loop-carried values are fresh unknowns whose (init, next)
equations are recorded.  No path is enumerated and nothing is executed.
"""
import re, subprocess
from fractions import Fraction
from .val import *
from . import val as _v
from .ir import ToolError


class Bool:
    __slots__ = ("g",)

    def __init__(self, g):
        self.g = g

    def __eq__(self, o):
        return isinstance(o, Bool) and self.g == o.g

    def __hash__(self):
        return hash(("B", self.g))


class Agg:
    __slots__ = ("el",)

    def __init__(self, el):
        self.el = tuple(el)

    def __eq__(self, o):
        return isinstance(o, Agg) and self.el == o.el

    def __hash__(self):
        return hash(self.el)


PTR_TAG = "p"


def ttag(t):
    if t[0] == "ptr":
        return "p"
    if t[0] == "int":
        return "i%d" % t[1]
    if t[0] == "fp":
        return {"double": "d", "float": "f"}.get(t[1], t[1])
    return t[0]


def is_ptr_atom(k):
    return k[0] in ("alloca", "global", "fun") or k[-1] == "p" or (k[0] == "fn" and isinstance(k[1], str) and (k[1].startswith("dyncast ") or k[1] == "self"))


def base_of(p):
    """(base atom poly or None, offset poly)"""
    for m, c in p.t:
        if c == 1 and len(m) == 1 and m[0][1] == 1 and is_ptr_atom(atom_key(m[0][0])):
            b = Poly({m: 1})
            return b, p - b
    return None, p


class Memory:
    __slots__ = ("cells", "regions", "vers", "objver")

    def __init__(self, o=None):
        if o is None:
            self.cells = {}
            self.regions = ()
            self.vers = {}
            self.objver = {}
        else:
            self.cells = dict(o.cells)
            self.regions = o.regions
            self.vers = dict(o.vers)
            self.objver = dict(o.objver)

    def copy(self):
        return Memory(self)

    # ---- load
    def load(self, addr, size, tag, default=None):
        return vmap(lambda p: self.load1(p, size, tag), addr)

    def load1(self, p, size, tag):
        if tag != "x":
            TAGS.setdefault((p, size), tag)
        c = self.cells.get(p)
        if c is not None:
            if c[0] == size:
                return c[1]
            if c[0] == 8 and size == 4:
                sp = [split64(q) for _, q in c[1].cases]
                if all(x is not None for x in sp):
                    return vmap(lambda q: split64(q)[0], c[1])
            return V(Poly.atom(("part", c[1], size, tag)))
        if size == 4:
            c = self.cells.get(p - Poly.const(4))
            if c is not None and c[0] == 8:
                sp = [split64(q) for _, q in c[1].cases]
                if all(x is not None for x in sp):
                    return vmap(lambda q: split64(q)[1], c[1])
        k = atom_key(p.t[0][0][0][0]) if len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1 and p.t[0][0][0][1] == 1 else None
        if k is not None and k[0] == "mapelt":
            return V(k[2])        # the entry of a map found under a key has that key
        b, off = base_of(p)
        for (dst, ln, kind, src, snap) in reversed(self.regions):
            rb, _ = base_of(dst)
            if rb != b:
                continue
            d = (p - dst).const_val()
            if ln is None or (d is not None and 0 <= d < ln):
                if kind == "copy":
                    return vmap(lambda s: snap.load1(s + Poly.const(d), size, tag), src)
                if kind == "const":
                    if isinstance(src, int) and src == 0:
                        return V(0)
                    return V(Poly.atom(("memset", src, size, tag)))
                return V(Poly.atom(("mem", p, src, tag)))
        return V(Poly.atom(("mem", p, self.vers.get(b), tag)))

    # ---- store
    def _kill(self, p, size, token):
        b, off = base_of(p)
        dead = []
        bump = False
        for a, (sz, _) in self.cells.items():
            ab, _o = base_of(a)
            if ab != b:
                continue
            d = (a - p).const_val()
            if d is None:
                dead.append(a)
            elif size is None or (-sz < d < size):
                dead.append(a)
        for a in dead:
            del self.cells[a]
        if off.const_val() is None:
            self.vers[b] = token
            self.regions = tuple(r for r in self.regions if base_of(r[0])[0] != b or (r[0] - p).const_val() is not None)

    def store(self, addr, size, val, token, tag=None):
        if len(addr.cases) == 1:
            p = addr.cases[0][1]
            self._kill(p, size, token)
            self.cells[p] = (size, val)
            return
        olds = []
        for g, p in addr.cases:
            olds.append((g, p, self.load1(p, size, tag or guess_tag(size, val, p))))
        for g, p, old in olds:
            self._kill(p, size, token)
            self.cells[p] = (size, vguard(g, val, old))

    def region(self, p, ln, kind, src, snap=None, token=None):
        dead = []
        b, off = base_of(p)
        for a, (sz, _) in self.cells.items():
            if base_of(a)[0] != b:
                continue
            d = (a - p).const_val()
            if d is None or ln is None or (-sz < d < ln):
                dead.append(a)
        for a in dead:
            del self.cells[a]
        self.regions = self.regions + ((p, ln, kind, src, snap),)


TWO32 = 1 << 32


def split64(p):
    """(low, high) 32-bit halves of a packed 64-bit poly, or None"""
    a = p.single_atom()
    if a is not None and atom_key(a)[0] == "pack":
        return atom_key(a)[1], atom_key(a)[2]
    c = p.const_val()
    if c is not None and c.denominator == 1 and (c == 0 or int(c) % TWO32 == 0 or c > TWO32):
        h, l = int(c) >> 32, int(c) & (TWO32 - 1)
        return V(l - TWO32 if l >= TWO32 // 2 else l), V(h)
    hi, lo = {}, {}
    xlo, xhi = V(0), V(0)
    found = False
    for m, c in p.t:
        k = atom_key(m[0][0] if isinstance(m[0], tuple) else m[0]) if len(m) == 1 else None
        if k is not None and k[0] == "pack" and c == 1:
            xlo, xhi = vadd(xlo, k[1]), vadd(xhi, k[2])
            found = True
        elif c.denominator == 1 and c % TWO32 == 0:
            hi[m] = c / TWO32 if not isinstance(c, int) else c // TWO32
        elif c.denominator == 1 and abs(c) >= TWO32 // 2:
            l = int(c) % TWO32
            l = l - TWO32 if l >= TWO32 // 2 else l
            lo[m], hi[m] = Fraction(l), Fraction((int(c) - l) // TWO32)
        else:
            lo[m] = c
    if found or any(m != () for m in hi):
        return vadd(xlo, V(Poly(lo))), vadd(xhi, V(Poly(hi)))
    return None


def halves(v):
    """(low, high) 32-bit halves of a 64-bit value, or None"""
    sp = [split64(p) or (low_only(V(p)) and (V(p), V(0))) for _, p in v.cases]
    if not all(sp):
        return None
    lo, hi = [], []
    for (g, p), (l, h) in zip(v.cases, sp):
        lo += [(g_and(g, gl), q) for gl, q in l.cases]
        hi += [(g_and(g, gh), q) for gh, q in h.cases]
    return Val(lo), Val(hi)


def high_only(v):
    return all(p.t and all(c.denominator == 1 and c % TWO32 == 0 for _, c in p.t) for _, p in v.cases)


def low_only(v):
    return all(all(abs(c) < TWO32 for _, c in p.t) and all(atom_key(a)[-1] in ("i32", "i16", "i8", "i1") or atom_key(a)[:2] == ("fn", "trunc") for a in p.atoms()) for _, p in v.cases)


class Event:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return "<%s(%s) if %s>" % (short(self.dname), ", ".join(show(a) if isinstance(a, Val) else str(a) for a in self.args), show_guard(self.guard))


class Loop:
    pass


class Result:
    pass


PURE_C = {"sqrt", "floor", "ceil", "pow", "exp", "log", "log10", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sinh", "cosh",
          "tanh", "fabs", "fmod", "round", "rint", "fmin", "fmax", "abs", "labs", "sqrtf", "floorf", "powf", "strcmp", "strlen"}

# C API functions: indices of pointer arguments that are written
C_WRITES = {
    "MPI_Comm_size": [1], "MPI_Comm_rank": [1], "MPI_Cart_create": [5], "MPI_Cart_get": [2, 3, 4], "MPI_Cart_coords": [3],
    "MPI_Cart_shift": [3, 4], "MPI_Cart_rank": [2], "MPI_Sendrecv": [5, 11], "MPI_Allreduce": [1], "MPI_Bcast": [0], "MPI_Dims_create": [2],
    "MPI_Init": [], "MPI_Finalize": [], "MPI_Send": [], "MPI_Recv": [0, 6], "MPI_Irecv": [0, 6], "MPI_Isend": [6], "MPI_Barrier": [],
    "MPI_Comm_dup": [1], "MPI_Waitall": [1, 2], "MPI_Wait": [0, 1], "MPI_Reduce": [1], "MPI_Gather": [3], "MPI_Allgather": [3],
    "H5Dread": [5], "H5Dwrite": [], "H5Aread": [2], "H5Awrite": [], "H5Sselect_hyperslab": [], "H5Screate_simple": [],
    "free": [], "_ZdlPv": [], "_ZdaPv": [], "_ZdlPvm": [], "_ZdaPvm": [], "__cxa_throw": [], "__cxa_free_exception": [],
    "__assert_fail": [], "printf": [], "puts": [], "__cxa_begin_catch": [], "__cxa_end_catch": [],
    "__cxa_guard_acquire": [], "__cxa_guard_release": [], "__cxa_atexit": [], "memcmp": [], "strcmp": [], "strlen": [],
    "__dynamic_cast": [], "_Znwm": [], "_Znam": [],
}

# bytes written through an output argument: a constant or (argument index, bytes per element)
C_LEN = {
    ("MPI_Comm_size", 1): 4, ("MPI_Comm_rank", 1): 4, ("MPI_Cart_create", 5): 8, ("MPI_Cart_coords", 3): (2, 4), ("MPI_Cart_shift", 3): 4, ("MPI_Cart_shift", 4): 4,
    ("MPI_Cart_rank", 2): 4, ("MPI_Comm_dup", 1): 8,
}

SP_RE = re.compile(r"^(?:.* )?(std|boost)::(?:__)?shared_ptr<.*>::((?:__)?shared_ptr|operator=)(?:<.*>)?\(.+\)$")
SP0_RE = re.compile(r"^(std|boost)::(?:__)?shared_ptr<.*>::(?:__)?shared_ptr\(\)$")
SPRESET_RE = re.compile(r"^(?:.* )?(std|boost)::(?:__)?shared_ptr<.*>::reset(?:<.*>)?\(.*\)$")
_dem_cache = {}


def demangle(names):
    todo = [n for n in names if n not in _dem_cache]
    if todo:
        out = subprocess.run(["c++filt"], input="\n".join(todo) + "\n", stdout=subprocess.PIPE, text=True).stdout.split("\n")
        for n, d in zip(todo, out):
            _dem_cache[n] = d.replace("[abi:cxx11]", "")
        bad = [n for n in todo if n.startswith("_Z") and _dem_cache[n] == n]
        if bad:
            # newer mangling (constrained template parameters) that binutils does not know
            try:
                out = subprocess.run(["llvm-cxxfilt-18"], input="\n".join(bad) + "\n", stdout=subprocess.PIPE, text=True).stdout.split("\n")
            except OSError:
                out = []
            for n, d in zip(bad, out):
                d = d.replace("[abi:cxx11]", "")
                while re.search(r"(?<!operator)>>", d):
                    d = re.sub(r"(?<!operator)>>", "> >", d)
                _dem_cache[n] = d
    return [_dem_cache[n] for n in names]


def dem(n):
    return demangle([n])[0]


def _split_top(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "<([{":
            d += 1
        elif c in ">)]}":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def param_types(d):
    """parameter type strings and constness of a demangled function name"""
    isconst = False
    s = d.strip()
    if s.endswith(" const"):
        isconst = True
        s = s[:-6]
    if s.endswith("&") or s.endswith("&&"):
        s = s.rstrip("&").strip()
    if not s.endswith(")"):
        return None, isconst
    depth = 0
    for i in range(len(s) - 1, -1, -1):
        if s[i] == ")":
            depth += 1
        elif s[i] == "(":
            depth -= 1
            if depth == 0:
                return _split_top(s[i + 1:-1]), isconst
    return None, isconst


def func_base(d):
    """qualified function name without parameters, template args kept; best effort"""
    ps, c = param_types(d)
    s = d.strip()
    if s.endswith(" const"):
        s = s[:-6]
    if s.endswith(")"):
        depth = 0
        for i in range(len(s) - 1, -1, -1):
            if s[i] == ")":
                depth += 1
            elif s[i] == "(":
                depth -= 1
                if depth == 0:
                    s = s[:i]
                    break
    return s


def strip_templates(s):
    out, d = "", 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == "<" and not s[:i].endswith("operator") and not s[:i].endswith("operator<"):
            d += 1
        elif c == ">" and d > 0 and not s[:i].endswith("-"):
            d -= 1
            i += 1
            continue
        if d == 0:
            out += c
        i += 1
    return out


def method_name(d):
    """last component of the demangled name without template args"""
    b = strip_templates(func_base(d))
    b = b.strip()
    m = re.search(r"(operator.*|~?\w+)$", b)
    # conversion operators & operator()
    k = b.rfind("::operator")
    if k >= 0:
        return b[k + 2:]
    if b.startswith("operator"):
        return b
    return m.group(1) if m else b


def under(v, c):
    """v, known to be used only when c holds"""
    if c in (None, 0, 1):
        return v
    if isinstance(v, Bool):
        return Bool(g_restrict(v.g, c))
    if isinstance(v, Val) and len(v.cases) > 1:
        cs = [(g_restrict(g, c), p) for g, p in v.cases if g_and(g, c) != 0]
        if cs:
            return Val(cs)
    return v


def possible(v, c):
    """an address that is used only when c holds: without the cases that contradict c"""
    if c in (None, 0, 1) or not isinstance(v, Val) or len(v.cases) < 2:
        return v
    cs = [(g, p) for g, p in v.cases if g_and(g, c) != 0]
    if not cs or len(cs) == len(v.cases):
        return v
    return Val([(1, cs[0][1])]) if len(cs) == 1 else Val([(g_restrict(g, c), p) for g, p in cs])


class Analyzer:
    def __init__(self, mod, models=(), opts=None):
        self.mod = mod
        self.T = mod.types
        self.models = [(re.compile(r), f) for r, f in models]
        self.opts = opts or {}
        self.cfgcache = {}
        self.zexts = set()

    # ------------------------------------------------------------ cfg
    def succs(self, term):
        if term.op == "br":
            return list(dict.fromkeys(term.x))
        if term.op == "switch":
            return list(dict.fromkeys([term.x[0]] + [l for _, l in term.x[1]]))
        if term.op == "invoke":
            return [term.x["to"]]
        return []

    def cfg(self, f):
        if f.name in self.cfgcache:
            return self.cfgcache[f.name]
        succ = {b: self.succs(i[-1]) for b, i in f.blocks.items() if i}
        entry = f.order[0]
        # reverse postorder
        seen, post = set(), []
        stack = [(entry, iter(succ[entry]))]
        seen.add(entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        rpo = post[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                preds[s].append(b)
        # dominators
        idom = {entry: entry}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    a, c = p, n
                    while a != c:
                        while idx[a] > idx[c]:
                            a = idom[a]
                        while idx[c] > idx[a]:
                            c = idom[c]
                    n = a
                if idom.get(b) != n:
                    idom[b] = n
                    changed = True

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == entry:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if idx[s] <= idx[b]:
                    if not dominates(s, b):
                        raise ToolError("irreducible control flow in %s" % f.name)
                    body = loops.setdefault(s, set([s]))
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        # topological order keeping loops contiguous: depth-first again, leaving loops first
        inl = {b: [h for h in loops if b in loops[h]] for b in rpo}

        def depth(b, s):
            return sum(1 for h in inl[b] if s in loops[h])
        seen, post = set(), []
        st = [(rpo[0], iter(sorted(succ[rpo[0]], key=lambda s: depth(rpo[0], s))))]
        seen.add(rpo[0])
        while st:
            b, it = st[-1]
            for s_ in it:
                if s_ in idx and s_ not in seen:
                    seen.add(s_)
                    st.append((s_, iter(sorted(succ[s_], key=lambda s, q=s_: depth(q, s)))))
                    break
            else:
                post.append(b)
                st.pop()
        rpo = post[::-1]
        r = (succ, preds, rpo, idx, loops, dominates)
        self.cfgcache[f.name] = r
        return r

    # ------------------------------------------------------------ run
    def run(self, fname, args=None, mem=None, tag=""):
        f = self.mod.funcs.get(fname)
        if f is None:
            raise ToolError("anchor vanished: function %s not present in analysed module" % fname)
        havoc = {}
        for it in range(12):
            r, newh = self._pass(f, args, mem, havoc, tag)
            ch = False
            for h, ks in newh.items():
                cur = havoc.setdefault(h, set())
                if not ks <= cur:
                    ch = True
                    if it < 4:
                        # what the earlier passes assumed may concern addresses that turned out to vary
                        havoc[h] = set(ks)
                    else:
                        cur |= ks
            if not ch:
                if it < 5 and any(havoc[h] - ks for h, ks in newh.items()):
                    havoc = {h: set(ks) for h, ks in newh.items()}
                    continue
                return r
        raise ToolError("loop memory fixpoint not reached in %s" % fname)

    def _pass(self, f, args, mem, havoc, tag):
        succ, preds, rpo, idx, loops, dominates = self.cfg(f)
        self.f = f
        env = {}
        uidp = f.name + tag
        for k, (t, n, at) in enumerate(f.params):
            if args is not None and n in args:
                env[n] = args[n]
            elif args is not None and k in args:
                env[n] = args[k]
            elif t == ("int", 1):
                env[n] = Bool(g_atom(("bool", Poly.atom(("arg", n + tag, "i1")))))
            else:
                env[n] = VA("arg", n + tag, ttag(t))
        res = Result()
        res.events = []
        res.loops = {}
        res.rets = []
        res.unreach = []
        res.func = f
        res.env = env
        res.blockguard = {}
        bguard = {}
        bmem_out = {}
        edge_guard = {}
        exit_cond = {}     # loop-leaving edge -> condition it is taken under (in the last iteration)
        loop_of = {}
        order = sorted(loops, key=lambda h: len(loops[h]))
        for b in rpo:
            loop_of[b] = [h for h in order if b in loops[h]][::-1]   # outermost first
        newhavoc = {}
        self.res = res
        for h in loops:
            L = Loop()
            L.header = h
            L.blocks = loops[h]
            L.phis = {}
            L.cells = {}
            L.exits = []
            res.loops[h] = L
        order_no = [0]

        for b in rpo:
            # ---- entry state
            if b == rpo[0]:
                g = 1
                m = mem.copy() if mem is not None else Memory()
            else:
                ins_ = [(p, edge_guard[(p, b)]) for p in preds[b] if (p, b) in edge_guard and not (b in loops and p in loops[b])]
                g = 0
                for _, eg in ins_:
                    g = g_or(g, eg)
                m = self.merge([(eg, bmem_out[p]) for p, eg in ins_ if eg != 0], g)
            if g == 0:
                bguard[b] = 0
                bmem_out[b] = m
                for s in succ.get(b, []):
                    edge_guard[(b, s)] = 0
                # define values anyway
                for ins in f.blocks[b]:
                    if ins.dest:
                        env[ins.dest] = Bool(0) if ins.ty == ("int", 1) and ins.op != "call" else VA("dead", uidp, ins.dest, "x")
                continue
            bguard[b] = g
            res.blockguard[b] = g
            isheader = b in loops
            if isheader:
                L = res.loops[b]
                L.entry_guard = g
                L.entry_mem = m.copy()
                hv = havoc.get(b, ())
                for key in sorted(hv, key=lambda k: (k[0] == "cell", str(k), dkey(k))):
                    if key[0] == "cell":
                        _, p, size, tg = key
                        c = V(Poly.atom(("lmem", uidp, b, p, tg)))
                        m._kill(p, size, ("l", b))
                        m.cells[p] = (size, c)
                    elif key[0] == "base":
                        bb = key[1]
                        tok = ("lv", uidp, b)
                        for a in [a for a in m.cells if base_of(a)[0] == bb and base_of(a)[1].const_val() is None]:
                            del m.cells[a]
                        m.regions = tuple(r for r in m.regions if base_of(r[0])[0] != bb)
                        m.vers[bb] = tok
                    elif key[0] == "region":
                        _, p, ln = key
                        m.region(p, ln, "havoc", ("lr", uidp, b))
                L.head_mem = m.copy()
            # ---- phis
            newvals = {}
            nphi = 0
            for ins in f.blocks[b]:
                if ins.op != "phi":
                    break
                nphi += 1
                if isheader:
                    if ins.ty == ("int", 1):
                        at = Bool(g_atom(("bool", Poly.atom(("phi", uidp, b, ins.dest, "i1")))))
                    elif ttag(ins.ty) == "i64" and ins.dest in self.packed(f):
                        at = V(Poly.atom(("pack", VA("phi", uidp, b, ins.dest + ".lo", "i32"), VA("phi", uidp, b, ins.dest + ".hi", "i32"), "i64")))
                    else:
                        at = VA("phi", uidp, b, ins.dest, ttag(ins.ty))
                    inits = [(edge_guard[(p, b)], self.opv(env, ins.ty, o)) for o, p in ins.ops if p in preds[b] and p not in loops[b] and (p, b) in edge_guard]
                    newvals[ins.dest] = at
                    res.loops[b].phis[ins.dest] = [at, self.phi_merge(inits, g, ins.ty), None, ins]
                else:
                    inc = [(edge_guard[(p, b)], under(self.opv(env, ins.ty, o), exit_cond.get((p, b)))) for o, p in ins.ops if (p, b) in edge_guard]
                    newvals[ins.dest] = self.phi_merge(inc, g, ins.ty)
            env.update(newvals)
            # ---- body
            st = (env, m, g, loop_of[b], uidp)
            for ins in f.blocks[b][nphi:]:
                order_no[0] += 1
                self.no = order_no[0]
                self.step(ins, st, res)
            bmem_out[b] = m
            # ---- edges
            t = f.blocks[b][-1]
            egs = []
            if t.op == "br":
                if len(t.x) == 1:
                    egs = [(t.x[0], g)]
                else:
                    c = self.guard(env, t.ops[0])
                    egs = [(t.x[0], g_and(g, c)), (t.x[1], g_and(g, g_not(c)))]
            elif t.op == "switch":
                v = self.opv(env, t.ty, t.ops[0])
                restg = g
                for cval, lab in t.x[1]:
                    c = g_cmp("eq", v, V(cval)) if not isinstance(v, Bool) else (v.g if cval else g_not(v.g))
                    egs.append((lab, g_and(restg, c)))
                    restg = g_and(restg, g_not(c))
                egs.append((t.x[0], restg))
            elif t.op == "invoke":
                egs = [(t.x["to"], g)]
            elif t.op == "ret":
                res.rets.append((g, self.opv(env, t.ty, t.ops[0]) if t.ops else None, m))
            elif t.op == "unreachable":
                res.unreach.append(g)
            acc = {}
            for s, eg in egs:
                acc[s] = g_or(acc.get(s, 0), eg)
            for s, eg in acc.items():
                edge_guard[(b, s)] = eg
                # back edge
                for h in loop_of[b]:
                    if s == h:
                        L = res.loops[h]
                        L.latch_guard = g_or(getattr(L, "latch_guard", 0), eg)
                        L.__dict__.setdefault("latches", []).append((b, eg, m))
                        for ins in f.blocks[h]:
                            if ins.op != "phi":
                                break
                            for o, p in ins.ops:
                                if p == b:
                                    v = self.opv(env, ins.ty, o)
                                    cur = L.phis[ins.dest][2]
                                    L.phis[ins.dest][2] = v if cur is None else self.phi_merge([(eg, v), (g_not(eg), cur)], 1, ins.ty)
                        self.diff_mem(L, m, newhavoc.setdefault(h, set()))
                    elif s not in loops[h] and b in loops[h]:
                        res.loops[h].exits.append([b, s, eg])
            # ---- exits: replace guards once the loop is completely processed (all blocks of loop done)
            for h in loop_of[b][::-1]:
                if all(x in bguard for x in loops[h]):
                    L = res.loops[h]
                    if getattr(L, "done", False):
                        continue
                    L.done = True
                    live = sorted([e for e in L.exits if e[2] != 0], key=lambda e: e[0] == h)
                    restg = L.entry_guard
                    for i, e in enumerate(live):
                        if i == len(live) - 1:
                            ng = restg
                        else:
                            x = g_atom(("loopexit", uidp, h, e[0], e[1]))
                            ng = g_and(restg, x)
                            restg = g_and(restg, g_not(x))
                        edge_guard[(e[0], e[1])] = ng
                        exit_cond[(e[0], e[1])] = e[2]
                        e.append(ng)
        # ---- result
        res.guards = bguard
        if res.rets:
            gall = 0
            for g, _, _ in res.rets:
                gall = g_or(gall, g)
            res.ret_guard = gall
            tv = [(g, v) for g, v, _ in res.rets]
            if tv[0][1] is not None:
                res.ret = self.phi_merge(tv, gall, ("int", 1) if isinstance(tv[0][1], Bool) else None)
            else:
                res.ret = None
            res.mem = self.merge([(g, m) for g, _, m in res.rets], gall)
        else:
            res.ret_guard = 0
            res.ret = None
            res.mem = None
        return res, newhavoc

    def diff_mem(self, L, m, out):
        h = L.head_mem
        for a, (sz, v) in m.cells.items():
            o = h.cells.get(a)
            if o is not None and o[1] == v:
                continue
            if o is None:
                tg = "x"
                # written in the loop
            if self.loop_variant(a, L):
                L.__dict__.setdefault("varcells", {})[a] = (sz, v)
                b, _ = base_of(a)
                if b is not None and not self.loop_variant(b, L):
                    out.add(("base", b))
            else:
                if o is None and self.local_to_loop(a, L):
                    continue
                tg = "p" if sz == 8 and any(is_ptr_atom(atom_key(x)) for _, p in v.cases for x in p.atoms() if len(p.t) <= 2) else ("i%d" % (sz * 8))
                out.add(("cell", a, sz, tg))
        for b, tok in m.vers.items():
            if h.vers.get(b) != tok and not self.loop_variant(b, L):
                out.add(("base", b))
        for r in m.regions[len(h.regions):] if m.regions[:len(h.regions)] == h.regions else m.regions:
            if r in h.regions:
                continue
            p, ln = r[0], r[1]
            if self.loop_variant(p, L):
                b, _ = base_of(p)
                if b is not None and not self.loop_variant(b, L):
                    out.add(("base", b))
            else:
                out.add(("region", p, ln))

    def local_to_loop(self, a, L):
        return False

    def loop_variant(self, p, L):
        for a in p.atoms():
            if self.atom_variant(a, L.header):
                return True
        return False

    def atom_variant(self, a, h):
        k = atom_key(a)
        if k[0] in ("phi", "lmem") and k[2] == h and k[1].startswith(self.f.name):
            return True
        if k[0] == "call" and len(k) > 3 and isinstance(k[3], tuple) and len(k[3]) == 3 and isinstance(k[3][0], str) and k[3][0].startswith(self.f.name) and k[3][1] in self.res.loops[h].blocks:
            return True
        for x in k[1:]:
            if isinstance(x, Poly):
                if any(self.atom_variant(y, h) for y in x.atoms()):
                    return True
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Poly) and any(self.atom_variant(z, h) for z in y.atoms()):
                        return True
                    if isinstance(y, Val) and any(self.atom_variant(z, h) for _, pp in y.cases for z in pp.atoms()):
                        return True
        if k[0] == "mem" and isinstance(k[2], tuple) and k[2][:1] == ("lv",) and k[2][2] == h:
            return True
        return False

    def merge(self, ins, g):
        if not ins:
            return Memory()
        if len(ins) == 1:
            return ins[0][1].copy()
        first = ins[0][1]
        if all(m is first for _, m in ins):
            return first.copy()
        out = Memory()
        keys = {}
        for _, m in ins:
            for a, (sz, _v2) in m.cells.items():
                keys.setdefault(a, sz)
        # regions: common prefix kept; others turned into conditional regions lazily -> materialise as "sel"
        rset = [m.regions for _, m in ins]
        if all(r == rset[0] for r in rset):
            out.regions = rset[0]
        else:
            n = 0
            while all(len(r) > n and r[n] == rset[0][n] for r in rset):
                n += 1
            out.regions = rset[0][:n]
            seen = []
            snaps = [(gg, m) for gg, m in ins]
            for r in rset:
                for x in r[n:]:
                    k = (x[0], x[1])
                    if k not in seen:
                        seen.append(k)
                        out.regions = out.regions + ((x[0], x[1], "copy", V(x[0]), MergedMem(snaps, g)) if x[1] is not None else (x[0], x[1], "havoc", ("mrg", tuple(s[3] if isinstance(s[3], tuple) else 0 for s in r)), None),)
        for a, sz in keys.items():
            vs = []
            same = None
            for gg, m in ins:
                c = m.cells.get(a)
                if c is not None and c[0] == sz:
                    v = c[1]
                else:
                    # look for a tag
                    tg = None
                    for _, m2 in ins:
                        c2 = m2.cells.get(a)
                        if c2:
                            tg = guess_tag(sz, c2[1], a)
                            break
                    v = m.load1(a, sz, tg or ("i%d" % (sz * 8)))
                vs.append((gg, v))
            out.cells[a] = (sz, self.phi_merge(vs, g, None))
        bs = set()
        for _, m in ins:
            bs |= set(m.vers)
        for b in bs:
            ts = [m.vers.get(b) for _, m in ins]
            out.vers[b] = ts[0] if all(t == ts[0] for t in ts) else ("j",) + tuple(ts)
        bs = set()
        for _, m in ins:
            bs |= set(m.objver)
        for b in bs:
            ts = [m.objver.get(b) for _, m in ins]
            out.objver[b] = ts[0] if all(t == ts[0] for t in ts) else ("j",) + tuple(ts)
        return out

    def phi_merge(self, inc, g, ty):
        vals = [v for _, v in inc]
        if not vals:
            return VA("undef", "x")
        if all(v == vals[0] for v in vals):
            return vals[0]
        if isinstance(vals[0], Bool) or any(isinstance(v, Bool) for v in vals):
            r = 0
            for eg, v in inc:
                if not isinstance(v, Bool):
                    v = Bool(v_to_guard(v))
                r = g_or(r, g_and(eg, v.g))
            return Bool(g_restrict(r, g) if g not in (0, 1) else r)
        if isinstance(vals[0], Agg):
            n = len(vals[0].el)
            return Agg([self.phi_merge([(eg, v.el[i]) for eg, v in inc], g, None) for i in range(n)])
        cases = []
        for eg, v in inc:
            for cg, p in v.cases:
                cases.append((g_and(eg, cg), p))
        if g not in (0, 1):
            cases = [(g_restrict(c, g), p) for c, p in cases if c != 0]
        v = Val(cases)
        if len(v.cases) > 12:
            v = Val([(c, p) for c, p in v.cases if g_feasible(c)])
        return v

    # ------------------------------------------------------------ operands
    def guard(self, env, o):
        v = self.opv(env, ("int", 1), o)
        if isinstance(v, Bool):
            return v.g
        return v_to_guard(v)

    def opv(self, env, t, o):
        k = o[0]
        if k == "v":
            r = env.get(o[1])
            if r is None:
                r = VA("undef", self.f.name, o[1], "x")
            return r
        if k == "c":
            if t == ("int", 1):
                return Bool(1 if o[1] & 1 else 0)
            if t and t[0] in ("struct", "named", "arr"):
                return self.zero_agg(t)
            return V(o[1])
        if k == "cf":
            if o[1] != o[1] or o[1] in (float("inf"), float("-inf")):
                return VA("fconst", repr(o[1]), "d")
            return V(Poly.const(Fraction(o[1])))
        if k == "g":
            return VA("global", o[1], "p")
        if k == "undef":
            if t and t[0] in ("struct", "named", "arr"):
                return self.undef_agg(t)
            if t == ("int", 1):
                return Bool(g_atom(("bool", Poly.atom(("undef", "i1")))))
            return VA("undef", "x")
        if k == "gep":
            return self.gep(env, o[1], [(tt, oo) for tt, oo in o[2]])
        if k == "cast":
            return self.opv(env, o[2], o[3])
        if k == "copaque":
            return VA("constexpr", o[1], "x")
        return VA("unk", str(o), "x")

    def zero_agg(self, t):
        t = self.T.resolve(t)
        if t[0] == "struct":
            return Agg([self.zero_agg(e) for e in t[1]])
        if t == ("int", 1):
            return Bool(0)
        return V(0)

    def undef_agg(self, t):
        t = self.T.resolve(t)
        if t[0] == "struct":
            return Agg([self.undef_agg(e) for e in t[1]])
        if t[0] == "arr":
            return Agg([self.undef_agg(t[2]) for _ in range(t[1])])
        return VA("undef", "x")

    def gep(self, env, ty, ops):
        p = self.opv(env, ops[0][0], ops[0][1])
        if isinstance(p, Bool):
            p = guard_to_val(p.g)
        sz, _ = self.T.size_align(ty)
        i0 = self.opv(env, ops[1][0], ops[1][1])
        r = vadd(p, vmul(i0, V(sz)))
        t = ty
        for tt, oo in ops[2:]:
            rt = self.T.resolve(t)
            if rt[0] == "struct":
                offs, _, _ = self.T.struct_layout(rt)
                i = oo[1]
                r = vadd(r, V(offs[i]))
                t = rt[1][i]
            elif rt[0] in ("arr", "vec"):
                s, _ = self.T.size_align(rt[2])
                iv = self.opv(env, tt, oo)
                r = vadd(r, vmul(iv, V(s)))
                t = rt[2]
            else:
                raise ToolError("gep into %r" % (rt,))
        return r

    # ------------------------------------------------------------ instructions
    def num(self, v):
        if isinstance(v, Bool):
            return guard_to_val(v.g)
        if isinstance(v, Agg):
            return VA("agg", str(hash(v)), "x")
        return v

    def packed(self, f):
        """i64 values that are two 32-bit values passed in one register"""
        c = self.mod.__dict__.setdefault("_packed", {})
        if f.name not in c:
            s = set()
            for b, il in f.blocks.items():
                for i in il:
                    if i.op == "lshr" and i.ty == ("int", 64) and i.ops[1] == ("c", 32) and i.ops[0][0] == "v":
                        s.add(i.ops[0][1])
            c[f.name] = s
        return c[f.name]

    def step(self, ins, st, res):
        env, m, g, loops, uidp = st
        op = ins.op
        if op in ("br", "switch", "ret", "unreachable", "resume", "fence"):
            return
        if op == "alloca":
            env[ins.dest] = VA("alloca", uidp, ins.dest, "p")
            return
        if op == "load":
            a = possible(self.num(self.opv(env, ("ptr",), ins.ops[0])), g)
            if self.T.resolve(ins.ty)[0] in ("struct", "arr"):
                env[ins.dest] = self.load_agg(m, a, self.T.resolve(ins.ty))
                return
            sz, _ = self.T.size_align(ins.ty)
            tg = ttag(ins.ty)
            if self.opts.get("load_log") is not None:
                self.opts["load_log"].append((ins, a, g))
            if tg == "i64" and ins.dest in self.packed(self.f):
                v = V(Poly.atom(("pack", m.load(a, 4, "i32"), m.load(vadd(a, V(4)), 4, "i32"), "i64")))
            else:
                v = m.load(a, sz, tg)
            v = self.const_global(v, a, sz, ins.ty)
            env[ins.dest] = Bool(v_to_guard(v)) if ins.ty == ("int", 1) else v
            return
        if op == "store":
            v = self.opv(env, ins.ty, ins.ops[0])
            a = possible(self.num(self.opv(env, ("ptr",), ins.ops[1])), g)
            tok = ("s", uidp, ins.blk, ins.idx)
            ev = Event(kind="store", name="store", dname="store", args=[a, self.num(v)], guard=g, loops=tuple(loops), ins=ins, no=self.no, mem=None, uid=tok, res=None, ty=ins.ty, size=self.T.size_align(ins.ty)[0])
            res.events.append(ev)
            if isinstance(v, Agg):
                self.store_agg(m, a, self.T.resolve(ins.ty), v, tok)
                return
            sz, _ = self.T.size_align(ins.ty)
            tg = ttag(ins.ty)
            for _g, _p in a.cases:
                TAGS[(_p, sz)] = tg
            m.store(a, sz, self.num(v), tok, tg)
            return
        if op == "getelementptr":
            env[ins.dest] = self.gep(env, ins.ty, list(ins.ops))
            return
        if op in ("call", "invoke"):
            self.call(ins, st, res)
            return
        if op in ("icmp", "fcmp"):
            env[ins.dest] = Bool(self.cmp(env, ins))
            return
        if op == "select":
            c = self.guard(env, ins.ops[0])
            a = self.opv(env, ins.ty, ins.ops[1])
            b = self.opv(env, ins.ty, ins.ops[2])
            if ins.ty == ("int", 1):
                ag = a.g if isinstance(a, Bool) else v_to_guard(a)
                bg = b.g if isinstance(b, Bool) else v_to_guard(b)
                env[ins.dest] = Bool(ite(c, ag, bg))
            else:
                env[ins.dest] = vguard(c, self.num(a), self.num(b))
            return
        if op in ("sext", "zext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fpext", "fptrunc", "fptosi", "fptoui", "freeze", "addrspacecast"):
            src = ins.x if op != "freeze" else ins.ty
            v = self.opv(env, src, ins.ops[0])
            if ins.ty == ("int", 1) and op != "freeze":
                env[ins.dest] = v if isinstance(v, Bool) else Bool(v_to_guard(v))
                return
            if op == "freeze":
                env[ins.dest] = v
                return
            if isinstance(v, Bool):
                v = guard_to_val(v.g)
                if op == "sext":
                    v = vneg(v)
            if op == "zext" and src[0] == "int" and src[1] <= 32:
                self.zexts.add((self.f.name, ins.dest))
            if op == "trunc" and any(p.const_val() is None and split64(p) is not None for _, p in v.cases):
                v = vmap(lambda p: split64(p)[0] if split64(p) else V(p), v)
            if op in ("fptosi", "fptoui"):
                v = vmap(lambda p: p if p.const_val() is not None and int(p.const_val()) == p.const_val() else Poly.atom(("fn", "trunc", (p,))), v)
            env[ins.dest] = v
            return
        if op == "fneg":
            env[ins.dest] = vneg(self.opv(env, ins.ty, ins.ops[0]))
            return
        if op in ("extractvalue",):
            v = self.opv(env, ins.ty, ins.ops[0])
            for i in ins.x:
                if isinstance(v, Agg):
                    v = v.el[i]
                else:
                    v = vmap(lambda p, i=i: Poly.atom(("ext", p, i, "x")), self.num(v))
            env[ins.dest] = v
            return
        if op == "insertvalue":
            v = self.opv(env, ins.ty, ins.ops[0])
            e = self.opv(env, ins.x[1], ins.ops[1])
            if not isinstance(v, Agg):
                v = self.undef_agg(ins.ty)
            if len(ins.x[0]) == 1:
                el = list(v.el)
                el[ins.x[0][0]] = e
                env[ins.dest] = Agg(el)
            else:
                env[ins.dest] = VA("insv", uidp, ins.dest, "x")
            return
        if op in ("add", "sub", "mul", "fadd", "fsub", "fmul", "fdiv", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor", "frem"):
            env[ins.dest] = self.binop(env, ins)
            return
        if op == "landingpad":
            env[ins.dest] = VA("lpad", uidp, ins.dest, "x")
            return
        if op == "atomicrmw":
            a = self.num(self.opv(env, ("ptr",), ins.ops[0]))
            sz, _ = self.T.size_align(ins.ty)
            env[ins.dest] = m.load(a, sz, ttag(ins.ty))
            m.store(a, sz, VA("rmw", uidp, ins.dest, ttag(ins.ty)), ("s", uidp, ins.blk, ins.idx))
            return
        if ins.dest:
            env[ins.dest] = VA("op", op, uidp, ins.dest, "x")

    def const_global(self, v, a, sz, ty):
        """constant initialisers of internal constants (numbers only)"""
        p = a.single()
        if p is None:
            return v
        at = p.single_atom()
        if at is None:
            return v
        k = atom_key(at)
        if k[0] != "global" or v.single() is None:
            return v
        at2 = v.single().single_atom()
        if at2 is None or atom_key(at2)[0] != "mem" or atom_key(at2)[2] is not None:
            return v
        d = self.mod.globals.get(k[1], "")
        mm = re.match(r"(?:[\w()]+ )*?constant (i\d+|double|float|ptr) ([^,]+)", d)
        if mm:
            from .ir import parse_operand
            try:
                return self.num(self.opv({}, ty, parse_operand(self.T, ty, mm.group(2))))
            except Exception:
                return v
        return v

    def load_agg(self, m, a, t):
        if t[0] == "struct":
            offs, _, _ = self.T.struct_layout(t)
            els = []
            for o, e in zip(offs, t[1]):
                els.append(self.load_agg(m, vadd(a, V(o)), self.T.resolve(e)))
            return Agg(els)
        if t[0] == "arr":
            s, _ = self.T.size_align(t[2])
            return Agg([self.load_agg(m, vadd(a, V(i * s)), self.T.resolve(t[2])) for i in range(t[1])])
        sz, _ = self.T.size_align(t)
        return m.load(a, sz, ttag(t))

    def store_agg(self, m, a, t, v, tok):
        if t[0] == "struct" and isinstance(v, Agg):
            offs, _, _ = self.T.struct_layout(t)
            for o, e, x in zip(offs, t[1], v.el):
                self.store_agg(m, vadd(a, V(o)), self.T.resolve(e), x, tok)
            return
        sz, _ = self.T.size_align(t)
        m.store(a, sz, self.num(v), tok)

    def cmp(self, env, ins):
        t = ins.ty
        a = self.opv(env, t, ins.ops[0])
        b = self.opv(env, t, ins.ops[1])
        pr = ins.x
        if isinstance(a, Bool) or isinstance(b, Bool):
            ag = a.g if isinstance(a, Bool) else v_to_guard(a)
            bg = b.g if isinstance(b, Bool) else v_to_guard(b)
            x = g_or(g_and(ag, g_not(bg)), g_and(g_not(ag), bg))
            return x if pr == "ne" else g_not(x)
        a, b = self.num(a), self.num(b)
        if t[0] == "ptr" and pr in ("eq", "ne"):
            r = self.ptr_eq(a, b)
            return r if pr == "eq" else g_not(r)
        if ins.op == "fcmp":
            if pr in ("ord", "uno"):
                return 1 if pr == "ord" else 0
            base = pr[1:]
            return g_cmp(base, a, b, False)
        mp = {"eq": "eq", "ne": "ne", "slt": "lt", "sle": "le", "sgt": "gt", "sge": "ge", "ult": "lt", "ule": "le", "ugt": "gt", "uge": "ge"}
        return g_cmp(mp[pr], a, b, True)

    def ptr_eq(self, a, b):
        acc = 0
        for g1, p in a.cases:
            for g2, q in b.cases:
                g = g_and(g1, g2)
                if g == 0:
                    continue
                d = p - q
                if d.const_val() is not None:
                    r = 1 if d.const_val() == 0 else 0
                else:
                    def nn(x):
                        s = x.single_atom()
                        return s is not None and (atom_key(s)[0] in ("alloca", "global", "get") or (atom_key(s)[0] == "call" and atom_key(s)[1] in ("_Znwm", "_Znam")))

                    def arg_(x):
                        """a pointer argument (distinct arguments do not alias)"""
                        return x.single_atom() is not None and atom_key(x.single_atom())[0] == "arg"

                    if q == ZERO and nn(base_of(p)[0] or ZERO):
                        r = 0
                    elif p == ZERO and nn(base_of(q)[0] or ZERO):
                        r = 0
                    elif nn(p) and nn(q) or arg_(p) and arg_(q):
                        r = 0
                    else:
                        r = eq0(d)
                acc = g_or(acc, g_and(g, r))
        return acc

    def binop(self, env, ins):
        op = ins.op
        a = self.opv(env, ins.ty, ins.ops[0])
        b = self.opv(env, ins.ty, ins.ops[1])
        if ins.ty == ("int", 1):
            ag = a.g if isinstance(a, Bool) else v_to_guard(a)
            bg = b.g if isinstance(b, Bool) else v_to_guard(b)
            if op == "and":
                return Bool(g_and(ag, bg))
            if op == "or":
                return Bool(g_or(ag, bg))
            if op in ("xor", "add", "sub"):
                return Bool(ite(ag, g_not(bg), bg))
        a, b = self.num(a), self.num(b)
        if op in ("add", "fadd"):
            return vadd(a, b)
        if op in ("sub", "fsub"):
            return vsub(a, b)
        if op in ("mul", "fmul"):
            return vmul(a, b)
        if op == "fdiv":
            return vdiv(a, b)
        if op == "shl":
            c = b.const()
            if c is not None:
                return vmul(a, V(1 << int(c)))
        if op == "lshr" and b.const() == 32 and ins.ty == ("int", 64) and all(split64(p) is not None for _, p in a.cases):
            return vmap(lambda p: split64(p)[1], a)
        if op == "and" and b.const() in (TWO32 - 1, -TWO32) and ins.ty == ("int", 64):
            if all(split64(p) is not None for _, p in a.cases):
                return vmap(lambda p: split64(p)[0], a) if b.const() > 0 else vmul(V(TWO32), vmap(lambda p: split64(p)[1], a))
            if b.const() > 0 and all(atom_key(x)[-1] == "i32" for _, p in a.cases for x in p.atoms()):
                return a
        if op in ("ashr", "lshr") and "exact" in (ins.x or []):
            c = b.const()
            if c is not None:
                return vmul(a, V(Fraction(1, 1 << int(c))))
        if op in ("sdiv", "udiv"):
            c = b.const()
            if "exact" in (ins.x or []) and c is not None:
                return vmul(a, V(Fraction(1, int(c))))

            def dv(x, y):
                if x.const_val() is not None and y.const_val() not in (None, 0):
                    q = abs(int(x.const_val())) // abs(int(y.const_val()))
                    return Poly.const(q if (x.const_val() < 0) == (y.const_val() < 0) else -q)
                if y == ONE:
                    return x
                return Poly.atom(("fn", "idiv", (x, y)))
            return vmap(dv, a, b)
        if op == "or" and "disjoint" in (ins.x or []):
            return vadd(a, b)
        narrow = lambda o, v: low_only(v) or o[0] == "v" and (self.f.name, o[1]) in self.zexts
        if op == "or" and ins.ty == ("int", 64) and (high_only(a) and narrow(ins.ops[1], b) or high_only(b) and narrow(ins.ops[0], a)):
            return vadd(a, b)
        if op == "xor" and b.const() == -1:
            return vsub(vneg(a), V(1))
        if op in ("srem", "urem"):
            return vmap(lambda x, y: Poly.const(int(x.const_val()) % int(y.const_val())) if x.const_val() is not None and y.const_val() not in (None, 0) and x.const_val() >= 0 else Poly.atom(("fn", "irem", (x, y))), a, b)
        if op in ("and", "or", "xor"):
            # boolean-valued bytes
            if all(p.const_val() in (0, 1) for _, p in a.cases) and all(p.const_val() in (0, 1) for _, p in b.cases):
                ag, bg = v_to_guard(a), v_to_guard(b)
                return guard_to_val({"and": g_and(ag, bg), "or": g_or(ag, bg), "xor": ite(ag, g_not(bg), bg)}[op])
            return vmap(lambda x, y: Poly.atom(("fn", op, tuple(sorted((x, y), key=lambda z: z.t)))), a, b)
        return vmap(lambda x, y: Poly.atom(("fn", op, (x, y))), a, b)

    # ------------------------------------------------------------ calls
    def call(self, ins, st, res):
        env, m, g, loops, uidp = st
        x = ins.x
        cal = x["callee"]
        args = []
        attrs = []
        for t, o, at in x["args"]:
            if t[0] == "metadata":
                args.append(V(0))
            else:
                a = self.opv(env, t, o)
                args.append(possible(a, g) if t[0] == "ptr" else a)
            attrs.append((t, at))
        uid = (uidp, ins.blk, ins.idx)
        if cal[0] == "g":
            name = cal[1]
            if name.startswith("llvm."):
                if self.intrinsic(name, ins, args, st, res):
                    return
            cv = None
        else:
            cv = self.num(self.opv(env, ("ptr",), cal)) if cal[0] != "copaque" else VA("constexpr", str(cal[1]), "x")
            p = cv.single()
            if p is not None and p.single_atom() is not None and atom_key(p.single_atom())[0] == "global":
                name = atom_key(p.single_atom())[1]
            else:
                name = None
        vslot = None
        if name is None:
            vslot = self.vcall(cv)
            name = "<virtual+%d>" % vslot[1] if vslot else "<indirect>"
        dn = dem(name) if not name.startswith("<") else name
        nargs = [self.num(a) for a in args]
        ev = Event(kind="call", name=name, dname=dn, args=nargs, raw=args, attrs=attrs, guard=g, loops=tuple(loops), ins=ins, no=self.no, mem=m.copy(), uid=uid, res=None, callee=cv, vslot=vslot, ty=ins.ty)
        res.events.append(ev)
        for rx, fn in self.models:
            if rx.search(dn) or rx.search(name):
                r = fn(self, ev, m, st)
                if r is not NotImplemented:
                    ev.res = r
                    if ins.dest:
                        env[ins.dest] = r if r is not None else VA("void", "x")
                    return
        r = self.builtin(ev, m)
        if r is NotImplemented:
            r = self.opaque(ev, m)
        ev.res = r
        if ins.dest:
            env[ins.dest] = r

    def vcall(self, cv):
        """virtual call: callee = load(load(obj)+8*slot) -> (obj poly, slot)"""
        p = cv.single()
        if p is None:
            return None
        a = p.single_atom()
        if a is None or atom_key(a)[0] != "mem":
            return None
        addr = atom_key(a)[1]
        off = addr.const_part()
        b = addr.drop_const().single_atom()
        if b is None or atom_key(b)[0] != "mem":
            return None
        return (atom_key(b)[1], int(off) // 8)

    def builtin(self, ev, m):
        """contracts of smart-pointer copies (value semantics of the raw pointer inside)"""
        dn = ev.dname
        mm = SP_RE.match(dn)
        if mm and len(ev.args) == 2:
            ps, _ = param_types(dn)
            d, a = ev.args
            tok = ("sp", ev.uid)
            if mm.group(2).startswith("operator=") or mm.group(2) in ("shared_ptr", "__shared_ptr"):
                pt = ps[-1] if ps else ""
                if "shared_ptr<" in pt:
                    v = m.load(a, 8, "p")
                elif pt.endswith("*"):
                    v = a
                elif "nullptr_t" in pt or "sp_nullptr" in pt:
                    v = V(0)
                else:
                    return NotImplemented
                for g, p in d.cases:
                    m.region(p, 16, "havoc", tok)
                    m.objver[p] = tok
                m.store(d, 8, v, tok)
                return d if ev.ty and ev.ty[0] != "void" else None
        if SP0_RE.match(dn) and len(ev.args) == 1:
            for g, p in ev.args[0].cases:
                m.region(p, 16, "havoc", ("sp", ev.uid))
            m.store(ev.args[0], 8, V(0), ("sp", ev.uid))
            return None
        mm = SPRESET_RE.match(dn)
        if mm and len(ev.args) in (1, 2):
            for g, p in ev.args[0].cases:
                m.region(p, 16, "havoc", ("sp", ev.uid))
            m.store(ev.args[0], 8, ev.args[1] if len(ev.args) == 2 else V(0), ("sp", ev.uid))
            return None
        return NotImplemented

    def arg_desc(self, m, v, tag):
        p = v.single()
        if p is not None:
            b, off = base_of(p)
            if b is not None and atom_key(b.single_atom())[0] == "alloca" and p in m.cells:
                return ("ref", m.cells[p][1])
            return p
        return v

    def opaque(self, ev, m):
        name, dn = ev.name, ev.dname
        n = len(ev.args)
        ty = ev.ty
        # --- which pointer args may be written
        writes = []
        isconst_method = False
        if name in C_WRITES:
            for i in C_WRITES[name]:
                if i < n:
                    ln = C_LEN.get((name, i))
                    if isinstance(ln, tuple):
                        c = ev.args[ln[0]].const()
                        ln = int(c) * ln[1] if c is not None else None
                    writes.append((i, ln))
        elif name in PURE_C:
            writes = []
        elif name.startswith("_Z"):
            ps, mc = param_types(dn)
            ps = [] if ps is None or ps == [""] or ps == ["void"] else ps
            sret = any(a.startswith("sret") for t, at in ev.attrs[:1] for a in at) or (n > 1 and any(a.startswith("sret") for a in ev.attrs[1][1]))
            k = n - len(ps)
            ptypes = ["?"] * max(0, k) + ps
            ptypes = ptypes[-n:] if n else []
            isconst_method = name.startswith("_ZNK")
            for i in range(n):
                t, at = ev.attrs[i]
                if t[0] != "ptr":
                    continue
                pt = ptypes[i]
                de = None
                for a in at:
                    mm = re.match(r"dereferenceable\((\d+)\)", a)
                    if mm:
                        de = int(mm.group(1))
                    if a.startswith("sret"):
                        pt = "sret"
                if pt == "?" and isconst_method and not sret:
                    continue
                if pt == "?" and isconst_method and sret and i > 0:
                    continue
                if "readonly" in at or "readnone" in at:
                    continue
                if pt.endswith("const&") or pt.endswith("const*"):
                    continue
                if pt not in ("?", "sret") and not pt.endswith("&") and not pt.endswith("*"):
                    # class passed by value through a pointer
                    pass
                if pt.endswith("*") and de is None:
                    # raw pointer to something: only locals are assumed written
                    p = ev.args[i].single()
                    if p is None:
                        continue
                    b, off = base_of(p)
                    if b is None or atom_key(b.single_atom())[0] != "alloca" or name.startswith("_ZSt") or name.startswith("_ZNSt"):
                        continue
                writes.append((i, de))
        else:
            for i in range(n):
                if ev.attrs[i][0][0] == "ptr" and not ("readonly" in ev.attrs[i][1] or "readnone" in ev.attrs[i][1]):
                    p = ev.args[i].single()
                    if p is None:
                        continue
                    b, off = base_of(p)
                    if b is not None and atom_key(b.single_atom())[0] == "alloca":
                        writes.append((i, None))
        # --- result
        desc = tuple(self.arg_desc(m, a, None) for a in ev.args)
        pure = isconst_method or name in PURE_C
        if pure:
            vers = []
            for i, a in enumerate(ev.args):
                p = a.single()
                if p is not None and ev.attrs[i][0][0] == "ptr" and p in m.objver:
                    vers.append((i, m.objver[p]))
            uid = tuple(vers) if vers else None
        else:
            uid = ev.uid
        r = None
        if ty and ty[0] != "void":
            def mkres(t, idx):
                if self.T.resolve(t)[0] == "struct":
                    return Agg([mkres(e, idx + (i,)) for i, e in enumerate(self.T.resolve(t)[1])])
                key = ("call", name, desc, (uid if not idx else (uid, idx)), ttag(t))
                if t == ("int", 1):
                    return Bool(g_atom(("bool", Poly.atom(key))))
                return V(Poly.atom(key))
            if pure and uid is None:
                # keep pure functions foldable through cases
                if name in PURE_C and not isinstance(ty, type(None)) and ty[0] == "fp" and all(isinstance(d, (Poly, Val)) for d in desc):
                    nm = name.rstrip("f") if name in ("sqrtf", "floorf", "powf") else name
                    r = vfn(nm, *ev.args)
                else:
                    r = mkres(ty, ())
            else:
                r = mkres(ty, ())
        # --- memory effects
        for i, ln in writes:
            for gg, p in ev.args[i].cases:
                tok = ("o", name, i, ev.uid)
                b, off = base_of(p)
                if b is None:
                    continue
                if ln is None and atom_key(b.single_atom())[0] == "alloca":
                    ln2 = None
                else:
                    ln2 = ln
                if ln2 is None and off.const_val() is None:
                    ln2 = None
                m.region(p if off.const_val() is not None else b, ln2, "havoc", tok)
                m.objver[p] = tok
        return r

    def intrinsic(self, name, ins, args, st, res):
        env, m, g, loops, uidp = st
        if name.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.experimental", "llvm.invariant", "llvm.stacksave", "llvm.stackrestore", "llvm.prefetch", "llvm.va_")):
            if name.startswith("llvm.lifetime"):
                return True
            if ins.dest:
                env[ins.dest] = VA("intr", name, uidp, ins.dest, "x")
            return True
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            d, s, n = self.num(args[0]), self.num(args[1]), self.num(args[2])
            ev = Event(kind="memcpy", name=name, dname="memcpy", args=[d, s, n], guard=g, loops=tuple(loops), ins=ins, no=self.no, mem=m.copy(), uid=(uidp, ins.blk, ins.idx), res=None, ty=None, attrs=[])
            res.events.append(ev)
            c = n.const()
            dp = d.single()
            if dp is None:
                for gg, p in d.cases:
                    m.region(p, None if c is None else int(c), "havoc", ("mc", uidp, ins.blk, ins.idx))
                return True
            if c is None:
                m.region(dp, None, "havoc", ("mc", uidp, ins.blk, ins.idx))
            else:
                snap = m.copy()
                m.region(dp, int(c), "copy", s, snap)
            return True
        if name.startswith("llvm.memset"):
            d, v, n = self.num(args[0]), self.num(args[1]), self.num(args[2])
            ev = Event(kind="memset", name=name, dname="memset", args=[d, v, n], guard=g, loops=tuple(loops), ins=ins, no=self.no, mem=m.copy(), uid=(uidp, ins.blk, ins.idx), res=None, ty=None, attrs=[])
            res.events.append(ev)
            c = n.const()
            dp = d.single()
            if dp is not None:
                vc = v.const()
                m.region(dp, None if c is None else int(c), "const" if c is not None else "havoc", int(vc) if vc is not None and c is not None else ("ms", uidp, ins.blk, ins.idx))
            return True
        if ins.dest is None:
            return True
        base = name.split(".")[1]
        a = [self.num(z) for z in args]
        if base in ("smax", "umax", "maxnum", "maximum"):
            isint = base in ("smax", "umax")
            env[ins.dest] = vguard(g_cmp("lt", a[0], a[1], isint), a[1], a[0])
        elif base in ("smin", "umin", "minnum", "minimum"):
            isint = base in ("smin", "umin")
            env[ins.dest] = vguard(g_cmp("lt", a[1], a[0], isint), a[1], a[0])
        elif base in ("abs", "fabs"):
            env[ins.dest] = vguard(g_cmp("lt", a[0], V(0), base == "abs"), vneg(a[0]), a[0])
        elif base in ("fmuladd", "fma"):
            env[ins.dest] = vadd(vmul(a[0], a[1]), a[2])
        elif base in ("sqrt", "floor", "ceil", "pow", "exp", "log", "sin", "cos", "trunc", "round", "rint", "log10", "exp2"):
            env[ins.dest] = vfn(base, *a)
        elif base == "umul":     # umul.with.overflow
            env[ins.dest] = Agg([vmul(a[0], a[1]), Bool(0)])
        elif base in ("uadd", "sadd"):
            env[ins.dest] = Agg([vadd(a[0], a[1]), Bool(0)])
        elif base in ("smul",):
            env[ins.dest] = Agg([vmul(a[0], a[1]), Bool(0)])
        elif base == "expect":
            env[ins.dest] = args[0]
        elif base == "objectsize":
            env[ins.dest] = V(-1)
        elif base == "is":
            env[ins.dest] = Bool(g_atom(("bool", Poly.atom(("intr", name, a[0], "i1")))))
        else:
            if ins.ty == ("int", 1):
                env[ins.dest] = Bool(g_atom(("bool", Poly.atom(("intr", name, tuple(a), "i1")))))
            else:
                env[ins.dest] = vmap(lambda *ps: Poly.atom(("fn", base, tuple(ps))), *a) if a else VA("intr", name, uidp, ins.dest, "x")
        return True


TAGS = {}       # types seen in typed loads/stores of an address


def guess_tag(sz, v, p=None):
    t = TAGS.get((p, sz))
    if t is not None:
        return t
    for _, p in v.cases:
        for x in p.atoms():
            k = atom_key(x)
            if is_ptr_atom(k) and sz == 8:
                return "p"
            if k[-1] in ("d", "f") and sz in (4, 8):
                return k[-1]
    return "i%d" % (sz * 8)


class MergedMem:
    """snapshot of several memories merged on demand"""

    def __init__(self, ins, g):
        self.ins = [(gg, m.copy()) for gg, m in ins]
        self.g = g

    def __eq__(self, o):
        return self is o

    def load1(self, p, size, tag):
        cases = []
        for gg, m in self.ins:
            v = m.load1(p, size, tag)
            for cg, q in v.cases:
                c = g_and(gg, cg)
                if self.g not in (0, 1) and c != 0:
                    c = g_restrict(c, self.g)
                cases.append((c, q))
        return Val(cases)

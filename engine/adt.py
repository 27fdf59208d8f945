"""Contracts of the standard-library and boost abstractions the configuration code is written in.

Strings, sequences, associative containers, iterators, smart pointers and variants are values:
one abstract value per object, kept in the object's first cell.  A sequence iterator is
(sequence base) + index, so iterator, index and range-based loops have the same normal form; a
map lookup by count, find, at or operator[] has the same normal form as well.  Destructors have no
effect.  Everything else that is opaque becomes an effect event whose result is named by the
callee, the values of its arguments and its position among compatible calls of the same callee.
"""
import re
from .val import *
from .absint import (Analyzer, Memory, Bool, Agg, Event, base_of, param_types, func_base, strip_templates, dem, ttag, is_ptr_atom,
                     _split_top, PURE_C, C_WRITES)
from .ir import ToolError

_cls = {}


class Name:
    pass


def norm_name(s):
    return s.replace("__cxx11::", "").replace("[abi:cxx11]", "").replace("std::__ndk1::", "std::")


def classify(dn):
    n = _cls.get(dn)
    if n is not None:
        return n
    n = Name()
    d = norm_name(dn)
    n.full = d
    n.params, n.isconst = param_types(d)
    n.params = [] if n.params in (None, [""], ["void"]) else n.params
    base = func_base(d)
    # cut a leading return type: last space at template depth 0 (not part of "operator x")
    depth = 0
    cut = 0
    i = 0
    while i < len(base):
        c = base[i]
        if base.startswith("operator", i) and (i == 0 or not (base[i - 1].isalnum() or base[i - 1] == "_")):
            break
        if c in "<(":
            depth += 1
        elif c in ">)":
            depth -= 1
        elif c == " " and depth == 0:
            cut = i + 1
        i += 1
    base = base[cut:]
    n.base = base
    # split at the last :: at depth 0
    depth = 0
    k = -1
    i = 0
    while i < len(base) - 1:
        c = base[i]
        if base.startswith("operator", i) and (i == 0 or base[i - 1] == ":"):
            break
        if c in "<(":
            depth += 1
        elif c in ">)":
            depth -= 1
        elif depth == 0 and base.startswith("::", i):
            k = i
            i += 1
        i += 1
    n.clsfull = base[:k] if k >= 0 else ""
    n.method_full = base[k + 2:] if k >= 0 else base
    n.cls = strip_templates(n.clsfull)
    n.method = strip_templates(n.method_full) if not n.method_full.startswith("operator") else re.sub(r"(?<=operator)(\W+?)<[^-].*$", r"\1", n.method_full)
    if n.method_full.startswith("operator"):
        mm = re.match(r"operator(\(\)|\[\]|<<=|>>=|<=>|->\*|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|%=|&=|\|=|\^=|[-+*/%^&|~!=<>,]| .*)", n.method_full)
        n.method = "operator" + (mm.group(1) if mm else "")
    n.targs = []
    mm = re.search(r"<", n.clsfull)
    if mm and n.clsfull.endswith(">"):
        # last template argument list
        depth = 0
        for j in range(len(n.clsfull) - 1, -1, -1):
            if n.clsfull[j] == ">":
                depth += 1
            elif n.clsfull[j] == "<":
                depth -= 1
                if depth == 0:
                    n.targs = _split_top(n.clsfull[j + 1:-1])
                    break
    _cls[dn] = n
    return n


SCALAR = {"int": (4, "i32"), "unsigned int": (4, "i32"), "bool": (1, "i8"), "char": (1, "i8"), "double": (8, "d"), "float": (4, "f"), "long": (8, "i64"),
          "unsigned long": (8, "i64"), "unsigned char": (1, "i8"), "short": (2, "i16")}


def tinfo(T):
    T = T.replace(" const", "").replace("&", "").strip()
    return SCALAR.get(T, (8, "p"))


def is_string(T):
    return T.replace(" const", "").replace("&", "").strip().startswith(("std::basic_string<", "std::string"))


KINDS = {"std::list": "seq", "std::vector": "seq", "std::deque": "seq", "std::map": "map", "std::set": "set", "std::multimap": "mmap", "std::stack": "stack", "std::queue": "queue",
         "std::basic_string": "str", "std::shared_ptr": "sp", "std::__shared_ptr": "sp", "boost::shared_ptr": "sp", "std::unordered_map": "map", "std::unordered_set": "set",
         "std::forward_list": "seq"}
OBJ_SIZE = {"str": 32, "seq": 24, "map": 48, "set": 48, "sp": 16, "stack": 80, "queue": 80}
ITERS = ("std::_List_iterator", "std::_List_const_iterator", "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "__gnu_cxx::__normal_iterator",
         "std::_Deque_iterator", "std::reverse_iterator")


def at(m, a, T=None):
    sz, tg = tinfo(T) if T else (8, "p")
    return m.load(a, sz, tg)


def put(m, a, v, uid, size=None):
    tok = ("adt", uid)
    for g, p in a.cases:
        if g == 1 and size and size > 8:
            m.region(p, size, "havoc", tok)
    m.store(a, 8, v, tok, "p")


def fnp(name, *ps):
    return Poly.atom(("fn", name, tuple(ps)))


def fn(name, *vs):
    return vmap(lambda *ps: fnp(name, *ps), *vs)


def lit(s):
    return Poly.atom(("str", s, "p"))


def key_of(p):
    a = p.single_atom()
    return atom_key(a) if a is not None else None


def fkey(p, name):
    k = key_of(p)
    return k[2] if k is not None and k[0] == "fn" and k[1] == name else None


# ---------------------------------------------------------------- strings
def cparts(p):
    k = fkey(p, "cat")
    return list(k) if k is not None else [p]


def is_lit(p):
    k = key_of(p)
    return k[1] if k is not None and k[0] == "str" else None


def cat2(p, q):
    parts = []
    for x in cparts(p) + cparts(q):
        l = is_lit(x)
        if l == "":
            continue
        if l is not None and parts and is_lit(parts[-1]) is not None:
            parts[-1] = lit(is_lit(parts[-1]) + l)
        else:
            parts.append(x)
    if not parts:
        return lit("")
    if len(parts) == 1:
        return parts[0]
    return fnp("cat", *parts)


def cat(a, b):
    return vmap(cat2, a, b)


def val_eq(a, b):
    acc = 0
    for g1, p in a.cases:
        for g2, q in b.cases:
            g = g_and(g1, g2)
            if g:
                acc = g_or(acc, g_and(g, peq(p, q)))
    return acc


def peq(p, q):
    if p == q:
        return 1
    l1, l2 = is_lit(p), is_lit(q)
    if l1 is not None and l2 is not None:
        return 0
    for x, y in ((p, q), (q, p)):
        k = key_of(x) if y.const_val() == 0 else None
        if k is not None and (k[0] == "get" or k[:2] in (("call", "_Znwm"), ("call", "_Znam"))):
            return 0      # addresses of what exists are not null
    return eq0(p - q)


def cstring(A, m, v):
    """value of a char const* argument as a string value"""
    def f(p):
        k = key_of(p)
        if k is not None and k[0] == "global":
            t = A.mod.globals.get(k[1], "")
            mm = re.search(r'c"((?:[^"])*)"', t)
            if mm:
                s = re.sub(r"\\([0-9A-Fa-f]{2})", lambda x: chr(int(x.group(1), 16)), mm.group(1))
                return lit(s.rstrip("\0"))
            if re.search(r"\[1 x i8\] zeroinitializer", t):
                return lit("")
        kk = fkey(p, "c_str")
        if kk is not None:
            return kk[0]
        return fnp("cstr", p)
    return vmap(f, v)


def sval(A, m, ev, i, T):
    """string value of argument i with parameter type T"""
    a = ev.args[i]
    if T.rstrip().endswith("*") and "char" in T:
        return cstring(A, m, a)
    if is_string(T):
        return at(m, a)
    if T.strip() == "char":
        return vmap(lambda p: lit(chr(int(p.const_val()))) if p.const_val() is not None else fnp("chr", p), a)
    return None


# ---------------------------------------------------------------- sequences
def size1(p):
    if p == ZERO:
        return ZERO
    k = key_of(p)
    if k is not None and k[0] == "fn":
        if k[1] == "snoc" or k[1] == "cons":
            return size1(k[2][0]) + ONE
        if k[1] in ("tail", "init"):
            return size1(k[2][0]) - ONE
        if k[1] == "append":
            return size1(k[2][0]) + size1(k[2][1])
        if k[1] == "repeat":
            return k[2][0]
        if k[1] == "resize":
            return k[2][1]
    if is_lit(p) is not None:
        return Poly.const(len(is_lit(p)))
    return fnp("size", p)


def size(v):
    return vmap(size1, v)


def elt1(L, i):
    """address of element i of sequence value L"""
    while True:
        t = fkey(L, "tail")
        if t is not None:
            L, i = t[0], i + ONE
            continue
        t = fkey(L, "init")
        if t is not None:
            L = t[0]
            continue
        break
    return Poly.atom(("elt", L, i, "p"))


def itb(L):
    """begin iterator of a sequence value"""
    off = ZERO
    while True:
        t = fkey(L, "tail")
        if t is not None:
            L, off = t[0], off + ONE
            continue
        t = fkey(L, "init")
        if t is not None:
            L = t[0]
            continue
        break
    return Poly.atom(("itb", L, "p")) + off


def itb_of(p):
    """(sequence value, index) of an iterator value"""
    for m, c in p.t:
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            k = atom_key(m[0][0])
            if k[0] == "itb":
                return k[1], p - Poly({m: 1})
    return None


def deref(p):
    r = itb_of(p)
    if r is not None:
        return elt1(r[0], r[1])
    k = key_of(p)
    if k is not None and k[0] == "mapit":
        return Poly.atom(("mapelt", k[1], k[2], "p"))
    return Poly.atom(("deref", p, "p"))


def has1(M, k):
    if M == ZERO:
        return 0
    t = fkey(M, "ins")
    if t is not None:
        return g_or(peq(t[1], k), has1(t[0], k))
    t = fkey(M, "del")
    if t is not None:
        return g_and(g_not(peq(t[1], k)), has1(t[0], k))
    t = fkey(M, "union")
    if t is not None:
        return g_or(has1(t[0], k), has1(t[1], k))
    return g_atom(("bool", Poly.atom(("has", M, k, "i1"))))


def has(M, k):
    acc = 0
    for g1, p in M.cases:
        for g2, q in k.cases:
            g = g_and(g1, g2)
            if g:
                acc = g_or(acc, g_and(g, has1(p, q)))
    return acc


def ins(M, k):
    def f(p, q):
        if has1(p, q) == 1:
            return p
        t = fkey(p, "ins")
        if t is not None and t[1].t > q.t:
            return fnp("ins", fnp("ins", t[0], q), t[1])
        return fnp("ins", p, q)
    return vguard(has(M, k), M, vmap(f, M, k))


def union(M, N):
    def f(p, q):
        if p == ZERO:
            return q
        if q == ZERO:
            return p
        if p == q:
            return p
        a = []
        for x in (p, q):
            t = fkey(x, "union")
            a.append(x) if t is None else a.extend(t)
        s = sorted(set(a), key=lambda z: z.t)
        return fnp("union", *s)
    return vmap(f, M, N)


def snapshot(A, m, a, T):
    """value of a T object at address a"""
    sz, tg = tinfo(T)
    if (sz, tg) != (8, "p"):
        return m.load(a, sz, tg)
    p = a.single()
    if p is None:
        return m.load(a, 8, "p")
    if any(T.replace("const", "").strip().startswith(x) for x in ("std::", "boost::")) or T.rstrip().endswith("*"):
        return m.load(a, 8, "p")
    els = []
    n = A.sizeof(T)
    if n is None:
        return m.load(a, 8, "p")
    for q, (s, v) in m.cells.items():
        d = (q - p).const_val()
        if d is not None and 0 <= d < n:
            els.append((int(d), v))
    if not els:
        return V(Poly.atom(("objat", p, "p")))
    els.sort(key=lambda x: x[0])
    return vmap(lambda *ps: Poly.atom(("obj", T, tuple((o, q) for (o, _), q in zip(els, ps)), "p")), *[v for _, v in els])


class AdtAnalyzer(Analyzer):
    """effects: regex of opaque callees that are pure queries; their results depend on their arguments only"""

    def __init__(self, mod, models=(), opts=None, pure=None):
        super().__init__(mod, list(models) + MODELS, opts)
        self.pure_re = re.compile(pure) if pure else None
        self.dnsz = {}

    def sizeof(self, T):
        T = T.replace(" const", "").replace("&", "").strip()
        for nm in ("class." + T, "struct." + T):
            t = ("named", nm)
            try:
                return self.T.size_align(t)[0]
            except Exception:
                pass
        return None

    def run(self, fname, args=None, mem=None, tag=""):
        return super().run(fname, args, mem, tag)

    # --- canonical occurrence number of an effect among the compatible ones of this pass
    def occ(self, kind, desc, g, loops=()):
        log = self.res.__dict__.setdefault("occlog", [])
        n = 0
        for k2, d2, g2, n2 in log:
            if k2 == kind and d2 == desc and g_and(g, g2) != 0:
                n = max(n, n2 + 1)
        log.append((kind, desc, g, n))
        return n

    def ref_desc(self, m, v, T=None):
        """describe a pointer argument by what it points to when that is a tracked value"""
        p = v.single()
        if p is not None:
            if p in m.cells:
                return ("ref", m.cells[p][1])
            b, off = base_of(p)
            if b is not None and key_of(b)[0] == "alloca" and T and T.endswith("&"):
                return ("ref", m.load1(p, *tinfo(T)))
            return p
        return v

    def opaque(self, ev, m):
        nm = classify(ev.dname)
        name = ev.name
        if name.startswith("_ZTv") or name.startswith("_ZTh"):
            return super().opaque(ev, m)
        n = len(ev.args)
        sret = None
        for i, (t, at_) in enumerate(ev.attrs[:2]):
            if any(x.startswith("sret") for x in at_):
                sret = i
        # parameter types aligned to the right
        pts = [None] * n
        ps = nm.params
        for j in range(len(ps)):
            i = n - len(ps) + j
            if 0 <= i < n:
                pts[i] = ps[j]
        isvirt = name.startswith("<")
        desc = []
        for i, a in enumerate(ev.args):
            if i == sret:
                continue
            t = ev.attrs[i][0]
            if t[0] != "ptr":
                desc.append(a)
                continue
            T = pts[i]
            p = a.single()
            local = p is not None and base_of(p)[0] is not None and key_of(base_of(p)[0])[0] == "alloca"
            if T is not None and (is_string(T) or strip_templates(T.replace("&", "").replace(" const", "").strip()) in KINDS):
                desc.append(("ref", at(m, a)))
            elif p is not None and key_of(p) is not None and key_of(p)[0] == "global" and re.search(r'constant \[\d+ x i8\]', self.mod.globals.get(key_of(p)[1], "")):
                desc.append(("ref", cstring(self, m, a)))
            elif local and p in m.cells:
                desc.append(("ref", m.cells[p][1]))
            elif local:
                off = p - base_of(p)[0]
                desc.append(("ref", V(Poly.atom(("local", "p") if off.const_val() is not None else ("local", off, "p")))))
            else:
                desc.append(a)
        desc = tuple(x if isinstance(x, tuple) else x for x in desc)
        if isvirt and ev.vslot is not None:
            ident = ("virtual", ev.vslot[1])
        elif isvirt:
            ident = ("indirect", ev.callee)
        else:
            # const and non-const overloads of a library algorithm are the same algorithm
            ident = name
            if "boost::algorithm::" in ev.dname and not name.startswith("<"):
                ident = strip_templates(func_base(classify(ev.dname).full)).split(" ")[-1]
        pure = name in PURE_C or (self.pure_re is not None and self.pure_re.search(ev.dname if not isvirt else "virtual%s" % (ident[1],)) is not None)
        std = nm.cls.startswith(("std", "boost", "__gnu_cxx")) and not isvirt
        stdpure = std and not re.search(r"ostream|istream|basic_ios|filebuf|Kokkos", ev.dname)
        if pure or stdpure:
            occ = None
        else:
            occ = self.occ(ident, desc, ev.guard)
        ev.ident, ev.desc, ev.occ = ident, desc, occ
        ev.effect = occ is not None
        key = ("call", ident, desc, occ)
        r = None
        ty = ev.ty

        def mkres(t, idx):
            if self.T.resolve(t)[0] == "struct":
                return Agg([mkres(e, idx + (i,)) for i, e in enumerate(self.T.resolve(t)[1])])
            k = ("call", ident, desc, occ if not idx else (occ, idx), ttag(t))
            if t == ("int", 1):
                return Bool(g_atom(("bool", Poly.atom(k))))
            if name in PURE_C and t[0] == "fp" and not idx:
                return vfn(name.rstrip("f") if name in ("sqrtf", "floorf", "powf") else name, *ev.args)
            return V(Poly.atom(k))
        if ty and ty[0] != "void":
            r = mkres(ty, ())
        if sret is not None:
            put(m, ev.args[sret], V(Poly.atom(("call", ident, desc, (occ, "ret"), "p"))), ev.uid, 16)
        if not pure:
            cm = name.startswith("_ZNK")
            for i, a in enumerate(ev.args):
                if i == sret or ev.attrs[i][0][0] != "ptr":
                    continue
                T = pts[i]
                if "readonly" in ev.attrs[i][1] or "readnone" in ev.attrs[i][1]:
                    continue
                if name in C_WRITES and i not in C_WRITES[name]:
                    continue
                if T is not None and (T.endswith("const&") or T.endswith("const*") or not (T.endswith("&") or T.endswith("*"))):
                    continue
                if T is not None and T.endswith("*") and not name in C_WRITES:
                    p = a.single()
                    if p is None or base_of(p)[0] is None or key_of(base_of(p)[0])[0] != "alloca":
                        continue
                if T is None:
                    if cm:
                        continue
                    if not std and not name in C_WRITES:
                        # object of an opaque repository or virtual call: its state is versioned
                        p = a.single()
                        if p is None or base_of(p)[0] is None or key_of(base_of(p)[0])[0] != "alloca":
                            continue
                for g, p in a.cases:
                    if base_of(p)[0] is not None and base_of(p)[1].const_val() is not None:
                        # for the calls named: what the call finds there is part of what it leaves there
                        old = (m.cells[p][1],) if self.opts.get("adds") and re.search(self.opts["adds"], name) and p in m.cells else ()
                        put(m, V(p), V(Poly.atom(("call", ident, desc, (occ, "out", i) + old, "p"))), ev.uid, 8)
        for rx, arg in self.opts.get("clobber", ()):
            # a call that changes what an argument of the analysed function refers to
            if re.search(rx, ev.dname):
                m.store(VA("arg", arg, "p"), 8, V(Poly.atom(("call", ident, desc, (occ, "clobber", arg), "double"))), ("adt", ev.uid), "double")
        if nm.method == "operator<<" and len(ev.args) == 2 and ps and "ostream" in ps[0]:
            return ev.args[0]       # an inserter returns its stream
        return r


# ---------------------------------------------------------------- models
def M_dtor(A, ev, m, st):
    return None


def M_new(A, ev, m, st):
    c = ev.args[0].const()
    sz = int(c) if c is not None else 0
    n = A.occ("new", sz, ev.guard)
    ev.effect = False
    return V(Poly.atom(("new", sz, n, "p")))


def M_throw(A, ev, m, st):
    ev.kind = "throw"
    p = ev.args[1].single()
    k = key_of(p) if p is not None else None
    ev.etype = dem(k[1]).replace("typeinfo for ", "") if k and k[0] == "global" else "?"
    return None


def M_allocexc(A, ev, m, st):
    ev.effect = False
    return V(Poly.atom(("exc", ev.uid, "p")))


def sret_of(ev):
    for i, (t, a) in enumerate(ev.attrs[:2]):
        if any(x.startswith("sret") for x in a):
            return i
    return None


def M_sp(A, ev, m, st):
    n = classify(ev.dname)
    me = n.method
    if me in ("shared_ptr", "__shared_ptr", "operator=", "reset"):
        return NotImplemented     # Analyzer.builtin
    if me == "operator bool":
        return Bool(g_not(val_eq(at(m, ev.args[0]), V(0))))
    if me in ("get", "operator->", "operator*"):
        return at(m, ev.args[0])
    if me == "swap":
        x, y = at(m, ev.args[0]), at(m, ev.args[1])
        put(m, ev.args[0], y, ev.uid, 16)
        put(m, ev.args[1], x, ev.uid, 16)
        return None
    if me.startswith("~"):
        return None
    return NotImplemented


def plain_type(t):
    """a type name without the spelling differences between demanglings"""
    return re.sub(r"\s+", "", t.replace("std::__cxx11::", "std::"))


def M_spcast(A, ev, m, st):
    n = classify(ev.dname)
    s = sret_of(ev)
    if s is None:
        return NotImplemented
    v = at(m, ev.args[-1])
    mm = re.match(r"(\w+)<(.*)>$", n.method_full)
    ta = plain_type(_split_top(mm.group(2))[0]) if mm else "?"
    if n.method.startswith("dynamic"):
        v = vguard(val_eq(v, V(0)), V(0), vmap(lambda p: p if p == ZERO else fnp("dyncast " + ta, p), v))
    put(m, ev.args[s], v, ev.uid, 16)
    return None


def M_self(A, ev, m, st):
    """shared_from_this: the object itself"""
    s = sret_of(ev)
    if s is None:
        return NotImplemented
    put(m, ev.args[s], vmap(lambda p: fnp("self", p), ev.args[1 - s]), ev.uid, 16)
    return None


def M_dyncast(A, ev, m, st):
    p = ev.args[2].single()
    k = key_of(p) if p is not None else None
    ta = plain_type(dem(k[1]).replace("typeinfo for ", "")) if k and k[0] == "global" else "?"
    return vmap(lambda q: q if q == ZERO else fnp("dyncast " + ta, q), ev.args[0])


def M_spcmp(A, ev, m, st):
    n = classify(ev.dname)
    vs = []
    for i, T in enumerate(n.params):
        if "nullptr" in T:
            vs.append(V(0))
        elif "shared_ptr" in T:
            vs.append(at(m, ev.args[i]))
        else:
            vs.append(ev.args[i])
    if len(vs) != 2:
        return NotImplemented
    g = val_eq(vs[0], vs[1])
    return Bool(g if n.method == "operator==" else g_not(g))


def M_str(A, ev, m, st):
    n = classify(ev.dname)
    me = n.method
    s = sret_of(ev)
    args = ev.args
    base = 0 if s is None else 1
    ps = n.params
    if me in ("basic_string", "operator=", "assign"):
        if me == "basic_string" and (not ps or (len(ps) == 1 and "allocator" in ps[0] and "basic_string" not in ps[0])):
            put(m, args[0], V(lit("")), ev.uid, 32)
            return None
        if ps and (len(ps) == 1 or (len(ps) == 2 and "allocator" in ps[1] and "basic_string" not in ps[1])):
            v = sval(A, m, ev, 1, ps[0])
            if v is not None:
                put(m, args[0], v, ev.uid, 32)
                return args[0] if ev.ty and ev.ty[0] != "void" else None
        vs = [sval(A, m, ev, i + 1, p) or args[i + 1] for i, p in enumerate(ps)]
        put(m, args[0], fn("string(%s)" % ",".join("S" if is_string(p) else "C" for p in ps), *vs), ev.uid, 32)
        return args[0] if ev.ty and ev.ty[0] != "void" else None
    if me.startswith("~"):
        return None
    v = at(m, args[base])
    if me in ("operator+=", "append", "push_back") and len(ps) == 1:
        x = sval(A, m, ev, 1, ps[0])
        if x is not None:
            put(m, args[0], cat(v, x), ev.uid, 32)
            return args[0] if ev.ty and ev.ty[0] != "void" else None
    if me == "clear":
        put(m, args[0], V(lit("")), ev.uid, 32)
        return None
    if me in ("c_str", "data"):
        return fn("c_str", v)
    if me in ("size", "length"):
        return size(v)
    if me == "empty":
        return Bool(val_eq(v, V(lit(""))))
    if me == "compare" and len(ps) == 1:
        x = sval(A, m, ev, 1, ps[0])
        if x is not None:
            return vguard(val_eq(v, x), V(0), fn("compare", v, x))
    if me == "swap":
        x = at(m, args[1])
        put(m, args[0], x, ev.uid, 32)
        put(m, args[1], v, ev.uid, 32)
        return None
    if me in ("begin", "cbegin"):
        return vmap(itb, v)
    if me in ("end", "cend"):
        return vmap(lambda p: itb(p) + size1(p), v)
    if me in ("operator[]", "at", "front", "back"):
        ix = args[1] if me in ("operator[]", "at") else (V(0) if me == "front" else vsub(size(v), V(1)))
        return vmap(elt1, v, ix)
    # other queries are pure functions of the values
    if n.isconst or me in ("find", "rfind", "substr", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of", "replace", "erase", "insert", "resize"):
        vs = [v]
        for i, p in enumerate(ps):
            x = sval(A, m, ev, base + 1 + i, p)
            vs.append(x if x is not None else args[base + 1 + i])
        r = fn("str." + me, *vs)
        if s is not None:
            put(m, args[s], r, ev.uid, 32)
            return None
        if not n.isconst and me in ("replace", "erase", "insert", "resize"):
            put(m, args[0], r, ev.uid, 32)
            return args[0] if ev.ty and ev.ty[0] != "void" else None
        if ev.ty == ("int", 1):
            return Bool(v_to_guard(r))
        return r
    return NotImplemented


def M_strop(A, ev, m, st):
    """free operators on strings"""
    n = classify(ev.dname)
    ps = n.params
    if len(ps) != 2 or not (is_string(ps[0]) or is_string(ps[1])):
        return NotImplemented
    s = sret_of(ev)
    b = 0 if s is None else 1
    x, y = sval(A, m, ev, b, ps[0]), sval(A, m, ev, b + 1, ps[1])
    if x is None or y is None:
        return NotImplemented
    me = n.method
    if me == "operator+" and s is not None:
        put(m, ev.args[s], cat(x, y), ev.uid, 32)
        return None
    if me in ("operator==", "operator!="):
        g = val_eq(x, y)
        return Bool(g if me == "operator==" else g_not(g))
    if me in ("operator<", "operator>", "operator<=", "operator>="):
        if me in ("operator>", "operator<="):
            x, y = y, x
        def less(p, q):
            a, b = fkey(q, "nextkey"), fkey(p, "nextkey")
            return ONE if a is not None and a[1] == p else ZERO if p == q or (b is not None and b[1] == q) else fnp("strless", p, q)
        g = v_to_guard(vmap(less, x, y))
        return Bool(g if me in ("operator<", "operator>") else g_not(g))
    return NotImplemented


def map_off(n):
    T = n.targs[0] if n.targs else "long"
    return 32 if is_string(T) else 8


def mapelt(M, k):
    return vmap(lambda p, q: Poly.atom(("mapelt", p, q, "p")), M, k)


def kval(A, m, n, a):
    return snapshot(A, m, a, n.targs[0] if n.targs else "long")


def M_assoc(A, ev, m, st):
    n = classify(ev.dname)
    me = n.method
    ismap = n.cls in ("std::map", "std::unordered_map")
    args, ps = ev.args, n.params
    s = sret_of(ev)
    o = 0 if s is None else 1
    addr = args[o]
    if me in ("map", "set", "unordered_map", "unordered_set"):
        if not ps:
            put(m, addr, V(0), ev.uid, 48)
            return None
        if len(ps) == 1 and ("std::map<" in ps[0] or "std::set<" in ps[0]):
            put(m, addr, at(m, args[1]), ev.uid, 48)
            return None
        if len(ps) == 2:
            L, i, L2, j = rng(m, ev, 1, 2)
            if L is not None:
                put(m, addr, sub(L, i, j), ev.uid, 48)
                return None
        return NotImplemented
    if me.startswith("~"):
        return None
    if me == "operator=":
        put(m, addr, at(m, args[1]), ev.uid, 48)
        return args[0]
    M = at(m, addr)
    if me in ("count", "contains") and len(ps) == 1:
        g = has(M, kval(A, m, n, args[1]))
        return Bool(g) if me == "contains" else guard_to_val(g)
    if me in ("begin", "cbegin"):
        return vmap(itb, M)
    if me in ("end", "cend"):
        return vmap(lambda p: itb(p) + size1(p), M)
    if me == "size":
        return size(M)
    if me == "empty":
        return Bool(g_cmp("eq", size(M), V(0)))
    if me == "clear":
        put(m, addr, V(0), ev.uid, 48)
        return None
    if me in ("find", "lower_bound", "upper_bound") and len(ps) == 1:
        k = kval(A, m, n, args[1])
        g = has(M, k)
        e = vmap(lambda p: itb(p) + size1(p), M)
        if me != "find":
            if n.cls.startswith("std::unordered") or M.single() is None or k.single() is None:
                return NotImplemented
            nx = fn("nextkey", M, k)
            e = vguard(g_atom(("bool", Poly.atom(("hasnext", M.single(), k.single(), "i1")))), vmap(lambda p, q: Poly.atom(("mapit", p, q, "p")), addr, nx), e)
            if me == "upper_bound":
                return e
        return vguard(g, vmap(lambda p, q: Poly.atom(("mapit", p, q, "p")), addr, k), e)
    if me in ("operator[]", "at") and ismap:
        k = kval(A, m, n, args[1])
        el = vadd(mapelt(addr, k), V(map_off(n)))
        g = has(M, k)
        if me == "operator[]" and g != 1:
            sz, tg = tinfo(n.targs[1]) if len(n.targs) > 1 else (8, "p")
            g2 = g_restrict(g, ev.guard) if ev.guard not in (0, 1) else g
            if g2 != 1:
                old = m.load(el, sz, tg)
                if g2 == 0:
                    m.store(el, sz, V(0), ("adt", ev.uid), tg)
                else:
                    m.store(el, sz, vguard(g2, old, V(0)), ("adt", ev.uid), tg)
                put(m, addr, ins(M, k), ev.uid, 48)
        elif me == "at" and g != 1:
            pass
        return el
    if me == "insert" and len(ps) == 1 and not ismap:
        if "initializer_list" in ps[0]:
            return NotImplemented
        k = kval(A, m, n, args[o + 1])
        put(m, addr, ins(M, k), ev.uid, 48)
        return A_opaque_res(A, ev, "setinsert", M, k)
    if ismap and len(ps) in (2, 3) and me in ("insert", "emplace_hint") and "terator<" in ps[0] and "terator<" not in ps[1]:
        # the hint does not matter
        me, o, ps = "insert", o + 1, ps[1:]
    if me in ("insert", "emplace", "insert_or_assign", "try_emplace") and ismap and len(ps) in (1, 2):
        if len(ps) == 1:
            if "pair<" not in ps[0]:
                return NotImplemented
            k = kval(A, m, n, args[o + 1])
            va = vadd(args[o + 1], V(map_off(n)))
        else:
            if "terator<" in ps[0]:
                L, i, L2, j = rng(m, ev, o + 1, o + 2)
                if L is None:
                    return NotImplemented
                put(m, addr, union(M, sub(L, i, j)), ev.uid, 48)
                return None
            k = kval(A, m, n, args[o + 1])
            va = args[o + 2]
        T = n.targs[1] if len(n.targs) > 1 else "void*"
        sz, tg = tinfo(T)
        if (sz, tg) == (8, "p") and not T.rstrip().endswith("*") and not T.replace("const", "").strip().startswith(("std::", "boost::")):
            return NotImplemented
        if T.startswith("std::function<") and "{lambda" in ps[-1] and "std::function<" not in ps[-1].split("{lambda")[0]:
            v = closure(A, ps[-1], m, va)
        else:
            v = snapshot(A, m, va, T)
        g = has(M, k) if me != "insert_or_assign" else 0
        el = vadd(mapelt(addr, k), V(map_off(n)))
        m.store(el, sz, vguard(g, m.load(el, sz, tg), v) if g else v, ("adt", ev.uid), tg)
        put(m, addr, ins(M, k), ev.uid, 48)
        return A_opaque_res(A, ev, "mapinsert", M, k)
    if me == "insert" and len(ps) == 2 and not ismap:
        L, i, L2, j = rng(m, ev, o + 1, o + 2)
        if L is None:
            return NotImplemented
        put(m, addr, union(M, sub(L, i, j)), ev.uid, 48)
        return None
    if me == "erase" and len(ps) == 1:
        if "iterator" in ps[0]:
            k = args[o + 1]
            it = k.single()
            kk = key_of(it) if it is not None else None
            if kk is not None and kk[0] == "mapit":
                put(m, addr, vmap(lambda p: fnp("del", p, kk[2]), M), ev.uid, 48)
            else:
                put(m, addr, fn("delat", M, k), ev.uid, 48)
            return fn("erasenext", M, k)
        k = kval(A, m, n, args[o + 1])
        g = has(M, k)
        put(m, addr, vguard(g, fn("del", M, k), M), ev.uid, 48)
        return guard_to_val(g)
    return NotImplemented


def A_opaque_res(A, ev, nm, *vs):
    """a result nobody should depend on (insert's pair)"""
    ty = ev.ty
    if ty is None or ty[0] == "void":
        return None
    if nm in ("setinsert", "mapinsert") and A.T.resolve(ty)[0] == "struct" and len(A.T.resolve(ty)[1]) == 2:
        inserted = g_not(has(vs[0], vs[1]))
        return Agg([fn(nm, *vs), guard_to_val(inserted)])
    if A.T.resolve(ty)[0] == "struct":
        return Agg([fn(nm + str(i), *vs) for i in range(len(A.T.resolve(ty)[1]))])
    return fn(nm, *vs)


def rng(m, ev, i, j):
    a, b = ev.args[i], ev.args[j]
    p, q = a.single(), b.single()
    if p is None or q is None:
        return None, None, None, None
    x, y = itb_of(p), itb_of(q)
    if x is None or y is None or x[0] != y[0]:
        return None, None, None, None
    return x[0], x[1], y[0], y[1]


def sub(L, i, j):
    """the elements [i, j) of a sequence value"""
    sz = size1(L)
    d = (sz - j).const_val()
    c = i.const_val()
    if c is not None and d is not None and c >= 0 and d >= 0 and c < 4 and d < 4:
        r = L
        for _ in range(int(c)):
            r = fnp("tail", r)
        for _ in range(int(d)):
            r = fnp("init", r)
        return V(r)
    return V(fnp("sub", L, i, j))


def pushb(L, e):
    return vmap(lambda p, q: fnp("snoc", p, q), L, e)


def append(L, N):
    def f(p, q):
        if q == ZERO:
            return p
        if p == ZERO:
            return q
        return fnp("append", p, q)
    return vmap(f, L, N)


def is_local(v):
    p = v.single()
    b = base_of(p)[0] if p is not None else None
    return b is not None and key_of(b)[0] == "alloca"


class NoModel(Exception):
    pass


def M_seq(A, ev, m, st):
    n = classify(ev.dname)
    me = n.method
    args, ps = ev.args, n.params
    s = sret_of(ev)
    o = 0 if s is None else 1
    addr = args[o]
    T = n.targs[0] if n.targs else "void*"
    if n.cls.endswith("_base") or n.cls.startswith("std::_"):
        return NotImplemented
    short_ = n.cls.split("::")[-1]
    if me == short_:
        real = [p for p in ps if "allocator<" not in strip_templates(p) + p.split("<")[0] or "std::list<" in p or "std::vector<" in p]
        real = [p for p in ps if not p.startswith("std::allocator<")]
        if not real:
            put(m, addr, V(0), ev.uid, 24)
            return None
        if len(real) == 1 and re.match(r"std::(list|vector|deque|stack|queue)<", real[0]):
            put(m, addr, at(m, args[1]), ev.uid, 24)
            return None
        if len(real) == 1 and real[0].startswith("unsigned long"):
            put(m, addr, vmap(lambda k: ZERO if k == ZERO else fnp("repeat", k, ZERO), args[1]), ev.uid, 24)
            return None
        if len(real) == 2 and real[0].startswith("unsigned long"):
            put(m, addr, fn("repeat", args[1], snapshot(A, m, args[2], T)), ev.uid, 24)
            return None
        if len(real) == 2:
            L, i, L2, j = rng(m, ev, 1, 2)
            if L is not None:
                put(m, addr, sub(L, i, j), ev.uid, 24)
                return None
        return NotImplemented
    if me.startswith("~"):
        return None
    if me == "operator=":
        put(m, addr, at(m, args[1]), ev.uid, 24)
        return args[0]
    L = at(m, addr)
    if getattr(A, "bag", False) and is_local(addr):
        # work lists: the order in which pending elements are taken does not matter
        me = {"push_front": "push_back", "emplace_front": "push_back", "pop_back": "pop_front", "pop": "pop_front",
              "back": "front", "top": "front", "push": "push_back"}.get(me, me)
    if me in ("push_back", "emplace_back", "push", "emplace") and len(ps) == 1:
        put(m, addr, pushb(L, snapshot(A, m, args[1], T)), ev.uid, 24)
        if me == "emplace_back" and ev.ty and ev.ty[0] != "void":
            return vmap(lambda p: elt1(p, size1(p) - ONE), at(m, addr))
        return None
    if me in ("push_front", "emplace_front") and len(ps) == 1:
        put(m, addr, vmap(lambda p, q: fnp("cons", p, q), L, snapshot(A, m, args[1], T)), ev.uid, 24)
        return None
    if me in ("front", "back", "top", "pop_front", "pop_back", "pop") and ev.guard == 1 and L.single() is not None:
        A.res.__dict__.setdefault("axioms", []).append((ONE - size1(L.single()), False))
    if me == "pop_front" or (me == "pop" and n.cls == "std::queue"):
        put(m, addr, fn("tail", L), ev.uid, 24)
        return None
    if me == "pop_back" or (me == "pop" and n.cls == "std::stack"):
        put(m, addr, vmap(lambda p: fkey(p, "snoc")[0] if fkey(p, "snoc") else fnp("init", p), L), ev.uid, 24)
        return None
    if me == "front":
        return vmap(lambda p: elt1(p, ZERO), L)
    if me in ("back", "top"):
        return vmap(lambda p: elt1(p, size1(p) - ONE), L)
    if me in ("operator[]", "at"):
        return vmap(elt1, L, args[o + 1])
    if me == "size":
        return size(L)
    if me == "empty":
        return Bool(g_cmp("eq", size(L), V(0)))
    if me == "clear":
        put(m, addr, V(0), ev.uid, 24)
        return None
    if me in ("begin", "cbegin"):
        return vmap(itb, L)
    if me in ("end", "cend"):
        return vmap(lambda p: itb(p) + size1(p), L)
    if me == "swap":
        x = at(m, args[1])
        put(m, args[0], x, ev.uid, 24)
        put(m, args[1], L, ev.uid, 24)
        return None
    if me == "insert" and len(ps) == 3 and "terator<" in ps[1]:
        def grow(l, p, i, j):
            x, y = itb_of(i), itb_of(j)
            if x is None or y is None or x[0] != y[0] or p != itb(l) + size1(l):
                raise NoModel()
            return append(V(l), sub(x[0], x[1], y[1]))
        try:
            r = vmap(grow, L, args[o + 1], args[o + 2], args[o + 3])
        except NoModel:
            return NotImplemented
        put(m, addr, r, ev.uid, 24)
        return fn("insertpos", L)
    if me == "insert" and len(ps) == 2:
        p = args[o + 1].single()
        Ls = L.single()
        if p is not None and Ls is not None:
            x = itb_of(p)
            if x is not None and x[0] == Ls and (size1(Ls) - x[1]).const_val() == 0:
                put(m, addr, pushb(L, snapshot(A, m, args[o + 2], T)), ev.uid, 24)
                return fn("insertpos", L)
            put(m, addr, fn("insertat", L, args[o + 1], snapshot(A, m, args[o + 2], T)), ev.uid, 24)
            return fn("insertpos", L)
        return NotImplemented
    if me == "erase" and len(ps) == 1:
        put(m, addr, fn("delat", L, args[o + 1]), ev.uid, 24)
        return fn("erasenext", L, args[o + 1])
    if me == "resize":
        if ev.guard == 1 and args[o + 1].single() is not None:
            A.res.__dict__.setdefault("axioms", []).append((ZERO - args[o + 1].single(), False))
        fill = snapshot(A, m, args[o + 2], T) if len(ps) == 2 else V(0)
        put(m, addr, vmap(lambda p, k, x: (ZERO if k == ZERO else fnp("repeat", k, x)) if p == ZERO else fnp("resize", p, k, x) if len(ps) == 2 else fnp("resize", p, k), L, args[o + 1], fill), ev.uid, 24)
        return None
    if me == "reserve":
        return None
    if me == "remove":
        put(m, addr, fn("remove", L, snapshot(A, m, args[1], T)), ev.uid, 24)
        return VA("void", "x")
    return NotImplemented


def M_iter(A, ev, m, st):
    n = classify(ev.dname)
    me = n.method
    args, ps = ev.args, n.params
    if me in [c.split("::")[-1] for c in ITERS]:
        if not ps:
            put(m, args[0], V(0), ev.uid, 8)
            return None
        if len(ps) == 1 and ("iterator<" in ps[0]):
            put(m, args[0], at(m, args[1]), ev.uid, 8)
            return None
        return NotImplemented
    if me == "operator=":
        put(m, args[0], at(m, args[1]), ev.uid, 8)
        return args[0]
    v = at(m, args[0])
    if me == "operator++" and not ps:
        put(m, args[0], step(v, 1), ev.uid, 8)
        return args[0]
    if me == "operator--" and not ps:
        put(m, args[0], step(v, -1), ev.uid, 8)
        return args[0]
    if me in ("operator++", "operator--"):
        put(m, args[0], step(v, 1 if me == "operator++" else -1), ev.uid, 8)
        return v
    if me in ("operator*", "operator->"):
        return vmap(deref, v)
    if me in ("operator+", "operator-") and len(ps) == 1 and "iterator" not in ps[0]:
        return vadd(v, args[1]) if me == "operator+" else vsub(v, args[1])
    if me in ("operator+=", "operator-=") and len(ps) == 1:
        put(m, args[0], vadd(v, args[1]) if me == "operator+=" else vsub(v, args[1]), ev.uid, 8)
        return args[0]
    if me == "operator[]":
        return vmap(deref, vadd(v, args[1]))
    if me == "base":
        return args[0]
    if me == "_M_const_cast":
        return v
    return NotImplemented


def step(v, k):
    def f(p):
        q = key_of(p)
        if q is not None and q[0] == "mapit":
            return fnp("mapnext" if k > 0 else "mapprev", p)
        return p + Poly.const(k)
    return vmap(f, v)


def M_itercmp(A, ev, m, st):
    n = classify(ev.dname)
    if len(n.params) != 2 or not all("iterator<" in p for p in n.params):
        if len(n.params) == 1 and "iterator<" in n.params[0] and n.method in ("operator==", "operator!="):
            pass
        else:
            return NotImplemented
    x, y = at(m, ev.args[0]), at(m, ev.args[1])
    if n.method == "operator-":
        return vsub(x, y)
    if n.method not in ("operator==", "operator!="):
        return NotImplemented

    def eq(p, q):
        k1, k2 = key_of(p), key_of(q)
        a = k1 is not None and k1[0] == "mapit"
        b = k2 is not None and k2[0] == "mapit"
        if a != b:
            # a found element is never the end iterator
            return 0
        return eq0(p - q)
    acc = 0
    for g1, p in x.cases:
        for g2, q in y.cases:
            g = g_and(g1, g2)
            if g:
                acc = g_or(acc, g_and(g, eq(p, q)))
    return Bool(acc if n.method == "operator==" else g_not(acc))


INTEGER = r"^(unsigned )?(int|long|long long|short|unsigned)( const)?&?$"


def M_lexcast(A, ev, m, st):
    n = classify(ev.dname)
    s = sret_of(ev)
    o = 0 if s is None else 1
    mm = re.match(r"lexical_cast<(.*)>$", n.method_full)
    ta = _split_top(mm.group(1)) if mm else ["?"]
    src = n.params[0]
    if is_string(src):
        v = at(m, ev.args[o])
    elif src.rstrip().endswith("*"):
        v = cstring(A, m, ev.args[o])
    elif src.endswith("&"):
        v = m.load(ev.args[o], *tinfo(src))
    else:
        v = ev.args[o]
    to = "string" if is_string(ta[0]) else ta[0]
    if to == "string" and is_string(src):
        r = v
    else:
        r = fn("text int" if to == "string" and re.match(INTEGER, src) else "lexical_cast<%s>" % to, v)
    if s is not None:
        put(m, ev.args[s], r, ev.uid, 32)
        return None
    return r


def M_tostring(A, ev, m, st):
    s = sret_of(ev)
    if s is None:
        return NotImplemented
    src = classify(ev.dname).params[0]
    put(m, ev.args[s], fn("text int" if re.match(INTEGER, src) else "to_string", ev.args[1]), ev.uid, 32)
    return None


def M_alloc(A, ev, m, st):
    return None


def M_swap(A, ev, m, st):
    x, y = at(m, ev.args[0]), at(m, ev.args[1])
    put(m, ev.args[0], y, ev.uid, 8)
    put(m, ev.args[1], x, ev.uid, 8)
    return None


def M_pair(A, ev, m, st):
    """pair(K const&, V const&) / make_pair"""
    n = classify(ev.dname)
    s = sret_of(ev)
    ps = n.params
    if len(ps) != 2:
        if len(ps) == 1 and "std::pair<" in ps[0] and n.cls == "std::pair":
            K = n.targs[0] if n.targs else "long"
            V_ = n.targs[1] if len(n.targs) > 1 else "void*"
            off = 32 if is_string(K) else 8
            put(m, ev.args[0], snapshot(A, m, ev.args[1], K), ev.uid, off)
            sz, tg = tinfo(V_)
            n_ = A.sizeof(V_) if (sz, tg) == (8, "p") and not V_.rstrip().endswith("*") and not V_.startswith(("std::", "boost::")) else None
            if n_ is not None:
                snap = m.copy()
                for g_, p_ in vadd(ev.args[0], V(off)).cases:
                    m.region(p_, int(n_), "copy", vadd(ev.args[1], V(off)), snap)
                return None
            m.store(vadd(ev.args[0], V(off)), sz, snapshot(A, m, vadd(ev.args[1], V(off)), V_), ("adt", ev.uid), tg)
            return None
        return NotImplemented
    if n.cls == "std::pair":
        dst = ev.args[0]
    elif s is not None:
        dst = ev.args[s]
    else:
        return NotImplemented
    K, T = ps
    kk = sval(A, m, ev, 1, K) if (is_string(K) or "char" in K) else None
    kv = kk if kk is not None else (snapshot(A, m, ev.args[1], K.replace("&", "").strip()) if K.endswith("&") else ev.args[1])
    off = 32 if is_string(n.targs[0] if n.targs else K) or kk is not None else 8
    put(m, dst, kv, ev.uid, off)
    TT = T.replace("&", "").strip()
    sz, tg = tinfo(TT)
    v = snapshot(A, m, ev.args[2], TT) if T.endswith("&") else ev.args[2]
    m.store(vadd(dst, V(off)), sz, v, ("adt", ev.uid), tg)
    return None


def M_any_dtor(A, ev, m, st):
    n = classify(ev.dname)
    if n.method.startswith("~"):
        return None
    return NotImplemented


# boost::variant ---------------------------------------------------
def vtag(T):
    T = T.replace("&", "").replace(" const", "").strip()
    if is_string(T):
        return "string"
    return T


def vsize(n):
    if any(is_string(t) for t in n.targs):
        return 40
    return 24 if any("shared_ptr" in t for t in n.targs) else 16


def M_variant(A, ev, m, st):
    n = classify(ev.dname)
    me = n.method
    ps = n.params
    args = ev.args
    if me.startswith("~"):
        return None
    if me == "variant" and not ps:
        put(m, args[0], fn("variant<default %s>" % (vtag(n.targs[0]) if n.targs else "")), ev.uid, vsize(n))
        return None
    if me in ("variant", "operator=", "assign") and ps:
        T = ps[0]
        if T.startswith("boost::variant<"):
            v = at(m, args[1])
        elif T.endswith("&"):
            tt = T.replace("&", "").strip()
            v = fn("variant<%s>" % vtag(T), snapshot(A, m, args[1], tt))
        else:
            v = fn("variant<%s>" % vtag(T), args[1])
        put(m, args[0], v, ev.uid, vsize(n))
        return args[0] if ev.ty and ev.ty[0] != "void" else None
    if me == "which":
        return fn("which", at(m, args[0]))
    return NotImplemented


def M_get(A, ev, m, st):
    n = classify(ev.dname)
    if not n.params or "boost::variant<" not in n.params[0]:
        return NotImplemented
    mm = re.match(r"(?:\w+)<(.*)>$", n.method_full)
    T = vtag(_split_top(mm.group(1))[0]) if mm else "?"
    strict = "strict" in n.method
    if n.params[0].rstrip().endswith("*"):
        # pointer form: null when the type differs
        v = at(m, ev.args[0])
        vt = re.match(r"boost::variant<(.*)>[^>]*$", n.params[0])
        kinds = [vtag(t) for t in _split_top(vt.group(1))] if vt else []
        if T not in kinds:
            return vmap(lambda p: Poly.atom(("getp", T, p, "p")), v)
        out = []
        for g, p in v.cases:
            held = val_eq(fn("which", V(p)), V(kinds.index(T)))
            a = Poly.atom(("get", T, p, "p"))
            t = fkey(p, "variant<%s>" % T)
            if t is not None:
                held = 1
                m.store(V(a), tinfo(T)[0] if T != "string" else 8, V(t[0]), ("adt", ev.uid), tinfo(T)[1] if T != "string" else "p")
            out += [(g_and(g, held), a), (g_and(g, g_not(held)), Poly.const(0))]
        return Val(out)
    v = at(m, ev.args[0])
    # reference form: the address of the held value; the content is its value
    addr = vmap(lambda p: Poly.atom(("get", T, p, "p")), v)
    for g, a in addr.cases:
        k = key_of(a)
        t = fkey(k[2], "variant<%s>" % T)
        if t is not None:
            m.store(V(a), tinfo(T)[0] if T != "string" else 8, V(t[0]), ("adt", ev.uid), tinfo(T)[1] if T != "string" else "p")
    return addr


def M_visit(A, ev, m, st):
    """apply_visitor: a function of the visitor's type and state and the variant's value"""
    n = classify(ev.dname)
    s = sret_of(ev)
    o = 0 if s is None else 1
    mm = re.match(r"apply_visitor<(.*)>$", n.method_full)
    ta = _split_top(mm.group(1)) if mm else ["?"]
    vis = ta[0]
    vi = o
    state = []
    p = ev.args[vi].single()
    nsz = A.sizeof(vis) or 0
    if p is not None:
        for k in range(0, nsz, 8):
            q = p + Poly.const(k)
            if q in m.cells:
                state.append((k, m.cells[q][1]))
    vals = [at(m, a) for a in ev.args[o + 1:]]
    desc = tuple(x for _, x in state) + tuple(vals)
    pure = A.opts.get("pure_visitors")
    occ = None
    if not (pure and re.search(pure, vis)):
        occ = A.occ(("visit", vis), desc, ev.guard)
        ev.effect = True
        ev.ident, ev.desc, ev.occ = ("visit", vis), desc, occ
    key = ("call", ("visit", vis), desc, occ)
    for k, _ in state:
        m.store(V(p + Poly.const(k)), 8, V(Poly.atom(("call", ("visit", vis), desc, (occ, "state", k), "p"))), ("adt", ev.uid), "p")
    if s is not None:
        put(m, ev.args[s], V(Poly.atom(key[:3] + ((occ, "ret"), "p"))), ev.uid, 40)
        return None
    if ev.ty is None or ev.ty[0] == "void":
        return None
    a = Poly.atom(key + (ttag(ev.ty),))
    return Bool(g_atom(("bool", a))) if ev.ty == ("int", 1) else V(a)


NOOP = (r"^(?:std|boost|__gnu_cxx)::.*::~\w+\(\)$|^std::allocator<.*>::allocator\(|^std::__new_allocator|^operator delete|^__cxa_free_exception$"
        r"|^__cxa_begin_catch$|^__cxa_end_catch$|^__clang_call_terminate$|^std::ios_base::Init")

STREAMS = r"^std::basic_(o|i)?(stringstream|stream)$"


def M_ostream(A, ev, m, st):
    """text streams: the standard ones are not part of the behaviour, string streams collect their text"""
    n = classify(ev.dname)
    me = n.method
    args = ev.args
    if re.match(STREAMS, n.cls) and me in ("basic_ostringstream", "basic_stringstream"):
        real = [p for p in n.params if "openmode" not in p.lower()]
        if real and is_string(real[0]):
            put(m, args[0], sval(A, m, ev, 1, real[0]), ev.uid, 8)
        else:
            put(m, args[0], V(lit("")), ev.uid, 8)
        return None
    if me == "flush" and not n.params:
        return args[0]
    if me == "str" and not n.params and sret_of(ev) is not None:
        put(m, args[0], at(m, args[1]), ev.uid, 32)
        return None
    if me != "operator<<":
        return NotImplemented
    if n.cls == "std" and len(n.params) == 2 and "basic_ostream" in n.params[0]:
        T = n.params[1]
    elif n.cls == "std::basic_ostream" and len(n.params) == 1:
        T = n.params[0]
    else:
        return NotImplemented
    s = args[0]
    p = s.single()
    if p is None:
        return NotImplemented
    b = base_of(p)[0]
    k = key_of(b) if b is not None else None
    if k is not None and k[0] == "global" and re.match(r"_ZSt4(cerr|cout|clog)$", k[1]):
        return s
    if k is None or k[0] not in ("alloca", "arg"):
        return NotImplemented
    x = sval(A, m, ev, 1, T) if is_string(T) or "char" in T else None
    if x is None and "(*)(" in T:
        f = args[1].single()
        f = show(f) if f is not None else ""
        if re.search(r"_ZSt4endl", f):
            x = V(lit("\n"))          # and a flush, which is not part of the text
        elif re.search(r"_ZSt5flush", f):
            return s
        else:
            return NotImplemented
    if x is None:
        x = fn("text int" if re.match(INTEGER, T) else "text " + T.replace("&", "").replace(" const", "").strip(), args[1] if not T.endswith("&") else snapshot(A, m, args[1], T))
    # the ostream part of a stringstream lies behind its istream part
    if k[0] == "arg":
        # text written to a stream that is passed in: compared as a sequence of pieces (refeq)
        ev.effect, ev.ident, ev.desc, ev.occ, ev.text = True, "text written", (p,), 0, x
        return s
    off = V(p - Poly.const(16)) if "alloca" in show(b) and (p - b).const_val() == 16 else s
    put(m, off, cat(at(m, off), x), ev.uid, 8)
    return s


MODELS = [
    (r"std::basic_(o|i)?(string)?stream<.*(operator<<|::flush\(\))|std::operator<< <|std::(__cxx11::)?basic_o?stringstream<", M_ostream),
    (NOOP, M_dtor),
    (r"^operator new\(|^operator new\[\]\(|^_Znwm$|^_Znam$", M_new),
    (r"^__cxa_throw$", M_throw),
    (r"^__cxa_allocate_exception$", M_allocexc),
    (r"^__dynamic_cast$", M_dyncast),
    (r"std::enable_shared_from_this<.*>::shared_from_this\(\)", M_self),
    (r"std::(dynamic|static|const|reinterpret)_pointer_cast<|boost::(dynamic|static)_pointer_cast<", M_spcast),
    (r"^(bool )?(std|boost)::operator(==|!=)<.*>\((std|boost)::shared_ptr<|^(bool )?(std|boost)::operator(==|!=)<.*nullptr", M_spcmp),
    (r"boost::(relaxed_get|strict_get|get)<.*boost::variant<", M_get),
    (r"boost::apply_visitor<", M_visit),
    (r"^boost::variant<.*>::(variant|~variant|operator=|assign|which)|^boost::variant<.*& boost::variant<|^(boost::enable_if<.*|void )boost::variant<.*>::(operator=|assign)", M_variant),
    (r"boost::lexical_cast<", M_lexcast),
    (r"std::(__cxx11::)?to_string\(", M_tostring),
    (r"^std::pair<.*>::pair(<.*>)?\(|std::make_pair<", M_pair),
]


def closure(A, lam, m, a):
    """the function object made of a closure of the given type"""
    from .absint import dem
    t = re.sub(r"\W", "", lam.replace("const", "").rstrip("& "))
    hs = sorted({h for l in A.mod.info["handlers"].values() for h in l if re.sub(r"\W", "", norm_name(dem(h)).replace("const", "")).split("_M_invoke")[0].endswith(t)})
    if len(hs) != 1:
        raise TooComplex("callable %s" % lam[:80])
    return fn("closure", V(Poly.atom(("fname", getattr(A, "closures", {}).get(hs[0], hs[0]), "p"))), m.load(a, 8, "p"))


def M_fun(A, ev, m, st):
    """std::function: the value is the code of the callable with the words it captures"""
    n = classify(ev.dname)
    me = "operator=" if re.match(r"_ZNSt8functionI.*EEaSI?", ev.name) else n.method
    hs = A.mod.info["handlers"].get(ev.name)
    for w in A.mod.info.get("wraps", {}).get(ev.name, ()) if me == "operator=" else ():
        hs = hs or A.mod.info["handlers"].get(w)
    if me in ("function", "operator=") and len(ev.args) == 2:
        if hs and len(hs) == 1:
            h = getattr(A, "closures", {}).get(hs[0], hs[0])
            v = fn("closure", V(Poly.atom(("fname", h, "p"))), m.load(ev.args[1], 8, "p"))
        elif not hs and n.params and re.match(r"(const )?std::function<", n.params[0]):
            v = at(m, ev.args[1])
        else:
            return NotImplemented
        put(m, ev.args[0], v, ev.uid, 32)
        return ev.args[0] if me == "operator=" else None
    if n.method == "function" and len(ev.args) == 1:
        put(m, ev.args[0], V(0), ev.uid, 32)
        return None
    if n.method == "~function":
        return None
    return NotImplemented


def dispatch(A, ev, m, st):
    n = classify(ev.dname)
    if n.cls == "std::function" or ev.name.startswith("_ZNSt8functionI"):
        return M_fun(A, ev, m, st)
    k = KINDS.get(n.cls)
    if k == "str":
        return M_str(A, ev, m, st)
    if k in ("seq", "stack", "queue"):
        return M_seq(A, ev, m, st)
    if k in ("map", "set"):
        return M_assoc(A, ev, m, st)
    if k == "sp":
        return M_sp(A, ev, m, st)
    if n.cls in ITERS:
        if n.method in ("operator==", "operator!="):
            return M_itercmp(A, ev, m, st)
        return M_iter(A, ev, m, st)
    if n.cls in ("std", "__gnu_cxx", "") and n.method.startswith("operator"):
        if any("iterator<" in p for p in n.params):
            return M_itercmp(A, ev, m, st)
        return M_strop(A, ev, m, st)
    if n.cls == "std" and n.method == "swap":
        return M_swap(A, ev, m, st)
    if n.cls in ("std::_Rb_tree", "std::__cxx11::_List_base"):
        return NotImplemented
    return NotImplemented


MODELS.append((r"^", dispatch))

"""static comparison of a hand-written or generated scanner loop with a maximal-munch lexer

The scanner function is interpreted abstractly over its IR: control states are constants, table look-ups are folded, the
character under the cursor is a set of byte values that branches split, positions in the text are linear forms over
P (position of the next character), S (start of the current token), A (end of the longest match so far), E (end of the
data in the buffer) and R (newlines before P).  The configurations are finitely many; the product with the reference
automaton is explored exhaustively.  Nothing is executed: no input text exists, every branch on unknown data is taken both ways."""
import collections
import re
from . import ir
from .ir import ToolError

CAP = 3
DATA = re.compile(r"_ZNK?St6vectorIcSaIcEE(4data|5begin|5front)Ev$")
OLD = ("old",)          # a position that has nothing to do with the token being read


# ------------------------------------------------------------------ reference automaton
class Rule:
    def __init__(self, name, rx, tok=None, off=0, cut=0):
        self.name, self.rx, self.tok, self.off, self.cut = name, rx, tok, off, cut


def parse_rx(s):
    """tiny regular expressions over bytes: literals, [..], ., |, *, +, ?, ( )"""
    pos = [0]

    def alt():
        r = [seq()]
        while pos[0] < len(s) and s[pos[0]] == "|":
            pos[0] += 1
            r.append(seq())
        return ("alt", r) if len(r) > 1 else r[0]

    def seq():
        r = []
        while pos[0] < len(s) and s[pos[0]] not in "|)":
            a = atom()
            while pos[0] < len(s) and s[pos[0]] in "*+?":
                a = (s[pos[0]], a)
                pos[0] += 1
            r.append(a)
        return ("seq", r)

    def ch():
        c = s[pos[0]]
        pos[0] += 1
        if c == "\\":
            c = s[pos[0]]
            pos[0] += 1
            if c == "n":
                return 10
            if c == "x":
                v = int(s[pos[0]:pos[0] + 2], 16)
                pos[0] += 2
                return v
        return ord(c)

    def atom():
        c = s[pos[0]]
        if c == "(":
            pos[0] += 1
            r = alt()
            pos[0] += 1
            return r
        if c == "[":
            pos[0] += 1
            neg = s[pos[0]] == "^"
            if neg:
                pos[0] += 1
            cs = set()
            while s[pos[0]] != "]":
                a = ch()
                if s[pos[0]] == "-" and s[pos[0] + 1] != "]":
                    pos[0] += 1
                    b = ch()
                    cs |= set(range(a, b + 1))
                else:
                    cs.add(a)
            pos[0] += 1
            return ("set", frozenset(range(256)) - cs if neg else frozenset(cs))
        if c == ".":
            pos[0] += 1
            return ("set", frozenset(range(256)))
        return ("set", frozenset([ch()]))
    return alt()


class Dfa:
    def __init__(self, rules):
        self.rules = rules
        self.nfa = []          # list of (eps targets, [(set, target)])
        self.acc = {}
        starts = []
        for i, r in enumerate(rules):
            a, b = self.build(parse_rx(r.rx))
            starts.append(a)
            self.acc[b] = i
        self.start = self.close(starts)
        self.ids = {self.start: 0}
        self.states = [self.start]
        self.memo = {}
        self.names = {}

    def new(self):
        self.nfa.append(([], []))
        return len(self.nfa) - 1

    def build(self, t):
        a, b = self.new(), self.new()
        if t[0] == "set":
            self.nfa[a][1].append((t[1], b))
        elif t[0] == "seq":
            cur = a
            for x in t[1]:
                p, q = self.build(x)
                self.nfa[cur][0].append(p)
                cur = q
            self.nfa[cur][0].append(b)
        elif t[0] == "alt":
            for x in t[1]:
                p, q = self.build(x)
                self.nfa[a][0].append(p)
                self.nfa[q][0].append(b)
        else:
            p, q = self.build(t[1])
            self.nfa[a][0].append(p)
            self.nfa[q][0].append(b)
            if t[0] in "*?":
                self.nfa[a][0].append(b)
            if t[0] in "*+":
                self.nfa[q][0].append(p)
        return a, b

    def close(self, xs):
        seen = set(xs)
        w = list(xs)
        while w:
            for y in self.nfa[w.pop()][0]:
                if y not in seen:
                    seen.add(y)
                    w.append(y)
        return frozenset(seen)

    def step(self, q, c):
        k = (q, c)
        if k not in self.memo:
            n = self.close([t for x in self.states[q] for s, t in self.nfa[x][1] if c in s])
            if not n:
                self.memo[k] = None
            else:
                if n not in self.ids:
                    self.ids[n] = len(self.states)
                    self.states.append(n)
                self.memo[k] = self.ids[n]
        return self.memo[k]

    def accept(self, q):
        r = [self.acc[x] for x in self.states[q] if x in self.acc]
        return min(r) if r else None

    def final_only(self, q):
        return not any(self.nfa[x][1] for x in self.states[q])

    def live_rules(self, q):
        """rules that can still match from q"""
        out = set()
        for i, r in enumerate(self.rules):
            tgt = [n for n, j in self.acc.items() if j == i][0]
            seen = set(self.states[q])
            w = list(seen)
            while w:
                x = w.pop()
                for y in list(self.nfa[x][0]) + [t for _, t in self.nfa[x][1]]:
                    if y not in seen:
                        seen.add(y)
                        w.append(y)
            if tgt in seen:
                out.add(i)
        return out


# ------------------------------------------------------------------ linear forms: (const, ((sym, coef), ...))
def lin(c=0, **k):
    return (c, tuple(sorted((s, v) for s, v in k.items() if v)))


def ladd(a, b, m=1):
    d = dict(a[1])
    for s, v in b[1]:
        d[s] = d.get(s, 0) + m * v
    return (a[0] + m * b[0], tuple(sorted((s, v) for s, v in d.items() if v)))


def lsub(f, sym, g):
    """replace sym by the form g"""
    d = dict(f[1])
    if sym not in d:
        return f
    c = d.pop(sym)
    r = (f[0], tuple(sorted(d.items())))
    return ladd(r, g, c)


TOP = ("top",)


class Found(Exception):
    pass


class Undecided(Exception):
    pass


class St:
    __slots__ = ("env", "blk", "prev", "idx", "q", "acc", "dS", "dA", "dE", "nl", "final", "base", "ch", "queue", "started", "gen",
                 "size", "req", "wit", "over", "ended", "tr", "hist", "pend")

    def copy(self):
        n = St()
        for k in St.__slots__:
            v = getattr(self, k)
            setattr(n, k, dict(v) if k == "env" else v)
        return n


class Scanner:
    def __init__(self, fn, mod, rules, eof_error, insert, limit=400000):
        self.fn, self.mod, self.dfa, self.limit = fn, mod, Dfa(rules), limit
        self.eof_error = eof_error
        self.trace = False
        self.insert = insert
        self.tables = {}
        self.viol = []
        self.configs = 0
        self.paths = 0
        self.emitted = set()
        self.live_in()
        self.line_web()
        self.sk, self.skc = None, {}
        try:
            self.skeleton()
        except Found:
            self.sk = None

    # -------------------------------------------------------------- static facts
    def succs(self, ins):
        if ins.op == "br":
            return list(ins.x)
        if ins.op == "switch":
            return [ins.x[0]] + [l for _, l in ins.x[1]]
        if ins.op == "invoke":
            return [ins.x["to"]]
        return []

    def uses(self, ins):
        out = []

        def walk(o):
            if isinstance(o, tuple):
                if len(o) == 2 and o[0] == "v" and isinstance(o[1], str):
                    out.append(o[1])
                else:
                    for x in o:
                        walk(x)
            elif isinstance(o, list):
                for x in o:
                    walk(x)
        walk(ins.ops)
        if ins.op in ("call", "invoke"):
            walk([a[1] for a in ins.x["args"]])
            walk(ins.x["callee"])
        return out

    def live_in(self):
        f = self.fn
        self.live = {b: set() for b in f.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.order):
                cur = set()
                for s in self.succs(f.blocks[b][-1]):
                    if s not in self.live:
                        continue
                    cur |= self.live[s] - {i.dest for i in f.blocks[s] if i.op == "phi"}
                    for i in f.blocks[s]:
                        if i.op == "phi":
                            for o, p in i.ops:
                                if p == b and o[0] == "v":
                                    cur.add(o[1])
                for i in reversed(f.blocks[b]):
                    cur.discard(i.dest)
                    if i.op != "phi":
                        cur |= set(self.uses(i))
                    else:
                        cur.add(i.dest)
                if not cur <= self.live[b]:
                    self.live[b] |= cur
                    ch = True
        # blocks where configurations are merged: targets of retreating edges
        pos = {b: i for i, b in enumerate(f.order)}
        self.heads = {s for b in f.order for s in self.succs(f.blocks[b][-1]) if pos[s] <= pos[b]}

    def line_web(self):
        """values that flow into the line argument of a token"""
        f = self.fn
        defs = {i.dest: i for b in f.order for i in f.blocks[b] if i.dest}
        w = []
        for b in f.order:
            for i in f.blocks[b]:
                if i.op in ("call", "invoke") and i.x["callee"][0] == "g" and self.insert(i.x["callee"][1]):
                    a = i.x["args"][1][1]
                    if a[0] == "v":
                        w.append(a[1])
        seen = set(w)
        while w:
            i = defs.get(w.pop())
            if i is not None and i.op in ("phi", "add", "sub", "select", "sext", "trunc", "zext"):
                for u in self.uses(i):
                    if u not in seen:
                        seen.add(u)
                        w.append(u)
        self.lines = seen
        # registers that always hold the start of the buffer
        B = {d for d, i in defs.items() if i.op == "phi" or i.op in ("call", "invoke") and i.x["callee"][0] == "g" and DATA.match(i.x["callee"][1])}
        ch = True
        while ch:
            ch = False
            for d in list(B):
                if defs[d].op == "phi" and not all(o[0] == "v" and o[1] in B for o, _ in defs[d].ops):
                    B.discard(d)
                    ch = True
        self.bufs = B
        # the state of the stream is asked in another way than by the number of characters read
        self.asks = any(i.op in ("call", "invoke") and i.x["callee"][0] == "g" and re.match(r"_ZNK?(Si|St9basic_ios|St8ios_base)", i.x["callee"][1])
                        and not re.match(r"_ZNSi4readEPcl$|_ZNKSi6gcountEv$", i.x["callee"][1]) for i in defs.values())

    # -------------------------------------------------------------- liveness that depends on the control state
    sklimit = 400000

    def absv(self, v):
        return v if v[0] in ("c", "g") else ("nz",) if v[0] in ("p", "obj", "old", "nz") else TOP

    def skeleton(self):
        """explicit graph of blocks and the constants in registers, text ignored; then liveness on it"""
        f = self.fn
        nodes = {}
        succ = {}
        first = (f.order[0], None, {nm: ("nz",) for t, nm, at in f.params})
        work = [first]

        def enter(blk, prev, env):
            new = {}
            for i in f.blocks[blk]:
                if i.op != "phi":
                    break
                for o, q in i.ops:
                    if q == prev:
                        new[i.dest] = TOP if i.dest in self.lines else self.sval(env, o)
            env = dict(env)
            env.update(new)
            env = {k: v for k, v in env.items() if k in self.live[blk] and v != TOP}
            return (blk, tuple(sorted(env.items()))), env
        k0, e0 = enter(*first)
        work = [(k0, e0)]
        nodes[k0] = None
        succ[k0] = set()
        while work:
            key, env = work.pop()
            if len(nodes) > self.sklimit:
                return None
            blk = key[0]
            for s, e in self.sblock(blk, dict(env)):
                k, e2 = enter(s, blk, e)
                succ[key].add(k)
                if k not in nodes:
                    nodes[k] = None
                    succ[k] = set()
                    work.append((k, e2))
        body, phis = {}, {}
        for b in f.order:
            phis[b] = [i for i in f.blocks[b] if i.op == "phi"]
            body[b] = [(i.dest, set(self.uses(i)), i.op in ir.BINOPS or i.op in ("icmp", "sext", "zext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze", "select",
                                                                                "getelementptr", "load")) for i in reversed(f.blocks[b]) if i.op != "phi"]
        live = {k: set() for k in nodes}
        pred = {k: set() for k in nodes}
        for k, ss in succ.items():
            for x in ss:
                pred[x].add(k)
        work = list(nodes)
        while work:
            k = work.pop()
            out = set()
            for x in succ[k]:
                l = live[x]
                pd = {i.dest for i in phis[x[0]]}
                out |= l - pd
                for i in phis[x[0]]:
                    if i.dest in l:
                        for o, q in i.ops:
                            if q == k[0] and o[0] == "v":
                                out.add(o[1])
            n = out
            for d, u, pure in body[k[0]]:
                if pure and d not in n:
                    continue
                n = (n - {d}) | u
            if n != live[k]:
                live[k] = n
                work.extend(pred[k])
        self.sk = {}
        for k, l in live.items():
            self.sk.setdefault(k[0], []).append((dict(k[1]), l))
        return True

    def sval(self, env, o):
        if o[0] == "v":
            return env.get(o[1], TOP)
        return self.absv(self.val(None, o))

    def sblock(self, blk, env):
        """successors (block, environment) of a block in the skeleton"""
        todo = [(env, 0)]
        ins = [i for i in self.fn.blocks[blk] if i.op != "phi"]
        while todo:
            env, n = todo.pop()
            while n < len(ins):
                i = ins[n]
                op = i.op
                n += 1
                v = TOP
                V = lambda o: self.sval(env, o)
                if op in ir.BINOPS:
                    a, b = V(i.ops[0]), V(i.ops[1])
                    if a[0] in ("c", "g") and b[0] in ("c", "g"):
                        v = self.bin(op, a, b, i.ty[1] if i.ty[0] == "int" else 64)
                    elif op in ("and", "or") and i.ty == ("int", 1):
                        for x, y in ((a, b), (b, a)):
                            if x[0] == "c" and (x[1] == 0) == (op == "and"):
                                v = x
                elif op == "icmp":
                    a, b = V(i.ops[0]), V(i.ops[1])
                    w = i.ty[1] if i.ty[0] == "int" else 64
                    if a[0] in ("c", "g") and b[0] in ("c", "g"):
                        v = self.cmp(None, i.x, a, b, w) if a[0] == b[0] == "c" or a[0] == b[0] == "g" and a[1] == b[1] or ("c", 0) in (a, b) else TOP
                    elif ("nz",) in (a, b) and ("c", 0) in (a, b) and i.x in ("eq", "ne"):
                        v = ("c", int(i.x == "ne"))
                elif op in ("sext", "zext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze"):
                    v = V(i.ops[0])
                    if v[0] == "c" and op == "zext" and i.x[0] == "int":
                        v = ("c", v[1] & ((1 << i.x[1]) - 1))
                    elif v[0] == "c" and op == "trunc" and i.ty[0] == "int":
                        x = v[1] & ((1 << i.ty[1]) - 1)
                        v = ("c", x - (1 << i.ty[1]) if i.ty[1] > 1 and x >> (i.ty[1] - 1) else x)
                elif op == "select":
                    c = V(i.ops[0])
                    if c[0] == "c":
                        v = V(i.ops[1] if c[1] else i.ops[2])
                    else:
                        a, b = V(i.ops[1]), V(i.ops[2])
                        v = a
                        if a != b:
                            e2 = dict(env)
                            e2[i.dest] = TOP if i.dest in self.lines else b
                            if i.ops[0][0] == "v":
                                e2[i.ops[0][1]] = ("c", 0)
                                env[i.ops[0][1]] = ("c", 1)
                            todo.append((e2, n))
                elif op == "getelementptr":
                    b = V(i.ops[0][1])
                    off = self.gep(i.ty, [(t, V(x)) for t, x in i.ops[1:]])
                    if b[0] == "g" and off is not None and off[0] == "c":
                        v = ("g", b[1], b[2] + off[1])
                    elif b[0] in ("nz", "g"):
                        v = ("nz",)
                elif op == "load":
                    p = V(i.ops[0])
                    if p[0] == "g":
                        v = self.absv(self.table(p[1], p[2], self.mod.types.size_align(i.ty)[0]))
                    elif i.ty[0] == "ptr":
                        v = TOP
                elif op == "br":
                    if len(i.x) == 1:
                        yield i.x[0], env
                        break
                    c = V(i.ops[0])
                    for t, l in ((1, i.x[0]), (0, i.x[1])):
                        if c[0] != "c" or bool(c[1]) == bool(t):
                            e2 = dict(env)
                            if i.ops[0][0] == "v":
                                e2[i.ops[0][1]] = ("c", t)
                            yield l, e2
                    break
                elif op == "switch":
                    c = V(i.ops[0])
                    if c[0] == "c":
                        yield dict(i.x[1]).get(c[1], i.x[0]), env
                    else:
                        for _, l in i.x[1]:
                            yield l, env
                        yield i.x[0], env
                    break
                elif op in ("call", "invoke"):
                    if i.ty[0] == "ptr":
                        v = ("nz",)
                    if i.dest:
                        env[i.dest] = v
                    if op == "invoke":
                        yield i.x["to"], env
                        break
                elif op == "alloca":
                    v = ("nz",)
                elif op in ("ret", "unreachable", "resume"):
                    break
                if i.dest:
                    env[i.dest] = TOP if i.dest in self.lines else v

    def livenow(self, st):
        if self.sk is None:
            return self.live[st.blk]
        c = {k: self.absv(st.env[k]) for k in self.live[st.blk] if k in st.env}
        key = (st.blk, tuple(sorted(c.items())))
        r = self.skc.get(key)
        if r is None:
            r = set()
            n = 0
            for e, l in self.sk.get(st.blk, ()):
                if all(c.get(k, TOP) in (v, TOP) for k, v in e.items()):
                    r |= l
                    n += 1
            r = (r & self.live[st.blk]) if n else self.live[st.blk]
            r |= {i.dest for i in self.fn.blocks[st.blk] if i.op == "phi" and i.dest in r}
            self.skc[key] = r
        return r

    def table(self, name, off, size):
        if name not in self.tables:
            g = self.mod.globals.get(name, "")
            if not re.match(r"(internal |private |dso_local |linkonce_odr |weak_odr |unnamed_addr |local_unnamed_addr )*constant ", g):
                self.tables[name] = None
            else:
                self.tables[name] = const_bytes(g)
        t = self.tables[name]
        if t is None or off < 0 or off + size > len(t):
            if t is not None:
                raise Found("look-up outside of the table %s (offset %d)" % (name, off))
            return TOP
        return ("c", int.from_bytes(t[off:off + size], "little", signed=True))

    # -------------------------------------------------------------- facts about positions
    def red(self, st, f):
        if st.dS is not None:
            f = lsub(f, "S", lin(-st.dS, P=1))
        if st.dA is not None:
            f = lsub(f, "A", lin(-st.dA, P=1))
        if st.dE is not None:
            f = lsub(f, "E", lin(st.dE, P=1))
        return f

    def every(self, st, fn):
        """apply fn to every form held in the state"""
        for k, v in st.env.items():
            if v[0] in ("l", "p"):
                n = fn(v[1])
                st.env[k] = TOP if n is None else (v[0], n) + v[2:]
        st.base = fn(st.base) or lin(0, b=1)
        st.queue = tuple((side, self.mapev(ev, fn)) for side, ev in st.queue)
        if st.req is not None:
            st.req = fn(st.req)

    @staticmethod
    def mapev(ev, fn):
        return tuple((("?",) if fn(x[1]) is None else ("F", fn(x[1]))) if isinstance(x, tuple) and x and x[0] == "F" else x for x in ev)

    def rename(self, st, anchor, d):
        """the anchor is about to be reassigned: express forms without it"""
        if d is not None:
            g = lin(-d, P=1)
        elif dict(st.base[1]).get(anchor) and st.base == lin(0, **{anchor: 1}):
            g = lin(0, b=1)
        else:
            g = lin(0, **{anchor + "~": 1})
            self.every(st, lambda f: None if anchor + "~" in dict(f[1]) else f)
        self.every(st, lambda f: lsub(f, anchor, g))

    def shift(self, st, n, nl):
        """P := P + n, R := R + nl"""
        base = st.base

        def go(f):
            f = lsub(f, "P", lin(-n, P=1))
            f = lsub(f, "R", lin(-nl, R=1))
            return f
        self.every(st, go)
        if st.dS is not None:
            st.dS += n
        if st.dA is not None:
            st.dA += n
        if st.dE is not None:
            st.dE -= n
        base = st.base

        def far(f):
            c = dict(f[1]).get("P", 0)
            if c == 0 or abs(f[0]) <= CAP:
                return f
            if c == 1:
                for a, d in (("S", st.dS), ("A", st.dA)):
                    if d is not None and abs(f[0] + d) <= 2:
                        return ladd(lsub(f, "P", lin(d, **{a: 1})), lin(0))
                if f == base or ladd(f, base, -1)[1] == ():
                    return ladd(lin(0, b=1), ladd(f, base, -1))
            return None
        if base != far(base):
            nb = far(base)
            self.every(st, far)
            st.base = nb or lin(0, b=1)
        else:
            self.every(st, far)
        if st.dS is not None and st.dS > CAP:
            d = st.dS
            self.every(st, lambda f: lsub(f, "P", lin(d, S=1)) if f[1] == (("P", 1),) and -d <= f[0] <= 1 - d else f)
            st.queue = tuple((side, ev[:4] + (("F", lin(ev[4][1][0] - d, P=1, S=-1)),) if j == 0 and len(ev) == 5 and ev[4][0] == "F" and not ev[4][1][1] else ev) for j, (side, ev) in enumerate(st.queue))
            st.dS = None
        if st.dA is not None and st.dA > CAP:
            st.dA = None
        if st.dE is not None and (st.dE < 0 or st.dE > CAP):
            st.dE = None

    # -------------------------------------------------------------- reference steps
    def where(self, st):
        return "on input %s" % show(st.wit)

    def emit_ref(self, st):
        r = self.dfa.rules[st.acc]
        if r.tok is not None:
            line = lin(1 - st.nl, R=1) if st.nl is not None else None
            ev = ("tok", r.tok, ("F", line) if line else ("?",))
            if r.off is not None:
                ev += (("F", ladd(self.red(st, lin(0, S=1)), lin(r.off))), ("F", ladd(self.red(st, lin(0, A=1, S=-1)), lin(-r.cut))))
            self.push(st, "ref", ev)

    def restart(self, st):
        """after a token: the cursor returns to the end of the match"""
        nl = st.nl
        if st.dA is not None:
            d = st.dA
            if d:
                if nl is None:
                    self.every(st, lambda f: None if "R" in dict(f[1]) else f)
                    nl = 0
                if st.hist is not None and len(st.hist) == d:
                    st.pend = st.hist + ((st.ch,) + st.pend if st.ch is not None else ())
                else:
                    st.pend = ()
                self.shift(st, -d, -nl)
                st.ch = None
                st.wit = st.wit[:len(st.wit) - d]
                st.over = True
        else:
            # far: forms in P become unknown, forms in A are forms in the new P
            eq = st.dE == 0
            self.every(st, lambda f: lsub(f, "P", lin(0, E=1)) if eq else (None if "P" in dict(f[1]) else f))
            if nl is None:
                self.every(st, lambda f: None if "R" in dict(f[1]) else f)
            elif nl:
                self.every(st, lambda f: lsub(f, "R", lin(nl, R=1)))
            st.dE = None
            if st.dS is not None:
                st.dS = None
            self.rename_to_p(st, "A")
            st.ch = None
            st.pend = ()
            st.over = True
        self.rename(st, "S", st.dS)
        self.rename(st, "A", st.dA)
        st.dS = st.dA = 0
        st.q = 0
        st.acc = None
        st.nl = 0
        st.hist = ()

    def look(self, st):
        """the character under the cursor comes into view: known if the reference has been there before"""
        if st.pend:
            st.ch, st.pend = st.pend[0], st.pend[1:]
        else:
            st.ch = frozenset(range(256))

    def rename_to_p(self, st, a):
        self.every(st, lambda f: lsub(f, a, lin(0, P=1)))
        st.dA = 0

    def ref_char(self, st):
        """reference consumes the character under the cursor; returns successor states"""
        if st.ch is None:
            if st.dE == 0:
                return self.ref_eof(st)
            self.look(st)
        groups = {}
        for c in st.ch:
            t = self.dfa.step(st.q, c)
            groups.setdefault((t, c == 10), set()).add(c)
        out = []
        for (t, nlc), cs in groups.items():
            n = st.copy() if len(groups) > 1 else st
            n.ch = frozenset(cs)
            n.started = True
            if t is None:
                if n.acc is None:
                    self.push(n, "ref", ("error",))
                    n.ended = True
                else:
                    n.wit = n.wit if n.dA == 0 else n.wit + bytes([rep(cs)])
                    if n.dA is not None and n.dA:
                        n.wit = n.wit[:-1]
                    self.emit_ref(n)
                    self.restart(n)
            else:
                n.wit = n.wit + bytes([rep(cs)])
                self.freeze(n)
                self.shift(n, 1, 1 if nlc else 0)
                n.hist = None if n.hist is None or n.dA is None or n.acc is None else n.hist + (n.ch,)
                n.ch = None
                n.over = False
                n.q = t
                if n.nl is not None:
                    n.nl += 1 if nlc else 0
                    if n.nl > 2:
                        n.nl = None
                a = self.dfa.accept(t)
                if a is not None:
                    self.rename(n, "A", n.dA)
                    n.dA = 0
                    n.nl = 0
                    n.acc = a
                    n.hist = ()
                    if self.dfa.final_only(t):
                        self.emit_ref(n)
                        self.restart(n)
            out.append(n)
        return out

    def ref_eof(self, st):
        if st.q == 0 and st.dS == 0:
            self.push(st, "ref", ("end",))
            st.ended = True
        elif any(self.dfa.rules[i].name in self.eof_error for i in self.dfa.live_rules(st.q)) and st.dS != 1:
            self.push(st, "ref", ("error",))
            st.ended = True
        elif st.acc is not None:
            self.emit_ref(st)
            self.restart(st)
        else:
            self.push(st, "ref", ("error",))
            st.ended = True
        return [st]

    def push(self, st, side, ev):
        if side == "impl" and ev[0] == "tok":
            self.emitted.add(ev[1])
        qs = list(st.queue)
        if qs and qs[0][0] != side:
            o = qs.pop(0)[1]
            a, b = (ev, o) if side == "impl" else (o, ev)
            self.compare(st, a, b)
            st.queue = tuple(qs)
            return
        if len(qs) > 3:
            raise Found("%s: %s" % (self.where(st), "emits tokens that the text does not contain: %s" % self.evs(qs[0][1]) if side == "impl" else
                                    "required tokens are not emitted: %s" % self.evs(qs[0][1])))
        qs.append((side, ev))
        st.queue = tuple(qs)

    def evs(self, ev):
        if ev[0] != "tok":
            return {"end": "end of text", "error": "error"}[ev[0]]
        s = self.toknames.get(ev[1], str(ev[1])) if not isinstance(ev[1], tuple) else "an unknown token"
        s += " in line " + (fshow(ev[2][1]) if ev[2][0] == "F" else "?")
        if len(ev) > 3:
            s += " text from %s, length %s" % tuple(fshow(x[1]) if x[0] == "F" else "?" for x in ev[3:5])
        return s

    def compare(self, st, a, b):
        if a[0] != b[0] or a[1:2] != b[1:2] or len(a) != len(b):
            raise Found("%s: scanner gives %s; required: %s" % (self.where(st), self.evs(a), self.evs(b)))
        for x, y in zip(a[2:], b[2:]):
            if x[0] != "F" or y[0] != "F":
                raise Undecided("%s: position or line of a token could not be determined" % self.where(st))
            d = self.red(st, ladd(x[1], y[1], -1))
            if d != (0, ()):
                raise Found("%s: scanner gives %s; required: %s" % (self.where(st), self.evs(a), self.evs(b)))

    def freeze(self, st):
        """the character under the cursor is left behind: values derived from it stay as constants or are forgotten"""
        for k, v in st.env.items():
            if v[0] == "ch":
                if len(st.ch) == 1:
                    c = next(iter(st.ch))
                    st.env[k] = ("c", c - 256 if v[1] == "s" and c > 127 else c)
                else:
                    st.env[k] = TOP

    # -------------------------------------------------------------- evaluation
    def val(self, st, o, ty=None):
        if o[0] == "v":
            return st.env.get(o[1], TOP)
        if o[0] == "c":
            return ("c", o[1])
        if o[0] == "g":
            return ("g", o[1], 0)
        if o[0] == "gep":
            v = self.val(st, o[2][0][1])
            off = self.gep(o[1], [(t, self.val(st, x)) for t, x in o[2][1:]])
            if v[0] == "g" and off is not None and off[0] == "c":
                return ("g", v[1], v[2] + off[1])
        return TOP

    def gep(self, ty, idx):
        T = self.mod.types
        tot = ("c", 0)
        first = True
        for t, v in idx:
            if first:
                sz = T.size_align(ty)[0]
                first = False
            else:
                ty = T.resolve(ty)
                if ty[0] == "arr":
                    ty = ty[2]
                    sz = T.size_align(ty)[0]
                elif ty[0] == "struct":
                    if v[0] != "c":
                        return None
                    tot = self.bin("add", tot, ("c", T.struct_layout(ty)[0][v[1]]), 64)
                    ty = ty[1][v[1]]
                    continue
                else:
                    return None
            tot = self.bin("add", tot, self.bin("mul", v, ("c", sz), 64), 64)
        return tot

    def form(self, v):
        if v[0] == "c":
            return lin(v[1])
        if v[0] == "l":
            return v[1]
        return None

    def mk(self, f):
        return ("c", f[0]) if not f[1] else ("l", f)

    def bin(self, op, a, b, w):
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            m = (1 << w) - 1
            try:
                r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y,
                     "shl": lambda: x << y, "lshr": lambda: (x & m) >> y, "ashr": lambda: x >> y,
                     "sdiv": lambda: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1), "udiv": lambda: (x & m) // (y & m),
                     "srem": lambda: abs(x) % abs(y) * (1 if x >= 0 else -1), "urem": lambda: (x & m) % (y & m)}[op]()
            except (KeyError, ZeroDivisionError, ValueError):
                return TOP
            r &= m
            if w > 1 and r >> (w - 1):
                r -= 1 << w
            return ("c", r)
        if op in ("add", "sub"):
            m = 1 if op == "add" else -1
            if a == OLD or b == OLD or op == "sub" and a == ("c", 0) and b[0] == "p":
                return OLD
            if a[0] == "p" and b[0] == "p" and op == "sub":
                return self.mk(ladd(a[1], b[1], -1)) if a[2] == b[2] else TOP
            if a[0] == "p":
                f = self.form(b)
                return ("p", ladd(a[1], f, m), a[2]) if f is not None else TOP
            if b[0] == "p" and op == "add":
                f = self.form(a)
                return ("p", ladd(b[1], f), b[2]) if f is not None else TOP
            if a[0] == "g" and b[0] == "c":
                return ("g", a[1], a[2] + m * b[1])
            if a[0] == "g" and b[0] == "g" and op == "sub" and a[1] == b[1]:
                return ("c", a[2] - b[2])
            x, y = self.form(a), self.form(b)
            return self.mk(ladd(x, y, m)) if x is not None and y is not None else TOP
        if op == "mul":
            for x, y in ((a, b), (b, a)):
                if x[0] == "c" and y[0] == "l":
                    return self.mk(ladd(lin(0), y[1], x[1]))
        if op == "shl" and a[0] == "l" and b[0] == "c":
            return self.mk(ladd(lin(0), a[1], 1 << b[1]))
        if op in ("and", "or") and w == 1:
            for x, y in ((a, b), (b, a)):
                if x == ("c", 0):
                    return x if op == "and" else y
                if x[0] == "c":
                    return y if op == "and" else ("c", -1)
        if op == "xor" and w == 1 and b[0] == "c" and b[1]:
            return ("not", a) if a[0] in ("cmp", "not") else TOP
        return TOP

    PRED = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "slt": lambda a, b: a < b, "sle": lambda a, b: a <= b, "sgt": lambda a, b: a > b, "sge": lambda a, b: a >= b}

    def cmp(self, st, pred, a, b, w):
        """('c', 0/1) | ('cmp', pred, a, b, w) when unknown"""
        if pred[0] == "u" and pred != "une":
            p2 = "s" + pred[1:]
            m = (1 << w) - 1
            if a[0] == "c" and b[0] == "c":
                return ("c", int(self.PRED[p2](a[1] & m, b[1] & m)))
            if a[0] in ("p",) or b[0] in ("p",) or a[0] == "g":
                pred = p2
        if a[0] == "c" and b[0] == "c":
            return ("c", int(self.PRED[pred](a[1], b[1])))
        for x, y in ((a, b), (b, a)):
            if x[0] in ("p", "g", "obj", "old") and y == ("c", 0) and pred in ("eq", "ne"):
                return ("c", int(pred == "ne"))
        if a[0] == "g" and b[0] == "g" and a[1] == b[1]:
            return ("c", int(self.PRED[pred](a[2], b[2])))
        d = None
        if a[0] == "p" and b[0] == "p" and a[2] == b[2]:
            d = self.red(st, ladd(a[1], b[1], -1))
        elif a[0] in ("c", "l") and b[0] in ("c", "l"):
            d = self.red(st, ladd(self.form(a), self.form(b), -1))
        if d is not None and not d[1] and pred in self.PRED:
            return ("c", int(self.PRED[pred](d[0], 0)))
        return ("cmp", pred, a, b, w)

    def decide(self, st, cond):
        """[(state, bool)]"""
        neg = False
        while cond[0] == "not":
            neg = not neg
            cond = cond[1]
        if cond[0] == "c":
            return [(st, bool(cond[1]) != neg)]
        if cond[0] == "cmp":
            _, pred, a, b, w = cond
            r = self.cmp(st, pred, a, b, w)
            if r[0] == "c":
                return [(st, bool(r[1]) != neg)]
            for x, y, sw in ((a, b, False), (b, a, True)):
                if x[0] == "ch" and y[0] == "c":
                    yes, no = set(), set()
                    for c in st.ch:
                        v = c - 256 if x[1] == "s" and c > 127 else c
                        l, rr = (v, y[1]) if not sw else (y[1], v)
                        t = self.cmp(st, pred, ("c", l), ("c", rr), w)
                        (yes if t[1] else no).add(c)
                    out = []
                    for s, tr in ((yes, True), (no, False)):
                        if s:
                            n = st.copy()
                            n.ch = frozenset(s)
                            out.append((n, tr != neg))
                    return out
            out = []
            for tr in (True, False):
                n = st.copy()
                if self.assume(n, pred, a, b, tr):
                    for k, v in n.env.items():
                        if v == cond:
                            n.env[k] = ("c", int(tr))
                    out.append((n, tr != neg))
            return out
        return [(st.copy(), True), (st.copy(), False)]

    def assume(self, st, pred, a, b, truth):
        """facts from a comparison that could go either way; False if it can not"""
        if not truth:
            pred = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}.get(pred, "?")
        d = None
        if a[0] == "p" and b[0] == "p" and a[2] == b[2]:
            d = self.red(st, ladd(a[1], b[1], -1))
        elif a[0] in ("c", "l") and b[0] in ("c", "l"):
            d = self.red(st, ladd(self.form(a), self.form(b), -1))
        if d is None:
            return True
        m = dict(d[1])
        if len(m) == 1 and set(m) <= {"n", "m"} and d[0] * list(m.values())[0] >= 0:
            sg = 1 if list(m.values())[0] > 0 else -1                     # the buffer is never empty: sign of d is known
            return self.PRED[pred](sg, 0) if pred in self.PRED else pred[:2] != ("ul" if sg > 0 else "ug")
        if set(m) == {"P", "E"} and m["P"] == -m["E"] and abs(m["P"]) == 1:
            k = d[0] * m["P"]          # P - E + k   (sign normalised)
            if pred == "eq":
                st.dE = k
                return k >= (1 if st.ch is not None else 0)
            if pred in ("slt", "ult", "sgt", "ugt"):
                lt = (pred[1:] == "lt") == (m["P"] == 1)
                return True
            return True
        # result of the last read: fewer characters than requested means end of text
        if st.req is not None:
            g = self.red(st, ladd(st.req, lin(0, E=1, P=-1), -1))        # requested - received
            for sg in (1, -1):
                if d == ladd(lin(0), g, sg):
                    rel = pred if sg == 1 else {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(pred, pred)
                    # rel compares (requested - received) with 0
                    if rel in ("ne", "sgt", "ugt"):
                        if st.final is False:
                            return False
                        st.final = True
                    elif rel in ("eq", "sle", "ule"):
                        if st.final is True:
                            return False
                        st.final = False
                    elif rel in ("slt", "ult"):
                        return False
                    return True
        return True

    # -------------------------------------------------------------- exploration
    def start(self):
        st = St()
        st.env = {}
        for i, (t, nm, at) in enumerate(self.fn.params):
            st.env[nm] = ("obj", "arg%d" % i)
        st.blk, st.prev, st.idx = self.fn.order[0], None, 0
        st.q, st.acc, st.dS, st.dA, st.dE, st.nl = 0, None, 0, 0, None, 0
        st.final = False
        st.base = lin(0, b=1)
        st.ch = None
        st.queue = ()
        st.started = False
        st.gen = 0
        st.size = "n"
        st.req = None
        st.wit = b""
        st.tr = ()
        st.hist = st.pend = ()
        st.over = False
        st.ended = False
        return st

    def tidy(self, st):
        """forget what can no longer matter"""
        n = False
        for k in self.live[st.blk]:
            v = st.env.get(k)
            if v is not None and v[0] in ("p", "l"):
                f = self.red(st, v[1])
                if "n" in dict(f[1]):
                    n = True
                if v[0] == "p" and (len(f[1]) != 1 or f[1][0][1] != 1):
                    st.env[k] = OLD if "b" in dict(f[1]) else TOP
                elif v[0] == "p" and k not in self.bufs and not st.queue and v[2] == st.gen and (
                        f[1] == (("S", 1),) and f[0] < -1 or st.dS is not None and f[1] == (("P", 1),) and f[0] < -st.dS - 1):
                    st.env[k] = OLD
        b = self.red(st, st.base)
        if b != lin(0, b=1) and b != self.red(st, lin(0, S=1)) and not any(
                st.env[k][0] == "p" and k not in self.bufs and self.red(st, st.env[k][1]) == b for k in self.live[st.blk] if k in st.env):
            for k, v in list(st.env.items()):
                if v[0] == "p" and k in self.bufs and v[2] == st.gen and self.red(st, v[1]) == b:
                    st.env[k] = ("p", lin(0, b=1), st.gen)
                elif v[0] in ("p", "l") and "b" in dict(v[1][1]):
                    st.env[k] = TOP
            st.queue = tuple((side, self.mapev(ev, lambda f: None if "b" in dict(f[1]) else f)) for side, ev in st.queue)
            if st.req is not None and "b" in dict(st.req[1]):
                st.req = None
            st.base = lin(0, b=1)
        if st.final is not None and not n:
            st.req = None

    def key(self, st):
        live = self.live[st.blk]
        env = []
        for k in sorted(live):
            v = st.env.get(k)
            if v is None:
                continue
            if v[0] == "p":
                v = ("p", self.red(st, v[1]), v[2] == st.gen)
            elif v[0] == "l":
                v = ("l", self.red(st, v[1]))
            env.append((k, v))
        return (st.blk, tuple(env), st.q, st.acc, st.dS, st.dA, st.dE, st.nl, st.final, self.red(st, st.base), st.ch,
                tuple((s, self.mapev(e, lambda f: self.red(st, f))) for s, e in st.queue), st.started, st.size, st.req, st.ended, st.hist, st.pend)

    def run(self, toknames):
        self.toknames = toknames
        seen = set()
        work = collections.deque([self.start()])
        steps = 0
        while work:
            st = work.popleft()
            try:
                while True:
                    steps += 1
                    if steps > self.limit * 40 or self.configs > self.limit:
                        raise ToolError("scanner: too many configurations")
                    b = self.fn.blocks[st.blk]
                    if st.idx == 0:
                        self.phis(st, b)
                        if st.blk in self.heads:
                            live = self.livenow(st)
                            for x in [x for x in st.env if x not in live and st.env[x][0] != "obj"]:
                                del st.env[x]
                            self.tidy(st)
                            k = self.key(st)
                            if k in seen:
                                break
                            seen.add(k)
                            self.configs += 1
                            if self.trace:
                                st.tr += ((st.blk, bytes(st.wit)[-3:], st.q, st.acc, st.dS, st.dE, st.final, tuple(st.ch)[:3] if st.ch else None, st.queue, st.base, [(k, v[1]) for k, v in st.env.items() if k[:2] in ("ts", "te", "p.", "ha") and len(v) > 1]),)
                        continue
                    r = self.instr(st, b[st.idx])
                    if r is None:
                        continue
                    work.extend(r)
                    break
            except Found as e:
                if str(e) not in [x for x, _ in self.viol]:
                    self.viol.append((str(e), self.mod.dbg.where(self.fn.blocks[st.blk][min(st.idx, len(self.fn.blocks[st.blk]) - 1)].dbg)))
                if len(self.viol) > 8:
                    return
        return

    def phis(self, st, b):
        new = {}
        n = 0
        for i in b:
            if i.op != "phi":
                break
            n += 1
            for o, p in i.ops:
                if p == st.prev:
                    v = self.val(st, o)
                    if v[0] == "c" and i.dest in self.lines and not st.started:
                        v = ("l", lin(v[1], R=1))
                    new[i.dest] = v
        st.env.update(new)
        st.idx = n if n else 0
        if n == 0:
            st.idx = -1

    def instr(self, st, i):
        if st.idx == -1:
            st.idx = 0
            i = self.fn.blocks[st.blk][0]
        op = i.op
        nxt = st.idx + 1
        if op in ir.BINOPS:
            w = i.ty[1] if i.ty[0] == "int" else 64
            a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            if "ch" in (a[0], b[0]):
                if len(st.ch) > 1:
                    return self.split(st)
                c = next(iter(st.ch))
                a, b = [("c", c - 256 if x[1] == "s" and c > 127 else c) if x[0] == "ch" else x for x in (a, b)]
            v = self.bin(op, a, b, w)
            if v[0] == "c" and i.dest in self.lines and not st.started:
                v = ("l", lin(v[1], R=1))
            st.env[i.dest] = v
        elif op == "icmp":
            w = i.ty[1] if i.ty[0] == "int" else 64
            st.env[i.dest] = self.cmp(st, i.x, self.val(st, i.ops[0]), self.val(st, i.ops[1]), w)
            v = st.env[i.dest]
            if v[0] == "cmp" and any(x[0] == "ch" for x in v[2:4]):
                r = self.decide(st, v)
                for n, t in r:
                    n.env[i.dest] = ("c", int(t))
                    n.idx = nxt
                return [n for n, _ in r]
        elif op in ("sext", "zext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze"):
            v = self.val(st, i.ops[0])
            if v[0] == "c" and op == "zext" and i.x[0] == "int":
                v = ("c", v[1] & ((1 << i.x[1]) - 1))
            elif v[0] == "c" and op == "trunc" and i.ty[0] == "int":
                w = i.ty[1]
                x = v[1] & ((1 << w) - 1)
                v = ("c", x - (1 << w) if w > 1 and x >> (w - 1) else x)
            elif v[0] == "ch":
                v = ("ch", "u" if op == "zext" else v[1]) if op in ("sext", "zext") and not (op == "zext" and v[1] == "s2") else (TOP if op != "trunc" else v)
                if op == "sext":
                    v = ("ch", "s")
            elif v[0] in ("cmp", "not") and op in ("zext", "sext"):
                r = self.decide(st, v)
                for n, t in r:
                    n.env[i.dest] = ("c", int(t) if op == "zext" else -int(t))
                    n.idx = nxt
                return [n for n, _ in r]
            st.env[i.dest] = v
        elif op == "select":
            r = self.decide(st, self.val(st, i.ops[0]))
            for n, t in r:
                v = self.val(n, i.ops[1] if t else i.ops[2])
                if v[0] == "c" and i.dest in self.lines and not n.started:
                    v = ("l", lin(v[1], R=1))
                n.env[i.dest] = v
                n.idx = nxt
            return [n for n, _ in r]
        elif op == "getelementptr":
            v = self.val(st, i.ops[0][1])
            off = self.gep(i.ty, [(t, self.val(st, x)) for t, x in i.ops[1:]])
            if off is not None and off[0] == "ch":
                if len(st.ch) > 1:
                    return self.split(st)
            if v[0] == "obj":
                st.env[i.dest] = ("obj", v[1] + "+")
            else:
                st.env[i.dest] = self.bin("add", v, off if off is not None else TOP, 64)
        elif op == "load":
            return self.load(st, i)
        elif op == "store":
            p = self.val(st, i.ops[1])
            if p[0] == "p":
                raise Undecided("%s: the scanner writes into its buffer" % self.mod.dbg.where(i.dbg))
        elif op == "br":
            if len(i.x) == 1:
                self.jump(st, i.x[0])
                return None
            r = self.decide(st, self.val(st, i.ops[0]))
            for n, t in r:
                self.jump(n, i.x[0] if t else i.x[1])
            return [n for n, _ in r]
        elif op == "switch":
            v = self.val(st, i.ops[0])
            if v[0] == "ch":
                if len(st.ch) > 1:
                    return self.split(st)
                c = next(iter(st.ch))
                v = ("c", c - 256 if v[1] == "s" and c > 127 else c)
            if v[0] == "c":
                for c, l in i.x[1]:
                    if c == v[1]:
                        self.jump(st, l)
                        return None
                self.jump(st, i.x[0])
                return None
            raise Undecided("%s: branch on an unknown value" % self.mod.dbg.where(i.dbg))
        elif op in ("call", "invoke"):
            r = self.call(st, i)
            if r is not None:
                return r
            if op == "invoke":
                self.jump(st, i.x["to"])
                return None
        elif op == "alloca":
            st.env[i.dest] = ("obj", i.dest)
        elif op == "ret":
            return self.finish(st, ("end",))
        elif op in ("unreachable", "resume"):
            return []
        elif i.dest:
            st.env[i.dest] = TOP
        st.idx = nxt
        return None

    def jump(self, st, l):
        st.prev, st.blk, st.idx = st.blk, l, 0

    def split(self, st):
        out = []
        for c in st.ch:
            n = st.copy()
            n.ch = frozenset([c])
            out.append(n)
        return out

    def load(self, st, i):
        p = self.val(st, i.ops[0])
        sz = self.mod.types.size_align(i.ty)[0]
        if p[0] == "g":
            st.env[i.dest] = self.table(p[1], p[2], sz)
        elif p[0] == "p":
            if p[2] != st.gen:
                raise Found("%s: %s reads through a pointer into a buffer that was reallocated" % (self.where(st), self.mod.dbg.where(i.dbg)))
            d = self.red(st, ladd(p[1], lin(0, P=1), -1))
            if d == (0, ()):
                if st.dE == 0:
                    raise Found("%s: %s reads behind the end of the data" % (self.where(st), self.mod.dbg.where(i.dbg)))
                if st.ch is None:
                    self.look(st)
                st.env[i.dest] = ("ch", "s") if len(st.ch) > 1 else ("c", next(iter(st.ch)) - (256 if next(iter(st.ch)) > 127 else 0))
            else:
                if st.ended:
                    raise Found("%s: goes on after the end or an error: %s" % (self.where(st), self.evs(st.queue[-1][1]) if st.queue else ""))
                if d[1] == () and d[0] > 0 or st.ch is not None or st.dE == 0:
                    if d[1] == () and d[0] > 1:
                        raise Found("%s: %s skips a character" % (self.where(st), self.mod.dbg.where(i.dbg)))
                    return self.ref_char(st)
                raise Undecided("%s: %s reads at %s" % (self.where(st), self.mod.dbg.where(i.dbg), fshow(d)))
        else:
            st.env[i.dest] = ("obj", "mem") if i.ty[0] == "ptr" else TOP
        st.idx += 1
        return None

    def finish(self, st, ev):
        """the function is left: the reference has to come to the same end"""
        self.push(st, "impl", ev)
        guard = 0
        work = [st]
        while work:
            guard += 1
            if guard > 2000:
                raise Undecided("end of text")
            s = work.pop()
            if not s.queue:
                self.paths += 1
                continue
            if s.queue[0][0] == "ref":
                raise Found("%s: scanner gives %s; required: %s" % (self.where(s), self.evs(ev), self.evs(s.queue[0][1])))
            if s.ended:
                raise Found("%s: scanner gives %s after the end" % (self.where(s), self.evs(s.queue[0][1])))
            if ev[0] == "end" and s.final is not True and not (s.ch is not None):
                if s.final is False or not self.asks:
                    raise Found("%s: the scanner stops where the text may go on" % self.where(s))
                raise Undecided("the scanner returns where the end of the text is not established")
            if s.ch is not None or s.pend:
                work.extend(self.ref_char(s))
            elif s.dE == 0 and s.final:
                work.extend(self.ref_eof(s))
            elif s.dE == 0:
                raise Undecided("the scanner ends where the end of the text is not established")
            else:
                raise Found("%s: scanner gives %s before the end of the text" % (self.where(s), self.evs(ev)))
        return []

    def call(self, st, i):
        cal = i.x["callee"]
        args = [self.val(st, a[1]) for a in i.x["args"]]
        nm = cal[1] if cal[0] == "g" else ""
        if i.dest:
            st.env[i.dest] = ("obj", "ret") if i.ty[0] == "ptr" else TOP
        if nm.startswith("llvm.lifetime") or nm.startswith("llvm.dbg"):
            return None
        if self.insert(nm):
            t = args[2]
            if t[0] != "c":
                raise Undecided("%s: kind of token" % self.mod.dbg.where(i.dbg))
            ev = ("tok", t[1])
            for a in args[1:2] + args[3:5]:
                if a == OLD:
                    raise Found("%s: %s text of a token from a position of an earlier token" % (self.where(st), self.mod.dbg.where(i.dbg)))
                if a[0] == "p":
                    if a[2] != st.gen:
                        raise Found("%s: %s text of a token from a reallocated buffer" % (self.where(st), self.mod.dbg.where(i.dbg)))
                    ev += (("F", a[1]),)
                else:
                    f = self.form(a)
                    ev += ((("F", f) if f is not None else ("?",)),)
            self.push(st, "impl", ev)
            return None
        if nm == "__cxa_throw":
            ty = args[1]
            if ty[0] == "g" and "ParserError" not in ty[1]:
                raise Found("%s: throws %s" % (self.where(st), ty[1]))
            return self.finish(st, ("error",))
        if re.match(r"_ZNSi4readEPcl$", nm):
            if st.dE and st.ch is not None and not st.ended:
                return self.ref_char(st)
            if st.dE is not None:
                g = lin(st.dE, P=1)
                self.every(st, lambda f: lsub(f, "E", g))
            else:
                self.every(st, lambda f: None if "E" in dict(f[1]) else f)
            args = [self.val(st, a[1]) for a in i.x["args"]]
            p = args[1]
            f = self.form(args[2])
            if p[0] != "p" or f is None:
                raise Undecided("%s: reads text into an unknown place" % self.mod.dbg.where(i.dbg))
            if p[2] != st.gen:
                raise Found("%s: %s reads text into a buffer that was reallocated" % (self.where(st), self.mod.dbg.where(i.dbg)))
            if st.started and st.dE != 0:
                raise Found("%s: %s more text is read before the buffer is used up" % (self.where(st), self.mod.dbg.where(i.dbg)))
            sh = self.red(st, ladd(lin(0, P=1), p[1], -1))
            self.rebase(st, sh)
            st.dE = None
            st.final = None
            st.req = f
            cap = ladd(lin(0, **{st.size: 1}), ladd(self.val(st, i.x["args"][1][1])[1], st.base, -1), -1)
            over = self.red(st, ladd(f, cap, -1))
            if over[1] == () and over[0] > 0:
                raise Found("%s: %s asks for more characters than the buffer has room for" % (self.where(st), self.mod.dbg.where(i.dbg)))
            if over[1] != ():
                raise Undecided("%s: room in the buffer (%s)" % (self.mod.dbg.where(i.dbg), fshow(over)))
            return None
        if re.match(r"_ZNKSi6gcountEv$", nm):
            st.env[i.dest] = ("l", lin(0, E=1, P=-1)) if st.dE is None else ("c", st.dE)
            return None
        if DATA.match(nm):
            if i.ty[0] == "ptr":
                st.env[i.dest] = ("p", st.base, st.gen)
            return None
        if re.match(r"_ZNKSt6vectorIcSaIcEE4sizeEv$", nm):
            st.env[i.dest] = ("l", lin(0, **{st.size: 1}))
            return None
        if re.match(r"_ZNSt6vectorIcSaIcEEC2Em(RKc)?RKS0_$", nm):
            if args[1][0] == "c" and args[1][1] <= 0:
                raise Found("the buffer is empty")
            return None
        if re.match(r"_ZNSt6vectorIcSaIcEE6resizeEm(RKc)?$", nm):
            f = self.form(args[1])
            if f is None:
                raise Undecided("%s: new size of the buffer" % self.mod.dbg.where(i.dbg))
            m = dict(f[1])
            k = m.pop(st.size, 0)
            if m or k < 1 or k == 1 and f[0] <= 0 or f[0] < 0:
                if not m and (k == 1 and f[0] <= 0 or k == 0):
                    raise Found("%s: %s the buffer does not grow (%s)" % (self.where(st), self.mod.dbg.where(i.dbg), fshow(f)))
                raise Undecided("%s: new size of the buffer" % self.mod.dbg.where(i.dbg))
            self.every(st, lambda g: None if "n" in dict(g[1]) else g)
            st.gen += 1
            return None
        if re.match(r"llvm\.mem(move|cpy)\.|memmove$|memcpy$", nm):
            d, s, n = args[0], args[1], self.form(args[2])
            if d[0] != "p" and s[0] != "p":
                return None
            if d[0] == s[0] == "p" and (d[2] != st.gen or s[2] != st.gen):
                raise Found("%s: %s copies from or to a buffer that was reallocated" % (self.where(st), self.mod.dbg.where(i.dbg)))
            if OLD in args:
                raise Found("%s: %s copies text with a stale position" % (self.where(st), self.mod.dbg.where(i.dbg)))
            if d[0] != "p" or s[0] != "p" or n is None:
                raise Undecided("%s: %s copy %s %s %s" % (self.where(st), self.mod.dbg.where(i.dbg), d, s, args[2]))
            if "memcpy" in nm:
                raise Found("%s: %s memcpy within one buffer, the regions can overlap" % (self.where(st), self.mod.dbg.where(i.dbg)))
            # after the move the address d holds the text at s; n has to reach to the end of the data
            short = self.red(st, ladd(ladd(s[1], n), lin(0, E=1), -1))
            if short[1] != ():
                raise Undecided("%s: extent of the copy (%s)" % (self.mod.dbg.where(i.dbg), fshow(short)))
            if short[0] != 0:
                raise Found("%s: %s moves %d characters %s than the pending text" % (self.where(st), self.mod.dbg.where(i.dbg), abs(short[0]), "more" if short[0] > 0 else "fewer"))
            self.rebase(st, self.red(st, ladd(s[1], d[1], -1)))
            if i.dest:
                st.env[i.dest] = d
            return None
        if re.search(r"schnek", nm) and not re.search(r"5Token|ParserError|9TokenList", nm):
            raise Undecided("%s: calls %s" % (self.mod.dbg.where(i.dbg), nm))
        for a in args:
            if a[0] == "p":
                raise Undecided("%s: the buffer is passed to %s" % (self.mod.dbg.where(i.dbg), nm))
        return None

    def rebase(self, st, sh):
        """addresses keep their value; the text position they hold moves by sh"""
        if sh == (0, ()):
            return
        for k, v in list(st.env.items()):
            if v[0] == "p" and v[2] == st.gen:
                st.env[k] = ("p", self.red(st, ladd(v[1], sh)), v[2])
        st.base = self.red(st, ladd(st.base, sh))


def rep(cs):
    for c in cs:
        if 32 < c < 127:
            return c
    return min(cs)


def show(w):
    return repr(w.decode("latin1")) if len(w) < 60 else "..." + repr(w[-50:].decode("latin1"))


def fshow(f):
    N = {"P": "cursor", "S": "token start", "A": "match end", "E": "data end", "R": "newlines before", "b": "buffer start", "n": "size", "m": "size"}
    s = " + ".join(("" if c == 1 else "-" if c == -1 else "%d*" % c) + N.get(k, k) for k, c in f[1])
    if not s:
        return str(f[0])
    return s + (" + %d" % f[0] if f[0] else "")


def const_bytes(g):
    """bytes of a constant global initialiser made of integers"""
    m = re.search(r"\bconstant (.*)$", g)
    s = m.group(1)
    out = bytearray()
    pos = 0

    def value(s, i):
        m = re.match(r"\s*\[(\d+) x (i\d+)\]\s*", s[i:])
        m2 = re.match(r"\s*<?\{", s[i:])
        if m:
            n, w = int(m.group(1)), int(m.group(2)[1:]) // 8
            i += m.end()
            if s.startswith("zeroinitializer", i):
                return bytes(n * w), i + 15
            if s.startswith('c"', i):
                j = i + 2
                b = bytearray()
                while s[j] != '"':
                    if s[j] == "\\":
                        if s[j + 1] == "\\":
                            b.append(92)
                            j += 2
                        else:
                            b.append(int(s[j + 1:j + 3], 16))
                            j += 3
                    else:
                        b.append(ord(s[j]))
                        j += 1
                return bytes(b), j + 1
            if s.startswith("[", i):
                e = s.index("]", i)
                b = bytearray()
                for x in s[i + 1:e].split(","):
                    b += (int(x.split()[1]) & ((1 << 8 * w) - 1)).to_bytes(w, "little")
                return bytes(b), e + 1
            return None, i
        if m2:
            # packed struct: type list, then value list
            d = 0
            j = i
            while True:
                if s[j] in "{[":
                    d += 1
                if s[j] in "}]":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            j += 1
            while s[j] in "> ":
                j += 1
            j = s.index("{", j) + 1
            b = bytearray()
            while True:
                v, j = value(s, j)
                if v is None:
                    return None, j
                b += v
                while s[j] == " ":
                    j += 1
                if s[j] == ",":
                    j += 1
                    continue
                return bytes(b), j + 1
        m = re.match(r"\s*(i\d+) (-?\d+)", s[i:])
        if m:
            w = int(m.group(1)[1:]) // 8
            return (int(m.group(2)) & ((1 << 8 * w) - 1)).to_bytes(w, "little"), i + m.end()
        return None, i
    try:
        v, _ = value(s, 0)
    except (ValueError, IndexError):
        return None
    return v

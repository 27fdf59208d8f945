"""LALR(1) automaton of a grammar, and its comparison with the tables of a generated parser"""
import re
from .ir import ToolError


class Lalr:
    """grammar: list of (lhs, [symbols]); the first production's lhs is the start symbol"""

    def __init__(self, prods, end="$"):
        self.prods = prods
        self.nts = {l for l, _ in prods}
        self.by = {}
        for k, (l, _) in enumerate(prods):
            self.by.setdefault(l, []).append(k)
        self.start = prods[0][0]
        self.first = {n: set() for n in self.nts}
        ch = True
        while ch:      # no empty productions in this grammar
            ch = False
            for l, r in prods:
                assert r
                f = self.first[r[0]] if r[0] in self.nts else {r[0]}
                if not f <= self.first[l]:
                    self.first[l] |= f
                    ch = True
        self.states, self.edges = [], []
        index = {}

        def closure(items):
            todo, out = list(items), set(items)
            while todo:
                k, d, la = todo.pop()
                rhs = self.rhs(k)
                if d >= len(rhs) or rhs[d] not in self.nts:
                    continue
                nx = rhs[d + 1] if d + 1 < len(rhs) else None
                las = {la} if nx is None else self.first[nx] if nx in self.nts else {nx}
                for q in self.by[rhs[d]]:
                    for t in las:
                        it = (q, 0, t)
                        if it not in out:
                            out.add(it)
                            todo.append(it)
            return out
        # canonical LR(1) states merged by core, iterated until the look-aheads are stable
        start = (-1, 0, end)
        cores = [frozenset([(-1, 0)])]
        index = {cores[0]: 0}
        sets = [closure([start])]
        edges = [{}]
        todo = [0]
        while todo:
            i = todo.pop()
            nxt = {}
            for k, d, la in sets[i]:
                rhs = self.rhs(k)
                if d < len(rhs):
                    nxt.setdefault(rhs[d], set()).add((k, d + 1, la))
            for x, its in nxt.items():
                core = frozenset((k, d) for k, d, _ in its)
                if core not in index:
                    index[core] = len(sets)
                    sets.append(set())
                    edges.append({})
                j = index[core]
                edges[i][x] = j
                c = closure(its)
                if not c <= sets[j]:
                    sets[j] |= c
                    todo.append(j)
        self.sets, self.edges, self.end = sets, edges, end
        self.red = []
        for i, s in enumerate(sets):
            r = {}
            for k, d, la in s:
                if k >= 0 and d == len(prods[k][1]):
                    if r.get(la, k) != k or la in edges[i]:
                        raise ToolError("the reference grammar is ambiguous")
                    r[la] = k
            self.red.append(r)

    def rhs(self, k):
        return [self.start] if k == -1 else self.prods[k][1]

    def name(self, k):
        return "%s ::= %s" % (self.prods[k][0], " ".join(self.prods[k][1]))


def words(text):
    """numbers of a constant array of the IR"""
    m = re.search(r'\[(\d+) x i(\d+)\] c"((?:[^"\\]|\\.)*)"', text)
    if m:
        out, s, i = [], m.group(3), 0
        while i < len(s):
            if s[i] == "\\" and s[i + 1] == "\\":
                out.append(92)
                i += 2
            elif s[i] == "\\":
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
            else:
                out.append(ord(s[i]))
                i += 1
        if len(out) != int(m.group(1)):
            raise ToolError("constant array not understood")
        return out, 8
    m = re.search(r"\[(\d+) x i(\d+)\] zeroinitializer", text)
    if m:
        return [0] * int(m.group(1)), int(m.group(2))
    m = re.search(r"\[(\d+) x i(\d+)\] \[(.*)\]", text)
    if m:
        out = [int(x) for x in re.findall(r"i\d+ (-?\d+)", m.group(3))]
        if len(out) == int(m.group(1)):
            return out, int(m.group(2))
    raise ToolError("constant array not understood")


def signed(a):
    v, b = a
    return [x - (1 << b) if x >= 1 << (b - 1) else x for x in v]


class Tables:
    def __init__(self, mod):
        g = mod.globals

        def arr(n):
            c = [k for k in g if re.match(r"_ZL\d+%s$" % n, k)]
            if len(c) != 1:
                raise ToolError("table %s not found" % n)
            return words(g[c[0]])
        self.num = {}
        self.tok = {}
        for k, v in g.items():
            m = re.match(r"verif_(num|tok)_(\w+)$", k)
            if m:
                (self.num if m.group(1) == "num" else self.tok)[m.group(2)] = int(re.search(r"i32 (-?\d+)", v).group(1))
        self.action, self.look = arr("yy_action")[0], arr("yy_lookahead")[0]
        self.so, self.ro, self.dflt = signed(arr("yy_shift_ofst")), signed(arr("yy_reduce_ofst")), arr("yy_default")[0]
        c = [k for k in g if re.match(r"_ZL\d+yyRuleInfo$", k)]
        if len(c) != 1:
            raise ToolError("table yyRuleInfo not found")
        self.rule = [(int(a) & 255, int(b) & 255) for a, b in re.findall(r"\{ i8 (-?\d+), i8 (-?\d+) \}", g[c[0]])]
        if len(self.rule) != self.num["YYNRULE"]:
            raise ToolError("table yyRuleInfo not understood")

    def _look(self, ofs, s, t):
        i = ofs[s] + t
        if 0 <= i < len(self.action) and i < len(self.look) and self.look[i] == t:
            return self.action[i]
        return self.dflt[s]

    def shift(self, s, t):
        if s > self.num["YY_SHIFT_MAX"] or s >= len(self.so) or self.so[s] == self.num["YY_SHIFT_USE_DFLT"]:
            return self.dflt[s]
        return self._look(self.so, s, t)

    def goto(self, s, t):
        if s > self.num["YY_REDUCE_MAX"] or s >= len(self.ro):
            return self.dflt[s]
        return self._look(self.ro, s, t)


def compare(L, T):
    """pairs the states of the automaton L with the states of the tables T; returns (differences, production -> rule number, pairs)"""
    diffs = []
    ns, nr, acc = T.num["YYNSTATE"], T.num["YYNRULE"], T.num["YY_ACCEPT_ACTION"]
    rules, back, symn = {}, {}, {}
    pair = {0: 0}
    path = {0: []}
    todo = [0]
    gotos = []
    checked = {}

    def rule(k, n, where):
        l, m = T.rule[n]
        if rules.setdefault(k, n) != n or back.setdefault(n, k) != k:
            diffs.append("%s: reduces by rule %d, required is the production %s" % (where, n, L.name(k)))
            return False
        if m != len(L.prods[k][1]):
            diffs.append("%s: the rule of the production %s takes %d symbols off the stack" % (where, L.name(k), m))
            return False
        if symn.setdefault(L.prods[k][0], l) != l:
            diffs.append("%s: the rule of the production %s makes another kind of symbol than %s" % (where, L.name(k), L.prods[k][0]))
            return False
        return True

    def link(j, s, p):
        if j not in pair:
            pair[j] = s
            path[j] = p
            todo.append(j)
        elif pair[j] != s:
            diffs.append("after %s: goes to state %d, after %s to state %d; the same is required" % (" ".join(p), s, " ".join(path[j]), pair[j]))

    def act(i, t, num):
        s = pair[i]
        w = "after %s, next %s" % (" ".join(path[i]) or "nothing", t)
        a = T.shift(s, num)
        j, k = L.edges[i].get(t), L.red[i].get(t)
        if j is not None:
            if a >= ns:
                diffs.append("%s: %s; required is to go on" % (w, "a syntax error" if a >= ns + nr else "reduces by rule %d" % (a - ns)))
            else:
                link(j, a, path[i] + [t])
        elif k is not None:
            if not ns <= a < ns + nr:
                diffs.append("%s: %s; required is to reduce by %s" % (w, "a syntax error" if a >= ns + nr else "the token is taken", L.name(k)))
            else:
                rule(k, a - ns, w)
        elif a < ns:
            diffs.append("%s: the token is accepted; a syntax error is required" % w)
        elif a < ns + nr:
            # a default reduction in a state of error: taken before the error is seen; it has to be one of the state's own
            checked.setdefault((i, a - ns), w)
        elif a != T.num["YY_ERROR_ACTION"]:
            diffs.append("%s: neither an action nor a syntax error" % w)
    done = set()
    while todo or gotos:
        while todo:
            i = todo.pop()
            for t in sorted(T.tok):
                act(i, t, T.tok[t])
            act(i, L.end, 0)
            gotos += [(i, x) for x in L.edges[i] if x in L.nts]
        rest = []
        moved = False
        for i, x in gotos:
            if x not in symn:
                rest.append((i, x))
                continue
            moved = True
            a = T.goto(pair[i], symn[x])
            if i == 0 and x == L.start:
                if a != acc:
                    diffs.append("a complete setup file is not accepted")
                continue
            if a >= ns:
                diffs.append("after %s: nothing follows the %s" % (" ".join(path[i] + [x]), x))
                continue
            link(L.edges[i][x], a, path[i] + [x])
        gotos = rest
        if not moved and not todo:
            break
        if len(diffs) > 20:
            break
    if not diffs:
        for i, x in gotos:
            diffs.append("after %s: no production of %s is ever reduced" % (" ".join(path[i]) or "nothing", x))
        for (i, n), w in sorted(checked.items()):
            if back.get(n) not in set(L.red[i].values()):
                diffs.append("%s: reduces by rule %d, which is not complete here" % (w, n))
        if len(set(pair.values())) != len(pair):
            diffs.append("states that differ in the grammar are one in the tables")
    return diffs, rules, pair

"""Which exceptions can leave which function.

A call-graph fixpoint over the compiled (unoptimised) IR of all translation units given: a function lets
escape what it throws and what its callees let escape, except what the landing pad of the throwing or calling
instruction catches (the exact type or, by the type-information objects, a base class).  Virtual calls are
resolved by class hierarchy (type metadata of the vtables and of the call); calls through other pointers and
to functions outside the translation units are assumed not to throw the exceptions of interest.
"""
import os, re
from concurrent.futures import ThreadPoolExecutor
from . import ir
from .absint import dem


class ExcModule:
    def __init__(self, srcs, flags=()):
        s = ir.scratch()
        outs = []
        with ThreadPoolExecutor(8) as ex:
            fs = []
            for i, src in enumerate(srcs):
                if not src.startswith("/"):
                    src = os.path.join(ir.REPO, src)
                if not os.path.exists(src):
                    raise ir.ToolError("anchor vanished: %s" % src)
                o = "%s/exc-%d.ll" % (s, i)
                outs.append(o)
                fs.append(ex.submit(ir.run, ["clang++"] + ir.cflags(flags) + ["-O0", "-Xclang", "-disable-O0-optnone", "-flto", "-fwhole-program-vtables",
                          "-fvisibility=hidden", "-fno-access-control", "-gline-tables-only", "-S", "-emit-llvm", src, "-o", o]))
            for f in fs:
                f.result()
        self.funcs = {}        # name -> list of (what, callee/type, clauses, line)
        self.bases = {}        # typeinfo -> [base typeinfo]
        for t in ("12out_of_range", "16invalid_argument"):
            self.bases["_ZTISt" + t] = ["_ZTISt11logic_error"]
        self.bases["_ZTISt11logic_error"] = ["_ZTISt9exception"]
        self.vt = {}           # type id -> [(table, first index)]
        self.tables = {}
        self.lines = {}
        self.subs = {}
        self.alias = {}
        self.unjudged = []     # checked accesses (at) whose range error is not followed
        self.rethrown = {}     # name -> clauses whose handler rethrows
        for k, o in enumerate(outs):
            self.load(open(o).read(), k)
        self.fix()

    def load(self, text, unit):
        md = dict(re.findall(r"^!(\d+) = !\{i64 (\d+, !\"[^\"]+\")\}", text, re.M))
        loc = dict(re.findall(r"^!(\d+) = !DILocation\(line: (\d+)", text, re.M))
        scopefile = {}
        files = {m[0]: m[1] for m in re.findall(r'^!(\d+) = !DIFile\(filename: "([^"]+)"', text, re.M)}
        for m in re.finditer(r"^!(\d+) = distinct !DISubprogram\(.*?file: !(\d+), line: (\d+)", text, re.M):
            scopefile[m.group(1)] = (files.get(m.group(2), "?"), m.group(3))
        for m in re.finditer(r"^@(_ZTI\w+) = .*$", text, re.M):
            bs = [x for x in re.findall(r"ptr @(_ZTI\w+)", m.group(0)[len(m.group(1)) + 1:])]
            if bs or m.group(1) not in self.bases:
                self.bases[m.group(1)] = bs
        for m in re.finditer(r"^@(_ZTV\w+) = .*$", text, re.M):
            line = m.group(0)
            body = re.search(r"\[\d+ x ptr\] \[(.*?)\]", line)
            if not body:
                continue
            ents = [re.search(r"@([\w.$]+)", e) for e in body.group(1).split(", ptr")]
            ents = [e.group(1) if e else None for e in ents]
            self.tables[m.group(1)] = ents
            for t in re.findall(r"!type !(\d+)", line):
                if t in md:
                    off, ty = md[t].split(", ", 1)
                    self.vt.setdefault(ty[2:-1], set()).add((m.group(1), int(off) // 8))
        for a, b in re.findall(r"^@([\w.$]+) = .*?\balias\b.*?ptr @([\w.$]+)\s*(?:,.*)?$", text, re.M):
            self.alias[a] = b
        for m in re.finditer(r"^define (.*?)@([\w.$]+|\"[^\"]+\")\(.*?\n(.*?)^}", text, re.M | re.S):
            name = m.group(2).strip('"')
            linkage = m.group(1)
            key = name
            if "internal" in linkage:
                key = name          # file-local; names are distinct enough in this code base
            if key in self.funcs and "linkonce" in linkage:
                continue
            d = re.search(r"!dbg !(\d+) \{", m.group(0).split("\n", 1)[0])
            if d and d.group(1) in scopefile:
                self.subs[key] = scopefile[d.group(1)]
            self.funcs[key], self.rethrown[key] = self.body(m.group(3), loc)
            if re.match(r"_ZN[KS]*St(7__cxx11)?\d+.*2atE", name):
                # the range error of a checked access tells of a missing guard, which is a question of values
                ev = self.funcs[key]
                kept = [e for e in ev if e[0] != "throw"]
                if len(kept) != len(ev):
                    self.funcs[key] = kept
                    self.unjudged.append(name)

    def body(self, text, loc):
        text = re.sub(r"\n\s+to label", " to label", text)
        pads, cur = {}, None
        blocks, order = {}, []
        lab = "entry"
        for l in text.split("\n"):
            mm = re.match(r"^([\w.$-]+|\"[^\"]+\"):", l)
            if mm:
                lab = mm.group(1)
                continue
            blocks.setdefault(lab, []).append(l)
        for b, ls in blocks.items():
            for i, l in enumerate(ls):
                if "landingpad" in l and "=" in l:
                    cl = []
                    for l2 in ls[i + 1:]:
                        c = re.match(r"\s+catch ptr (null|@[\w.$]+)", l2)
                        if c:
                            cl.append(c.group(1).lstrip("@"))
                        elif re.match(r"\s+(cleanup|filter)", l2):
                            continue
                        else:
                            break
                    pads[b] = cl
        ev = []
        vtab, vslot, vfun = {}, {}, {}
        for b, ls in blocks.items():
            for l in ls:
                t = re.search(r"@llvm\.type\.test\(ptr (%[\w.]+), metadata !\"([^\"]+)\"", l)
                if t:
                    vtab[t.group(1)] = t.group(2)
                    continue
                g = re.match(r"\s+(%[\w.]+) = getelementptr inbounds ptr, ptr (%[\w.]+), i64 (\d+)", l)
                if g:
                    vslot[g.group(1)] = (g.group(2), int(g.group(3)))
                    continue
                g = re.match(r"\s+(%[\w.]+) = load ptr, ptr (%[\w.]+)", l)
                if g and g.group(2) in vslot:
                    vfun[g.group(1)] = vslot[g.group(2)]
                    continue
                c = re.search(r"\b(invoke|call)\b.*?(@[\w.$]+|@\"[^\"]+\"|%[\w.]+)\(", l)
                if not c or "@llvm." in c.group(2):
                    continue
                un = re.search(r"unwind label %([\w.$-]+)", l)
                clauses = pads.get(un.group(1), []) if un else []
                d = re.search(r"!dbg !(\d+)", l)
                line = loc.get(d.group(1)) if d else None
                cal = c.group(2)
                if cal == "@__cxa_throw":
                    t = re.search(r"ptr @(_ZTI\w+)", l)
                    ev.append(("throw", t.group(1) if t else "?", clauses, line))
                elif cal == "@__cxa_rethrow":
                    ev.append(("rethrow", None, clauses, line))
                elif re.match(r"@_ZSt\d+__throw_(out_of_range|invalid_argument)", cal):
                    ev.append(("throw", "_ZTISt12out_of_range" if "out_of" in cal else "_ZTISt16invalid_argument", clauses, line))
                elif cal.startswith("@"):
                    ev.append(("call", cal[1:].strip('"'), clauses, line))
                elif cal in vfun and vfun[cal][0] in vtab:
                    ev.append(("virtual", (vtab[vfun[cal][0]], vfun[cal][1]), clauses, line))
                else:
                    ev.append(("indirect", None, clauses, line))
        return ev, self.rethrows(blocks, pads)

    @staticmethod
    def rethrows(blocks, pads):
        """clauses (caught types) from whose handler a rethrow can be reached"""
        if not any("@__cxa_rethrow" in l for ls in blocks.values() for l in ls):
            return set()
        succ = {b: re.findall(r"label %([\w.$-]+)", "\n".join(x for x in ls if re.match(r"\s+(br|switch|invoke)|.*\bto label\b", x))) for b, ls in blocks.items()}
        starts = {}
        for b, ls in blocks.items():
            tx = "\n".join(ls)
            t = re.search(r"@llvm\.eh\.typeid\.for\S*\(ptr @(_ZTI\w+)\)", tx)
            br = re.search(r"br i1 [^,]+, label %([\w.$-]+), label %([\w.$-]+)", tx)
            if t and br:
                starts.setdefault(t.group(1), set()).add(br.group(1))
        for b, cl in pads.items():
            if "null" in cl:
                # the catch-all handler: where the chain of comparisons ends
                x, seen = b, set()
                while x not in seen:
                    seen.add(x)
                    tx = "\n".join(blocks.get(x, ()))
                    br = re.search(r"br i1 [^,]+, label %([\w.$-]+), label %([\w.$-]+)", tx)
                    nx = br.group(2) if br else (succ.get(x) or [None])[0]
                    if nx is None or "@__cxa_begin_catch" in tx:
                        break
                    x = nx
                starts.setdefault("null", set()).add(x)
        out = set()
        for c, st in starts.items():
            todo, seen = list(st), set()
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                tx = "\n".join(blocks.get(x, ()))
                if "@__cxa_rethrow" in tx:
                    out.add(c)
                    break
                if "@__cxa_end_catch" in tx:
                    continue
                todo.extend(succ.get(x, ()))
        return out

    def ancestors(self, t):
        out, st = [], [t]
        while st:
            x = st.pop()
            if x not in out:
                out.append(x)
                st.extend(self.bases.get(x, ()))
        return out

    def caught(self, t, clauses, f=None):
        """is t caught (and not thrown on) by a handler with one of the clauses"""
        for c in clauses:
            if c == "null" or c in self.ancestors(t):
                return not (f and c in self.rethrown.get(f, ()))
        return False

    def targets(self, ev):
        if ev[0] == "call":
            g = self.alias.get(ev[1], ev[1])
            if g not in self.funcs:
                g = re.sub(r"(C|D)1E", r"\g<1>2E", g)
            return [g] if g in self.funcs else []
        if ev[0] == "virtual":
            ty, k = ev[1]
            out = []
            for tab, i0 in self.vt.get(ty, ()):
                ents = self.tables[tab]
                if i0 + k < len(ents) and ents[i0 + k]:
                    f = ents[i0 + k]
                    if f in self.funcs and f not in out:
                        out.append(f)
            return sorted(out)
        return []

    def fix(self):
        self.esc = {f: {} for f in self.funcs}     # type -> (line, callee or None)
        callers = {}
        for f, evs in self.funcs.items():
            for e in evs:
                if e[0] == "throw" and e[1] != "?" and not self.caught(e[1], e[2], f):
                    self.esc[f].setdefault(e[1], (e[3], None))
                for g in self.targets(e):
                    callers.setdefault(g, set()).add(f)
        work = [f for f in self.funcs if self.esc[f]]
        while work:
            g = work.pop()
            for f in callers.get(g, ()):
                ch = False
                for e in self.funcs[f]:
                    if g in self.targets(e):
                        for t in self.esc[g]:
                            if t not in self.esc[f] and not self.caught(t, e[2], f):
                                self.esc[f][t] = (e[3], g)
                                ch = True
                if ch:
                    work.append(f)

    def sites(self, f, t, skip=None):
        """call sites in f through which t escapes"""
        out = []
        for e in self.funcs[f]:
            if self.caught(t, e[2], f) if e[0] != "throw" else (e[1] != t or self.caught(t, e[2], f)):
                continue
            if e[0] == "throw":
                out.append((e[3], None))
            for g in self.targets(e):
                if t in self.esc[g] and not (skip and re.search(skip, g)):
                    out.append((e[3], g))
        return out

    def path(self, f, t, n=12, skip=None):
        """a chain of calls by which t escapes from f"""
        out = []
        s = self.sites(f, t, skip)
        while s and n:
            line, g = s[0]
            out.append("%s%s" % (short(dem(f)), ":" + line if line else ""))
            if g is None:
                break
            f = g
            n -= 1
            s = [self.esc[f][t]] if t in self.esc[f] else []
        return " -> ".join(out)


def short(d):
    d = re.sub(r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>", "std::string", d)
    return d if len(d) < 120 else d[:117] + "..."


def tname(t):
    return dem(t).replace("typeinfo for ", "")

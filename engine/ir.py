"""From /repo sources to flat LLVM IR, and a parser for that IR.

prepare(): clang emits unoptimised IR for the witness translation unit(s) (and any library
.cpp files asked for); every function whose debug info says it is defined in a repository (or
witness) file is marked alwaysinline, a short list of trivial std/boost accessors too, and all
other bodies are dropped (they become opaque calls).  `opt` then runs inlining, SROA, CSE,
simplifycfg and full unrolling of constant-trip loops, so helper functions, statement order
and loop shapes disappear and only dataflow is left.
"""
import os, re, subprocess, hashlib, shutil, tempfile, atexit, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("SCHNEK_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class ToolError(Exception):
    pass


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif-")
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
        os.makedirs(_scratch + "/inc/src/grid/iteration")
        src = open(REPO + "/src/config.hpp.in").read()
        out = []
        for l in src.splitlines():
            m = re.match(r"\s*#cmakedefine\s+(\w+)(.*)", l)
            if m:
                out.append("#define %s%s" % (m.group(1), re.sub(r"@\w+@|\$\{\w+\}", "1.2.0", m.group(2))))
            else:
                out.append(l)
        open(_scratch + "/inc/src/config.hpp", "w").write("\n".join(out) + "\n")
    return _scratch


def cflags(extra=()):
    s = scratch()
    return ["-std=c++17", "-DKOKKOS_DEPENDENCE", "-Dschnek_EXPORTS", "-fPIC", "-w", "-include", VERIF + "/witness/stubs/force.hpp",
            "-I" + REPO + "/src", "-I" + REPO, "-I" + s + "/inc/src/grid", "-I" + s + "/inc/src/grid/iteration",
            "-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi",
            "-I/usr/include/hdf5/openmpi", "-isystem", "/usr/include/trilinos"] + list(extra)


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode != 0:
        raise ToolError("command failed: %s\n%s" % (" ".join(cmd)[:300], r.stderr[-6000:]))
    return r.stdout


def compile_ll(src, out, extra=()):
    run(["clang++"] + cflags(extra) + ["-O2", "-Xclang", "-disable-llvm-passes", "-fno-discard-value-names",
                                       "-fno-access-control",
                                       "-gline-tables-only", "-S", "-emit-llvm", src, "-o", out])


# std / boost functions that are transparent (inlined)
INLINE_STD = [
    r"_ZNKSt19__shared_ptr_access", r"_ZNKSt12__shared_ptrI.*3getEv$", r"_ZSt3maxI", r"_ZSt3minI",
    r"_ZSt4moveI", r"_ZSt7forwardI", r"_ZSt3absx", r"_ZSt3absd", r"_ZSt3absf", r"_ZSt3absl", r"_ZSt4swapI",
    r"_ZSt7declval", r"_ZSt9addressofI", r"_ZSt11__addressofI",
    r"_ZNSt17_Function_handler", r"_ZSt10__invoke_r", r"_ZSt13__invoke_impl", r"_ZSt8__invoke", r"_ZSt6invoke",
    r"_ZNSt14_Function_base13_Base_managerI.*14_M_get_pointerE", r"_ZNK?St9_Any_data", r"_ZSt9__launder", r"_ZSt7launder",
    r"_ZNK?5boost10shared_ptrI.*(ptEv|deEv|3getEv)$", r"_ZNK?St5arrayI", r"_ZNSt14__array_traits",
    r"_ZSt8for_eachI", r"_ZSt13make_integer", r"_ZSt7is_cons", r"_ZNK?St17reference_wrapperI",
    r"_ZN5boost6detail12function\d*.*invoke", r"_ZNK5boost4_bi", r"_ZN5boost4_bi", r"_ZN5boost4bindI",
    r"_ZNSt10unique_ptr.*(ptEv|deEv|3getEv)$", r"_ZNKSt10unique_ptr.*(ptEv|deEv|3getEv)$",
    r"_ZSt4sqrtf$", r"_ZSt3getI", r"_ZN9__gnu_cxx11__promote",
    r"_ZSt(4fill|6fill_n|9transform|10accumulate|13inner_product|6all_of|6any_of|7none_of|8__fill_a|9__fill_a1|10__fill_n_a|11__fill_n_a1|"
    r"12__niter_base|12__niter_wrap|12__miter_base|19__iterator_category|17__size_to_integer|10__distance|8distance|9__advance|7advance|4next|4prev|8exchange|5clamp)[IimlxyjFf]",
    r"_ZNKSt(4plus|5minus|10multiplies|7divides|7modulus|6negate|4less|7greater|10less_equal|13greater_equal|8equal_to|12not_equal_to|11logical_and|10logical_or|11logical_not)I",
    r"_ZNK?St6vectorI(?!b).*E(5beginEv|3endEv|6cbeginEv|4cendEv|ixEm|4sizeEv|4dataEv|5frontEv|11_M_data_ptrI.*)$", r"_ZNK?9__gnu_cxx17__normal_iteratorI", r"_ZN9__gnu_cxxeqI", r"_ZN9__gnu_cxxneI", r"_ZN9__gnu_cxxmiI",
    r"_ZSt(4copy|6copy_n|8__copy_n|13__copy_move_a|14__copy_move_a[12]|22__uninitialized_copy_a)I", r"_ZNSt11__copy_move", r"_ZSt13__copy_move_a",
    r"_ZSt5isnanf?$", r"_ZSt5floorf$", r"_ZSt4ceilf$",
]
INLINE_STD_RE = re.compile("|".join("(?:%s)" % x for x in INLINE_STD))

PASSES = ("always-inline,globaldce,"
          "function(sroa,early-cse<memssa>,simplifycfg,loop-simplify,lcssa),"
          "function(loop-mssa(loop-rotate,licm),loop(indvars,loop-unroll-full)),"
          "function(sroa,early-cse<memssa>,instsimplify,simplifycfg,loop-simplify,lcssa),"
          "function(loop(indvars,loop-unroll-full)),"
          "function(sroa,early-cse<memssa>,instsimplify,gvn<no-pre>,simplifycfg,instsimplify,adce),globaldce")
PASSES2 = ("always-inline,globaldce,"
           "function(sroa,early-cse<memssa>,simplifycfg,loop-simplify,lcssa),"
           "function(loop(loop-rotate)),"
           "function(loop-simplify,lcssa,loop(indvars,loop-unroll-full)),"
           "function(sroa,early-cse<memssa>,instsimplify,simplifycfg,loop-simplify,lcssa),"
           "function(loop(indvars,loop-unroll-full)),"
           "function(sroa,early-cse<memssa>,instsimplify,simplifycfg,loop-simplify,lcssa,loop(loop-unroll-full)),"
           "function(sroa,early-cse<memssa>,instsimplify,simplifycfg,instsimplify,adce),"
           "function(invalidate<all>,loop-simplify,lcssa,loop(loop-unroll-full)),"
           "function(sroa,early-cse<memssa>,instsimplify,simplifycfg,instsimplify,adce),globaldce")

_def_re = re.compile(r"^define\s.*?@(\"[^\"]+\"|[\w.$]+)\(")


def _split_module(text):
    """yield ('fn', name, header, lines) / ('raw', lines)"""
    lines = text.split("\n")
    i, n = 0, len(lines)
    raw = []
    parts = []
    while i < n:
        l = lines[i]
        if l.startswith("define "):
            if raw:
                parts.append(("raw", raw))
                raw = []
            j = i
            while lines[j] != "}":
                j += 1
            m = _def_re.match(l)
            parts.append(("fn", m.group(1).strip('"'), l, lines[i + 1:j]))
            i = j + 1
        else:
            raw.append(l)
            i += 1
    if raw:
        parts.append(("raw", raw))
    return parts


def _md_tables(text):
    sub = {}
    files = {}
    for m in re.finditer(r"^!(\d+) = (?:distinct )?!DISubprogram\((.*)\)$", text, re.M):
        f = re.search(r"file: !(\d+)", m.group(2))
        nm = re.search(r'name: "([^"]*)"', m.group(2))
        ln = re.search(r"line: (\d+)", m.group(2))
        sub[m.group(1)] = (f.group(1) if f else None, nm.group(1) if nm else "?", int(ln.group(1)) if ln else 0)
    for m in re.finditer(r'^!(\d+) = !DIFile\(filename: "([^"]*)", directory: "([^"]*)"', text, re.M):
        fn = m.group(2)
        if not fn.startswith("/"):
            fn = os.path.join(m.group(3), fn)
        files[m.group(1)] = os.path.normpath(fn)
    return sub, files


def _param_end(h):
    """index just after the closing paren of the parameter list in a define line"""
    i = h.index("@")
    if h[i + 1] == '"':
        i = h.index('"', i + 2)
    i = h.index("(", i)
    d = 0
    inq = False
    for j in range(i, len(h)):
        c = h[j]
        if c == '"':
            inq = not inq
        if inq:
            continue
        if c == "(":
            d += 1
        elif c == ")":
            d -= 1
            if d == 0:
                return j + 1
    raise ToolError("bad define")


def mark(text, roots, inline_extra=None, opaque_extra=None, keep=None):
    """returns rewritten module text + info dict"""
    sub, files = _md_tables(text)
    parts = _split_module(text)
    out = []
    info = {"repo_functions": [], "opaque": 0, "std_inlined": 0, "handlers": {}}
    inl_re = re.compile(inline_extra) if inline_extra else None
    opq_re = re.compile(opaque_extra) if opaque_extra else None
    keep_re = re.compile(keep) if keep else None
    prefix = (REPO + "/", VERIF + "/", scratch() + "/")
    rootset = set(roots)
    for p in parts:
        if p[0] == "raw":
            out.append("\n".join(l for l in p[1] if not l.startswith("$") and not l.startswith("@llvm.global_ctors")))
            continue
        _, name, h, body = p
        m = re.search(r"!dbg !(\d+)", h)
        srcfile = None
        if m and m.group(1) in sub:
            srcfile = files.get(sub[m.group(1)][0])
        isroot = name in rootset or (keep_re is not None and keep_re.search(name) is not None)
        in_repo = srcfile is not None and srcfile.startswith(prefix)
        inl = in_repo or INLINE_STD_RE.match(name) or (inl_re and inl_re.search(name))
        if opq_re and opq_re.search(name) and not isroot:
            inl = False
        h = re.sub(r"\s+comdat(\([^)]*\))?", "", h)
        h = re.sub(r"^define (linkonce_odr|weak_odr|internal|available_externally|private|linkonce|weak)\s+", "define ", h)
        h = re.sub(r"^define (dso_local |hidden |protected |noundef )*", lambda mm: mm.group(0).replace("dso_local ", "").replace("hidden ", "").replace("protected ", ""), h)
        if isroot:
            h = h.replace("define ", "define dso_local ", 1)
            out.append(h)
            out.extend(body)
            out.append("}")
            info["repo_functions"].append((name, srcfile, sub[m.group(1)][2] if m and m.group(1) in sub else 0))
        elif inl:
            e = _param_end(h)
            rest = h[e:]
            rest2 = re.sub(r"^\s*(unnamed_addr|local_unnamed_addr)?", lambda mm: " " + (mm.group(1) or "") + " alwaysinline", rest, count=1)
            h = h[:e] + rest2
            h = h.replace("define ", "define linkonce_odr ", 1)
            out.append(h)
            out.extend(body)
            out.append("}")
            if in_repo:
                info["repo_functions"].append((name, srcfile, sub[m.group(1)][2]))
            else:
                info["std_inlined"] += 1
        else:
            hs = sorted(set(re.findall(r"@(_ZNSt17_Function_handler\w+9_M_invokeE\w+|_ZN5boost6detail8function\w+6invokeE\w+)", "\n".join(body))))
            if hs:
                info["handlers"][name] = hs
            elif name.startswith("_ZNSt8functionI"):
                info.setdefault("wraps", {})[name] = sorted(set(re.findall(r"@(_ZNSt8functionI[\w.]*?C[12]I\w+)", "\n".join(body))))
            e = _param_end(h)
            hh = h[:e] + re.sub(r"(personality ptr @[\w.$]+|!dbg !\d+|section \"[^\"]*\"|prologue .*|align \d+|\{$)", "", h[e:])
            hh = re.sub(r"%[\w.$]+(?=[,)])", "", hh.replace("define", "declare", 1)) if False else hh.replace("define", "declare", 1)
            out.append(hh.rstrip())
            info["opaque"] += 1
    res = "\n".join(out)
    # attributes which would stop inlining
    res = re.sub(r"^(attributes #\d+ = \{.*)$", lambda m: re.sub(r"\b(noinline|optnone)\b", "", m.group(1)), res, flags=re.M)
    res = re.sub(r",?\s*comdat(\([^)]*\))?(?=[,\s]|$)", lambda m: "", res) if False else res
    res = re.sub(r"^(@.*?), comdat(\([^)]*\))?", r"\1", res, flags=re.M)
    return res, info


class Module:
    pass


def resolve_aliases(text):
    al = dict(re.findall(r'^@([\w.$]+) = [^\n]*\balias [^\n]*, ptr @([\w.$]+)$', text, re.M))
    if not al:
        return text
    text = re.sub(r'^@[\w.$]+ = [^\n]*\balias [^\n]*\n', "", text, flags=re.M)
    return re.sub(r'@([\w.$]+)', lambda m: "@" + al.get(m.group(1), m.group(1)), text)


def prepare(witness, roots=None, lib=(), inline_extra=None, opaque_extra=None, keep=None, passes=None, extra_flags=(), dump=None):
    """compile witness (path in /verif/witness or absolute) plus library sources; returns parsed Module"""
    s = scratch()
    srcs = []
    if isinstance(witness, str):
        witness = [witness]
    for w in witness:
        srcs.append(w if w.startswith("/") else os.path.join(VERIF, "witness", w))
    for l in lib:
        srcs.append(os.path.join(REPO, l))
    lls = []
    with ThreadPoolExecutor(8) as ex:
        futs = []
        for i, src in enumerate(srcs):
            if not os.path.exists(src):
                raise ToolError("anchor vanished: %s" % src)
            o = "%s/%s-%d.ll" % (s, os.path.basename(src).replace(".", "_"), i)
            lls.append(o)
            futs.append(ex.submit(compile_ll, src, o, extra_flags))
        for f in futs:
            f.result()
    if len(lls) > 1:
        o = s + "/linked-%s.ll" % hashlib.md5(" ".join(lls).encode()).hexdigest()[:8]
        run(["llvm-link", "-S", "-o", o] + lls)
    else:
        o = lls[0]
    text = resolve_aliases(open(o).read())
    if roots is None:
        roots = []
        for p in _split_module(text):
            if p[0] == "fn" and (p[1].startswith("w_")):
                roots.append(p[1])
    marked, info = mark(text, roots, inline_extra, opaque_extra, keep)
    mk = o.replace(".ll", ".marked.ll")
    open(mk, "w").write(marked)
    flat = o.replace(".ll", ".flat.ll")
    run(["opt", "-S", "-passes=" + (passes or PASSES2), "-unroll-threshold=20000", "-unroll-max-count=64", mk, "-o", flat])
    ftext = open(flat).read()
    if dump:
        shutil.copy(flat, dump)
        shutil.copy(mk, dump + ".marked")
    mod = parse_module(ftext)
    mod.info = info
    mod.info["sources"] = srcs
    return mod


# ------------------------------------------------------------------ types
class Types:
    def __init__(self):
        self.named = {}

    def parse(self, s, i=0):
        """parse a type at s[i:]; returns (type, next index). types: ('int',n) ('fp',name) ('ptr',) ('void',)
        ('arr',n,t) ('vec',n,t) ('struct',[t],packed) ('named',n) ('other',txt) ('fn',)"""
        while s[i] == " ":
            i += 1
        c = s[i]
        if c == "i" and s[i + 1].isdigit():
            m = re.compile(r"i(\d+)").match(s, i)
            t = ("int", int(m.group(1)))
            i = m.end()
        elif c == "[":
            m = re.compile(r"\[\s*(\d+) x ").match(s, i)
            e, j = self.parse(s, m.end())
            j = s.index("]", j)
            t = ("arr", int(m.group(1)), e)
            i = j + 1
        elif c == "<":
            if s[i + 1] == "{":
                t, j = self.parse(s, i + 1)
                t = ("struct", t[1], True)
                i = s.index(">", j) + 1
            else:
                m = re.compile(r"<\s*(\d+) x ").match(s, i)
                e, j = self.parse(s, m.end())
                j = s.index(">", j)
                t = ("vec", int(m.group(1)), e)
                i = j + 1
        elif c == "{":
            i += 1
            els = []
            while True:
                while s[i] == " ":
                    i += 1
                if s[i] == "}":
                    i += 1
                    break
                e, i = self.parse(s, i)
                els.append(e)
                while s[i] in " ,":
                    i += 1
            t = ("struct", tuple(els), False)
        elif c == "%":
            m = re.compile(r'%("[^"]*"|[\w.$-]+)').match(s, i)
            t = ("named", m.group(1).strip('"'))
            i = m.end()
        else:
            m = re.compile(r"(ptr|void|double|float|half|x86_fp80|fp128|metadata|label|token|opaque|\.\.\.)(\s+addrspace\(\d+\))?").match(s, i)
            if not m:
                raise ToolError("type? " + s[i:i + 60])
            w = m.group(1)
            if w in ("double", "float", "half", "x86_fp80", "fp128"):
                t = ("fp", w)
            else:
                t = (w,)
            i = m.end()
        # function type suffix
        if i < len(s) and s[i:i + 2] == " (":
            d = 0
            for j in range(i + 1, len(s)):
                if s[j] == "(":
                    d += 1
                elif s[j] == ")":
                    d -= 1
                    if d == 0:
                        return ("fn", t), j + 1
        return t, i

    def size_align(self, t):
        k = t[0]
        if k == "int":
            n = t[1]
            b = 1
            while b * 8 < n:
                b *= 2
            return b, min(b, 16)
        if k == "fp":
            return {"double": (8, 8), "float": (4, 4), "half": (2, 2), "x86_fp80": (16, 16), "fp128": (16, 16)}[t[1]]
        if k == "ptr":
            return 8, 8
        if k == "arr":
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k == "vec":
            s, a = self.size_align(t[2])
            return s * t[1], s * t[1]
        if k == "struct":
            offs, s, a = self.struct_layout(t)
            return s, a
        if k == "named":
            return self.size_align(self.named[t[1]])
        raise ToolError("size of %r" % (t,))

    def struct_layout(self, t):
        if t[0] == "named":
            return self.struct_layout(self.named[t[1]])
        off = 0
        al = 1
        offs = []
        for e in t[1]:
            s, a = self.size_align(e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            offs.append(off)
            off += s
            al = max(al, a)
        return offs, (off + al - 1) // al * al, al

    def resolve(self, t):
        while t[0] == "named":
            t = self.named[t[1]]
        return t


# ------------------------------------------------------------------ instructions
class Instr:
    __slots__ = ("op", "dest", "ty", "ops", "x", "dbg", "text", "fn", "blk", "idx")

    def __init__(self, op):
        self.op = op
        self.dest = None
        self.ty = None
        self.ops = ()
        self.x = None
        self.dbg = None


class Func:
    def __init__(self, name):
        self.name = name
        self.blocks = {}
        self.order = []
        self.params = []      # (type, name, attrs)
        self.ret = None
        self.sub = None


def parse_module(text):
    mod = Module()
    T = Types()
    mod.types = T
    mod.funcs = {}
    mod.globals = {}
    mod.text = text
    for m in re.finditer(r'^%("[^"]*"|[\w.$-]+) = type (.*)$', text, re.M):
        nm = m.group(1).strip('"')
        if m.group(2).strip() == "opaque":
            T.named[nm] = ("struct", (), False)
        else:
            T.named[nm] = T.parse(m.group(2))[0]
    for m in re.finditer(r'^@("[^"]*"|[\w.$]+) = (.*)$', text, re.M):
        mod.globals[m.group(1).strip('"')] = m.group(2)
    mod.dbg = DbgInfo(text)
    for p in _split_module(text):
        if p[0] != "fn":
            continue
        f = Func(p[1])
        f.module = mod
        _parse_header(T, f, p[2])
        cur = None
        lines = p[3]
        i = 0
        entry_label = None
        while i < len(lines):
            l = lines[i]
            i += 1
            s = l.strip()
            if not s or s.startswith(";"):
                continue
            m = re.match(r'^("[^"]*"|[\w.$-]+):', l)
            if m and not l.startswith(" "):
                cur = m.group(1).strip('"')
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            if cur is None:
                cur = "%entry"
                f.blocks[cur] = []
                f.order.append(cur)
            if s.startswith("switch ") and not s.rstrip().endswith("]") and "]" not in s:
                while "]" not in lines[i]:
                    s += " " + lines[i].strip()
                    i += 1
                s += " " + lines[i].strip()
                i += 1
            if re.match(r"(%\S+ = )?(invoke) ", s) and " unwind label" not in s:
                s += " " + lines[i].strip()
                i += 1
            if " = landingpad " in s:
                while i < len(lines) and re.match(r"\s+(cleanup|catch|filter)", lines[i]):
                    s += " " + lines[i].strip()
                    i += 1
            ins = parse_instr(T, s)
            ins.fn = f
            ins.blk = cur
            ins.idx = len(f.blocks[cur])
            f.blocks[cur].append(ins)
        mod.funcs[f.name] = f
    # declared functions
    mod.declared = set(m.group(1).strip('"') for m in re.finditer(r'^declare .*?@("[^"]+"|[\w.$]+)\(', text, re.M))
    return mod


ATTRS = re.compile(r"(noundef|nonnull|zeroext|signext|inreg|noalias|nocapture|readonly|readnone|writeonly|returned|swiftself|nofree|nest|allocptr|allocalign|immarg|dead_on_unwind|writable|initializes\([^)]*\)|byval\([^()]*(?:\([^()]*\))*[^()]*\)|sret\([^()]*(?:\([^()]*\))*[^()]*\)|align \d+|align\(\d+\)|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|range\([^)]*\))\s*")


def _split_args(s):
    out = []
    d = 0
    cur = ""
    inq = False
    for c in s:
        if c == '"':
            inq = not inq
        if not inq:
            if c in "([{<":
                d += 1
            elif c in ")]}>":
                d -= 1
            elif c == "," and d == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def _parse_header(T, f, h):
    e = _param_end(h)
    i = h.index("@")
    if h[i + 1] == '"':
        i = h.index('"', i + 2)
    i = h.index("(", i)
    ps = h[i + 1:e - 1]
    m = re.search(r"!dbg !(\d+)", h[e:])
    f.sub = m.group(1) if m else None
    for a in _split_args(ps):
        if a == "...":
            continue
        t, j = T.parse(a)
        rest = a[j:].strip()
        attrs = []
        while True:
            m = ATTRS.match(rest)
            if not m:
                break
            attrs.append(m.group(1))
            rest = rest[m.end():]
        f.params.append((t, rest.lstrip("%").strip('"'), attrs))
    pre = h[:h.index("@")].replace("define", "").strip()
    f.retattrs = pre


def strip_md(s):
    """remove trailing metadata attachments; return (text, dbg)"""
    dbg = None
    m = re.search(r", !dbg !(\d+)", s)
    if m:
        dbg = m.group(1)
    s = re.sub(r", ![\w.]+ !\d+", "", s)
    s = re.sub(r", ![\w.]+ (distinct )?!\{[^}]*\}", "", s)
    s = re.sub(r", !heapallocsite !\d+", "", s)
    return s, dbg


_opd_num = re.compile(r"-?\d+(\.\d+)?(e[+-]?\d+)?$", re.I)


def parse_operand(T, t, s):
    """operand tuple: ('v',name) ('g',name) ('c',num) ('undef',) ('null',) ('expr',op,type,ops) ('agg',...)"""
    s = s.strip()
    if s.startswith("%"):
        return ("v", s[1:].strip('"'))
    if s.startswith("@"):
        return ("g", s[1:].strip('"'))
    if s == "null" or s == "zeroinitializer" or s == "none":
        return ("c", 0)
    if s == "true":
        return ("c", 1)
    if s == "false":
        return ("c", 0)
    if s in ("undef", "poison"):
        return ("undef",)
    if re.match(r"-?\d+$", s):
        return ("c", int(s))
    if s.startswith("0x"):
        import struct
        h = s[2:]
        if h[0] in "KLMHR":
            return ("copaque", s)
        v = struct.unpack(">d", bytes.fromhex(h.rjust(16, "0")))[0]
        return ("cf", v)
    if re.match(r"-?\d+\.\d*(e[+-]?\d+)?$", s, re.I):
        return ("cf", float(s))
    m = re.match(r"(getelementptr|ptrtoint|inttoptr|bitcast|trunc|sub|add|icmp|select)\b", s)
    if m:
        op = m.group(1)
        if op == "getelementptr":
            i = s.index("(")
            inner = _split_args(s[i + 1:s.rindex(")")])
            ty, _ = T.parse(inner[0])
            ops = []
            for a in inner[1:]:
                a = a.replace("inrange ", "")
                tt, j = T.parse(a)
                ops.append((tt, parse_operand(T, tt, a[j:])))
            return ("gep", ty, tuple(ops))
        if op in ("ptrtoint", "inttoptr", "bitcast", "trunc"):
            i = s.index("(")
            inner = s[i + 1:s.rindex(")")]
            a = inner[:inner.rindex(" to ")]
            tt, j = T.parse(a)
            return ("cast", op, tt, parse_operand(T, tt, a[j:]))
        return ("copaque", s)
    return ("copaque", s)


def parse_typed(T, s):
    s = s.strip()
    t, j = T.parse(s)
    rest = s[j:].strip()
    attrs = []
    while True:
        m = ATTRS.match(rest)
        if not m:
            break
        attrs.append(m.group(1))
        rest = rest[m.end():]
    if t[0] == "metadata":
        return t, ("md",), attrs
    return t, parse_operand(T, t, rest), attrs


CASTS = {"sext", "zext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "addrspacecast"}
BINOPS = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"}
FLAGS = re.compile(r"^(nsw|nuw|exact|disjoint|nneg|fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|inbounds|volatile|tail|musttail|notail|samesign)\s+")


def _flags(s):
    fl = []
    while True:
        m = FLAGS.match(s)
        if not m:
            return fl, s
        fl.append(m.group(1))
        s = s[m.end():]


def parse_instr(T, s):
    raw = s
    s, dbg = strip_md(s)
    dest = None
    m = re.match(r'%("[^"]*"|[\w.$-]+) = ', s)
    if m:
        dest = m.group(1).strip('"')
        s = s[m.end():]
    pre, s = _flags(s)
    m = re.match(r"([a-z]+)\s*", s)
    op = m.group(1)
    rest = s[m.end():]
    ins = Instr(op)
    ins.dest = dest
    ins.dbg = dbg
    ins.text = raw
    if op in BINOPS:
        fl, rest = _flags(rest)
        t, j = T.parse(rest)
        a, b = _split_args(rest[j:])
        ins.ty = t
        ins.ops = (parse_operand(T, t, a), parse_operand(T, t, b))
        ins.x = fl
    elif op == "fneg":
        fl, rest = _flags(rest)
        t, o, _ = parse_typed(T, rest)
        ins.ty = t
        ins.ops = (o,)
    elif op in ("icmp", "fcmp"):
        fl, rest = _flags(rest)
        m = re.match(r"(\w+)\s+", rest)
        ins.x = m.group(1)
        rest = rest[m.end():]
        t, j = T.parse(rest)
        a, b = _split_args(rest[j:])
        ins.ty = t
        ins.ops = (parse_operand(T, t, a), parse_operand(T, t, b))
    elif op in CASTS:
        fl, rest = _flags(rest)
        k = rest.rindex(" to ")
        t, o, _ = parse_typed(T, rest[:k])
        ins.x = t
        ins.ty = T.parse(rest[k + 4:])[0]
        ins.ops = (o,)
    elif op == "alloca":
        fl, rest = _flags(rest)
        a = _split_args(rest)
        ins.ty = T.parse(a[0])[0]
        if len(a) > 1 and not a[1].startswith("align"):
            ins.ops = (parse_typed(T, a[1])[1],)
    elif op == "load":
        rest = rest.replace("atomic ", "", 1) if rest.startswith("atomic") else rest
        fl, rest = _flags(rest)
        a = _split_args(rest)
        ins.ty = T.parse(a[0])[0]
        ins.ops = (parse_typed(T, a[1].split(" acquire")[0].split(" monotonic")[0].split(" seq_cst")[0])[1],)
        ins.x = fl
    elif op == "store":
        rest = rest.replace("atomic ", "", 1) if rest.startswith("atomic") else rest
        fl, rest = _flags(rest)
        a = _split_args(rest)
        t, o, _ = parse_typed(T, a[0])
        ins.ty = t
        ins.ops = (o, parse_typed(T, a[1].split(" release")[0].split(" monotonic")[0].split(" seq_cst")[0])[1])
        ins.x = fl
    elif op == "getelementptr":
        fl, rest = _flags(rest)
        a = _split_args(rest)
        ins.ty = T.parse(a[0])[0]
        ins.ops = tuple(parse_typed(T, x)[:2] for x in a[1:])
    elif op == "phi":
        fl, rest = _flags(rest)
        t, j = T.parse(rest)
        ins.ty = t
        inc = []
        for a in _split_args(rest[j:]):
            a = a.strip()[1:-1]
            k = _split_args(a)
            inc.append((parse_operand(T, t, k[0]), k[1].strip().lstrip("%").strip('"')))
        ins.ops = tuple(inc)
    elif op == "select":
        fl, rest = _flags(rest)
        a = _split_args(rest)
        c = parse_typed(T, a[0])
        x = parse_typed(T, a[1])
        y = parse_typed(T, a[2])
        ins.ty = x[0]
        ins.ops = (c[1], x[1], y[1])
    elif op == "br":
        if rest.startswith("label"):
            ins.x = [rest.split("%", 1)[1].strip().strip('"')]
        else:
            a = _split_args(rest)
            ins.ops = (parse_typed(T, a[0])[1],)
            ins.x = [a[1].split("%", 1)[1].strip('"'), a[2].split("%", 1)[1].strip('"')]
    elif op == "switch":
        m = re.match(r"(.*?), label %(\"[^\"]*\"|[\w.$-]+)\s*\[(.*)\]", rest)
        t, o, _ = parse_typed(T, m.group(1))
        ins.ty = t
        ins.ops = (o,)
        cases = re.findall(r"i\d+ (-?\d+), label %(\"[^\"]*\"|[\w.$-]+)", m.group(3))
        ins.x = (m.group(2).strip('"'), [(int(c), l.strip('"')) for c, l in cases])
    elif op == "ret":
        if rest.strip() != "void":
            t, o, _ = parse_typed(T, rest)
            ins.ty = t
            ins.ops = (o,)
    elif op in ("call", "invoke"):
        fl, rest = _flags(rest)
        rest = re.sub(r"^(fastcc|coldcc|cc \d+)\s+", "", rest)
        while True:
            m = ATTRS.match(rest)
            if not m:
                break
            rest = rest[m.end():]
        t, j = T.parse(rest)
        ins.ty = t[1] if t[0] == "fn" else t
        rest = rest[j:].strip()
        # callee up to matching paren
        if rest.startswith("asm"):
            ins.x = {"callee": ("copaque", "asm"), "args": [], "to": None, "unwind": None}
            m = re.search(r"to label %(\S+) unwind label %(\S+)", rest)
            if m:
                ins.x["to"] = m.group(1)
            return ins
        k = rest.index('"', 2) if rest.startswith('@"') else 0
        if rest.startswith("getelementptr") or rest.startswith("inttoptr"):
            ins.x = {"callee": ("copaque", rest), "args": [], "to": None, "unwind": None}
            return ins
        i = rest.index("(", k)
        callee = parse_operand(T, ("ptr",), rest[:i])
        d = 0
        inq = False
        for e in range(i, len(rest)):
            c = rest[e]
            if c == '"':
                inq = not inq
            if inq:
                continue
            if c == "(":
                d += 1
            elif c == ")":
                d -= 1
                if d == 0:
                    break
        args = [parse_typed(T, a) for a in _split_args(rest[i + 1:e])]
        tail = rest[e + 1:]
        ins.x = {"callee": callee, "args": args, "to": None, "unwind": None}
        if op == "invoke":
            m = re.search(r'to label %("[^"]*"|[\w.$-]+)\s+unwind label %("[^"]*"|[\w.$-]+)', tail)
            ins.x["to"] = m.group(1).strip('"')
            ins.x["unwind"] = m.group(2).strip('"')
    elif op in ("extractvalue",):
        a = _split_args(rest)
        t, o, _ = parse_typed(T, a[0])
        ins.ops = (o,)
        ins.ty = t
        ins.x = [int(k) for k in a[1:]]
    elif op == "insertvalue":
        a = _split_args(rest)
        t, o, _ = parse_typed(T, a[0])
        t2, o2, _ = parse_typed(T, a[1])
        ins.ops = (o, o2)
        ins.ty = t
        ins.x = ([int(k) for k in a[2:]], t2)
    elif op == "landingpad":
        ins.x = re.findall(r"(cleanup|catch ptr (?:@[\w.$]+|null))", rest)
    elif op == "freeze":
        t, o, _ = parse_typed(T, rest)
        ins.ty = t
        ins.ops = (o,)
    elif op == "resume" or op == "unreachable" or op == "fence":
        pass
    elif op == "atomicrmw":
        m = re.match(r"(volatile )?(\w+) (.*)", rest)
        a = _split_args(m.group(3))
        ins.x = m.group(2)
        ins.ops = (parse_typed(T, a[0])[1],)
        ins.ty = parse_typed(T, a[1].split(" acq")[0].split(" mono")[0].split(" seq")[0].split(" rel")[0])[0]
    else:
        ins.x = rest
    return ins


# ------------------------------------------------------------------ debug info
class DbgInfo:
    def __init__(self, text):
        self.nodes = {}
        for m in re.finditer(r"^!(\d+) = (?:distinct )?!(DILocation|DISubprogram|DIFile|DILexicalBlock|DILexicalBlockFile)\((.*)\)$", text, re.M):
            self.nodes[m.group(1)] = (m.group(2), m.group(3))

    def _f(self, body, k):
        m = re.search(k + r": (?:!(\d+)|(\d+)|\"([^\"]*)\")", body)
        if not m:
            return None
        return m.group(1) or m.group(2) or m.group(3)

    def file(self, n):
        b = self.nodes.get(n)
        if not b:
            return "?"
        fn = self._f(b[1], "filename")
        d = self._f(b[1], "directory") or ""
        return os.path.normpath(fn if fn.startswith("/") else os.path.join(d, fn))

    def scope(self, n):
        """-> (file, function name)"""
        fl = None
        while n and n in self.nodes:
            k, b = self.nodes[n]
            if fl is None and self._f(b, "file"):
                fl = self.file(self._f(b, "file"))
            if k == "DISubprogram":
                return fl, self._f(b, "name")
            n = self._f(b, "scope")
        return fl, "?"

    def loc(self, n):
        """innermost-to-outermost list of (file, line, function)"""
        out = []
        while n and n in self.nodes and self.nodes[n][0] == "DILocation":
            b = self.nodes[n][1]
            fl, fn = self.scope(self._f(b, "scope"))
            out.append((fl, int(self._f(b, "line") or 0), fn))
            n = self._f(b, "inlinedAt")
        return out

    def where(self, n):
        """best repo location"""
        ch = self.loc(n)
        for fl, ln, fn in ch:
            if fl and fl.startswith(REPO + "/"):
                return "%s:%d (%s)" % (fl[len(REPO) + 1:], ln, fn)
        if ch:
            return "%s:%d (%s)" % ch[0]
        return "?"

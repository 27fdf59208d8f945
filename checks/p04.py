"""P04: access routes and checking policies."""
from engine.report import Check
from engine.val import *
from engine import ir
from engine.absint import Analyzer, Memory, method_name
from .gridlib import arg

RULE = ("Dataflow over every access operator instantiated with a declared-only storage and checking policy (ranks 1-10, const and non-const): "
        "exactly one unconditional policy call whose first operand's components equal the index the caller wrote and whose bounds are this grid's "
        "getLo/getHi, followed by one storage access with exactly the policy's result, whose element is returned. For the shipped policies: the "
        "condition under which the asserting check fails is equivalent to some coordinate lying outside [lo,hi]; non-checking policies return "
        "their argument; the debugging policy clamps each coordinate and raises its flag exactly when the index is outside.")
LET = "abcdefhijk"


def run():
    chk = Check("P04", RULE)
    mod = ir.prepare("grid_access.cpp")
    chk.module(mod)
    A = Analyzer(mod)
    for R in range(1, 11):
        for c in ("", "c"):
            route(chk, A, "w_%scall%d" % (c, R), R, [VA("arg", LET[d], "i32") for d in range(R)])
    i = lambda n, d: V(Poly.atom(("mem", (arg(n).single() + Poly.const(4 * d)), None, "i32")))
    for R in (1, 2, 3, 4, 5, 7):
        for c in ("", "c"):
            route(chk, A, "w_%sarr%d" % (c, R), R, [i("i", d) for d in range(R)])
            route(chk, A, "w_%sexp%d" % (c, R), R, [vadd(i("i", d), i("j", d)) for d in range(R)])
    for c in ("", "c"):
        route(chk, A, "w_%ssub1" % c, 1, [VA("arg", "a", "i32")])
    for R in (1, 2, 3, 4):
        policies(chk, A, R)
    chk.floor = 300
    return chk.finish()


def route(chk, A, fn, R, idx):
    r = A.run(fn)
    kind = {"call": "operator()", "arr": "operator[](Array)", "exp": "operator[](ArrayExpression)", "sub": "operator[](int)"}[fn.lstrip("w_").lstrip("c").rstrip("0123456789") if not fn.startswith("w_call") and not fn.startswith("w_ccall") else "call"]
    const = fn.startswith("w_c") and not fn.startswith("w_call")
    where = "GridBase::%s%s rank %d" % (kind, " const" if const else "", R)
    g = arg("g")
    ch = [e for e in r.events if e.kind == "call" and e.dname.startswith("Pol<") and method_name(e.dname) == "check"]
    gt = [e for e in r.events if e.kind == "call" and e.dname.startswith("Sto<") and method_name(e.dname) == "get"]
    if not chk.ob("route", len(ch) == 1 and len(gt) == 1, where, "one policy call and one storage access (found %d, %d)" % (len(ch), len(gt))):
        return
    c, t = ch[0], gt[0]
    chk.ob("route", c.guard == 1 and t.guard == 1 and c.no < t.no, where, "unconditional, policy first")
    for d in range(R):
        chk.eq("index", c.mem.load(vadd(c.args[0], V(4 * d)), 4, "i32"), idx[d], where, "coordinate %d handed to the policy" % d)
    for k, nm in ((1, "getLo"), (2, "getHi")):
        at = c.args[k].single().single_atom() if c.args[k].single() is not None else None
        key = atom_key(at) if at is not None else ("?",)
        ok = key[0] == "call" and nm in key[1] and key[2] == (g.single(),)
        chk.ob("bounds", ok, where, "policy operand %d is this grid's %s() (%s)" % (k, nm, show(c.args[k])[:100]))
    chk.eq("route", t.args[0], g, where, "storage of this grid")
    chk.eq("route", t.args[1], c.res, where, "storage is accessed with the policy's result")
    ret = A.num(r.ret)
    if const:
        chk.eq("route", ret, V(Poly.atom(("mem", t.res.single(), None, "d"))), where, "the accessed element is returned")
    else:
        chk.eq("route", ret, t.res, where, "a reference to the accessed element is returned")


def policies(chk, A, R):
    p, l, h = arg("p"), arg("l"), arg("h")
    ld = lambda b, d: V(Poly.atom(("mem", b.single() + Poly.const(4 * d), None, "i32")))
    out = 0
    for d in range(R):
        out = g_or(out, g_or(g_cmp("lt", ld(p, d), ld(l, d)), g_cmp("lt", ld(h, d), ld(p, d))))
    ax = [(ld(l, d).single() - ld(h, d).single(), False) for d in range(R)]      # lo <= hi
    r = A.run("w_none%d" % R)
    w = "GridNoArgCheck<%d>::check" % R
    chk.eq("policy-none", A.num(r.ret), p, w, "the index is returned unchanged")
    chk.ob("policy-none", fails(r) == 0, w, "never fails")
    r = A.run("w_assert%d" % R)
    w = "GridAssertCheck<%d>::check" % R
    chk.ob("policy-assert", g_equiv(fails(r), out, ax), w, "the assertion fails iff a coordinate is outside (fails if %s)" % show_guard(fails(r))[:200])
    chk.eq("policy-assert", A.num(r.ret), p, w, "the index is returned")
    r = A.run("w_debug%d" % R)
    w = "GridDebugCheck<%d>::check" % R
    o = arg("out")
    for d in range(R):
        got = r.mem.load(vadd(o, V(4 * d)), 4, "i32")
        want = vguard(g_cmp("lt", ld(p, d), ld(l, d)), ld(l, d), vguard(g_cmp("lt", ld(h, d), ld(p, d)), ld(h, d), ld(p, d)))
        chk.eq("policy-debug", got, want, w, "coordinate %d is clamped into the bounds" % d, 1, ax)
    # flag: true iff outside (or already set)
    rf = A.run("w_debugflag%d" % R, None, r.mem)
    r0 = A.run("w_debugflag%d" % R)
    gb = lambda v: v.g if hasattr(v, "g") else v_to_guard(v)
    chk.ob("policy-debug", g_equiv(gb(rf.ret), g_or(gb(r0.ret), out), ax), w, "the error flag is raised iff the index was outside")
    ro = A.run("w_debugoff%d" % R, {0: arg("o2")}, r.mem)
    for d in range(R):
        got = ro.mem.load(vadd(arg("o2"), V(4 * d)), 4, "i32")
        chk.eq("policy-debug", got, ld(p, d), w, "the offending index is recorded", out, ax)
    i = VA("arg", "i", "i64")
    r = A.run("w_aassert%d" % R)
    chk.ob("array-policy", g_equiv(fails(r), g_not(g_cmp("lt", i, V(R)))), "ArrayAssertArgCheck<%d>" % R, "the assertion fails iff the index is not below the length")
    r = A.run("w_anone%d" % R)
    chk.ob("array-policy", fails(r) == 0, "ArrayNoArgCheck<%d>" % R, "never fails")
    i = VA("arg", "i", "i32")
    for fn, ck, c in (("aidx", True, False), ("caidx", True, True), ("nidx", False, False), ("cnidx", False, True)):
        r = A.run("w_%s%d" % (fn, R))
        w = "Array<int,%d,%s>::operator[]" % (R, "ArrayAssertArgCheck" if ck else "ArrayNoArgCheck")
        a = vadd(arg("a"), vmul(V(4), i))
        chk.eq("array-policy", A.num(r.ret), V(Poly.atom(("mem", a.single(), None, "i32"))) if c else a, w, "component i")
        if ck:
            chk.ob("array-policy", g_equiv(fails(r), g_not(g_cmp("lt", i, V(R)))), w, "the policy sees the index")


def fails(r):
    g = 0
    for e in r.events:
        if e.kind == "call" and e.name == "__assert_fail":
            g = g_or(g, e.guard)
    return g

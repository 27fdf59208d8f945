"""P12: ghost-cell exchange and accumulation."""
import re
from itertools import permutations
from engine.report import Check
from engine.val import *
from engine import ir
from engine.absint import Analyzer, Memory, base_of
from engine.loops import covers, nonempty, idx, strip_versions, linear
from .gridlib import arg
from .p05 import local

RULE = ("Induction over the loop equations of exchange and accumulate (serial and MPI; ranks 1-3, every dimension) plus value-numbering of the MPI calls. Each copy loop is proved to "
        "visit exactly the ghost or source box of the boundary (P11), at matching positions; each message carries the whole buffer (count, type, tag and communicator agree on "
        "both sides), goes to the next/previous process and is received from the opposite one in the same call, the send buffer is filled from the source box facing the "
        "destination and the received data goes to the ghost box facing the sender; nothing else is stored.")


def mems(v):
    """the mem atoms of a value"""
    out = []

    def fn(k):
        if k[0] == "mem":
            out.append(k)
        return None
    Subst(fn).val(v)
    return out


def run():
    chk = Check("P12", RULE, ["the grid passed has the subdivision's local domain as its range; local domains are not empty and all processes call the same operations in the same order",
                              "MPI_Sendrecv delivers what the addressed process sends with matching type and tag"])
    mod = ir.prepare("subdivision.cpp")
    chk.module(mod)
    A = Analyzer(mod)
    M = Memory()
    for R in (1, 2, 3):
        q = lambda f, *a, m=M: A.num(A.run("w_%s%d" % (f, R), dict(enumerate(a)), m).ret)
        s, g = arg("s"), arg("g")

        def elem(pt):
            m = Memory()
            for d in range(R):
                m.store(vadd(arg("I"), V(4 * d)), 4, pt[d], ("w", d))
            return q("at", g, arg("I"), m=m)
        X = [idx(d) for d in range(R)]
        for dim in range(R):
            box = {}
            for k in ("g", "x"):
                for e in (0, 1):
                    box[k, e] = [(q(k + "lo", s, V(d), V(dim), V(e)), q(k + "hi", s, V(d), V(dim), V(e))) for d in range(R)]
            NAME = {("g", 0): "lower ghost cells", ("g", 1): "upper ghost cells", ("x", 0): "lower source cells", ("x", 1): "upper source cells"}
            ne = [c for b in box.values() for c in nonempty(b)]

            def shifted(a, b):
                """point of box b corresponding to point idx of box a"""
                return [vadd(idx(d), vsub(b[d][0], a[d][0])) for d in range(R)]

            def value_at(addr):
                return V(Poly.atom(("mem", addr.single(), None, "d")))

            def pair_loop(r, evs, a, b, pairs, where, grp):
                """events evs in one loop over congruent boxes a and b; pairs: list of (address, value) as functions of the points"""
                for first, second in ((a, b), (b, a)):
                    cs, why = covers(A, r, evs[0], first, "any", 1, ne)
                    if any(e.loops != evs[0].loops for e in evs):
                        cs, why = [], "the stores are in different loops"
                    for c in cs:
                        pa = X if first is a else shifted(first, a)
                        pb = X if first is b else shifted(first, b)
                        ok = True
                        for e, (wa, wv) in zip(evs, pairs(elem(pa), elem(pb))):
                            if not (v_equal(c.at(e.args[0]), wa, 1, c.axioms) and v_equal(strip_versions(c.at(e.args[1])), wv, 1, c.axioms)
                                    and v_equal(guard_to_val(c.atg(e.guard)), guard_to_val(c.atg(evs[0].guard)), 1, c.axioms)):
                                ok = False
                                why = "stores %s at %s, required %s at %s" % (show(strip_versions(c.at(e.args[1])))[:200], show(c.at(e.args[0]))[:120], show(wv)[:200], show(wa)[:120])
                        if ok:
                            return chk.ob(grp, True, where, "exactly once for each cell")
                return chk.ob(grp, False, where, "each cell of the box exactly once, from/to the matching cell: %s" % why)

            def unwritten(r, evs, need, buf=None):
                """a box of which no cell is written, when every store is known to write another box or the buffer"""
                if any(e.kind in ("memcpy", "memset", "memmove") and not local(e) for e in r.events) or any(e.kind == "call" and not re.match(r"MPI_|std::|_ZNS|_ZSt", e.dname) for e in r.events):
                    return None
                seen = set()
                for e in evs:
                    hit = None
                    for nm, b in box.items():
                        cs, _ = covers(A, r, e, b, "any", 1, ne)
                        if any(v_equal(strip_versions(c.at(e.args[0])), elem(X), 1, c.axioms) for c in cs):
                            hit = nm
                            break
                    if hit is None and buf is not None:
                        k = base_of(e.args[0].single())[0] if e.args[0].single() is not None else None
                        if k is not None and v_equal(strip_versions(V(k)), buf):
                            continue
                    if hit is None:
                        return None
                    seen.add(hit)
                miss = [NAME[k] for k in need if k not in seen]
                return miss[0] if miss else None

            # ---------------- serial
            for fn, grp in (("sexch", "serial exchange"), ("sacc", "serial accumulate")):
                W = "SerialSubdivision<rank %d>::%s along dimension %d" % (R, "exchange" if fn == "sexch" else "accumulate", dim)
                r = A.run("w_%s%d" % (fn, R), {2: V(dim)})
                st = [e for e in r.events if e.kind == "store" and not local(e)]
                ml = [e for e in r.events if e.kind in ("memcpy", "memset", "memmove") and not local(e)]
                per = 1 if fn == "sexch" else 2
                miss = not st or len(st) > 2 * per
                if not miss and len(st) == per and all(x.loops and x.loops == st[0].loops for x in st):
                    # one complete direction and nothing for the other one
                    n0, v0, g0 = chk.obl, list(chk.viol), dict(chk.groups)
                    for e in (0, 1):
                        h = (lambda ga, sa: [(ga, value_at(sa))]) if fn == "sexch" else (lambda ga, sa: [(ga, vadd(value_at(ga), value_at(sa))), (sa, vadd(value_at(ga), value_at(sa)))])
                        miss = miss or pair_loop(r, st, box["g", e], box["x", 1 - e], h, W, grp)
                    chk.obl, chk.viol, chk.groups = n0, v0, g0
                if not miss and len(st) < 2 * per:
                    lost = unwritten(r, st, [(k, e) for k in (("g",) if fn == "sexch" else ("g", "x")) for e in (0, 1)])
                    if lost:
                        chk.ob(grp, False, W, "the %s are never written" % lost)
                        continue
                if not chk.shape(grp, len(st) == 2 * per and not ml and all(e.loops for e in st), miss, W, "%d stores to the grid, all in loops (found %d)" % (2 * per, len(st))):
                    continue
                for e in (0, 1):
                    gb, sb = box["g", e], box["x", 1 - e]
                    if fn == "sexch":
                        f = lambda ga, sa: [(ga, value_at(sa))]
                    else:
                        f = lambda ga, sa: [(ga, vadd(value_at(ga), value_at(sa))), (sa, vadd(value_at(ga), value_at(sa)))]
                        f2 = lambda ga, sa: f(ga, sa)[::-1]
                    w2 = "%s: %s with the %s" % (W, NAME["g", e], NAME["x", 1 - e])
                    # either of the two loops may be this one
                    groups = [st[i * per:(i + 1) * per] for i in range(2)]
                    done = False
                    n0, v0, g0 = chk.obl, list(chk.viol), dict(chk.groups)
                    for gi in (e, 1 - e):
                        for h in ((f,) if fn == "sexch" else (f, f2)):
                            if pair_loop(r, groups[gi], gb, sb, h, w2, grp):
                                done = True
                                break
                            fail = chk.viol[-1]
                            chk.obl, chk.viol, chk.groups = n0, list(v0), dict(g0)
                        if done:
                            break
                    if not done:
                        chk.ob(grp, False, fail[1], fail[2])
            # ---------------- MPI
            TYPE = ("mem", Poly.atom(("global", "_ZN6schnek12MpiValueTypeIdE5valueE", "p")), None, "p")
            for fn, grp, ncall in (("pexch", "MPI exchange", 2), ("pacc", "MPI accumulate", 4)):
                W = "MPICartSubdivision<rank %d>::%s along dimension %d" % (R, "exchange" if fn == "pexch" else "accumulate", dim)
                r = A.run("w_%s%d" % (fn, R), {2: V(dim)})
                ev = [e for e in r.events if (e.kind == "store" and not local(e)) or (e.kind == "call" and e.dname.startswith("MPI_"))]
                ml = [e for e in r.events if e.kind in ("memcpy", "memset", "memmove") and not local(e)]
                calls = [e for e in ev if e.kind == "call"]
                plain = len(calls) == ncall and all(c.dname == "MPI_Sendrecv" and not c.loops for c in calls)
                if not chk.shape(grp, plain and all(c.guard == 1 for c in calls) and not ml, plain or not calls, W,
                              "%d unconditional MPI_Sendrecv (found %s)" % (ncall, ", ".join(c.dname for c in calls))):
                    continue
                nxt, prv, size, comm = q("pnext", s, V(dim)), q("pprev", s, V(dim)), q("pxsize", s, V(dim)), q("pcomm", s)
                sb, rb = q("psend", s, V(dim)), q("precv", s, V(dim))
                dirs = []
                good = True
                for i, c in enumerate(calls):
                    a = c.args
                    w2 = "%s, message %d (%s)" % (W, i + 1, mod.dbg.where(c.ins.dbg) if hasattr(mod, "dbg") else "")
                    S = strip_versions
                    bufs = [q for q in ((sb, rb),) if v_equal(S(a[0]), q[0]) and v_equal(S(a[5]), q[1])]
                    good &= chk.ob(grp, bool(bufs), w2, "sends the send buffer and receives into the receive buffer (%s, %s)" % (show(a[0])[:60], show(a[5])[:60]))
                    good &= chk.eq(grp, S(a[1]), size, w2, "send count")
                    good &= chk.eq(grp, S(a[6]), size, w2, "receive count")
                    good &= chk.eq(grp, S(a[2]), V(Poly.atom(TYPE)), w2, "send type")
                    good &= chk.eq(grp, S(a[7]), V(Poly.atom(TYPE)), w2, "receive type")
                    good &= chk.ob(grp, a[4].const() is not None and a[4].const() == a[9].const(), w2, "send and receive tag agree (%s, %s)" % (show(a[4]), show(a[9])))
                    good &= chk.eq(grp, S(a[10]), comm, w2, "communicator")
                    dst, src = S(a[3]), S(a[8])
                    if v_equal(dst, nxt) and v_equal(src, prv):
                        dirs.append(1)
                    elif v_equal(dst, prv) and v_equal(src, nxt):
                        dirs.append(0)
                    else:
                        dirs.append(None)
                    good &= chk.ob(grp, dirs[-1] is not None, w2, "sent to one neighbour and received from the opposite one (to %s, from %s)" % (show(dst)[:40], show(src)[:40]))
                want = [(1, 0), (0, 1)] if fn == "pexch" else [(1, 0, 0, 1), (0, 1, 1, 0)]
                good &= chk.ob(grp, tuple(dirs) in want, W, "every neighbour is served once in each role (directions %s)" % dirs)
                if not good:
                    continue
                # stores between the calls
                seg = [[] for _ in range(ncall + 1)]
                k = 0
                for e in ev:
                    if e.kind == "call":
                        k += 1
                    else:
                        seg[k].append(e)

                if sum(map(len, seg)) < 2 * ncall:
                    lost = unwritten(r, [e for x in seg for e in x], [(k, e) for k in (("g",) if fn == "pexch" else ("g", "x")) for e in (0, 1)], sb)
                    if lost:
                        chk.ob(grp, False, W, "the %s are never written" % lost)
                        continue

                def token(v, call):
                    """every read of the receive buffer sees the data of this call"""
                    for m_ in mems(v):
                        if base_of(m_[1])[0] is not None and v_equal(strip_versions(V(base_of(m_[1])[0])), rb) and not (isinstance(m_[2], tuple) and m_[2][:2] == ("o", "MPI_Sendrecv") and call.uid in m_[2]):
                            return False
                    return True

                def io_loop(evs, b, spec, what, call=None):
                    w2 = "%s: %s" % (W, what)
                    if not chk.shape(grp, len(evs) == len(spec(V(0), V(0))) and evs and all(e.loops and e.loops == evs[0].loops for e in evs), len(evs) > len(spec(V(0), V(0))) or not any(seg), w2, "one loop of %d stores (found %d)" % (len(spec(V(0), V(0))), len(evs))):
                        return
                    cs, why = covers(A, r, evs[0], b, "any", 1, ne)
                    for c, order in [(c, o) for c in cs for o in permutations(evs)]:
                        ok = True
                        for e, (wa, wv) in zip(order, spec(elem(X), linear(b))):
                            va, vv = strip_versions(c.at(e.args[0])), strip_versions(c.at(e.args[1]))
                            if not (v_equal(va, wa, 1, c.axioms) and v_equal(vv, wv, 1, c.axioms)):
                                ok = False
                                why = "stores %s at %s, required %s at %s" % (show(vv)[:160], show(va)[:160], show(wv)[:160], show(wa)[:160])
                            if call is not None and not token(e.args[1], call):
                                ok = False
                                why = "reads the receive buffer of another message"
                        if ok:
                            chk.ob(grp, True, w2, "exactly once for each cell, in buffer order")
                            return
                    chk.ob(grp, False, w2, "exactly once for each cell, in buffer order: %s" % why)
                at = lambda base, n: vadd(base, vmul(V(8), n))
                pack = lambda ga, n: [(at(sb, n), value_at(ga))]
                unpack = lambda ga, n: [(ga, value_at(at(rb, n)))]
                add = lambda ga, n: [(ga, vadd(value_at(ga), value_at(at(rb, n)))), (at(sb, n), vadd(value_at(ga), value_at(at(rb, n))))]
                if fn == "pexch":
                    # segment 0: pack 1; 1: unpack 1, pack 2; 2: unpack 2
                    parts = [split(seg[0], [1]), split(seg[1], [1, 1]), split(seg[2], [1])]
                    for i, d in enumerate(dirs):
                        pk = parts[0][0] if i == 0 else parts[1][1]
                        up = parts[1][0] if i == 0 else parts[2][0]
                        io_loop(pk, box["x", d], pack, "the %s are packed for message %d" % (NAME["x", d], i + 1))
                        io_loop(up, box["g", 1 - d], unpack, "message %d goes to the %s" % (i + 1, NAME["g", 1 - d]), calls[i])
                    chk.shape(grp, sum(len(x) for x in seg) == 4, sum(len(x) for x in seg) > 4, W, "nothing else is stored")
                else:
                    parts = [split(seg[0], [1]), split(seg[1], [2]), split(seg[2], [1, 1]), split(seg[3], [2]), split(seg[4], [1])]
                    for h in (0, 1):
                        d = dirs[2 * h]
                        pk = parts[0][0] if h == 0 else parts[2][1]
                        ad = parts[1][0] if h == 0 else parts[3][0]
                        up = parts[2][0] if h == 0 else parts[4][0]
                        io_loop(pk, box["x", d], pack, "the %s are packed for message %d" % (NAME["x", d], 2 * h + 1))
                        io_loop(ad, box["g", 1 - d], add, "message %d is added to the %s and the sum sent back" % (2 * h + 1, NAME["g", 1 - d]), calls[2 * h])
                        io_loop(up, box["x", d], unpack, "message %d replaces the %s" % (2 * h + 2, NAME["x", d]), calls[2 * h + 1])
                    chk.shape(grp, sum(len(x) for x in seg) == 8, sum(len(x) for x in seg) > 8, W, "nothing else is stored")
        # ---------------- all dimensions, exchangeData
        for f, nm in (("exchall", "exchange"), ("accall", "accumulate")):
            r = A.run("w_%s%d" % (f, R))
            ev = [e for e in r.events if e.kind == "call"]
            W = "DomainSubdivision<rank %d>::%s(grid)" % (R, nm)
            dims = [e.args[2].const() if len(e.args) > 2 else None for e in ev]
            ok = sorted(x for x in dims if x is not None) == list(range(R)) and len(ev) == R
            chk.ob("all dimensions", ok and all(v_equal(e.args[1], g) and v_equal(e.args[0], s) and e.guard == 1 for e in ev), W, "each dimension once (%s)" % dims)
            slots = {str(e.vslot) if e.vslot is not None else e.name for e in ev}
            chk.ob("all dimensions", len(slots) == 1, W, "all calls are of the same virtual function (%s)" % slots)
        data(chk, mod, A, R)
    chk.floor = 300
    return chk.finish()


def split(evs, sizes):
    """split the stores of a segment by loop, in order"""
    groups = []
    for e in evs:
        if groups and groups[-1][0].loops == e.loops:
            groups[-1].append(e)
        else:
            groups.append([e])
    while len(groups) < len(sizes):
        groups.append([])
    return groups


def data(chk, mod, A, R):
    q = lambda f, *a: A.num(A.run(f, dict(enumerate(a)), Memory()).ret)
    W = "MPICartSubdivision<rank %d>::exchangeData" % R
    S = strip_versions
    for dim in range(R):
        r = A.run("w_pdata%d" % R, {1: V(dim), 2: VA("arg", "o", "i32")})
        calls = [e for e in r.events if e.kind == "call" and e.dname.startswith("MPI_")]
        plain = len(calls) == 2 and all(c.dname == "MPI_Sendrecv" and not c.loops for c in calls)
        if not chk.shape("buffer exchange", plain and all(c.guard == 1 for c in calls), plain or not calls, W, "two unconditional MPI_Sendrecv: length, then data"):
            return
        pos = g_not(lt0(VA("arg", "o", "i32").single() - Poly.const(1), True))
        nxt, prv, comm = q("w_pnext%d" % R, arg("s"), V(dim)), q("w_pprev%d" % R, arg("s"), V(dim)), q("w_pcomm%d" % R, arg("s"))
        for c in calls:
            chk.eq("buffer exchange", S(c.args[3]), vguard(pos, nxt, prv), W, "destination: the upper neighbour for positive orientation, else the lower")
            chk.eq("buffer exchange", S(c.args[8]), vguard(pos, prv, nxt), W, "source: the opposite neighbour")
            chk.ob("buffer exchange", c.args[4].const() is not None and c.args[4].const() == c.args[9].const(), W, "tags agree")
            chk.eq("buffer exchange", S(c.args[10]), comm, W, "communicator")
            chk.ob("buffer exchange", v_equal(c.args[2], c.args[7]), W, "types agree")
        a, b = calls
        n = q("w_bufdim", arg("in"))
        glob = lambda x: V(Poly.atom(("global", x, "p")))
        chk.eq("buffer exchange", a.args[2], glob("ompi_mpi_int"), W, "the length is sent as MPI_INT")
        chk.eq("buffer exchange", b.args[2], glob("ompi_mpi_unsigned_char"), W, "the data are sent as MPI_UNSIGNED_CHAR")
        for i in (1, 6):
            chk.eq("buffer exchange", a.args[i], V(1), W, "one length is sent and received")
        chk.eq("buffer exchange", a.mem.load(a.args[0], 4, "i32"), n, W, "the length sent is the number of bytes in the buffer")
        chk.eq("buffer exchange", b.args[1], n, W, "all bytes of the buffer are sent")
        chk.eq("buffer exchange", S(b.args[0]), q("w_bufraw", arg("in")), W, "the bytes sent are the buffer's")
        got = V(Poly.atom(("mem", a.args[5].single(), None, "i32")))
        chk.eq("buffer exchange", S(b.args[6]), got, W, "as many bytes are received as the neighbour announced")
        chk.ob("buffer exchange", any("MPI_Sendrecv" in str(k[2]) for k in mems(b.args[6])), W, "the received length is read after the first message")
        # the output buffer is resized to the received length and its own memory receives the data
        rr = [e for e in r.events if e.kind == "call" and e.name in ("_Znam", "_ZnamRKSt9nothrow_t")]
        ok = bool(rr) and any(v_equal(S(e.args[0]), got) for e in rr)
        chk.ob("buffer exchange", ok, W, "the output buffer is resized to the received length")
        chk.eq("buffer exchange", S(A.num(A.run("w_bufdim", {0: arg("out")}, b.mem).ret)), got, W, "the output buffer has exactly the received length")
        chk.eq("buffer exchange", S(b.args[5]), S(A.num(A.run("w_bufraw", {0: arg("out")}, b.mem).ret)), W, "the data are received into the output buffer")

    # serial: out becomes in
    W = "SerialSubdivision<rank %d>::exchangeData" % R
    r = A.run("w_sdata%d" % R, {})
    for f, what in (("w_bufdim", "length"), ("w_bufraw", "bytes")):
        chk.eq("buffer exchange", S(A.num(A.run(f, {0: arg("out")}, r.mem).ret)), q(f, arg("in")), W, "the %s of the output buffer are those of the input buffer" % what)

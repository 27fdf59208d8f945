"""P13: the subdivision tiles the global domain."""
from engine.report import Check
from engine.val import *
from engine import ir
from engine.absint import Analyzer, Memory
from engine.loops import strip_versions
from .gridlib import arg

RULE = ("Value-numbering dataflow over init (serial and MPI, ranks 1-3): the inner bounds of a process are derived as functions of its Cartesian coordinate c; the first starts at the "
        "global lower bound, the last ends at the upper bound, the lower bound at c+1 equals the upper bound at c plus one and no part has negative size (c, the process grid, the domain "
        "and the ghost width stay symbolic); the local domain is the inner part grown by the ghost width; exchange buffers have room for exactly the ghost layers; the arguments of the "
        "MPI topology calls and the boundary predicates are the ones required.")


def atoms_of(v):
    out = []

    def fn(k):
        out.append(k)
        return None
    Subst(fn).val(v)
    return out


def equal_factors(A, ev, m, st):
    """contract of equalFactors (P15): the third argument becomes a vector of nfact integers whose product is the number"""
    x = ("factors", ev.uid, "p")
    X = V(Poly.atom(x))
    n = ev.args[1]
    for g, p in ev.args[2].cases:
        m.region(p, 24, "havoc", ("o", ev.name, 2, ev.uid))
    m.store(ev.args[2], 8, X, ("s", ev.uid, 0))
    m.store(vadd(ev.args[2], V(8)), 8, vadd(X, vmul(V(4), n)), ("s", ev.uid, 1))
    return None


def run():
    chk = Check("P13", RULE, ["the global domain has at least two cells in every dimension", "coordinates reported by MPI_Cart_coords lie in [0, dims)",
                              "products of process coordinate and cell width are exact enough that both neighbours compute the same boundary (they evaluate the same expression)"])
    mod = ir.prepare("subdivision.cpp")
    chk.module(mod)
    A = Analyzer(mod, models=[(r"^(void )?schnek::equalFactors\(", equal_factors)])
    for R in (1, 2, 3):
        s = arg("s")
        M0 = Memory()

        def q(f, m, *a):
            return A.num(A.run("w_%s%d" % (f, R), dict(enumerate(a)), m).ret)
        lim = lambda n, d: V(Poly.atom(("mem", arg(n).single() + Poly.const(4 * d), None, "i32")))
        dl = VA("arg", "delta", "i32")
        # ------------------------------------------------ serial
        W = "SerialSubdivision<rank %d>::init" % R
        r = A.run("w_sinit%d" % R)
        one_piece(chk, q, r.mem, s, R, [lim("lo", d) for d in range(R)], [lim("hi", d) for d in range(R)], dl, W, strip=strip_versions)
        for d in range(R):
            chk.eq("tiling", q("sgdlo", r.mem, s, V(d)), q("ilo", r.mem, s, V(d)), W, "global lo(%d) is the inner lower bound" % d)
            chk.eq("tiling", q("sgdhi", r.mem, s, V(d)), q("ihi", r.mem, s, V(d)), W, "global hi(%d) is the inner upper bound" % d)
            chk.eq("boundary", q("sblo", M0, s, V(d)), V(1), W, "isBoundLo(%d)" % d)
            chk.eq("boundary", q("sbhi", M0, s, V(d)), V(1), W, "isBoundHi(%d)" % d)
        for f, w in (("smaster", 1), ("snum", 0), ("scnt", 1), ("suid", 0)):
            chk.eq("process", q(f, M0, s), V(w), "SerialSubdivision<rank %d>" % R, f[1:])
        # ------------------------------------------------ MPI
        W = "MPICartSubdivision<rank %d>::init" % R
        r = A.run("w_pinit%d" % R)
        calls = [e for e in r.events if e.kind == "call" and e.dname.startswith("MPI_")]
        by = {}
        for e in calls:
            by.setdefault(e.dname, []).append(e)
        want = {"MPI_Comm_size": 1, "MPI_Cart_create": 1, "MPI_Comm_rank": 1, "MPI_Cart_coords": 1, "MPI_Cart_shift": R}
        ok = all(len(by.get(k, [])) == n for k, n in want.items())
        if not chk.ob("topology", ok, W, "one Cartesian communicator is set up (calls: %s)" % {k: len(v) for k, v in by.items()}):
            continue
        for e in calls:
            bad = [k for k in guard_keys(e.guard) if "MPI_" not in str(k)]
            chk.ob("topology", not bad and not e.loops, "%s, %s" % (W, e.dname), "called by every process, subject only to the success of earlier MPI calls (%s)" % show_guard(e.guard)[:120])
        world = V(Poly.atom(("global", "ompi_mpi_comm_world", "p")))
        sv = strip_versions
        cs, cc, cr, co = (by[k][0] for k in ("MPI_Comm_size", "MPI_Cart_create", "MPI_Comm_rank", "MPI_Cart_coords"))
        chk.eq("topology", cs.args[0], world, W, "the processes of MPI_COMM_WORLD are counted")
        chk.eq("topology", cc.args[0], world, W, "the communicator is made from MPI_COMM_WORLD")
        chk.eq("topology", cc.args[1], V(R), W, "number of dimensions of the process grid")
        com = V(Poly.atom(("mem", q("apcomm", M0, s).single(), None, "p")))
        chk.eq("topology", cc.args[5], q("apcomm", M0, s), W, "the new communicator is kept")
        for d in range(R):
            per = cc.mem.load(vadd(cc.args[3], V(4 * d)), 4, "i32")
            chk.ob("topology", per.const() is not None and per.const() != 0, W, "dimension %d is periodic (%s)" % (d, show(per)[:40]))
            chk.eq("topology", sv(cc.mem.load(vadd(cc.args[2], V(4 * d)), 4, "i32")), sv(q("pdims", r.mem, s, V(d))), W, "dims[%d] is the process grid given to MPI" % d)
        chk.eq("topology", sv(cr.args[0]), com, W, "rank in the Cartesian communicator")
        chk.eq("topology", cr.args[1], q("aprank", M0, s), W, "the rank is kept")
        chk.eq("topology", sv(co.args[0]), com, W, "coordinates in the Cartesian communicator")
        chk.eq("topology", sv(co.args[1]), V(Poly.atom(("mem", q("aprank", M0, s).single(), None, "i32"))), W, "coordinates of this process")
        chk.eq("topology", co.args[2], V(R), W, "number of coordinates")
        chk.eq("topology", co.args[3], q("apcoord", M0, s), W, "the coordinates are kept")
        seen = set()
        for e in by["MPI_Cart_shift"]:
            d = e.args[1].const()
            chk.eq("topology", sv(e.args[0]), com, W, "neighbours in the Cartesian communicator")
            if not chk.ob("topology", d is not None and 0 <= d < R, W, "neighbour dimension is known"):
                continue
            d = int(d)
            seen.add(d)
            disp = e.args[2].const()
            chk.ob("topology", disp in (1, -1), W, "the neighbours are the adjacent processes (displacement %s)" % disp)
            a, b = (3, 4) if disp == 1 else (4, 3)
            chk.eq("topology", e.args[a], q("apprev", M0, s, V(d)), W, "the lower neighbour along %d is kept as previous" % d)
            chk.eq("topology", e.args[b], q("apnext", M0, s, V(d)), W, "the upper neighbour along %d is kept as next" % d)
        chk.ob("topology", len(seen) == R, W, "neighbours are determined for every dimension")
        fac = [e for e in r.events if e.kind == "call" and "equalFactors" in e.dname]
        if chk.ob("topology", len(fac) == 1, W, "the process grid comes from equalFactors"):
            chk.eq("topology", sv(fac[0].args[0]), V(Poly.atom(("mem", cs.args[1].single(), None, "i32"))), W, "all processes are distributed")
            chk.eq("topology", fac[0].args[1], V(R), W, "over all dimensions")
            X = Poly.atom(("factors", fac[0].uid, "p"))
            have = {sv(q("pdims", r.mem, s, V(d))).single() for d in range(R)}
            chk.ob("topology", have == {Poly.atom(("mem", X + Poly.const(4 * d), None, "i32")) for d in range(R)}, W, "every factor becomes the size of one dimension of the process grid (%s)" % [str(h)[:80] for h in have])
        early = {e.uid for e in r.events if e.kind == "call" and e.no < co.no}
        # ---- geometry as functions of the coordinate
        cK, nK = {}, {}
        for d in range(R):
            c = sv(q("pcoord", r.mem, s, V(d))).single()
            n = sv(q("pdims", r.mem, s, V(d))).single()
            cK[d] = atom_key(c.single_atom()) if c is not None and c.single_atom() is not None else None
            nK[d] = atom_key(n.single_atom()) if n is not None and n.single_atom() is not None else None
        if not chk.ob("tiling", None not in cK.values() and None not in nK.values(), W, "coordinates and process grid are known"):
            continue
        C = [VA("crd", d, "i32") for d in range(R)]
        N = [VA("npr", d, "i32") for d in range(R)]
        ren = {cK[d]: C[d] for d in range(R)}
        ren.update({nK[d]: N[d] for d in range(R)})
        ren.update({atom_key(sv(q("pdims", M0, s, V(d))).single().single_atom()): N[d] for d in range(R)})

        def norm(v):
            for k in atoms_of(v):
                if k[0] == "mem" and k[:2] in {x[:2] for x in cK.values()}:
                    fresh = k[2] is not None and not (isinstance(k[2], tuple) and any(u in early for u in k[2]))
                    if not fresh:
                        chk.ob("tiling", False, W, "the coordinate is read before MPI_Cart_coords has set it")
            def fn(k):
                if k in ren:
                    return ren[k]
                if k[0] == "fn" and k[1] == "idiv":
                    a, b = k[2]
                    a = Subst(fn).poly(a) if isinstance(a, Poly) else Subst(fn).val(a)
                    b = Subst(fn).poly(b) if isinstance(b, Poly) else Subst(fn).val(b)
                    if b.single() is not None and b.single().single_atom() is not None and all(nn.single() == b.single() for nn in [b] if nn in N):
                        return vmap(lambda p: Poly.atom(("fn", "trunc", (p,))), vdiv(a, b))
                return None
            return Subst(fn).val(sv(v))
        ilo = [norm(q("blo", r.mem, q("bounds", r.mem, s), V(d))) for d in range(R)]
        lo = [norm(q("lo", r.mem, s, V(d))) for d in range(R)]
        hi = [norm(q("hi", r.mem, s, V(d))) for d in range(R)]
        one_piece(chk, q, r.mem, s, R, lo, hi, dl, W, strip=norm)
        ilo = [norm(q("ilo", r.mem, s, V(d))) for d in range(R)]
        ihi = [norm(q("ihi", r.mem, s, V(d))) for d in range(R)]
        for d in range(R):
            gl, gh = lim("lo", d), lim("hi", d)
            chk.eq("tiling", sv(q("pgdlo", r.mem, s, V(d))), gl, W, "global lo(%d)" % d)
            chk.eq("tiling", sv(q("pgdhi", r.mem, s, V(d))), gh, W, "global hi(%d)" % d)
            c, n = C[d].single(), N[d].single()
            H = gh.single() - gl.single()
            ax = [(-c, False), (c - n + Poly.const(1), False), (Poly.const(1) - n, False), (Poly.const(1) - H, False)]
            put = lambda x: Subst(lambda k: x if k == atom_key(c.single_atom()) else None)
            only = [k for k in atoms_of(ilo[d]) + atoms_of(ihi[d]) if k[0] in ("crd", "npr") and k[1] != d]
            chk.ob("tiling", not only, W, "bounds along %d depend only on the coordinate along %d" % (d, d))
            first = Subst(lambda k: V(0) if k == atom_key(c.single_atom()) else None)
            last = Subst(lambda k: vsub(N[d], V(1)) if k == atom_key(c.single_atom()) else None)
            nxt = Subst(lambda k: vadd(C[d], V(1)) if k == atom_key(c.single_atom()) else None)
            chk.eq("tiling", first.val(ilo[d]), gl, W, "the first process along %d starts at the global lower bound" % d, 1, ax[2:])
            chk.eq("tiling", last.val(ihi[d]), gh, W, "the last process along %d ends at the global upper bound" % d, 1, ax[2:])
            chk.eq("tiling", nxt.val(ilo[d]), vadd(ihi[d], V(1)), W, "along %d the next process starts right after this one ends" % d, 1, ax + [(c - n + Poly.const(2), False)])
            why = nonneg(vadd(vsub(ihi[d], ilo[d]), V(1)), ax, c, n)
            chk.ob("tiling", why is None, W, "along %d no part has negative size%s" % (d, "" if why is None else ": " + why))
            chk.eq("boundary", norm_bool(q("blol", M0, s, V(d)), ren, sv), guard_to_val(g_cmp("eq", C[d], V(0))), "MPICartSubdivision<rank %d>::isBoundLo(%d)" % (R, d), "exactly the first process along the dimension", 1, ax)
            chk.eq("boundary", norm_bool(q("bhih", M0, s, V(d)), ren, sv), guard_to_val(g_cmp("eq", C[d], vsub(N[d], V(1)))), "MPICartSubdivision<rank %d>::isBoundHi(%d)" % (R, d), "exactly the last process along the dimension", 1, ax)
        # ---- buffers
        E = [vadd(vsub(hi[d], lo[d]), V(1)) for d in range(R)]
        news = {}
        for e in r.events:
            if e.kind == "call" and e.name == "_Znam":
                news[e.uid] = e
        bufs = []
        for d in range(R):
            x = norm(q("pxsize", r.mem, s, V(d)))
            Q = dl
            for j in range(R):
                if j != d:
                    Q = vmul(Q, E[j])
            bad = None
            for g, p in x.cases:
                a = p.single_atom()
                k = atom_key(a) if a is not None else None
                if k and k[0] == "fn" and k[1] == "idiv":
                    num, den = (z if isinstance(z, Val) else V(z) for z in k[2])
                    df = v_diff(num, vmul(Q, den), g)
                else:
                    df = v_diff(V(p), Q, g)
                if df is not None:
                    bad = df
            chk.ob("buffers", bad is None, W, "exchange size along %d is ghost width times the extent of the other dimensions%s" % (d, "" if bad is None else " (%s, required %s)" % (show(bad[0])[:200], show(bad[1])[:200])))
            for f, nm in (("psend", "send"), ("precv", "receive")):
                b = q(f, r.mem, s, V(d))
                bufs.append(b)
                raw = q("pxsize", r.mem, s, V(d))
                okb, why = True, ""
                for g, p in b.cases:
                    a = p.single_atom()
                    k = atom_key(a) if a is not None else None
                    if not k or k[0] != "call" and "_Znam" not in str(k[:2]):
                        okb, why = False, "not a new array: %s" % show(V(p))[:80]
                        break
                    al = [e for e in news.values() if e.res is not None and any(pp == p for _, pp in e.res.cases)]
                    if len(al) != 1 or v_diff(al[0].args[0], vmul(V(8), raw), g) is not None:
                        okb, why = False, "allocated with %s" % (show(al[0].args[0])[:100] if al else "?")
                        break
                chk.ob("buffers", okb, W, "the %s buffer along %d is an array of the exchange size%s" % (nm, d, " (%s)" % why if why else ""))
        allp = [p for b in bufs for _, p in b.cases]
        chk.ob("buffers", len({str(atom_key(p.single_atom())) for p in allp if p.single_atom() is not None}) == len(allp), W, "all buffers are distinct")
        # ---- process numbers
        PW = "MPICartSubdivision<rank %d>" % R
        rank = V(Poly.atom(("mem", q("aprank", M0, s).single(), None, "i32")))
        chk.eq("process", q("pnum", M0, s), rank, PW, "procnum")
        chk.eq("process", q("pcnt", M0, s), V(Poly.atom(("mem", q("apsize", M0, s).single(), None, "i32"))), PW, "procCount")
        chk.eq("topology", cs.args[1], q("apsize", M0, s), W, "the number of processes is kept")
        chk.eq("process", q("pmaster", M0, s), guard_to_val(g_cmp("eq", rank, V(0))), PW, "master is rank zero")
        uid = Subst(lambda k: ren.get(k)).val(sv(q("puid", M0, s)))
        want = C[0]
        for d in range(1, R):
            want = vadd(vmul(N[d], want), C[d])
        wantF = C[R - 1]
        for d in range(R - 2, -1, -1):
            wantF = vadd(vmul(N[d], wantF), C[d])
        chk.ob("process", v_equal(uid, want) or v_equal(uid, wantF) or v_equal(uid, rank), PW, "getUniqueId numbers the process grid without collisions (%s)" % show(uid)[:120])
        # ---- conveniences
        conv(chk, A, R, q, s, M0, lim)
    chk.floor = 300
    return chk.finish()


def norm_bool(v, ren, sv):
    return Subst(lambda k: ren.get(k)).val(sv(v))


def guard_keys(g):
    return [atom_key(v) for v in g_support(g)]


def one_piece(chk, q, m, s, R, lo, hi, dl, W, strip):
    """all accessors agree on the local domain [lo, hi] and its inner part"""
    chk.eq("local domain", strip(q("delta", m, s)), dl, W, "getDelta")
    b = q("bounds", m, s)
    for d in range(R):
        for f in ("lo", "dlo"):
            chk.eq("local domain", strip(q(f, m, s, V(d))), lo[d], W, "%s(%d)" % (f, d))
        for f in ("hi", "dhi"):
            chk.eq("local domain", strip(q(f, m, s, V(d))), hi[d], W, "%s(%d)" % (f, d))
        for f in ("ilo", "idlo"):
            chk.eq("local domain", strip(q(f, m, s, V(d))), vadd(lo[d], dl), W, "%s(%d): the local domain is the inner part grown by the ghost width" % (f, d))
        for f in ("ihi", "idhi"):
            chk.eq("local domain", strip(q(f, m, s, V(d))), vsub(hi[d], dl), W, "%s(%d): the local domain is the inner part grown by the ghost width" % (f, d))


def nonneg(v, ax, c, n):
    """None if v >= 0 under the axioms; v is a sum of an integer polynomial and at most one +trunc(X) and one -trunc(Y)
    trunc is monotone and 0 <= trunc(Y) <= Y for Y >= 0"""
    N = Poly.atom(atom_key(n.single_atom()))

    def ge0(p, g, more=()):
        for _ in range(3):
            if not g_feasible(g_and(g, lt0(p, False)), list(ax) + list(more)):
                return True
            p = p * N
        return False
    def gt0(p, g):
        for _ in range(3):
            if not g_feasible(g_and(g, g_not(lt0(-p, False))), list(ax)):
                return True
            p = p * N
        return False
    for g, p in v.cases:
        if not g_feasible(g, list(ax)):
            continue
        pos, neg, rest = [], [], Poly.const(0)
        for m, cf in p.t:
            k = atom_key(m[0][0] if isinstance(m[0], tuple) else m[0]) if len(m) == 1 else None
            if k is not None and k[0] == "fn" and k[1] == "trunc" and abs(cf) == 1:
                (pos if cf == 1 else neg).append(k[2][0] if isinstance(k[2][0], Poly) else k[2][0].single())
            else:
                rest = rest + Poly({m: cf})
        ok = False
        # on the first and the last process the coordinate is known: c = 0, c = n - 1
        for sub in (None, "first", "last"):
            to = {"first": Poly.const(0), "last": n - Poly.const(1)}.get(sub)
            f = (lambda x: x) if sub is None else (lambda x: Subst(lambda k: V(to) if k == atom_key(c.single_atom()) else None).poly(x).single())
            if sub == "last" and g_feasible(g_and(g, lt0(c - n + Poly.const(1), True)), list(ax)):
                continue
            if sub == "first" and g_feasible(g_and(g, lt0(-c, True)), list(ax)):
                continue
            P, X, Y = f(rest), [f(x) for x in pos], [f(x) for x in neg]
            gg = g if sub is None else 1
            if not X and not Y:
                ok |= ge0(P, gg)
            elif len(X) == 1 and not Y:
                ok |= ge0(P, gg) and ge0(X[0], gg)
            elif len(Y) == 1 and not X:
                ok |= ge0(P - Y[0], gg) or gt0(P + Poly.const(1) - Y[0], gg)   # trunc(Y) <= P when Y < P + 1, P whole
            elif len(X) == 1 and len(Y) == 1:
                ok |= ge0(P, gg) and ge0(X[0] - Y[0], gg)
            if ok:
                break
        if not ok:
            return "%s" % show(V(p))[:200]
    return None


def conv(chk, A, R, q, s, M0, lim):
    W = "DomainSubdivision<rank %d>" % R
    for f, lo, hi in (("initD", lambda d: q("rlo", M0, arg("r"), V(d)), lambda d: q("rhi", M0, arg("r"), V(d))),
                      ("initG", lambda d: q("gdlo", M0, arg("g"), V(d)), lambda d: q("gdhi", M0, arg("g"), V(d))),
                      ("initS", lambda d: V(0), lambda d: vsub(lim("size", d), V(1)))):
        r = A.run("w_%s%d" % (f, R))
        ev = [e for e in r.events if e.kind == "call" and e.vslot is not None]
        if not chk.ob("init", len(ev) == 1 and ev[0].guard == 1 and len(ev[0].args) >= 4, "%s::%s" % (W, f), "forwards to the virtual init once"):
            continue
        e = ev[0]
        for d in range(R):
            chk.eq("init", e.mem.load(vadd(e.args[1], V(4 * d)), 4, "i32"), lo(d), "%s::%s" % (W, f), "lower bound %d" % d)
            chk.eq("init", e.mem.load(vadd(e.args[2], V(4 * d)), 4, "i32"), hi(d), "%s::%s" % (W, f), "upper bound %d" % d)
        chk.eq("init", e.args[3], VA("arg", "delta", "i32"), "%s::%s" % (W, f), "ghost width")
    # physical extent of the inner part
    for f in ("extent", "extentA"):
        r = A.run("w_%s%d" % (f, R))
        for d in range(R):
            e0 = q("rdlo", M0, arg("e"), V(d)) if f == "extent" else V(0)
            e1 = q("rdhi", M0, arg("e"), V(d)) if f == "extent" else V(Poly.atom(("mem", arg("e").single() + Poly.const(8 * d), None, "d")))
            # the virtual getGlobalDomain returns a range
            gd = [e for e in r.events if e.kind == "call" and e.vslot is not None]
            if not chk.ob("extent", bool(gd) and all(v_equal(e.args[0], s) for e in gd), "%s::getInnerExtent" % W, "the global domain is consulted"):
                continue
            res = gd[0].res
            glo = V(Poly.atom(("mem", res.single() + Poly.const(4 * d), None, "i32")))
            ghi = V(Poly.atom(("mem", res.single() + Poly.const(4 * R + 4 * d), None, "i32")))
            dx = vdiv(vsub(e1, e0), vadd(vsub(ghi, glo), V(1)))
            il, ih = strip_versions(q("ilo", M0, s, V(d))), strip_versions(q("ihi", M0, s, V(d)))
            got = lambda g: strip_versions(q(g, r.mem, arg("o"), V(d)))
            chk.eq("extent", got("rdlo"), vadd(e0, vmul(vsub(il, glo), dx)), "%s::getInnerExtent" % W, "lower end %d" % d)
            chk.eq("extent", got("rdhi"), vadd(e0, vmul(vadd(vsub(ih, glo), V(1)), dx)), "%s::getInnerExtent" % W, "upper end %d" % d)

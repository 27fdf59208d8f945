"""P14: reductions over processes."""
from engine.report import Check
from engine.val import *
from engine import ir
from engine.absint import Analyzer, Memory
from engine.loops import strip_versions
from .gridlib import arg

RULE = ("Value-numbering dataflow over every reduction method (serial and MPI, int and double, ranks 1-3): the serial one returns its argument; the MPI one makes exactly one unconditional "
        "MPI_Allreduce of one element on the subdivision's communicator with the operation the method names and the datatype of the argument, and returns what was received (for the average: "
        "divided by the number of processes). The MPI datatype table is read from the constant initialisers.")
OPS = {"sum": "ompi_mpi_op_sum", "avg": "ompi_mpi_op_sum", "max": "ompi_mpi_op_max", "min": "ompi_mpi_op_min"}
TYPES = {"schar": ("char", "signed_char"), "short": ("short",), "int": ("int",), "long": ("long",), "uchar": ("unsigned_char",), "ushort": ("unsigned_short",),
         "uint": ("unsigned",), "ulong": ("unsigned_long",), "float": ("float",), "double": ("double",), "ldouble": ("long_double",)}


def glob(v):
    p = v.single()
    k = atom_key(p.single_atom()) if p is not None and p.single_atom() is not None else None
    return k[1] if k and k[0] == "global" else show(v)[:60]


def run():
    chk = Check("P14", RULE, ["MPI_Allreduce combines the values of all processes of the communicator with the given operation and returns the result to all"])
    mod = ir.prepare("reductions.cpp", lib=("src/grid/mpisubdivision.cpp",))
    chk.module(mod)
    A = Analyzer(mod)
    for R in (1, 2, 3):
        for op in OPS:
            for n, t, sz in (("d", "double", 8), ("i", "int", 4)):
                v = VA("arg", "v", "d" if n == "d" else "i32")
                r = A.run("w_S%s%s%d" % (op, n, R))
                chk.eq("serial", r.ret, v, "SerialSubdivision<rank %d>::%sReduce(%s)" % (R, op, t), "returns the value")
                W = "MPICartSubdivision<rank %d>::%sReduce(%s)" % (R, op, t)
                r = A.run("w_P%s%s%d" % (op, n, R))
                ev = [e for e in r.events if e.kind == "call" and e.dname.startswith("MPI_")]
                other = [e for e in r.events if e.kind == "call" and e not in ev]
                if not chk.shape("reduce", len(ev) == 1 and ev[0].dname == "MPI_Allreduce" and ev[0].guard == 1 and not ev[0].loops, not other, W,
                              "exactly one unconditional MPI_Allreduce (found: %s)" % [e.dname for e in ev]):
                    continue
                e = ev[0]
                inplace = e.args[0].const() == 1 or show(e.args[0]) == "MPI_IN_PLACE"
                src = e.args[1] if inplace else e.args[0]
                chk.eq("reduce", e.mem.load(src, sz, "d" if n == "d" else "i32"), v, W, "this process contributes its value")
                chk.eq("reduce", e.args[2], V(1), W, "one element is reduced")
                tn = glob(e.args[3]).replace("ompi_mpi_", "")
                chk.ob("reduce", tn == t, W, "the datatype is that of %s (%s)" % (t, tn))
                on = glob(e.args[4])
                chk.ob("reduce", on == OPS[op], W, "the operation is %s (%s)" % (OPS[op], on))
                com = V(Poly.atom(("mem", A.num(A.run("w_comm%d" % R, {0: arg("s")}).ret).single(), None, "p")))
                chk.eq("reduce", strip_versions(e.args[5]), com, W, "over the processes of the subdivision")
                got = V(Poly.atom(("mem", e.args[1].single(), None, "d" if n == "d" else "i32")))
                ret = strip_versions(r.ret)
                if op == "avg":
                    size = V(Poly.atom(("mem", A.num(A.run("w_size%d" % R, {0: arg("s")}).ret).single(), None, "i32")))
                    if n == "d":
                        chk.eq("reduce", ret, vdiv(got, size), W, "the sum is divided by the number of processes")
                    else:
                        want = vmap(lambda p: Poly.atom(("fn", "trunc", (p,))), vdiv(got, size))
                        alt = V(Poly.atom(("fn", "idiv", (got.single(), size.single()))))
                        chk.ob("reduce", v_equal(ret, want) or v_equal(ret, alt), W, "the sum is divided by the number of processes (%s)" % show(ret)[:120])
                else:
                    chk.eq("reduce", ret, got, W, "the result is returned")
                st = [x for x in r.events if x.kind == "store" and "alloca" not in show(x.args[0])]
                chk.ob("reduce", not st, W, "nothing else is changed")
    for n, ok in TYPES.items():
        r = A.run("w_ty_%s" % n)
        tn = glob(A.num(r.ret)).replace("ompi_mpi_", "")
        chk.ob("datatype", tn in ok, "MpiValueType<%s>" % n, "MPI datatype is %s (%s)" % (ok[0], tn))
    chk.floor = 150
    return chk.finish()

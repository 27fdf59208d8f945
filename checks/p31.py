"""P31: HDF5 files contain the global grid, each process its own part"""
import re
from .adtlib import *
from engine.absint import Memory
from engine.adt import key_of
from engine.val import V, VA, vadd, vsub

RULE = REF + "stream: state of the streams; slab: extents, hyperslabs and data handed to HDF5."
HINTS = {"ignore_effects": r"MPI_Info_set|H5Pset_sieve_buf_size|H5Pset_alignment"}  # performance hints
# close() called from a destructor is virtual; inline once, resolve it, inline again
PASSES = 3 * "always-inline,function(sroa,early-cse<memssa>,instsimplify,simplifycfg)," + ir.PASSES2
ROWS = [("stream", ("w_close", ("r_close", "r_close2")), "HdfStream::close", ()), ("stream", "good", "HdfStream::good", ()), ("stream", "setBlock", "HdfStream::setBlockName", (1,)), ("stream", "setAttr", "HdfStream::setAttributes", (1,)),
        ("stream", "setActive", "HdfStream::setActive", ()), ("stream", "nextName", "HdfStream::getNextBlockName", ()), ("stream", "assign", "HdfStream::operator=", ()), ("stream", ("w_group", ("r_group", "r_group2", "r_group3", "r_group4")), "HdfStream::makeMPIGroup", ()),
        ("own", "new", "HdfStream::HdfStream", (), {"ignore_cells": r"^a0$"}), ("own", "copy", "HdfStream copy", (), {"ignore_cells": r"^a0$"}), ("own", "del", "HdfStream::~HdfStream", (), {"ignore_cells": r"^a0$"}),
        ("own", "copyO", "HdfOStream copy", (), {"ignore_cells": r"^a0$"}), ("own", "assignO", "HdfOStream::operator=", ()), ("own", "delO", "HdfOStream::~HdfOStream", (), {"ignore_cells": r"^a0$"}), ("own", "newO", "HdfOStream::HdfOStream", (), {"ignore_cells": r"^a0$"}),
        ("own", "newI", "HdfIStream::HdfIStream", (), {"ignore_cells": r"^a0$"}), ("own", "copyI", "HdfIStream copy", (), {"ignore_cells": r"^a0$"}),
        ("own", "nameI", "HdfIStream::HdfIStream(name)", (), dict(HINTS, ignore_cells=r"^a0$")), ("own", "nameO", "HdfOStream::HdfOStream(name)", (), dict(HINTS, ignore_cells=r"^a0$")),
        ("open", "openI", "HdfIStream::open", (), HINTS), ("open", "openO", "HdfOStream::open", (), HINTS),
        ("attr", "attr", "HdfAttributes::set", (1,)), ("attr", "attrD", "HdfAttributes::set (one value)", (1,)), ("attr", "attrRD", "HdfAttributes::set (one reference)", (1,)), ("attr", "attrR", "HdfAttributes::set (reference)", (1,)),
        ("block", "dOpen", "HDFGridDiagnostic::open", ()), ("block", "dWrite", "HDFGridDiagnostic::write", ()), ("block", "dClose", "HDFGridDiagnostic::close", ()), ("block", "dName", "HDFGridDiagnostic::getDatasetName", ()),
        ("block", ("w_dInit", ("r_dInitV", "r_dInitR")), "HDFGridDiagnostic::init", ()), ("block", ("w_dInitF", ("r_dInitFV", "r_dInitFR")), "HDFGridDiagnostic::init (field)", ()), ("block", ("w_rInit", ("r_rInitV", "r_rInitR")), "HDFGridReader::init", ()), ("block", ("w_rInitF", ("r_rInitFV", "r_rInitFR")), "HDFGridReader::init (field)", ()),
        ("block", "rExec", "HDFGridReader::execute", ()), ("block", "rPar", "HDFGridReader::initParameters", ()),
        ] + [("slab", "write" + n, "HdfOStream::writeGrid " + n, ()) for n in "123F"] + [("slab", "read" + n, "HdfIStream::readGrid " + n, ()) for n in "123"]


def elements(chk):
    """H5DataType<T>::type is initialised with the native HDF5 type of T"""
    o = ir.scratch() + "/hdftypes.ll"
    ir.compile_ll(ir.REPO + "/src/diagnostic/hdfdiagnostic.cpp", o)
    text = open(o).read()
    want = {"i": "H5T_NATIVE_INT_g", "f": "H5T_NATIVE_FLOAT_g", "d": "H5T_NATIVE_DOUBLE_g"}
    for t, g in want.items():
        var = "@_ZN6schnek10H5DataTypeI%sE4typeE" % t
        where = "src/diagnostic/hdfdiagnostic.cpp H5DataType<%s>::type" % t
        m = re.findall(r"store i64 (%[\w.]+), ptr " + var + r"\b", text)
        body = next((f for f in re.split(r"^define ", text, flags=re.M) if "ptr " + var in f and "store i64" in f), "")
        src = re.search(re.escape(m[0]) + r" = load i64, ptr @(\w+)", body) if len(m) == 1 else None
        if not src:
            chk.undecided(where, "the initialiser is not a native HDF5 type")
            continue
        chk.ob("type", src.group(1) == g, where, "initialised with %s; required %s" % (src.group(1), g))


def extents(A, n):
    """the dimensions of a grid are those of its bounds (decided by P01)"""
    m = Memory()
    for d in range({"F": 2}.get(n) or int(n)):
        r = [A.run("w_%s%s" % (f, n), {0: VA("arg", "a0", "p"), 1: VA("arg", "a1", "p"), 2: V(d)}).ret for f in ("lo", "hi", "dim")]
        k = key_of(r[2].single()) if r[2].single() is not None else None
        if k is None or k[0] != "mem":
            return None
        m.store(V(k[1]), 4, vadd(vsub(r[1], r[0]), V(1)), ("dims", d), "i32")
    return m


def run():
    chk = Check("P31", RULE)
    mod = module("hdf.cpp", lib=("src/diagnostic/hdfdiagnostic.cpp",), extra_flags=("-DNDEBUG",), passes=PASSES)
    chk.module(mod)
    A = AdtAnalyzer(mod)
    table(chk, A, [r if r[0] != "slab" else r[:4] + ({"init": extents(A, r[1][-1])},) for r in ROWS])
    elements(chk)
    chk.floor = 45
    return chk.finish()

"""table-driven comparison of repository functions with their reference definitions"""
from engine import ir, refeq
from engine.adt import AdtAnalyzer
from engine.ir import ToolError
from engine.report import Check

P = ("always-inline,globaldce,function(sroa,early-cse<memssa>,simplifycfg,loop-simplify,lcssa),"
     "function(sroa,early-cse<memssa>,instsimplify,simplifycfg,instsimplify,adce,loop-simplify,lcssa),globaldce")
OPAQUE = r"_ZSt4fillI|_ZSt6fill_nI|_ZSt11min_elementI|_ZSt11max_elementI|_ZNK?St6vectorI|_ZNK?9__gnu_cxx17__normal_iteratorI|_ZN9__gnu_cxx(eq|ne|mi)I"
STR = "NSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"


REF = ("Every function listed is summarised by a gated dataflow analysis of its compiled IR (exits with their conditions, "
       "values returned and left in memory, exceptions by type, effectful calls with arguments and order, loop recurrences; "
       "library containers, strings, smart pointers and variants as abstract values) and the summary is compared, for all "
       "inputs, with that of an independent reference definition in /verif/witness. ")


def module(wit, lib=(), keep="", **kw):
    kw.setdefault("opaque_extra", OPAQUE)
    kw.setdefault("passes", P)
    return ir.prepare(wit, lib=lib, keep=r"^r_" + ("|" + keep if keep else ""), **kw)


def table(chk, A, rows):
    """rows: (rule, name or (impl, ref), text, by-value parameters, options)"""
    for row in rows:
        rule, nm, what, skip = row[:4]
        kw = row[4] if len(row) > 4 else {}
        i, r = nm if isinstance(nm, tuple) else ("w_" + nm, "r_" + nm)
        refeq.check(chk, A, rule, i, r, what, skip=skip, **kw)

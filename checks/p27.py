"""P27: shared block data"""
from .adtlib import *
from .p25 import LIB

RULE = REF + "lookup: own data, then a child's by qualified name, then the enclosing blocks, then the children, ambiguity refused; store: the table is keyed by block and name; retrieve: what was registered is handed out and a missing name is an exception."
KEEP = r"^_ZN6schnek5Block7getDataI"


def run():
    chk = Check("P27", RULE)
    mod = module("blocks.cpp", lib=LIB, keep=KEEP)
    chk.module(mod)
    rows = []
    for N, T, M in (("I", "int", "i"), ("F", "double", "d")):
        g = [x for x in mod.funcs if x.startswith("_ZN6schnek5Block7getDataI%sEE" % M)]
        if g:
            rows.append(("lookup", (g[0], "r_getData" + N), "Block::getData<%s>" % T, (1,)))
        else:
            chk.undecided("Block::getData<%s>" % T, "not present")
        rows += [("store", ("w_bdAdd" + N, ("r_bdAdd" + N, "r_bdAdd2" + N)), "BlockData<%s>::add" % T, (2,)), ("store", "bdGet" + N, "BlockData<%s>::get" % T, (2,)),
                 ("store", "bdExists" + N, "BlockData<%s>::exists" % T, (2,)), ("retrieve", "addData" + N, "Block::addData<%s>" % T, (1,)),
                 ("retrieve", "retrieve" + N, "Block::retrieveData(%s&)" % T, (1,)), ("retrieve", "retrieveP" + N, "Block::retrieveData(%s*&)" % T, (1,))]
    table(chk, AdtAnalyzer(mod), rows)
    chk.floor = 14
    return chk.finish()

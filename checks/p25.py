"""P25: block life cycle"""
from .adtlib import *

RULE = REF + "phase: a phase of the life cycle acts on the block itself and then once on each of its children in order; driver: initAll runs the five phases in order on the root of the hierarchy."
B = "_ZN6schnek5Block"
KEEP = r"^%s(18evaluateParameters|5setup|17registerHierarchy|16preInitHierarchy|13initHierarchy|17postInitHierarchy)Ev" % B
LIB = ("src/variables/block.cpp", "src/variables/blockparameters.cpp")
PH = [("18evaluateParameters", "evalPars"), ("5setup", "setup"), ("17registerHierarchy", "register"), ("16preInitHierarchy", "preInit"),
      ("13initHierarchy", "init"), ("17postInitHierarchy", "postInit")]


def run():
    chk = Check("P25", RULE)
    # the parameters of a block evaluate themselves in one call (P28 decides what that call does)
    mod = module("blocks.cpp", lib=LIB, keep=KEEP, opaque_extra=OPAQUE + "|BlockParameters8evaluateEv")
    chk.module(mod)
    table(chk, AdtAnalyzer(mod), [("phase", (B + m + "Ev", "r_" + r), "Block::" + m.lstrip("0123456789"), ()) for m, r in PH] +
          [("driver", ("w_initAll", ("r_initAll", "r_initAll2")), "Block::initAll", ())])
    chk.floor = 7
    return chk.finish()

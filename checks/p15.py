"""P15: distribution of the processes over the dimensions"""
from .adtlib import *

RULE = REF
F = {"equal": "_ZN6schnek12equalFactorsEiiRSt6vectorIiSaIiEES3_", "primes": "_Z10makePrimesRNSt7__cxx114listIiSaIiEEEi",
     "factorize": "_Z9factorizeiRNSt7__cxx114listIiSaIiEEES3_", "distribute": "_Z10distributeRSt6vectorIiSaIiEENSt7__cxx114listIiS0_EES2_"}
ALT = {"factorize": ("r_factorize", "r_factorize2", "r_factorize3")}
ROWS = [("factors", (F[k], ALT.get(k, "r_" + k)), t, s) for k, t, s in (("equal", "equalFactors", ()), ("primes", "makePrimes", ()), ("factorize", "factorize", ()), ("distribute", "distribute", (1,)))]


def run():
    chk = Check("P15", RULE)
    mod = module("factors.cpp", lib=("src/util/factor.cpp",), keep="|".join("^%s$" % f for f in F.values()))
    chk.module(mod)
    for k, f in F.items():
        if f not in mod.funcs:
            chk.undecided(k, "the function is not defined under this name")
            return chk.finish()
    table(chk, AdtAnalyzer(mod), ROWS)
    chk.floor = len(ROWS)
    return chk.finish()

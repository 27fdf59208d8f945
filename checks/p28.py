"""P28: block parameters"""
import re
from .adtlib import *

RULE = REF + "evaluate: a parameter that was never set is an error, a read-only one is left alone, otherwise the program's variable receives the current value; declare: the parameter is entered under its name with its default and permissions; group: membership is by variable."
M = {"int": "i", "double": "d", "std::string": "NSt"}
KEEP = r"^_ZN6schnek15BlockParameters12addParameterI.*15ParametersGroup"
IO = {"ignore_effects": r"std::ostream|operator<<|basic_ostream|Unique<schnek::Variable>"}


def run():
    chk = Check("P28", RULE)
    mod = module("blocks.cpp", lib=("src/variables/blockparameters.cpp",), keep=KEEP)
    chk.module(mod)
    rows = []
    for N, T in (("I", "int"), ("F", "double"), ("S", "std::string")):
        rows += [("evaluate", "parEval" + N, "ConcreteParameter<%s>::evaluate" % T, ()), ("evaluate", "parUpdate" + N, "ConcreteParameter<%s>::update" % T, ()),
                 ("evaluate", "constEval" + N, "ConstantParameter<%s>::evaluate" % T, ()), ("evaluate", "constUpdate" + N, "ConstantParameter<%s>::update" % T, ())]
        g = [x for x in mod.funcs if re.match(r"_ZN6schnek15BlockParameters12addParameterI%s.*15ParametersGroup" % M[T], x)]
        if g:
            rows.append(("declare", (g[0], ("r_addPar" + N, "r_addParB" + N)), "BlockParameters::addParameter<%s>" % T, (2, 4), IO))
        else:
            chk.undecided("BlockParameters::addParameter<%s>" % T, "not present")
        rows += [("declare", "addPar1" + N, "BlockParameters::addParameter<%s>(name, var, permissions)" % T, (2,), IO),
                 ("declare", "addPar2" + N, "BlockParameters::addParameter<%s>(name, var, default, permissions)" % T, (2,), IO),
                 ("declare", "addConst" + N, "BlockParameters::addConstant<%s>" % T, (2,), IO)]
    rows += [("evaluate", "evaluate", "BlockParameters::evaluate", ()), ("evaluate", "canEval", "Parameter::canEvaluate", ()),
             ("declare", "parVar", "Parameter::getVariable", ()), ("declare", "parDeps", "Parameter::getAllowedDeps", ()),
             ("declare", "addArr", "BlockParameters::addArrayParameter", (2, 5)), ("declare", "addArr0", "BlockParameters::addArrayParameter (all defaults)", (2,)), ("declare", "addArrD", "BlockParameters::addArrayParameter (defaults)", (2, 4, 6)),
             ("declare", "addArrS", "BlockParameters::addArrayParameter (default)", (2, 6)),
             ("group", "grpAddP", "ParametersGroup::add(parameter)", (1,)), ("group", "grpAddArr", "ParametersGroup::addArray", ()), ("group", "grpAddV", "ParametersGroup::add(variable)", (1,)),
             ("group", "grpIsP", "ParametersGroup::isElement(parameter)", (1,)), ("group", "grpIsV", "ParametersGroup::isElement(variable)", (1,)),
             ("group", "grpHas", "ParametersGroup::hasElements", ())]
    table(chk, AdtAnalyzer(mod), rows)
    chk.floor = 38
    return chk.finish()

"""P35: fields filled from expressions, buffers of data, singletons"""
from .adtlib import *

RULE = REF + "point: at every point of the field the coordinates are set to that point's position, then everything is updated, then the value is stored there; order: every field set up is filled with its own coordinates, value and updater, once, in order; pack: a buffer holds the bytes of all objects in order; single: a singleton is created once."
ROWS = []
for n in (1, 2, 3):
    ROWS += [("point", "fill%d" % n, "fill_field, rank %d" % n, ())]
ONE = []
for n in (1, 2, 3):
    ONE += [("order", "dep%d" % n, "fill_field with a dependent, rank %d" % n, ()), ("order", "impl%d" % n, "FieldFiller::impl, rank %d" % n, ()), ("order", "set%d" % n, "FieldFiller::set, rank %d" % n, ()), ("order", "two%d" % n, "FieldFiller::set of two fields, rank %d" % n, ())]
ONE += [("order", "clear", "FieldFiller::clear", ()), ("order", "all", "FieldFiller::fillFields", ()), ("pack", ("w_pack", ("r_pack2", "r_pack")), "DataBuffer::makeBuffer", ())]
ROWS += [("pack", k, t, ()) for k, t in (("inc", "DataBuffer::iterator::operator++"), ("incp", "DataBuffer::iterator::operator++(int)"), ("eq", "DataBuffer::iterator::operator=="), ("ne", "DataBuffer::iterator::operator!="),
         ("at", "DataBuffer::iterator::operator*"), ("arrow", "DataBuffer::iterator::operator->"), ("begin", "DataBuffer::begin"), ("end", "DataBuffer::end"))]
ROWS += [("single", "one", "Singleton::instance", ())]


U = ("always-inline,globaldce,function(sroa,early-cse<memssa>,simplifycfg,loop-simplify,lcssa),function(loop-simplify,lcssa,loop(indvars,loop-unroll-full)),"
     "function(sroa,early-cse<memssa>,instsimplify,simplifycfg,loop-simplify,lcssa,loop(indvars,loop-unroll-full)),"
     "function(sroa,early-cse<memssa>,instsimplify,simplifycfg,instsimplify,adce,loop-simplify,lcssa),globaldce")


def run():
    chk = Check("P35", RULE)
    mod = module("fill.cpp", passes=U, opaque_extra=OPAQUE + r"|_ZN6schnek17DependencyUpdater6updateEv|_ZNK?6schnek5FieldI.*(15indexToPosition|10getInnerLo|10getInnerHi)|_ZNK?6schnek4GridI.*3getE")
    chk.module(mod)
    table(chk, AdtAnalyzer(mod, pure=r"::indexToPosition\(|schnek::Grid<.*::get\(", opts={"clobber": [(r"DependencyUpdater::update\(", "a2")]}), ROWS)
    # whole fills as single steps
    mod = module("fill.cpp", passes=U, opaque_extra=OPAQUE + r"|_ZN6schnek10fill_fieldI.*UpdaterE$|_ZN6schnek4GridIh.*6resize")
    chk.module(mod)
    table(chk, AdtAnalyzer(mod), ONE)
    chk.floor = len(ROWS) + len(ONE)
    return chk.finish()

"""P34: the bibliography"""
from .adtlib import *

RULE = REF + "field: every field of a reference is read, set and copied as itself; entry: an entry of a kind carries the given fields under their own names, all others empty; text: the BibTeX text names every field that is not empty, once, with its value; record: references are recorded once per citation key with all their descriptions."
V0 = {"ignore_cells": r"^a0$"}
FIELDS = "address annote author booktitle chapter crossref edition editor eprint howpublished institution journal key month note number organization pages publisher school series title type url doi volume year".split()
KINDS = "Article Book Booklet InBook InCollection InProceedings Manual MastersThesis Misc PhdThesis Proceedings TechReport Unpublished".split()
ROWS = [("field", "get_" + f, "LiteratureReference::get" + f.capitalize(), ()) for f in FIELDS]
ROWS += [("field", "set_" + f, "LiteratureReference::set" + f.capitalize(), ()) for f in FIELDS]
ROWS += [("field", "kind", "LiteratureReference::getPublicationType", ()), ("field", "setKind", "LiteratureReference::setPublicationType", ()), ("field", "bibKey", "LiteratureReference::getBibKey", ()),
         ("text", "kindName", "LiteratureReference::getPublicationTypeString", ()), ("field", "new", "LiteratureReference::LiteratureReference()", (), V0), ("field", "newKey", "LiteratureReference::LiteratureReference(string)", (), V0),
         ("field", "copy", "LiteratureReference copy", (), V0), ("field", "assign", "LiteratureReference::operator=", (), V0)]
ROWS += [("entry", "make_" + k, "Literature%s::Literature%s" % (k, k), (), V0) for k in KINDS]
ROWS += [("text", "print", "operator<<(ostream, LiteratureReference)", ()), ("record", ("w_add", ("r_add", "r_add2")), "LiteratureManager::addReference", ()), ("text", "info", "LiteratureManager::writeInformation", ()),
         ("record", "title", "LiteratureManager::getTitle", ()), ("record", "subtitle", "LiteratureManager::getSubtitle", ()), ("record", "setTitle", "LiteratureManager::setTitle", ()), ("record", "setSubtitle", "LiteratureManager::setSubtitle", ()),
         ("record", "manager", "LiteratureManager::instance", ())]


def run():
    chk = Check("P34", RULE)
    mod = module("literature.cpp", lib=("src/tools/literature.cpp",))
    chk.module(mod)
    table(chk, AdtAnalyzer(mod, pure=r"^virtual0$"), ROWS)
    # the text of one entry is decided above
    mod = module("literature.cpp", lib=("src/tools/literature.cpp",), opaque_extra=OPAQUE + "|_ZN6schneklsE")
    chk.module(mod)
    table(chk, AdtAnalyzer(mod, pure=r"^virtual0$"), [("text", ("w_bib", ("r_bib2", "r_bib")), "LiteratureManager::writeBibTex", ())])
    chk.floor = len(ROWS) + 1
    return chk.finish()

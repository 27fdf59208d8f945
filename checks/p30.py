"""P30: diagnostics are written when and where they are due"""
from .adtlib import *

RULE = REF + "name: the file name with process rank and time step filled in; schedule: when a diagnostic opens, writes and closes its file; param: the parameters of a diagnostic; manager: the manager runs every registered diagnostic with the current time, and limits the time step; register: registration and deregistration; file: a simple diagnostic writes its field."
ROWS = [("name", "name", "DiagnosticInterface::parsedFileName(int)", ()), ("name", "nameT", "DiagnosticInterface::parsedFileName(double)", ()), ("name", "append", "DiagnosticInterface::appending", ()),
        ("schedule", "interval", "IntervalDiagnostic::execute", ()), ("schedule", "delta", "DeltaTimeDiagnostic::execute", ()),
        ("schedule", "getInterval", "IntervalDiagnostic::getInterval", ()), ("schedule", "next", "DeltaTimeDiagnostic::getNextOutput", ()), ("schedule", "dt", "DeltaTimeDiagnostic::getDeltaTime", ()),
        ("param", "parI", "DiagnosticInterface::initParameters", ()), ("param", "parInt", "IntervalDiagnostic::initParameters", ()), ("param", "parDt", "DeltaTimeDiagnostic::initParameters", ()),
        ("manager", "mgr", "DiagnosticManager::execute", ()), ("manager", "adjust", "DiagnosticManager::adjustDeltaT", ()), ("manager", "setTC", "DiagnosticManager::setTimeCounter", ()),
        ("manager", "setPT", "DiagnosticManager::setPhysicalTime", ()), ("manager", "setMaster", "DiagnosticManager::setMaster", ()), ("manager", "setRank", "DiagnosticManager::setRank", ()),
        ("register", "addI", "DiagnosticManager::addIntervalDiagnostic", ()), ("register", "addD", "DiagnosticManager::addDeltaTimeDiagnostic", ()),
        ("register", "remI", "DiagnosticManager::removeIntervalDiagnostic", ()), ("register", "remD", "DiagnosticManager::removeDeltaTimeDiagnostic", ()),
        ("register", "new", "DiagnosticManager::DiagnosticManager", ()), ("register", "inst", "Singleton::instance", ()),
        ("register", "newI", "IntervalDiagnostic::IntervalDiagnostic", (), {"ignore_cells": r"^a0$"}), ("register", "newD", "DeltaTimeDiagnostic::DeltaTimeDiagnostic", (), {"ignore_cells": r"^a0$"}),
        ("register", "delI", "IntervalDiagnostic::~IntervalDiagnostic", ()), ("register", "delD", "DeltaTimeDiagnostic::~DeltaTimeDiagnostic", ()),
        ("file", ("w_sOpen", ("r_sOpen", "r_sOpen2")), "SimpleFileDiagnostic::open", ()), ("file", "sWrite", "SimpleFileDiagnostic::write", ()), ("file", "sClose", "SimpleFileDiagnostic::close", ()),
        ("file", "sInit", "SimpleDiagnostic::init", ()), ("param", "sPar", "SimpleDiagnostic::initParameters", ()), ("file", "field", "SimpleDiagnostic::getFieldName", ()), ("file", "single", "SimpleDiagnostic::singleOut", ()), ("file", "singleI", "DiagnosticInterface::singleOut", ()), ("file", "derived", "SimpleDiagnostic::isDerived", ()),
        ("file", "newS", "SimpleDiagnostic::SimpleDiagnostic", (), {"ignore_cells": r"^a0$"}), ("file", "setSingle", "SimpleDiagnostic::setSingleOut", ())]


def run():
    chk = Check("P30", RULE)
    mod = module("diagnostics.cpp", lib=("src/diagnostic/diagnostic.cpp",))
    chk.module(mod)
    table(chk, AdtAnalyzer(mod, pure="^virtual10$"), ROWS)   # singleOut is a query
    chk.floor = 38
    return chk.finish()

"""P38: errors say what went wrong and where"""
from .adtlib import *

RULE = REF + "requirement: a failed requirement throws, and its text names the function, the file, the line and the reason given; reason: an error of variables, expressions and functions carries the reason it was raised with; place: a setup file error carries its message and the file and line of its token; log: where debugging and error text goes."
V0 = {"ignore_cells": r"^a0$"}
ROWS = [("requirement", "new", "ScheckException::ScheckException", (), V0), ("requirement", "what", "ScheckException::what", ())]
ROWS += [("requirement", x, y, (), {"thrown": True}) for x, y in (("fail", "SCHNECK_FAIL"), ("assert", "SCHNEK_ASSERT"), ("require", "SCHNEK_REQUIRE"), ("ensure", "SCHNEK_ENSURE"),
                                               ("failE", "SCHNECK_FAIL_E"), ("assertE", "SCHNEK_ASSERT_E"), ("requireE", "SCHNEK_REQUIRE_E"), ("ensureE", "SCHNEK_ENSURE_E"))]
ROWS += [("reason", "eval", "EvaluationException::EvaluationException", (1,)), ("reason", "evalMsg", "EvaluationException::getMessage", ()),
         ("reason", "nf", "VariableNotFoundException::VariableNotFoundException", (1,)), ("reason", "nfMsg", "VariableNotFoundException::getMessage", ()),
         ("reason", "ni", "VariableNotInitialisedException::VariableNotInitialisedException", (1,)), ("reason", "niName", "VariableNotInitialisedException::getVarName", ()),
         ("reason", "args", "WrongNumberOfArgsException::WrongNumberOfArgsException", ()), ("reason", "func", "FunctionNotFoundException::FunctionNotFoundException", (1,)),
         ("reason", "cast", "TypeCastException::TypeCastException", ()),
         ("place", "perr", "ParserError::ParserError", (1, 2)), ("place", "file", "ParserError::getFilename", ()), ("place", "line", "ParserError::getLine", ()), ("place", "kind", "toString(ParserToken::TokenType)", ()),
         ("log", "out", "Logger::out", ()), ("log", "err", "Logger::err", ())]


def run():
    chk = Check("P38", RULE)
    mod = module("errors.cpp", lib=("src/util/exceptions.cpp",))
    chk.module(mod)
    table(chk, AdtAnalyzer(mod), ROWS)
    chk.floor = len(ROWS)
    return chk.finish()

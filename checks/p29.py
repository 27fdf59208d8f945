"""P29: what the statements of a setup file do"""
from .adtlib import *
from .p21 import V

RULE = REF + "token: parser and scanner tokens keep what was read; value: literals, references, operators and function calls build the expression they denote; declare: a declaration enters a variable of the declared type in the open block; assign: an assignment changes the variable found from the open block to the converted value; block: opening and closing a block acts on variables and block hierarchy alike."
PTM = "_ZN6schnek11ParserToken"
KEEP = r"^%s(13storeVariable|C1ERKS0_|C2ERKS0_)" % PTM
ROWS = [
    ("token", "ptNew", "ParserToken::ParserToken()", (), {"ignore_cells": r"^(8 \+ |16 \+ )?a0$"}), ("token", "ptTok", "ParserToken::ParserToken(token, context)", (1, 2)), ("token", "ptAssign", "ParserToken::operator=", ()),
    ("token", "ptType", "ParserToken::getType", ()), ("token", "ptStr", "ParserToken::getString", ()), ("token", "append", "ParserToken::append", ()),
    ("value", "int", "ParserToken::assignInteger", ()), ("value", "float", "ParserToken::assignFloat", ()), ("value", "string", "ParserToken::assignString", ()),
    ("value", "iden", "ParserToken::assignIdentifier", ()), ("value", "list", "ParserToken::makeExpressionList", ()), ("value", "fun0", "ParserToken::assignFunction (no arguments)", ()),
    ("value", ("w_fun", ("r_fun", "r_fun2", "r_fun3")), "ParserToken::assignFunction", ()),
    ("assign", "evalx", "ParserToken::evaluateExpression", ()),
    ("declare", (PTM + "13storeVariableERS0_", "r_store"), "ParserToken::storeVariable", ()),
    ("assign", "update", "ParserToken::updateVariable", ()),
    ("block", "block", "ParserToken::createBlock", ()), ("block", "end", "ParserToken::endBlock", ()),
    ("token", "tok", "Token::Token", (1, 4)), ("token", "tokCopy", "Token copy", ()), ("token", "tokFile", "Token::getFilename", ()), ("token", "tokLine", "Token::getLine", ()),
    ("token", "tokId", "Token::getToken", ()), ("token", "tokStr", "Token::getString", ()), ("token", "ins", "TokenList::insert", ()), ("token", "insStr", "TokenList::insert (text)", ()),
    ("token", "reset", "TokenList::reset", ()), ("token", "resetF", "TokenList::reset(filename)", (1,)), ("token", "errLine", "ParserError::getLine", ()), ("token", "errFile", "ParserError::getFilename", ()),
    ("token", "scan", "DeckScanner::scan", ()),
]
ROWS += [("value", "un" + o, "ParserToken::assignUnaryOperator<Operator%s>" % o, ()) for o in ("Id", "Neg")]
ROWS += [("value", "bin" + o, "ParserToken::assignBinaryOperator<Operator%s>" % o, ()) for o in ("Add", "Subtract", "Multiply", "Divide", "Exponent")]


def run():
    chk = Check("P29", RULE)
    mod = module("statements.cpp", lib=("src/parser/parsertoken.cpp", "src/variables/variables.cpp"), keep=KEEP, opaque_extra=OPAQUE + r"|_ZN6schnek8BinaryOpI\w+EC[12]I|_ZNK?6schnek(14BlockVariables|8Variable)[CD1-9]|_ZN6schnek8VariableaS", extra_flags=V + ("-DVERIF_OPAQUE_PAIRS",))
    chk.module(mod)
    copy = [n for n in mod.funcs if n in (PTM + "C2ERKS0_", PTM + "C1ERKS0_")]
    rows = ROWS + [("token", (copy[0], "r_ptCopy"), "ParserToken copy", ())] if copy else ROWS
    table(chk, AdtAnalyzer(mod, pure=r"schnek::(Variable::(getType|isConstant|getValue|getExpression|getId)|BlockVariables::(getParent|getClassName|getBlockName))\("), rows)
    chk.floor = 39
    return chk.finish()

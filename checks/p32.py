"""P32: the text of a setup file is split into the tokens of the language"""
import re
from engine import ir
from engine.ir import ToolError
from engine.lex import Rule, Scanner, Undecided, Dfa
from .adtlib import *

RULE = ("The scanner's loop is interpreted abstractly over its compiled IR (table look-ups folded, the character under the cursor as a set of bytes, "
        "positions as linear forms over cursor, token start, end of match, end of data), in product with the automaton of the lexical rules under "
        "longest match; every reachable configuration is explored, with the buffer ending after any character. token: kind; line; text.")
# longest match; of equally long ones the first
SYMBOLS = [("EQUAL", "="), ("LBRACE", "{"), ("RBRACE", "}"), ("LBRACKET", "\\("), ("RBRACKET", "\\)"), ("SEMICOLON", ";"), ("COMMA", ","), ("PLUS", "\\+"), ("MINUS", "-"),
           ("TIMES", "\\*"), ("DIVIDE", "/"), ("EXPONENT", "^")]
WORDS = [("INT_DECL", "int|integer"), ("FLOAT_DECL", "float|double|real"), ("STRING_DECL", "string")]
OTHER = [("IDENTIFIER", "[a-zA-Z_][a-zA-Z0-9_]*", 0, 0), ("PATHIDENTIFIER", "[a-zA-Z_][a-zA-Z0-9_:]*", 0, 0),
         ("STRING", "'([^'\\\\]|\\\\.)*'", 1, 2), ("STRING", "\"([^\"\\\\]|\\\\.)*\"", 1, 2),
         ("INTEGER", "[0-9]+", 0, 0), ("FLOAT", "[0-9]*\\.[0-9]*([eE][+\\-]?[0-9]+)?|[0-9]+[eE][+\\-]?[0-9]+", 0, 0)]
SKIP = [("space", "[\\x00-\\x20\\x7f-\\xff]"), ("line comment", "//[^\\n]*"), ("comment", "/\\*([^*]|\\*+[^*/])*\\*+/")]

ROWS = [("tokens", n, t, s) for n, t, s in (
    ("tok", "Token(file, line, kind, text)", (1, 4)), ("tok3", "Token(file, line, kind)", (1,)), ("tokCopy", "Token copy", ()), ("tokAssign", "Token assignment", ()),
    ("tokFile", "Token::getFilename", ()), ("tokStr", "Token::getString", ()), ("tokLine", "Token::getLine", ()), ("tokId", "Token::getToken", ()),
    ("ins", "TokenList::insert(line, kind)", ()), ("insS", "TokenList::insert(line, kind, text)", ()), ("insL", "TokenList::insert(list)", ()), ("reset", "TokenList::reset", ()),
    ("resetF", "TokenList::reset(file)", (1,)), ("listFile", "TokenList::getFilename", ()), ("listNew", "TokenList(file)", (1,)),
    ("scan", "DeckScanner::scan", ()), ("scanOld", "DeckScanner::scan (continued)", ()), ("tokens", "DeckScanner::getTokens", ()))]
PARSE = "_ZN6schnek6Parser5parseERSiNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"


def rules(tok):
    r = [Rule(n, rx, tok[n], None) for n, rx in SYMBOLS + WORDS]
    r += [Rule(n, rx, tok[n], off, cut) for n, rx, off, cut in OTHER]
    return r + [Rule(n, rx) for n, rx in SKIP]


def run():
    chk = Check("P32", RULE)
    mod = ir.prepare("scanner.cpp", lib=("src/parser/deckscanner.cpp",), opaque_extra=r"_ZNK?St6vectorI|TokenList6insert|_ZNK?St|_ZN6schnek5Token|ParserError",
                     passes="always-inline,globaldce,function(sroa,early-cse<memssa>,simplifycfg,instsimplify,adce)")
    chk.module(mod)
    tok = {}
    for g, v in mod.globals.items():
        m = re.match(r"verif_tok_(\w+)$", g)
        if m:
            tok[m.group(1)] = int(re.search(r"i32 (-?\d+)", v).group(1))
    if len(tok) != 20:
        raise ToolError("token numbers not found")
    chk.ob("kinds", len(set(tok.values())) == 20, "src/parser/deckgrammar.hpp", "the kinds of tokens are distinct")
    sc = Scanner(mod.funcs["w_scan"], mod, rules(tok), ("comment",), lambda n: "TokenList6insertE" in n)
    try:
        sc.run({v: k for k, v in tok.items()})
    except Undecided as e:
        if not sc.viol:
            raise ToolError("scanner: %s" % e)
    for text, where in sc.viol:
        chk.ob("token", False, where or "DeckScanner::do_scan", "DeckScanner::do_scan: " + text)
    for k in sorted(tok):
        chk.ob("reach", tok[k] in sc.emitted or bool(sc.viol), "DeckScanner::do_scan", "%s tokens are produced" % k)
    chk.extra["configurations"] = sc.configs
    chk.extra["ends"] = sc.paths
    for _ in range(sc.configs):
        chk.ob("token", True, "DeckScanner::do_scan", "")
    tab = module("parse.cpp", keep="^" + PARSE + "$", opaque_extra=OPAQUE + r"|^_Z5ParsePv|^_Z10ParseAllocv|^_Z9ParseFreeP|DeckScanner7do_scan|_ZN6schnek13DependencyMap|_ZN6schnek9BlockTree|_ZN6schnek11ParserTokenC")
    chk.module(tab)
    A = AdtAnalyzer(tab, opts={"adds": "do_scan"})
    table(chk, A, ROWS)
    table(chk, A, [("driver", (PARSE, "r_parse"), "Parser::parse", (3,))])
    chk.floor = 20000
    return chk.finish()

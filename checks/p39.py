"""P39: sequences of tokens are parsed as the grammar of setup files says"""
from engine.lalr import Lalr, Tables, compare
from engine.val import VA, g_feasible
from .adtlib import *

RULE = REF + ("tables: the LALR(1) automaton of the grammar written down in this check is built and paired, state by state, with the automaton in the constant tables "
              "of the compiled parser: every token shifted, production reduced, error and successor state agrees. lookup: how the tables are consulted and the stack "
              "is filled. action: what is done when a production is complete, for each production. overflow: a stack overflow is reported.")
GRAMMAR = """
deck: statementlist
statementlist: statementlist statement
statementlist: statement
statement: typedecl decllist SEMICOLON
statement: assignment SEMICOLON
statement: startblock
statement: RBRACE
startblock: IDENTIFIER IDENTIFIER LBRACE
startblock: IDENTIFIER LBRACE
decllist: decllist COMMA declaration
decllist: declaration
declaration: IDENTIFIER
declaration: assignment
assignment: IDENTIFIER EQUAL expression
expression: signed_term_expression PLUS unsigned_expression
expression: signed_term_expression MINUS unsigned_expression
expression: signed_term_expression
unsigned_expression: term_expression PLUS unsigned_expression
unsigned_expression: term_expression MINUS unsigned_expression
unsigned_expression: term_expression
signed_term_expression: PLUS term_expression
signed_term_expression: MINUS term_expression
signed_term_expression: term_expression
term_expression: exp_expression TIMES term_expression
term_expression: exp_expression DIVIDE term_expression
term_expression: exp_expression
exp_expression: atomic_expression EXPONENT signed_atomic_expression
exp_expression: atomic_expression
signed_atomic_expression: PLUS atomic_expression
signed_atomic_expression: MINUS atomic_expression
signed_atomic_expression: atomic_expression
atomic_expression: LBRACKET expression RBRACKET
atomic_expression: IDENTIFIER LBRACKET expressionlist RBRACKET
atomic_expression: IDENTIFIER LBRACKET RBRACKET
atomic_expression: value
expressionlist: expressionlist COMMA expression
expressionlist: expression
value: PATHIDENTIFIER
value: IDENTIFIER
value: INTEGER
value: FLOAT
value: STRING
typedecl: INT_DECL
typedecl: FLOAT_DECL
typedecl: STRING_DECL
"""
PRODS = [(l.split(":")[0].strip(), l.split(":")[1].split()) for l in GRAMMAR.strip().split("\n")]
OPQ = OPAQUE + r"|_ZL\d+yy_(accept|pop_parser_stack|find_reduce_action|find_shift_action|shift|destructor)|_ZL15yyStackOverflow|_ZNK?6schnek11ParserToken"


def run():
    chk = Check("P39", RULE)
    mod = module("grammar.cpp", opaque_extra=OPQ)
    T = Tables(mod)
    L = Lalr(PRODS)
    diffs, rules, pair = compare(L, T)
    for d in diffs[:5]:
        chk.ob("tables", False, "src/parser/deckgrammar.inc", "parser tables: " + d)
    for i in pair:
        for t in T.tok:
            chk.ob("tables", True, "src/parser/deckgrammar.inc", "")
    chk.extra["states"] = len(pair)
    chk.floor = 1000
    if diffs:
        return chk.finish()
    num = ["-DVERIF_RULES"] + ["-DRULE_%d=%d" % (k, n) for k, n in sorted(rules.items())]
    for flags, how in ((["-DNDEBUG"], ""), ([], ", debugging build")):
        mod = module("grammar.cpp", opaque_extra=OPQ, extra_flags=num + flags)
        chk.module(mod)
        table(chk, AdtAnalyzer(mod), [("action", "act%d" % k, "action of " + L.name(k) + how, (), {"ignore_effects": "^fprintf$"}) for k in range(len(PRODS))])
    mod = module("grammar.cpp", opaque_extra=OPAQUE + r"|_ZNK?6schnek11ParserToken|_ZL15yyStackOverflow", extra_flags=num + ["-DNDEBUG"])
    table(chk, AdtAnalyzer(mod), [("lookup", n, t, ()) for n, t in (("shiftAction", "yy_find_shift_action"), ("reduceAction", "yy_find_reduce_action"), ("shift", "yy_shift"))])
    mod = module("grammar.cpp", opaque_extra=OPAQUE + r"|_ZNK?6schnek11ParserToken|_ZL\d+yy_(accept|pop_parser_stack|find_reduce_action|find_shift_action|shift|destructor|reduce|parse_failed)", extra_flags=num + ["-DNDEBUG"])
    A = AdtAnalyzer(mod)
    table(chk, A, [("driver", "parse", "Parse", (), {"ignore_effects": r"ParserToken::ParserToken\("})])
    res = A.run("w_overflow", {k: VA("arg", "a%d" % k, "p") for k in range(2)})
    x = refeq.exits(A, res, ())
    chk.ob("overflow", "return" not in x or not g_feasible(x["return"][0]), "src/parser/deckgrammar.inc",
           "yyStackOverflow: returns without reporting that the parser's stack is full; the text read so far is dropped and the rest is taken as a new setup file")
    return chk.finish()

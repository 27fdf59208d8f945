"""P23: everything wrong with a setup file is reported as a ParserError"""
import re
from engine.exc import ExcModule, dem, short, tname
from engine.ir import ToolError
from engine.report import Check

RULE = ("Interprocedural exception-escape analysis over the compiled IR of the parser and of the variable, block and function "
        "code it calls (call-graph fixpoint; handlers filter by type hierarchy, rethrows pass on; virtual calls by class "
        "hierarchy). action: no grammar action lets anything but ParserError out; scanner: neither does the scanner; grammar: the "
        "generated parser adds at most ParserInternalError; parse: Parser::parse lets only ParserError out; eval: evaluating any "
        "expression lets only exceptions derived from EvaluationException out; update: evaluating all variables after reading "
        "lets nothing out; derive: the documented exception hierarchy.")
SRC = ["src/parser/parser.cpp", "src/parser/parsertoken.cpp", "src/parser/internal/deckscanner.cpp", "src/variables/variables.cpp", "src/variables/block.cpp",
       "src/variables/blockclasses.cpp", "src/variables/blockparameters.cpp", "src/variables/dependencies.cpp", "src/variables/function_expression.cpp"]
# exceptions that only report a broken invariant of the implementation, which other properties decide
INTERNAL = {"boost::wrapexcept<boost::bad_get>": "a variant holds the alternative its type tag says (P19, P21, P29)",
            "boost::wrapexcept<boost::bad_function_call>": "the splitter passed to boost::split is not empty"}
INFEASIBLE = {("schnek::TypeMismatchException", "updateVariable"): "the value was converted to the type of the variable (P29)",
              ("SchnekException", "constructMap"): "identifiers of variables are unique (P19)"}
ERR = "_ZTIN6schnek11ParserErrorE"
EVAL = "_ZTIN6schnek19EvaluationExceptionE"


def run():
    chk = Check("P23", RULE, ["indirect calls through function pointers (user functions of the deck, block factories) are not followed; allocation failure and the range errors of checked container accesses (at) are not considered"])
    m = ExcModule(SRC)
    chk.analysed.update(SRC)
    chk.funcs.update(f for f in m.funcs if "schnek" in f or f.startswith(("_Z5Parse", "_ZL2yy", "_ZL3yy")))
    chk.extra["functions_in_call_graph"] = len(m.funcs)
    chk.extra["call_and_throw_sites"] = sum(len(e) for e in m.funcs.values())
    chk.extra["range_errors_not_followed"] = sorted(short(dem(f)) for f in m.unjudged)
    chk.extra["disregarded"] = INTERNAL
    chk.extra["infeasible"] = {"%s through %s" % k: v for k, v in INFEASIBLE.items()}

    def derives(t, base):
        return base in m.ancestors(t)

    def escapes(rule, pat, allowed, text, need=1):
        n = 0
        for f in sorted(m.funcs):
            d = dem(f)
            if not re.search(pat, d):
                continue
            n += 1
            bad = []
            for t in sorted(m.esc[f]):
                tn = tname(t)
                if tn in INTERNAL or any(derives(t, a) for a in allowed):
                    continue
                sk = [re.compile(w) for (x, w) in INFEASIBLE if x == tn]
                if sk and not real(f, t, sk):
                    continue
                bad.append("%s by %s" % (tn, m.path(f, t, skip="|".join(w.pattern for w in sk) or None)))
            file, line = m.subs.get(f, ("?", "?"))
            chk.ob(rule, not bad, short(d) + " (%s:%s)" % (file.replace(m_root, ""), line), text + ("" if not bad else "; escapes: " + "; ".join(bad)[:800]))
        if n < need:
            raise ToolError("anchor vanished: %s" % pat)

    def real(f, t, sk, seen=None):
        """can t escape from f other than through a function named in sk"""
        seen = seen if seen is not None else set()
        if f in seen or any(s.search(f) for s in sk):
            return False
        seen.add(f)
        return any(g is None or real(g, t, sk, seen) for _, g in m.sites(f, t))

    from engine.ir import REPO
    m_root = REPO + "/"
    INT = "_ZTI19ParserInternalError"
    escapes("action", r"^schnek::ParserToken::(?!ParserToken|~)[\w<>: ]*\(|ParserToken::assign(Unary|Binary)Operator", (ERR,), "only ParserError leaves a grammar action", 12)
    escapes("scanner", r"^schnek::DeckScanner::(scan|do_scan)\(", (ERR,), "only ParserError leaves the scanner", 2)
    escapes("grammar", r"^(yy_reduce|yy_syntax_error|yy_parse_failed|yy_accept|Parse)\(", (ERR, INT), "only ParserError or ParserInternalError leaves the generated parser", 3)
    escapes("parse", r"^schnek::Parser::parse\(", (ERR,), "only ParserError leaves Parser::parse", 1)
    escapes("eval", r"^schnek::(Value|ReferencedValue|ExternalValue|UnaryOp|BinaryOp|TypecastOp|FunctionExpression)<.*>::eval\(\)", (EVAL,), "only an EvaluationException leaves the evaluation of an expression", 30)
    escapes("eval", r"^schnek::Variable::evaluateExpression\(\)", (EVAL,), "only an EvaluationException leaves the evaluation of a variable", 1)
    escapes("update", r"^schnek::DependencyMap::updateAll\(\)", (EVAL,), "nothing but an EvaluationException leaves the final update", 1)
    sch = "_ZTI15SchnekException"
    for t, base in (("6schnek11ParserErrorE", sch), ("6schnek17TypeCastExceptionE", EVAL), ("6schnek26WrongNumberOfArgsExceptionE", EVAL), ("6schnek31VariableNotInitialisedExceptionE", EVAL), ("6schnek25FunctionNotFoundExceptionE", EVAL)):
        t = "_ZTIN" + t
        if t in m.bases:
            chk.ob("derive", derives(t, base), tname(t), "derives from %s" % tname(base))
    chk.floor = FLOOR
    return chk.finish()


FLOOR = 80

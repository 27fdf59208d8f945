// Errors carry their reason and their place (P38)
#include <sstream>
#include <string>
#include "util/exceptions.hpp"
#include "util/logger.hpp"
#include "variables/types.hpp"
#include "variables/expression.hpp"
#include "variables/blockclasses.hpp"
#include "parser/parsertoken.hpp"
using namespace schnek;
using std::string;

extern "C" {
// ---- failed requirements
void w_new(ScheckException &e, const string &file, long line, const string &function, const string &message) { new (&e) ScheckException(file, line, function, message); }
void r_new(ScheckException &e, const string &file, long line, const string &function, const string &message)
{
  new (static_cast<std::exception *>(&e)) std::exception();
  std::ostringstream s;
  s << function << std::endl << file << "(" << line << "): " << message << std::endl;
  new (&e.message) string(s.str());
}
const char *w_what(ScheckException &e) { return e.ScheckException::what(); }
const char *r_what(ScheckException &e) { return e.message.c_str(); }
#define MACRO(N, STMT, COND, SIG) \
void w_##N(int a, const string &m) { STMT } \
void r_##N(int a, const string &m) { if (COND) throw ScheckException("errors.cpp", 7, SIG, m); }
#line 7 "errors.cpp"
MACRO(fail, SCHNECK_FAIL(m), true, "void w_fail(int, const string &)")
#line 7 "errors.cpp"
MACRO(assert, SCHNEK_ASSERT(a == 3, m), a != 3, "void w_assert(int, const string &)")
#line 7 "errors.cpp"
MACRO(require, SCHNEK_REQUIRE(a == 3, m), a != 3, "void w_require(int, const string &)")
#line 7 "errors.cpp"
MACRO(ensure, SCHNEK_ENSURE(a == 3, m), a != 3, "void w_ensure(int, const string &)")
#line 7 "errors.cpp"
MACRO(failE, SCHNECK_FAIL_E(m, ScheckException), true, "void w_failE(int, const string &)")
#line 7 "errors.cpp"
MACRO(assertE, SCHNEK_ASSERT_E(a == 3, m, ScheckException), a != 3, "void w_assertE(int, const string &)")
#line 7 "errors.cpp"
MACRO(requireE, SCHNEK_REQUIRE_E(a == 3, m, ScheckException), a != 3, "void w_requireE(int, const string &)")
#line 7 "errors.cpp"
MACRO(ensureE, SCHNEK_ENSURE_E(a == 3, m, ScheckException), a != 3, "void w_ensureE(int, const string &)")
#line 50 "errors.cpp"
// ---- errors of variables, expressions and functions
void w_eval(EvaluationException &e, string m) { new (&e) EvaluationException(m); }
void r_eval(EvaluationException &e, string m) { new (&e.message) string(m); }
const string &w_evalMsg(EvaluationException &e) { return e.getMessage(); }
const string &r_evalMsg(EvaluationException &e) { return e.message; }
void w_nf(VariableNotFoundException &e, string m) { new (&e) VariableNotFoundException(m); }
void r_nf(VariableNotFoundException &e, string m) { new (&e.message) string(m); }
const string &w_nfMsg(VariableNotFoundException &e) { return e.getMessage(); }
const string &r_nfMsg(VariableNotFoundException &e) { return e.message; }
void w_ni(VariableNotInitialisedException &e, string n) { new (&e) VariableNotInitialisedException(n); }
void r_ni(VariableNotInitialisedException &e, string n) { new (&e) EvaluationException("Variable was not initialised: " + n); new (&e.varName) string(n); }
string w_niName(VariableNotInitialisedException &e) { return e.getVarName(); }
string r_niName(VariableNotInitialisedException &e) { return e.varName; }
void w_args(WrongNumberOfArgsException &e) { new (&e) WrongNumberOfArgsException(); }
void r_args(WrongNumberOfArgsException &e) { new (&e) EvaluationException("Wrong number of arguments!"); }
void w_func(FunctionNotFoundException &e, string n) { new (&e) FunctionNotFoundException(n); }
void r_func(FunctionNotFoundException &e, string n) { new (&e) EvaluationException("Function '" + n + "' was not defined!"); }
void w_cast(TypeCastException &e) { new (&e) TypeCastException(); }
void r_cast(TypeCastException &e) { new (&e) EvaluationException("Could not convert types"); }
// ---- errors of the setup file
void w_perr(ParserError &e, string m, Token t) { new (&e) ParserError(m, t); }
void r_perr(ParserError &e, string m, Token t) { new (&e.message) string(m); new (&e.atomToken) Token(t); }
string w_file(ParserError &e) { return e.getFilename(); }
string r_file(ParserError &e) { return e.atomToken.filename; }
int w_line(ParserError &e) { return e.getLine(); }
int r_line(ParserError &e) { return e.atomToken.line; }
string w_kind(ParserToken::TokenType t) { return toString(t); }
string r_kind(ParserToken::TokenType t)
{
  switch (t)
  {
    case ParserToken::deck: return "deck";
    case ParserToken::blocklist: return "blocklist";
    case ParserToken::block: return "block";
    case ParserToken::statementlist: return "statementlist";
    case ParserToken::statement: return "statement";
    case ParserToken::expression: return "expression";
    case ParserToken::expressionlist: return "expressionlist";
    case ParserToken::value: return "value";
    case ParserToken::int_type: return "int_type";
    case ParserToken::float_type: return "float_type";
    case ParserToken::string_type: return "string_type";
    case ParserToken::atom: return "atom";
    case ParserToken::none: return "none";
    default: return "[Unknown ParserToken::TokenType]";
  }
}
std::ostream &w_out(Logger &l) { return l.out(); }
std::ostream &r_out(Logger &l) { return std::cout; }
std::ostream &w_err(Logger &l) { return l.err(); }
std::ostream &r_err(Logger &l) { return std::cerr; }
}

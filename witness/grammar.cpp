// the parser generated from the grammar of setup files, and reference definitions of its actions (P39)
#include "parser/parser.cpp"
using namespace schnek;
// the numbers of the productions in the tables; found by the check (checks/p39.py)
#ifndef VERIF_RULES
#define RULE_0 0
#define RULE_1 1
#define RULE_2 2
#define RULE_3 3
#define RULE_4 4
#define RULE_5 5
#define RULE_6 6
#define RULE_7 7
#define RULE_8 8
#define RULE_9 9
#define RULE_10 10
#define RULE_11 11
#define RULE_12 12
#define RULE_13 13
#define RULE_14 14
#define RULE_15 15
#define RULE_16 16
#define RULE_17 17
#define RULE_18 18
#define RULE_19 19
#define RULE_20 20
#define RULE_21 21
#define RULE_22 22
#define RULE_23 23
#define RULE_24 24
#define RULE_25 25
#define RULE_26 26
#define RULE_27 27
#define RULE_28 28
#define RULE_29 29
#define RULE_30 30
#define RULE_31 31
#define RULE_32 32
#define RULE_33 33
#define RULE_34 34
#define RULE_35 35
#define RULE_36 36
#define RULE_37 37
#define RULE_38 38
#define RULE_39 39
#define RULE_40 40
#define RULE_41 41
#define RULE_42 42
#define RULE_43 43
#define RULE_44 44
#define VERIF_RULES
#endif
extern "C" {
#define TOKEN_KIND(N) extern const int verif_tok_##N; const int verif_tok_##N = N;
TOKEN_KIND(PLUS)
TOKEN_KIND(MINUS)
TOKEN_KIND(DIVIDE)
TOKEN_KIND(TIMES)
TOKEN_KIND(EXPONENT)
TOKEN_KIND(SEMICOLON)
TOKEN_KIND(STRING)
TOKEN_KIND(RBRACE)
TOKEN_KIND(IDENTIFIER)
TOKEN_KIND(LBRACE)
TOKEN_KIND(COMMA)
TOKEN_KIND(EQUAL)
TOKEN_KIND(LBRACKET)
TOKEN_KIND(RBRACKET)
TOKEN_KIND(PATHIDENTIFIER)
TOKEN_KIND(INTEGER)
TOKEN_KIND(FLOAT)
TOKEN_KIND(INT_DECL)
TOKEN_KIND(FLOAT_DECL)
TOKEN_KIND(STRING_DECL)
#define NUMBER(N) extern const int verif_num_##N; const int verif_num_##N = N;
NUMBER(YYNSTATE) NUMBER(YYNRULE) NUMBER(YY_SHIFT_MAX) NUMBER(YY_SHIFT_USE_DFLT) NUMBER(YY_REDUCE_MAX) NUMBER(YY_REDUCE_USE_DFLT) NUMBER(YY_ACCEPT_ACTION) NUMBER(YY_ERROR_ACTION)

// ---- looking up the tables
int w_info(int n) { return yyRuleInfo[n].lhs * 256 + yyRuleInfo[n].nrhs; }
int r_info(int n) { return yyRuleInfo[n].lhs * 256 + yyRuleInfo[n].nrhs; }
int w_shiftAction(yyParser *p, YYCODETYPE t) { return yy_find_shift_action(p, t); }
int r_shiftAction(yyParser *p, YYCODETYPE t)
{
  int s = p->yystack[p->yyidx].stateno;
  if (s <= YY_SHIFT_MAX && yy_shift_ofst[s] != YY_SHIFT_USE_DFLT)
  {
    int i = yy_shift_ofst[s] + t;
    assert(t != YYNOCODE);
    if (i >= 0 && i < (int)(sizeof(yy_action) / sizeof(yy_action[0])) && yy_lookahead[i] == t) return yy_action[i];
  }
  return yy_default[s];
}
int w_reduceAction(int s, YYCODETYPE t) { return yy_find_reduce_action(s, t); }
int r_reduceAction(int s, YYCODETYPE t)
{
  if (s <= YY_REDUCE_MAX)
  {
    assert(yy_reduce_ofst[s] != YY_REDUCE_USE_DFLT);
    assert(t != YYNOCODE);
    int i = yy_reduce_ofst[s] + t;
    if (i >= 0 && i < (int)(sizeof(yy_action) / sizeof(yy_action[0])) && yy_lookahead[i] == t) return yy_action[i];
  }
  return yy_default[s];
}
void w_shift(yyParser *p, int state, int major, YYMINORTYPE *minor) { yy_shift(p, state, major, minor); }
void r_shift(yyParser *p, int state, int major, YYMINORTYPE *minor)
{
  int i = p->yyidx + 1;
  p->yyidx = i;
  if (i >= YYSTACKDEPTH) { yyStackOverflow(p, minor); return; }
  p->yystack[i].stateno = state;
  p->yystack[i].major = major;
  p->yystack[i].minor = *minor;
}

#ifdef NDEBUG
inline void PUSH(yyParser *p, int state, int major, YYMINORTYPE *minor)
{
  int i = ++p->yyidx;
  p->yystack[i].stateno = state;
  p->yystack[i].major = major;
  p->yystack[i].minor = *minor;
}
#else
#define PUSH yy_shift
#endif

// ---- one token (or the end of the text, 0) is taken
void w_parse(void *p, int major, ParserToken &t) { Parse(p, major, t); }
void r_parse(void *v, int major, ParserToken &t_)
{
  ParserToken t(t_);
  YYMINORTYPE m;
  yyParser *p = (yyParser *)v;
  int hit = 0;
  if (p->yyidx < 0) { p->yyidx = 0; p->yyerrcnt = -1; p->yystack[0].stateno = 0; p->yystack[0].major = 0; }
  m.yy0 = t;
  do
  {
    int act = yy_find_shift_action(p, (YYCODETYPE)major);
    if (act < YYNSTATE) { yy_shift(p, act, major, &m); p->yyerrcnt--; major = YYNOCODE; }
    else if (act < YYNSTATE + YYNRULE) yy_reduce(p, act - YYNSTATE);
    else
    {
      if (p->yyerrcnt < 0) throw ParserInternalError();
      // never reached: yyerrcnt stays negative until an error, and an error is thrown
      int mx = p->yystack[p->yyidx].major;
      if (mx == YYERRORSYMBOL || hit) { yy_destructor(p, (YYCODETYPE)major, &m); major = YYNOCODE; }
      else
      {
        while (p->yyidx >= 0 && mx != YYERRORSYMBOL && (act = yy_find_reduce_action(p->yystack[p->yyidx].stateno, YYERRORSYMBOL)) >= YYNSTATE) yy_pop_parser_stack(p);
        if (p->yyidx < 0 || major == 0) { yy_destructor(p, (YYCODETYPE)major, &m); yy_parse_failed(p); major = YYNOCODE; }
        else if (mx != YYERRORSYMBOL) { YYMINORTYPE u; u.YYERRSYMDT = 0; yy_shift(p, act, YYERRORSYMBOL, &u); }
      }
      p->yyerrcnt = 3;
      hit = 1;
    }
  } while (major != YYNOCODE && p->yyidx >= 0);
}
void w_overflow(yyParser *p, YYMINORTYPE *m) { yyStackOverflow(p, m); }
void r_overflow(yyParser *p, YYMINORTYPE *m) { throw ParserInternalError(); }

// ---- what is done when a production is complete
#define ACTION(K, LEN, STMTS) \
void w_act##K(yyParser *p) { yy_reduce(p, RULE_##K); } \
void r_act##K(yyParser *p) \
{ \
  YYMINORTYPE l; \
  l = yyzerominor; \
  yyStackEntry *top = &p->yystack[p->yyidx]; \
  ParserToken &L = l.yy0; (void)L; \
  STMTS \
  p->yyidx -= yyRuleInfo[RULE_##K].nrhs; \
  int act = yy_find_reduce_action(top[-yyRuleInfo[RULE_##K].nrhs].stateno, yyRuleInfo[RULE_##K].lhs); \
  if (act < YYNSTATE) PUSH(p, act, yyRuleInfo[RULE_##K].lhs, &l); \
  else { assert(act == YYNSTATE + YYNRULE + 1); yy_accept(p); } \
}
// deck ::= statementlist
ACTION(0, 1, )
// statementlist ::= statementlist statement
ACTION(1, 2, )
// statementlist ::= statement
ACTION(2, 1, )
// statement ::= typedecl decllist SEMICOLON
ACTION(3, 3, top[-1].minor.yy0.storeVariable(top[-2].minor.yy0);)
// statement ::= assignment SEMICOLON
ACTION(4, 2, top[-1].minor.yy0.updateVariable();)
// statement ::= startblock
ACTION(5, 1, )
// statement ::= RBRACE
ACTION(6, 1, top[0].minor.yy0.endBlock();)
// startblock ::= IDENTIFIER IDENTIFIER LBRACE
ACTION(7, 3, top[-2].minor.yy0.createBlock(top[-1].minor.yy0);)
// startblock ::= IDENTIFIER LBRACE
ACTION(8, 2, top[-1].minor.yy0.createBlock(top[-1].minor.yy0);)
// decllist ::= decllist COMMA declaration
ACTION(9, 3, top[0].minor.yy0.append(top[-2].minor.yy0); L = top[0].minor.yy0;)
// decllist ::= declaration
ACTION(10, 1, L = top[0].minor.yy0;)
// declaration ::= IDENTIFIER
ACTION(11, 1, L = top[0].minor.yy0;)
// declaration ::= assignment
ACTION(12, 1, L = top[0].minor.yy0;)
// assignment ::= IDENTIFIER EQUAL expression
ACTION(13, 3, L.evaluateExpression(top[-2].minor.yy0, top[0].minor.yy0);)
// expression ::= signed_term_expression PLUS unsigned_expression
ACTION(14, 3, L.assignBinaryOperator<expression::OperatorAdd>(top[-2].minor.yy0, top[0].minor.yy0);)
// expression ::= signed_term_expression MINUS unsigned_expression
ACTION(15, 3, L.assignBinaryOperator<expression::OperatorSubtract>(top[-2].minor.yy0, top[0].minor.yy0);)
// expression ::= signed_term_expression
ACTION(16, 1, L = top[0].minor.yy0;)
// unsigned_expression ::= term_expression PLUS unsigned_expression
ACTION(17, 3, L.assignBinaryOperator<expression::OperatorAdd>(top[-2].minor.yy0, top[0].minor.yy0);)
// unsigned_expression ::= term_expression MINUS unsigned_expression
ACTION(18, 3, L.assignBinaryOperator<expression::OperatorSubtract>(top[-2].minor.yy0, top[0].minor.yy0);)
// unsigned_expression ::= term_expression
ACTION(19, 1, L = top[0].minor.yy0;)
// signed_term_expression ::= PLUS term_expression
ACTION(20, 2, L = top[0].minor.yy0;)
// signed_term_expression ::= MINUS term_expression
ACTION(21, 2, L.assignUnaryOperator<expression::OperatorNeg>(top[0].minor.yy0);)
// signed_term_expression ::= term_expression
ACTION(22, 1, L = top[0].minor.yy0;)
// term_expression ::= exp_expression TIMES term_expression
ACTION(23, 3, L.assignBinaryOperator<expression::OperatorMultiply>(top[-2].minor.yy0, top[0].minor.yy0);)
// term_expression ::= exp_expression DIVIDE term_expression
ACTION(24, 3, L.assignBinaryOperator<expression::OperatorDivide>(top[-2].minor.yy0, top[0].minor.yy0);)
// term_expression ::= exp_expression
ACTION(25, 1, L = top[0].minor.yy0;)
// exp_expression ::= atomic_expression EXPONENT signed_atomic_expression
ACTION(26, 3, L.assignBinaryOperator<expression::OperatorExponent>(top[-2].minor.yy0, top[0].minor.yy0);)
// exp_expression ::= atomic_expression
ACTION(27, 1, L = top[0].minor.yy0;)
// signed_atomic_expression ::= PLUS atomic_expression
ACTION(28, 2, L = top[0].minor.yy0;)
// signed_atomic_expression ::= MINUS atomic_expression
ACTION(29, 2, L.assignUnaryOperator<expression::OperatorNeg>(top[0].minor.yy0);)
// signed_atomic_expression ::= atomic_expression
ACTION(30, 1, L = top[0].minor.yy0;)
// atomic_expression ::= LBRACKET expression RBRACKET
ACTION(31, 3, L.assignUnaryOperator<expression::OperatorId>(top[-1].minor.yy0);)
// atomic_expression ::= IDENTIFIER LBRACKET expressionlist RBRACKET
ACTION(32, 4, L.assignFunction(top[-3].minor.yy0, top[-1].minor.yy0);)
// atomic_expression ::= IDENTIFIER LBRACKET RBRACKET
ACTION(33, 3, L.assignFunction(top[-2].minor.yy0);)
// atomic_expression ::= value
ACTION(34, 1, L.assignUnaryOperator<expression::OperatorId>(top[0].minor.yy0);)
// expressionlist ::= expressionlist COMMA expression
ACTION(35, 3, top[0].minor.yy0.append(top[-2].minor.yy0); L = top[0].minor.yy0;)
// expressionlist ::= expression
ACTION(36, 1, L = top[0].minor.yy0; L.makeExpressionList();)
// value ::= PATHIDENTIFIER
ACTION(37, 1, L.assignIdentifier(top[0].minor.yy0);)
// value ::= IDENTIFIER
ACTION(38, 1, L.assignIdentifier(top[0].minor.yy0);)
// value ::= INTEGER
ACTION(39, 1, L.assignInteger(top[0].minor.yy0);)
// value ::= FLOAT
ACTION(40, 1, L.assignFloat(top[0].minor.yy0);)
// value ::= STRING
ACTION(41, 1, L.assignString(top[0].minor.yy0);)
// typedecl ::= INT_DECL
ACTION(42, 1, L = top[0].minor.yy0;)
// typedecl ::= FLOAT_DECL
ACTION(43, 1, L = top[0].minor.yy0;)
// typedecl ::= STRING_DECL
ACTION(44, 1, L = top[0].minor.yy0;)
}

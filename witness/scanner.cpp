// the scanner (P32)
#include "parser/deckscanner.hpp"
#include "parser/deckgrammar.hpp"
using namespace schnek;
extern "C" {
void w_scan(DeckScanner &s, TokenList &t) { s.do_scan(t); }
#define T(n) extern const int verif_tok_##n = n;
T(EQUAL) T(LBRACE) T(RBRACE) T(LBRACKET) T(RBRACKET) T(SEMICOLON) T(COMMA) T(PLUS) T(MINUS) T(TIMES) T(DIVIDE) T(EXPONENT)
T(INT_DECL) T(FLOAT_DECL) T(STRING_DECL) T(IDENTIFIER) T(PATHIDENTIFIER) T(STRING) T(INTEGER) T(FLOAT)
}

// reference definitions for tokens and the parser driver (P32)
#include "parser/parser.cpp"
#include "parser/deckscanner.hpp"
using namespace schnek;
typedef std::string string;
extern "C" {
void w_tok(Token &t, string f, int l, int k, string s) { new (&t) Token(f, l, k, s); }
void r_tok(Token &t, string f, int l, int k, string s) { new (&t.filename) string(f); t.line = l; t.token = k == PATHIDENTIFIER ? IDENTIFIER : k; new (&t.str) string(s); }
void w_tok3(Token &t, string f, int l, int k) { new (&t) Token(f, l, k); }
void r_tok3(Token &t, string f, int l, int k) { new (&t.filename) string(f); t.line = l; t.token = k == PATHIDENTIFIER ? IDENTIFIER : k; new (&t.str) string(""); }
void w_tokCopy(Token &t, const Token &o) { new (&t) Token(o); }
void r_tokCopy(Token &t, const Token &o) { new (&t.filename) string(o.filename); t.line = o.line; t.token = o.token; new (&t.str) string(o.str); }
Token &w_tokAssign(Token &t, const Token &o) { return t = o; }
Token &r_tokAssign(Token &t, const Token &o) { t.filename = o.filename; t.line = o.line; t.token = o.token; t.str = o.str; return t; }
string w_tokFile(Token &t) { return t.getFilename(); }
string r_tokFile(Token &t) { return t.filename; }
string w_tokStr(Token &t) { return t.getString(); }
string r_tokStr(Token &t) { return t.str; }
int w_tokLine(Token &t) { return t.getLine(); }
int r_tokLine(Token &t) { return t.line; }
int w_tokId(Token &t) { return t.getToken(); }
int r_tokId(Token &t) { return t.token; }
void w_ins(TokenList &l, int n, int t) { l.insert(n, t); }
void r_ins(TokenList &l, int n, int t) { l.tlist.push_back(Token(l.filename, n, t, "")); }
void w_insS(TokenList &l, int n, int t, char *s, size_t k) { l.insert(n, t, s, k); }
void r_insS(TokenList &l, int n, int t, char *s, size_t k) { l.tlist.push_back(Token(l.filename, n, t, string(s, k))); }
void w_insL(TokenList &l, const TokenList &o) { l.insert(o); }
void r_insL(TokenList &l, const TokenList &o) { l.tlist.insert(l.tlist.begin(), o.tlist.begin(), o.tlist.end()); }
void w_reset(TokenList &l) { l.reset(); }
void r_reset(TokenList &l) { l.tlist.clear(); }
void w_resetF(TokenList &l, string f) { l.reset(f); }
void r_resetF(TokenList &l, string f) { l.tlist.clear(); l.filename = f; }
const string *w_listFile(TokenList &l) { return &l.getFilename(); }
const string *r_listFile(TokenList &l) { return &l.filename; }
void w_listNew(TokenList &l, string f) { new (&l) TokenList(f); }
void r_listNew(TokenList &l, string f) { new (&l.tlist) std::list<Token>(); new (&l.filename) string(f); }
void w_scan(DeckScanner &s, std::istream *i) { s.scan(i); }
void r_scan(DeckScanner &s, std::istream *i) { s.input = i; s.tokens.reset(); s.do_scan(s.tokens); }
void w_scanOld(DeckScanner &s, std::istream *i) { s.scan(i, false); }
void r_scanOld(DeckScanner &s, std::istream *i) { s.input = i; TokenList l(""); s.do_scan(l); s.tokens.insert(l); }
const TokenList *w_tokens(DeckScanner &s) { return &s.getTokens(); }
const TokenList *r_tokens(DeckScanner &s) { return &s.tokens; }
pBlock r_parse(Parser &p, std::istream &input, string filename)
{
  DeckScanner sc(filename);
  sc.scan(&input);
  yyParser *y = ParseAlloc();
  pBlockTree tree(new BlockTree());
  ParserContext con(p.variables, p.funcReg, p.blockClasses, tree);
  BlockClassDescriptor &d = p.blockClasses.get(p.variables.getRootBlock()->getClassName());
  if (!d.hasBlockFactory()) tree->moveDown();
  else
  {
    pBlock b = d.makeBlock(p.variables.getRootBlock()->getBlockName());
    b->setContext(p.variables.getCurrentBlock());
    b->setup();
    tree->addChild(b);
  }
  for (TokenList::const_iterator i = sc.getTokens().begin(); i != sc.getTokens().end(); ++i) { Token t(*i); Parse(y, t.getToken(), ParserToken(t, con)); }
  Parse(y, 0, ParserToken());
  ParseFree(y);
  DependencyMap m(p.variables.getRootBlock());
  m.updateAll();
  return tree->getRoot();
}
}

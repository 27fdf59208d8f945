// reference definitions for block classes, containers of blocks and identities (P33)
#include "variables/block.hpp"
#include "variables/blockclasses.hpp"
#include "variables/blockcontainer.hpp"
#include "variables/variables.hpp"
#include "util/unique.hpp"
#include "parser/parsercontext.hpp"
#include "parser/parsersettings.hpp"
#include "parser/parser.hpp"
using namespace schnek;
typedef std::string string;
typedef BlockClassDescriptor BCD;
struct MyBlock : public Block { MyBlock(); };
struct Kid : public ChildBlock<Kid> { Kid(); };
struct Keeper : public Block, public BlockContainer<Kid> { Keeper(); };
typedef BlockContainer<Kid> KC;
extern "C" {
// ---- descriptors
void w_allow(BCD &d, string c) { d.doAddChild(c); }
void r_allow(BCD &d, string c) { d.allowedChildren.insert(c); }
void w_addChildren(BCD &d, string c) { d.addChildren(c); }
void r_addChildren(BCD &d, string c) { d.allowedChildren.insert(c); }
void w_addTwo(BCD &d, string c, string e) { d.addChildren(c)(e); }
void r_addTwo(BCD &d, string c, string e) { d.allowedChildren.insert(c); d.allowedChildren.insert(e); }
bool w_may(BCD &d, string c) { return d.hasChild(c); }
bool r_may(BCD &d, string c) { return d.allowedChildren.find(c) != d.allowedChildren.end(); }
bool w_hasF(BCD &d) { return d.hasBlockFactory(); }
bool r_hasF(BCD &d) { return d.blockFactory.get() != 0; }
pBlock w_makeD(BCD &d, const string &n) { return d.makeBlock(n); }
pBlock r_makeD(BCD &d, const string &n) { return d.blockFactory->makeBlock(n); }
pBlock w_make(GenericBlockFactory<MyBlock> &f, const string &n) { return f.GenericBlockFactory<MyBlock>::makeBlock(n); }
pBlock r_make(GenericBlockFactory<MyBlock> &, const string &n) { pBlock b(new MyBlock); b->name = n; return b; }
void w_setClass(BCD &d) { d.setClass<MyBlock>(); }
void r_setClass(BCD &d) { d.blockFactory = pBlockFactory(new GenericBlockFactory<MyBlock>()); }
// ---- registry
void w_cls(BlockClasses &c, bool r) { new (&c) BlockClasses(r); }
void r_cls(BlockClasses &c, bool r) { new (&c.classDescriptors) std::shared_ptr<BlockClasses::BlockClassDescriptors>(new BlockClasses::BlockClassDescriptors); c.restr = r; }
void w_clsDef(BlockClasses &c) { new (&c) BlockClasses(); }
void r_clsDef(BlockClasses &c) { new (&c.classDescriptors) std::shared_ptr<BlockClasses::BlockClassDescriptors>(new BlockClasses::BlockClassDescriptors); c.restr = true; }
void w_clsCopy(BlockClasses &c, const BlockClasses &o) { new (&c) BlockClasses(o); }
void r_clsCopy(BlockClasses &c, const BlockClasses &o) { new (&c.classDescriptors) std::shared_ptr<BlockClasses::BlockClassDescriptors>(o.classDescriptors); c.restr = o.restr; }
BCD &w_reg(BlockClasses &c, string n) { return c.registerBlock(n); }
BCD &r_reg(BlockClasses &c, string n) { pBlockClassDescriptor d(new BCD()); (*c.classDescriptors)[n] = d; return *d; }
BCD &w_get(BlockClasses &c, string n) { return c.get(n); }
BCD &r_get(BlockClasses &c, string n) { if (c.classDescriptors->count(n) == 0) { pBlockClassDescriptor d(new BCD()); (*c.classDescriptors)[n] = d; return *d; } return *(*c.classDescriptors)[n]; }
BCD &w_call(BlockClasses &c, string n) { return c(n); }
BCD &r_call(BlockClasses &c, string n) { if (c.classDescriptors->count(n) == 0) { pBlockClassDescriptor d(new BCD()); (*c.classDescriptors)[n] = d; return *d; } return *(*c.classDescriptors)[n]; }
bool w_hasChild(BlockClasses &c, string p, string n) { return c.hasChild(p, n); }
bool r_hasChild(BlockClasses &c, string p, string n) { if (c.classDescriptors->count(p) == 0) throw BlockNotFoundException(); return (*c.classDescriptors)[p]->allowedChildren.count(n) > 0; }
bool w_restr(BlockClasses &c) { return c.restrictBlocks(); }
bool r_restr(BlockClasses &c) { return c.restr; }
// ---- containers
void w_keep(KC &k, std::shared_ptr<Kid> c) { k.addChild(c); }
void r_keep(KC &k, std::shared_ptr<Kid> c) { k.children.push_back(c); }
size_t w_num(KC &k) { return k.numChildren(); }
size_t r_num(KC &k) { return k.children.size(); }
KC::iterator_range w_kids(KC &k) { return k.childBlocks(); }
KC::iterator_range r_kids(KC &k) { return KC::iterator_range(k.children.begin(), k.children.end()); }
void w_adopt(ChildBlock<Kid> &c) { c.ChildBlock<Kid>::preInit(); }
void r_adopt(ChildBlock<Kid> &c)
{
  BlockContainer<Kid> *k = dynamic_cast<BlockContainer<Kid>*>(c.getParent().get());
  std::shared_ptr<Kid> self = std::dynamic_pointer_cast<Kid>(c.shared_from_this());
  if (k && self) k->children.push_back(self);
}
// ---- identities
void w_id(Unique<Block> &u) { new (&u) Unique<Block>(); }
void r_id(Unique<Block> &u) { u.Id = Unique<Block>::runningId; Unique<Block>::runningId = Unique<Block>::runningId + 1; }
long w_getId(Unique<Block> &u) { return u.getId(); }
long r_getId(Unique<Block> &u) { return u.Id; }
void w_idV(Unique<Variable> &u) { new (&u) Unique<Variable>(); }
void r_idV(Unique<Variable> &u) { u.Id = Unique<Variable>::runningId; Unique<Variable>::runningId = Unique<Variable>::runningId + 1; }
// ---- contexts
void w_ctx(ParserContext &c, VariableStorage &v, FunctionRegistry &f, BlockClasses &b, pBlockTree t) { new (&c) ParserContext(v, f, b, t); }
void r_ctx(ParserContext &c, VariableStorage &v, FunctionRegistry &f, BlockClasses &b, pBlockTree t) { c.variables = &v; c.funcReg = &f; c.blockClasses = &b; new (&c.blockTree) pBlockTree(t); }
void w_ctxCopy(ParserContext &c, const ParserContext &o) { new (&c) ParserContext(o); }
void r_ctxCopy(ParserContext &c, const ParserContext &o) { c.variables = o.variables; c.funcReg = o.funcReg; c.blockClasses = o.blockClasses; new (&c.blockTree) pBlockTree(o.blockTree); }
ParserContext &w_ctxAssign(ParserContext &c, const ParserContext &o) { return c = o; }
ParserContext &r_ctxAssign(ParserContext &c, const ParserContext &o) { c.variables = o.variables; c.funcReg = o.funcReg; c.blockClasses = o.blockClasses; c.blockTree = o.blockTree; return c; }
// ---- parser and its settings
typedef VariableStorage VS;
typedef FunctionRegistry FR;
typedef BlockClasses BC;
void w_parNames(Parser &p, string n, string c, const BC &b) { new (&p) Parser(n, c, b); }
void r_parNames(Parser &p, string n, string c, const BC &b) { new (&p.variables) VS(n, c); new (&p.funcReg) FR(); new (&p.blockClasses) BC(b); }
void w_parTwo(Parser &p, const VS &v, const FR &f) { new (&p) Parser(v, f); }
void r_parTwo(Parser &p, const VS &v, const FR &f) { new (&p.variables) VS(v); new (&p.funcReg) FR(f); new (&p.blockClasses) BC(false); }
void w_parAll(Parser &p, const VS &v, const FR &f, const BC &b) { new (&p) Parser(v, f, b); }
void r_parAll(Parser &p, const VS &v, const FR &f, const BC &b) { new (&p.variables) VS(v); new (&p.funcReg) FR(f); new (&p.blockClasses) BC(b); }
void w_parSet(Parser &p, const ParserSettings &s) { new (&p) Parser(s); }
void r_parSet(Parser &p, const ParserSettings &s) { new (&p.variables) VS(s.variables); new (&p.funcReg) FR(s.funcReg); new (&p.blockClasses) BC(s.blockClasses); }
FR *w_parF(Parser &p) { return &p.getFunctionRegistry(); }
FR *r_parF(Parser &p) { return &p.funcReg; }
VS *w_parV(Parser &p) { return &p.getVariableStorage(); }
VS *r_parV(Parser &p) { return &p.variables; }
BC *w_parB(Parser &p) { return &p.getBlockClasses(); }
BC *r_parB(Parser &p) { return &p.blockClasses; }
void w_setNew(ParserSettings &p, string n, string c) { new (&p) ParserSettings(n, c); }
void r_setNew(ParserSettings &p, string n, string c) { new (&p.variables) VS(n, c); new (&p.funcReg) FR(); new (&p.blockClasses) BC(); }
typedef double (*F1)(double);
void w_setFun(ParserSettings &p, string n, F1 f) { p.registerFunction(n, f); }
void r_setFun(ParserSettings &p, string n, F1 f) { FunctionRegistry::pEntryBase e(new FunctionRegistry::Entry<F1>(f, false)); (*p.funcReg.funcs)[n] = e; }
BCD &w_setAdd(ParserSettings &p, string n) { return p.addBlockClass(n); }
BCD &r_setAdd(ParserSettings &p, string n) { pBlockClassDescriptor d(new BCD()); (*p.blockClasses.classDescriptors)[n] = d; return *d; }
BCD &w_setGet(ParserSettings &p, string n) { return p.getBlock(n); }
BCD &r_setGet(ParserSettings &p, string n) { if (p.blockClasses.classDescriptors->count(n) == 0) { pBlockClassDescriptor d(new BCD()); (*p.blockClasses.classDescriptors)[n] = d; return *d; } return *(*p.blockClasses.classDescriptors)[n]; }
}

"""P33: block classes, containers of blocks and identities"""
from .adtlib import *

RULE = REF + "allow: the classes allowed inside a class are exactly those added; class: the registry keeps one descriptor per class name, shared by its copies; make: the factory of a class creates a block of that class with the given name; keep: a container lists its child blocks once, in order; id: every object of a kind gets an identifier no other has; context: copies of a parser context refer to the same storage; parser: a parser and its settings hold what they were created with."
V0 = {"ignore_cells": r"^a0$"}
ROWS = [("allow", "allow", "BlockClassDescriptor::doAddChild", (1,)), ("allow", "addChildren", "BlockClassDescriptor::addChildren", (1,)), ("allow", "addTwo", "BlockClassDescriptor::addChildren()()", (1, 2)),
        ("allow", "may", "BlockClassDescriptor::hasChild", (1,)), ("make", "hasF", "BlockClassDescriptor::hasBlockFactory", ()), ("make", "makeD", "BlockClassDescriptor::makeBlock", ()),
        ("make", "make", "GenericBlockFactory::makeBlock", ()), ("make", "setClass", "BlockClassDescriptor::setClass", ()),
        ("class", "cls", "BlockClasses::BlockClasses(bool)", ()), ("class", "clsDef", "BlockClasses::BlockClasses()", ()), ("class", "clsCopy", "BlockClasses copy", ()), ("class", "reg", "BlockClasses::registerBlock", (1,)),
        ("class", "get", "BlockClasses::get", (1,)), ("class", "call", "BlockClasses::operator()", (1,)), ("allow", "hasChild", "BlockClasses::hasChild", (1, 2)), ("allow", "restr", "BlockClasses::restrictBlocks", ()),
        ("keep", "keep", "BlockContainer::addChild", (1,)), ("keep", "num", "BlockContainer::numChildren", ()), ("keep", "kids", "BlockContainer::childBlocks", ()),
        ("keep", "adopt", "ChildBlock::preInit", ()),
        ("id", "id", "Unique<Block>::Unique", ()), ("id", "getId", "Unique<Block>::getId", ()), ("id", "idV", "Unique<Variable>::Unique", ()),
        ("context", "ctx", "ParserContext::ParserContext", (4,)), ("context", "ctxCopy", "ParserContext copy", ()), ("context", "ctxAssign", "ParserContext::operator=", ()),
        ("parser", "parNames", "Parser::Parser(name, class, classes)", (1, 2)), ("parser", "parTwo", "Parser::Parser(variables, functions)", ()), ("parser", "parAll", "Parser::Parser(variables, functions, classes)", ()),
        ("parser", "parSet", "Parser::Parser(settings)", ()), ("parser", "parF", "Parser::getFunctionRegistry", ()), ("parser", "parV", "Parser::getVariableStorage", ()), ("parser", "parB", "Parser::getBlockClasses", ()),
        ("parser", "setNew", "ParserSettings::ParserSettings", (1, 2)), ("parser", "setFun", "ParserSettings::registerFunction", (1,)), ("parser", "setAdd", "ParserSettings::addBlockClass", (1,)), ("parser", "setGet", "ParserSettings::getBlock", (1,))]


def run():
    chk = Check("P33", RULE)
    mod = module("classes.cpp", lib=("src/variables/blockclasses.cpp", "src/variables/block.cpp"))
    chk.module(mod)
    table(chk, AdtAnalyzer(mod), ROWS)
    chk.floor = 37
    return chk.finish()

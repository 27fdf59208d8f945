"""P26: block tree"""
from .adtlib import *
from .p25 import KEEP, LIB

RULE = REF + "tree: the cursor of the tree builder follows opening and closing of blocks, the depth stack counts anonymous levels; block: names, parents, children and variable contexts are those that were set."
ROWS = [("tree", "tree", "BlockTree::BlockTree", ()), ("tree", "treeAdd", "BlockTree::addChild", (1,)), ("tree", "treeDown", "BlockTree::moveDown", ()),
        ("tree", "treeUp", "BlockTree::moveUp", ()), ("tree", "treeRoot", "BlockTree::getRoot", ()),
        ("block", "blockAdd", "Block::addChild", (1,)), ("block", "blockParent", "Block::getParent", ()), ("block", "blockChildren", "Block::getChildren", ()),
        ("block", "blockSetParent", "Block::setParent", (1,)), ("block", "setName", "Block::setName", ()), ("block", "getName", "Block::getName", ()),
        ("block", "setContext", "Block::setContext", (1,)), ("block", "localVars", "Block::getLocalVariables", ()), ("block", "getVars", "Block::getVariables", ())]


def run():
    chk = Check("P26", RULE)
    mod = module("blocks.cpp", lib=LIB, keep=KEEP)
    chk.module(mod)
    table(chk, AdtAnalyzer(mod), ROWS)
    chk.floor = 14
    return chk.finish()

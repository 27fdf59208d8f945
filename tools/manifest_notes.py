NOTE0 = "static: all obligations are decided for all inputs of the analysed instantiations by comparing normal forms derived from the source; assumptions are listed in the evidence"
NOTE = {}
REFT = "comparison of dataflow summaries over the compiled IR of each function with a reference definition (static, no execution)"
TECH.update({p: REFT for p in ("P15", "P18", "P19", "P20", "P21", "P22", "P24", "P25", "P26", "P27", "P28", "P29", "P30", "P31", "P33", "P34", "P35", "P36", "P37", "P38", "P39")})
TECH["P23"] = "interprocedural exception-escape analysis (call-graph fixpoint over the compiled IR, handlers filtered by type hierarchy)"
TECH["P32"] = "abstract interpretation of the scanner loop in product with the automaton of the lexical rules, every reachable configuration (static, no execution)"
TECH["P39"] = "pairing of the parser tables in the source with the LALR automaton derived from the stated grammar, every state and token; dataflow summaries of driver, lookup and actions compared with a reference (static, no execution)"

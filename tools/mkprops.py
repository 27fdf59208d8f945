#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script so the statements are easy to review)"""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe)}})


prop("P01", "Grid storage maps every index to its own cell of the allocated buffer",
     "For a grid of any rank, element type and index range (including negative or non-zero lower bounds), after any construction or resize the reported extents are exactly the requested inclusive range, each dimension is hi-lo+1 and the size is their product. The element at index i lies in the raw buffer at the row-major position of i-lo (last index fastest) for the default storage and at the column-major position for the Fortran-order storage, and stride(d) is the distance between neighbours along d. The buffer that is allocated has room for exactly all elements.",
     ["inputs", "configurations"], "every range lo<=hi, every index in it, ranks 1-4, every storage order",
     "The storage tests sample a few random ranges of ranks 1-3 and compare values written and read back through the same address function; a wrong stride, base offset or allocation size that is self-consistent on these ranges passes.",
     ["src/grid/gridstorage/single-array-allocation.hpp", "src/grid/gridstorage/single-array-storage-base.hpp", "src/grid/gridstorage/kokkos-storage.hpp", "src/grid/grid.t"],
     [("resize / size update callback / fast base pointer", "src/grid/gridstorage/single-array-allocation.hpp"), ("get, stride", "src/grid/gridstorage/single-array-storage-base.hpp")],
     ["Grid::operator()", "getLo/getHi/getDims/getSize/stride/getRawData"])
prop("P02", "Copies of a grid stay coherent through copy, assignment, resize, destroy",
     "A grid copy-constructed or assigned from another reports the same range, dimensions, size and layout and addresses the same elements. When any of the grids sharing one buffer is resized, every one of them, and no other grid, adopts the new range, size and buffer. A grid that has been destroyed, or assigned from a different grid, is never touched again by a resize of the grids it shared data with before.",
     ["histories"], "every history of copy construction, assignment, resize and destruction over grids sharing storage",
     "Tests make one copy and resize once; registration mistakes show only in longer histories (assign over a live copy, destroy, then resize) and then as a write into freed memory.",
     ["src/grid/gridstorage/single-array-allocation.hpp", "src/grid/gridstorage/single-array-storage-base.hpp", "src/grid/gridstorage/kokkos-storage.hpp"],
     [("update callbacks registered per storage object", "SingleArrayAllocationData::addUpdater/removeUpdater/update")],
     ["Grid copy constructor, operator=, resize, destructor"])
prop("P03", "Grid buffers are released exactly once and never while in use",
     "Every element buffer a grid allocates is released exactly once, with the matching array form of delete: by the resize that replaces it or when the last grid sharing it goes away. Copying, assigning or destroying one of several sharing grids releases nothing. After a resize no grid keeps a pointer to the released buffer.",
     ["histories"], "every history of construction, copying, assignment, resizing and destruction",
     "The tests do not run under a leak or double-free detector and make few copies.",
     ["src/grid/gridstorage/single-array-allocation.hpp"],
     [("shared_ptr to allocation data, deleteData/newData", "src/grid/gridstorage/single-array-allocation.hpp")],
     ["operator new[] / delete[] calls"])
prop("P04", "Every grid access route applies the checking policy to the actual index",
     "Every way of accessing a grid element (subscripting by index array or expression, by integer on a rank-1 grid, and call syntax with as many integers as the rank, const and non-const) hands exactly that index together with the grid's own lower and upper bounds to the checking policy before touching storage, and accesses the element the policy returns. The asserting policies stop the program if and only if some coordinate is below the lower or above the upper bound; the non-checking policies return the index unchanged.",
     ["inputs", "configurations"], "every index and grid range, every access syntax, every checking policy",
     "No test uses a checking policy on grids, and an access route that skips the check or passes swapped coordinates only matters for out-of-range indices.",
     ["src/grid/grid.hpp", "src/grid/grid.t", "src/grid/gridcheck.hpp", "src/grid/arraycheck.hpp", "src/grid/array.hpp"],
     [("get(check(index, lo, hi))", "src/grid/grid.t"), ("policy classes", "src/grid/gridcheck.hpp, src/grid/arraycheck.hpp")],
     ["Grid::operator[], Grid::operator()"])
prop("P05", "Whole-grid assignment and compound assignment touch every element once",
     "Assigning a value to a grid stores it in every element of the grid and in nothing else, whatever the grid's size. Adding or subtracting a grid of the same index range, with the same or a different storage layout, combines every element with the other grid's element at the same index exactly once and changes nothing else.",
     ["inputs", "configurations"], "every grid size, value and pair of storage layouts",
     "Only a few sizes and same-layout operands are tested; boundary elements and mixed layouts are not.",
     ["src/grid/grid.t", "src/grid/grid.hpp"],
     [("storage iterators / range iteration", "src/grid/grid.t")], ["Grid::operator=, +=, -="])
prop("P06", "Array arithmetic is element-wise for all lengths, operands and aliasing",
     "For fixed-length arrays of every length, each arithmetic operator between arrays, array expressions and scalars (plus, minus, times, divide, negation) and each compound assignment yields in every component exactly that operation on the corresponding components, in the written operand order and evaluated in the common type. Equality, the lexicographic and all-component comparisons, product, sum, squared norm, fill and projections are functions of all components; an assignment whose expression mentions its target gives the value the expression had before the assignment.",
     ["inputs"], "every array length (checked for 1-10), element type and operand values",
     "Tests sample random values for a few lengths; a component left out or an operand order swapped at one length or one operand kind (scalar on the left, nested expression) can pass.",
     ["src/grid/array.hpp", "src/grid/array.t", "src/grid/arrayexpression.hpp"],
     [("expression templates, loops over the length", "src/grid/arrayexpression.hpp, src/grid/array.t")], ["Array operators"])
prop("P07", "Range containment, growth, projection and overlap agree with set semantics",
     "A range contains exactly the points with lo<=p<=hi in every dimension. Copying, assigning and converting a range keeps its bounds, growing it moves both bounds outward by the given amount in every dimension, and projecting it keeps the bounds of the other dimensions in order, for all bounds including negative ones.",
     ["inputs"], "all ranks, bounds and points",
     "Tests use random boxes; off-by-one at a boundary coordinate of one dimension is easily missed.",
     ["src/grid/range.hpp"], [("inside/grow/project/...", "src/grid/range.hpp")], ["Range"])
prop("P08", "Iterating a range visits each point once in lexicographic order",
     "Iterating a range from begin to end starts at the lower corner, always advances to the lexicographic successor (last dimension fastest, wrapping to the lower bound) and ends exactly after the upper corner, for every non-empty range of every rank.",
     ["inputs"], "all ranks 1-4 and all bounds",
     "Tests iterate a few random boxes.",
     ["src/grid/range.hpp", "src/grid/domain.hpp"], [("range iterator increment", "src/grid/range.hpp")], ["Range::begin/end"])
prop("P09", "forEach iteration policies cover the closed range exactly",
     "Each range-iteration policy (C order, Fortran order, Kokkos) calls the functor once for every point of the closed range and for no other point; C order varies the last index fastest and Fortran order the first.",
     ["inputs", "configurations"], "all ranks 1-4 and all bounds, all policies",
     "Tests run a few random boxes.",
     ["src/grid/iteration/range-iteration.hpp", "src/grid/iteration/kokkos-iteration.hpp"], [("loop nests", "src/grid/iteration/*.hpp")], ["forEach"])
prop("P10", "Field geometry: ghost cells, inner range and index/position mapping",
     "A field built or resized with inner range [lo,hi] and g ghost cells stores the range [lo-g,hi+g] and reports the inner range [lo,hi]. The position of index i along a dimension is domain_lo + (i - lo + stagger/2) * (domain_hi-domain_lo)/(hi-lo+1), the position-to-index conversion is its inverse rounded down, and weights and both overloads agree, for every construction and resize variant.",
     ["inputs", "configurations"], "all ranks, ranges, domains, staggering flags and ghost widths",
     "No test covers fields.",
     ["src/grid/field.hpp", "src/grid/field.t"], [("constructors/resize siblings, indexToPosition, positionToIndex", "src/grid/field.t")], ["Field"])
prop("P11", "Boundary domains partition the ghost-inclusive local domain",
     "For any box and ghost width d, the lower (upper) ghost domain along a dimension is the d outermost layers at that end and the source domain is the d layers just inside them, both spanning the full box in the other dimensions. The inner domain is the box without its ghost layers on every side; the boundary domain of a field is its ghost domain, one layer narrower at the lower end if the field is staggered in that dimension.",
     ["inputs"], "all ranks, boxes, ghost widths, dimensions, ends and staggerings",
     "No test covers boundaries.",
     ["src/grid/boundary.hpp", "src/grid/boundary.t"], [("getGhostDomain/getGhostSourceDomain/getInnerDomain/getBoundaryDomain", "src/grid/boundary.t")], ["Boundary"])
prop("P12", "Ghost-cell exchange moves exactly the partner's boundary layers",
     "Exchange along a dimension fills every lower ghost cell with the corresponding upper source cell of the lower neighbour and every upper ghost cell with the corresponding lower source cell of the upper neighbour (periodically; in a serial run the neighbour is the domain itself) and changes nothing else; accumulate leaves the sum of both in both. In the MPI version each message is matched: what is sent to one neighbour is received from the opposite one with the same length, type and tag, for all processes and unconditionally. exchangeData delivers the sender's whole buffer with its exact length, upwards for positive orientation and downwards otherwise.",
     ["schedules", "inputs", "configurations"], "all process grids, ghost widths, ranks, dimensions and array contents",
     "No test runs a subdivision, let alone several processes.",
     ["src/grid/domainsubdivision.t", "src/grid/domainsubdivision.hpp", "src/grid/mpisubdivision.t"], [("exchange/accumulate/exchangeData", "src/grid/mpisubdivision.t, src/grid/domainsubdivision.t")], ["DomainSubdivision::exchange"])
prop("P13", "Subdivided domains tile the global domain without gaps or overlap",
     "For every global domain and process grid, the inner parts of the local domains of all processes are disjoint and cover the global domain exactly, neighbouring processes' inner ranges are adjacent, and each local domain is its inner part grown by the ghost width; the serial subdivision owns the whole domain. Neighbours are the periodic Cartesian neighbours, the exchange buffers hold exactly the ghost layers, and a process is at a boundary exactly if its inner part reaches the edge of the global domain.",
     ["configurations", "inputs"], "all global sizes, process-grid dimensions and coordinates",
     "No test covers domain decomposition.",
     ["src/grid/mpisubdivision.t", "src/grid/domainsubdivision.t"], [("init", "src/grid/mpisubdivision.t")], ["getLo/getHi/getInnerLo/getInnerHi"])
prop("P14", "Global reductions use the operation they name, on the right type",
     "Sum, average, minimum and maximum over processes combine every process's value with exactly the named operation and deliver the result to all of them, for integers and floating-point numbers; the serial version returns the value itself. The MPI datatype used for an element type is the one for that type.",
     ["configurations", "inputs"], "all element types, array lengths and process counts",
     "No test runs MPI.",
     ["src/grid/mpisubdivision.t", "src/grid/mpisubdivision.cpp", "src/grid/mpisubdivision.hpp", "src/grid/domainsubdivision.hpp"], [("MPI_Allreduce wrappers, MpiValueType", "src/grid/mpisubdivision.*")], ["avgReduce/sumReduce/maxReduce/minReduce"])
prop("P15", "Process-grid factorisation multiplies back to the number of processes",
     "Distributing a number (at least 1) over n factors (at least 1) returns exactly n positive factors whose product is the number. The smallest prime factor goes to the first factor, each further prime factor is tried on every factor in turn, the last one goes to the factor that is smallest relative to its weight (the first of equals), and the distribution with the smallest sum of factors relative to their weights is the one returned (the first of equals); for the number 1 every factor is 1.",
     ["inputs"], "all numbers, factor counts and weights", "No test covers it.",
     ["src/util/factor.cpp"], [("equalFactors, makePrimes, factorize, distribute", "src/util/factor.cpp")], ["equalFactors"])
prop("P17", "Sub-grids are windows onto their base grid",
     "A sub-grid has exactly the bounds and dimensions it was constructed with or resized to, and every access through it reaches the base grid's element at the same index. Iterating over it or assigning a value to it touches every element of the window exactly once and nothing else, and the ghost sub-grid of a field or grid is the window of its ghost domain.",
     ["inputs", "configurations"], "all ranks, windows and base grids",
     "No test covers sub-grids.",
     ["src/grid/subgrid.hpp", "src/grid/subgrid.t", "src/grid/boundary.t"], [("SubGrid constructors, resize, iterators; getGhostBoundary", "src/grid/subgrid.hpp, src/grid/boundary.t")], ["SubGrid"])
prop("P18", "Variable names resolve by block scope",
     "Looking up a single variable name in a block finds the variable declared there and otherwise the one of the nearest enclosing block that declares it. A path whose first name is a sub-block of the block searched is resolved inside that sub-block and never outside it; if there is no such sub-block the search goes on in the enclosing blocks. Asking whether a variable exists gives the same answer as looking it up, and a failed lookup is reported as an exception. Declaring the same name twice in a block is refused and leaves the first declaration in place. While a setup file is read, new variables and sub-blocks go to the block that is currently open, and closing a block returns to the one around it.",
     ["inputs", "histories"], "every nesting of blocks, every set of declarations and every path",
     "Tests read two or three small decks; shadowing at several depths, missing names below an existing sub-block, or lookups upwards through several levels are not sampled.",
     ["src/variables/variables.cpp", "src/variables/variables.hpp"],
     [("BlockVariables::exists / getVariable, VariableStorage cursor", "src/variables/variables.cpp")],
     ["BlockVariables::getVariable/exists/addVariable/addChild", "VariableStorage"])
prop("P19", "Variables keep their type, and read-only variables are never assigned",
     "A variable has the type of the value or expression it was created with for its whole life. Assigning a variable of another type is refused, assigning to a read-only variable is refused, and a refused assignment changes nothing; an accepted assignment takes over value, expression and whether it is constant and initialised. A variable created from a value or a constant is constant, one created from an expression is not; evaluating its expression yields the expression's current value in the variable's own type and stores it.",
     ["inputs", "histories"], "all types, values, expressions and sequences of assignments",
     "Tests assign a few values of matching type.",
     ["src/variables/variables.cpp", "src/variables/variables.hpp"],
     [("Variable constructors, operator=, evaluateExpression", "src/variables/variables.cpp")], ["Variable"])
prop("P20", "Expressions evaluate to what their text says; constness and dependencies follow",
     "The value of an expression is that of its operators applied to the values of its operands: sums and differences, and products and quotients, of numbers are evaluated from left to right, whatever mix of integers and floating point numbers they are made of, and parentheses group. A reference evaluates to the current value of the variable, an external value to what it points to at that moment. An expression is constant exactly when all of its operands are (literals always, external values never) and it depends exactly on the variables that occur in it.",
     ["inputs"], "all expressions over all operand values and types",
     "Tests evaluate a few random expressions of small depth with constant operands.",
     ["src/variables/expression.hpp", "src/variables/operators.hpp"],
     [("Value, ReferencedValue, ExternalValue, UnaryOp, BinaryOp", "src/variables/expression.hpp"), ("operators", "src/variables/operators.hpp")], ["Expression::eval/isConstant/getDependencies"])
prop("P24", "Dependent parameters are updated after everything they depend on",
     "After an independent variable has changed, an update re-evaluates exactly the non-constant variables of all blocks that depend on it, directly or through others, and that are needed by the requested dependents; each is evaluated once, after every variable its expression refers to, and then the dependents' program variables receive the new values. Constants never take part beyond being copied. Adding or clearing independents or dependents, singly or as arrays, makes the next update use the new sets. Updating everything evaluates every non-constant variable in such an order. (The dependencies between variables contain no cycle.)",
     ["histories", "inputs"], "all acyclic dependency graphs, sets of independents and dependents and sequences of additions and updates",
     "Tests update one chain of a few parameters; diamonds, variables in several blocks and changes of the sets between updates are not sampled.",
     ["src/variables/dependencies.cpp", "src/variables/dependencies.hpp"],
     [("DependencyMap::constructMap / makeUpdateList, DependencyUpdater", "src/variables/dependencies.cpp")], ["DependencyMap", "DependencyUpdater"])
prop("P25", "Blocks are initialised phase by phase over the whole hierarchy",
     "Initialising from any block of a hierarchy runs, on the whole hierarchy from its root, first the evaluation of all parameters, then data registration, then pre-initialisation, initialisation and post-initialisation. Every phase is complete before the next begins and visits each block exactly once, a block before its children and children in their order. Setting up a hierarchy declares the parameters of every block once in the same order.",
     ["configurations", "histories"], "all hierarchies of blocks and all starting blocks",
     "Tests build hierarchies of two levels with one child per block class.",
     ["src/variables/block.cpp", "src/variables/block.hpp"], [("initAll and the *Hierarchy functions", "src/variables/block.cpp")], ["Block::initAll", "Block::evaluateParameters", "Block::setup"])
prop("P26", "The block hierarchy is the nesting of the setup file's blocks",
     "A block opened while another is open becomes the last child of that block and has it as parent; the first block is the root. Blocks without a class of their own only open a level, and closing a level or a block returns to exactly what was open before it, however they are nested. A block's name, parent, children and variable scope are those it was given, and the variables of a block as a whole are those of the outermost scope around it.",
     ["histories", "inputs"], "all sequences of opening and closing blocks and levels",
     "Tests read a few decks with well-formed shallow nesting.",
     ["src/variables/block.cpp", "src/variables/block.hpp"], [("BlockTree", "src/variables/block.cpp"), ("Block accessors", "src/variables/block.hpp")], ["BlockTree", "Block"])
prop("P27", "Shared block data is found by scope, and ambiguity is refused",
     "Data registered by a block under a name is found from that block; otherwise a dotted name is looked up in the children of the name before the dot, then the search goes on in the enclosing blocks and finally below the children. If more than one child can supply the data the lookup is refused with an exception, and a name nobody registered is reported as an exception. The data handed out is the object registered last under that name by that block, per type; pointers are handed out as registered in preference to objects.",
     ["configurations", "histories"], "all hierarchies, registrations, names and types",
     "No test shares data between blocks at more than one level.",
     ["src/variables/block.hpp", "src/variables/blockdata.hpp"], [("Block::getData / addData / retrieveData", "src/variables/block.hpp"), ("BlockData", "src/variables/blockdata.hpp")], ["Block::addData", "Block::retrieveData"])
prop("P28", "Parameters deliver the setup file's values to the program, or an error",
     "Evaluating a block's parameters writes to each program variable the value of the deck variable of that name: a constant's value, or the value of its expression evaluated at that time; a parameter that was neither set nor given a default is reported as an exception, and read-only parameters leave the program's variable alone. A read-only parameter is an expression that always yields the program variable's current value. Array parameters declare one parameter per component, named by the array's name followed by the component's letter, with that component's default; too few letters are refused. Constants are declared initialised and read-only. Membership of a parameter group is by variable, and a set of variables is covered by a group exactly if every one of them is a member.",
     ["inputs", "histories"], "all types, defaults, permissions and decks",
     "Tests set a few scalar parameters.",
     ["src/variables/blockparameters.hpp", "src/variables/blockparameters.cpp"], [("ConcreteParameter, BlockParameters, ParametersGroup", "src/variables/blockparameters.*")], ["BlockParameters::addParameter/addArrayParameter/addConstant/evaluate"])
prop("P21", "Operands and assignments are converted by the deck's type rules",
     "When the operands of an operator have different types the result is of the wider one (int, then float, then string) and the narrower operand is converted to it; operands of the same type are left alone. Assigning to a variable converts the expression to the variable's type, whatever the two types are. A conversion yields the converted current value of what it converts (int to float exactly, float to int by truncation, text by reading or writing the number), is constant exactly if that is and depends on the same variables; a value that can not be converted is reported as an exception. An operator node has the type of its operands and applies exactly the operator written.",
     ["inputs", "configurations"], "all combinations of operand, operator and variable types and all values",
     "The tests exercise few of the type combinations and only with convertible values.",
     ["src/variables/expression.hpp", "src/variables/typetoid.hpp", "src/variables/operators.hpp"],
     [("TypePromoter, VariableAssigner, TypecastOp, UnaryOp/BinaryOp visitors", "src/variables/expression.hpp")], ["Expression::eval", "ParserToken::assignBinaryOperator/updateVariable"])
prop("P22", "Function calls in a setup file call that function with the given arguments",
     "A function name in an expression denotes the function registered last under that name; an unknown name or a wrong number of arguments is reported as an exception. Every argument is converted to the type of the parameter, the value is that of the function applied to the current argument values in the order written, the expression depends on everything the arguments depend on, and it is constant exactly if all arguments are and the function was not registered as one to be evaluated at every update. The built-in names (cos, sin, tan, acos, asin, atan, cosh, sinh, tanh, exp, log, log10, sqrt, ceil, floor, fabs, atan2, pow, fmod, min, max, minI, maxI, gamma, lgamma, digamma, besselj, bessely, normal) denote the functions of that name.",
     ["inputs", "histories"], "all registered functions, argument lists and values",
     "Tests call a few functions with one or two constant arguments.",
     ["src/variables/function_expression.hpp", "src/variables/function_expression.cpp", "src/parser/parser.cpp"],
     [("FunctionRegistry, FunctionExpression(Factory)", "src/variables/function_expression.*"), ("registerCMath", "src/variables/function_expression.cpp")], ["FunctionRegistry::getExpression", "FunctionExpression::eval"])
prop("P23", "Everything wrong with a setup file is reported as a ParserError",
     "Whatever text is read as a setup file, reading it either succeeds or throws a ParserError (with file and line): characters that form no token, syntax errors including an unexpected end of file, literals out of range, unknown variables, functions and block classes, wrong numbers of arguments, redeclarations, assignments to read-only variables, impossible conversions in constant expressions and blocks that do not fit. No other exception leaves the parser, and evaluating an expression can only fail with an EvaluationException.",
     ["inputs"], "all texts and all registered classes, parameters and functions",
     "Tests read a handful of well-formed setup files and almost no malformed ones.",
     ["src/parser/parser.cpp", "src/parser/parsertoken.cpp", "src/parser/internal/deckscanner.cpp", "src/variables/expression.hpp", "src/variables/types.hpp"],
     [("catch clauses of the grammar actions", "src/parser/parsertoken.cpp"), ("exception hierarchy", "src/variables/types.hpp, src/variables/expression.hpp")], ["Parser::parse"])
prop("P29", "Statements of a setup file act on the open block",
     "Literals, references, operators and function calls in a setup file build the expression they denote. A declaration enters a variable of the declared type into the block that is open, with the value given; declaring a name twice in one block, or with a value of another type, is refused. An assignment changes the variable found from the open block, to the value converted to that variable's type: constant expressions are stored by value, others as expressions; undeclared and read-only variables are refused. Opening a block creates it with that name and class in the open block, both in the variables and in the block hierarchy, provided the open block's class admits the class; closing returns to the enclosing block, and closing the outermost one is refused. Tokens and errors carry the text, file and line they came from.",
     ["inputs", "histories"], "all statements in all states of the parser",
     "Tests read a few small setup files.",
     ["src/parser/parsertoken.cpp", "src/parser/parsertoken.t", "src/parser/tokenlist.hpp", "src/parser/deckscanner.hpp"],
     [("ParserToken actions", "src/parser/parsertoken.cpp"), ("Token, TokenList", "src/parser/tokenlist.hpp")], ["Parser::parse"])
prop("P30", "Diagnostics are written when and where they are due",
     "A diagnostic with an interval writes at every time step that is a multiple of it and at the final (negative) step; a diagnostic with a time distance writes when the physical time has reached the next output time, which then advances by the distance. Output that is restricted to one process is written by the master only. Unless appending, each output opens its own file, whose name is the configured one with the first #p replaced by the rank and the first #t by the time step (the output count for timed diagnostics, 'final' at the end), and closes it; when appending, the file is opened once, at the start. The manager runs every registered diagnostic that exists exactly once per call, with the current time, refuses to run without the time it needs, and limits the time step to the nearest output still to come.",
     ["inputs", "histories"], "all intervals, time steps, times, process configurations and sequences of registrations",
     "There are no tests of diagnostics.",
     ["src/diagnostic/diagnostic.cpp", "src/diagnostic/diagnostic.hpp", "src/diagnostic/diagnostic.t"],
     [("IntervalDiagnostic, DeltaTimeDiagnostic, DiagnosticManager", "src/diagnostic/diagnostic.cpp"), ("SimpleDiagnostic", "src/diagnostic/diagnostic.hpp")], ["DiagnosticManager::execute"])
prop("P31", "HDF5 files hold the global grid, each process its own part",
     "Writing a grid creates a data set of the size of the global range whose part at the local range (relative to the lower corner of the global range) is filled from the part of the grid's memory that holds the local range, in the element type of the grid; reading is the mirror image. Diagnostics and readers use the whole range of grids and the inner range of fields. Data sets are named by the block name, with a running number unless a name was just set. Attributes are attached with their type and extent. A stream owns its file: opening closes what was open, a copy shares the file, and the file is closed exactly once, when the last stream lets go of it. Only the active processes take part.",
     ["inputs", "histories"], "all ranges, process counts and sequences of stream operations",
     "There are no tests of HDF5 output or input.",
     ["src/diagnostic/hdfdiagnostic.cpp", "src/diagnostic/hdfdiagnostic.hpp", "src/diagnostic/hdfdiagnostic.t"],
     [("HdfStream, HdfIStream, HdfOStream", "src/diagnostic/hdfdiagnostic.cpp"), ("writeGrid, readGrid", "src/diagnostic/hdfdiagnostic.t")], ["HdfOStream::writeGrid"])
prop("P32", "The text of a setup file is split into the tokens of the language",
     "For every text, wherever the scanner's read buffer happens to end, the list of tokens is the one given by longest match over the lexical rules: the symbols = { } ( ) ; , + - * / ^, the type names (int, integer, float, double, real, string), identifiers (letters, digits, underscores) and path identifiers (also colons), quoted strings with escapes (the text without the quotes), integer and floating point literals; white space, line comments and block comments produce nothing. Every token carries its kind, its text and the line and file it is on. A character that starts no token, an unterminated string or an unterminated comment is a ParserError; nothing is dropped silently. The parser is fed all these tokens in order, followed by one end marker.",
     ["inputs"], "all texts and all positions of the buffer boundary",
     "Tests parse a few short setup files; the scanner's tables have tens of thousands of reachable configurations.",
     ["src/parser/deckscanner.cpp", "src/parser/deckscanner.hpp", "src/parser/tokenlist.hpp", "src/parser/parser.cpp"],
     [("DeckScanner::do_scan", "src/parser/deckscanner.cpp"), ("TokenList", "src/parser/tokenlist.hpp"), ("Parser::parse", "src/parser/parser.cpp")], ["DeckScanner::do_scan"])
prop("P33", "Block classes, factories, child containers and identities are kept faithfully",
     "The class registry keeps exactly one description per class name, and copies of the registry share it; asking for a class registers it if it is new. The classes allowed inside a class are exactly the ones added to it, in any way of adding; asking for an unknown parent class is an error. The factory of a class makes a block of that class carrying the given name and class. A container of blocks lists every child block added to it, once, in the order of addition; a child block registers itself, before its own initialisation, with its direct parent if that is a container of its type. Every object of a kind that carries an identifier gets one that no other object of the kind has. Copies of a parser context refer to the same variables, functions, classes and block tree. A parser uses the variables, functions and block classes it was created with (whether from names, objects or settings), and block classes are restricted by default except for a parser created without any.",
     ["inputs", "histories"], "all sequences of registrations, all block trees",
     "Tests register a handful of classes and build one or two trees.",
     ["src/variables/blockclasses.cpp", "src/variables/blockclasses.hpp", "src/variables/blockcontainer.hpp", "src/util/unique.hpp", "src/parser/parsercontext.hpp"],
     [("BlockClasses::get", "src/variables/blockclasses.cpp"), ("BlockClassDescriptor", "src/variables/blockclasses.hpp"), ("ChildBlock::preInit", "src/variables/blockcontainer.hpp"), ("Unique", "src/util/unique.hpp")], ["BlockClasses::get"])
prop("P34", "The bibliography lists every reference with all its fields",
     "Every field of a literature reference reads back as it was set and survives copying and assignment; an entry of a given kind (article, book, thesis, ...) stores each constructor argument in the field of that name, leaves the others empty and has that publication type. The BibTeX text of a reference names the type, the citation key and every field that is not empty, once, with its value. The manager records each citation key once, with the first reference given for it and the set of all descriptions given for it; the BibTeX file and the LaTeX text list every recorded reference, once, in order of the keys.",
     ["inputs", "histories"], "all field contents and all sequences of additions",
     "No test creates a reference; there are 27 fields, 13 kinds and arbitrary combinations.",
     ["src/tools/literature.hpp", "src/tools/literature.cpp", "src/util/singleton.hpp"],
     [("LiteratureReference", "src/tools/literature.hpp"), ("LiteratureManager::addReference", "src/tools/literature.cpp"), ("operator<<", "src/tools/literature.cpp")], ["LiteratureManager::addReference"])
prop("P35", "Fields are filled from expressions point by point; data is packed in order",
     "Filling a field visits every point of the field, including ghost cells, and at each one first sets the coordinate variables to the physical position of that point, then updates all dependent variables, then stores the value. A FieldFiller fills every field set up with it, in order, once per call, each with the coordinates, updater and value it was set up with, independently of other fillers and earlier calls; clearing it forgets all of them. A data buffer holds the bytes of all objects of the container, in order, and its iterators visit exactly those objects. A singleton is created exactly once, at first use.",
     ["inputs", "histories"], "all field sizes, all sequences of set-up calls",
     "No test uses FieldFiller, fill_field or DataBuffer.",
     ["src/tools/fieldtools.hpp", "src/tools/fieldtools.t", "src/util/databuffer.hpp", "src/util/databuffer.t", "src/util/singleton.hpp"],
     [("FieldFiller::set", "src/tools/fieldtools.hpp"), ("fill_field", "src/tools/fieldtools.t"), ("DataBuffer::iterator", "src/util/databuffer.hpp"), ("Singleton::instance", "src/util/singleton.hpp")], ["FieldFiller::set"])
prop("P36", "Arrays and grids are written as text completely and in the documented order",
     "Writing an array to a text stream writes its elements in order, separated by blanks. Writing a grid of rank 1 to 5 writes every element exactly once, the first index running fastest, elements of a row separated by blanks, a line break after every row and (from rank 3) one more after every plane of rows; an empty grid writes nothing. The numeric helpers (minimum, maximum, sign, sum, mean, cross product) compute what their names say for all arguments, and the n-th entry of a type list is the n-th type.",
     ["inputs"], "all index ranges (also negative, empty or single-element ones), all values",
     "No test writes a grid as text.",
     ["src/datastream.hpp", "src/datastream.t", "src/functions.hpp", "src/algo.t", "src/util/algohelper.hpp", "src/generic/typelist.hpp", "src/typetools.hpp"],
     [("operator<<", "src/datastream.t"), ("crossProduct", "src/functions.hpp"), ("mean", "src/algo.t"), ("TypeList", "src/generic/typelist.hpp")], ["operator<<"])
prop("P37", "A grid kept in a Kokkos view follows its bounds and its sharing grids",
     "For a grid stored in a Kokkos view: accessing an element reaches the view's element at the index relative to the grid's lower bound; the bounds, extents, size and strides reported are those of the grid and its view; a grid created with bounds or resized has a view of exactly hi-lo+1 elements per dimension; copies and assigned grids share the view, and a resize of any of them gives all of them, and no grid destroyed or re-pointed elsewhere, the new bounds, extents and view.",
     ["inputs", "histories"], "all bounds, all indices, all histories of creation, copy, assignment, resize and destruction",
     "The storage's tests are only built where Kokkos is installed and sample single histories.",
     ["src/grid/gridstorage/kokkos-storage.hpp"],
     [("KokkosGridStorage::get", "src/grid/gridstorage/kokkos-storage.hpp"), ("KokkosGridStorage::resize", "src/grid/gridstorage/kokkos-storage.hpp"), ("KokkosGridStorage::operator=", "src/grid/gridstorage/kokkos-storage.hpp")], ["KokkosGridStorage::operator="])
prop("P38", "Errors say what went wrong and where",
     "A requirement macro (SCHNEK_ASSERT, SCHNEK_REQUIRE, SCHNEK_ENSURE, SCHNECK_FAIL and their variants with an exception type) throws exactly when its condition is false, whatever expression the condition is, and the text of the exception names the function, the file, the line and the message given. Errors of variables, expressions and functions carry the reason and the name they were raised with. A setup file error carries its message and reports the file and line of the token it was raised for. The logger's ordinary output goes to standard output and its errors to standard error.",
     ["inputs"], "all conditions, messages, names and tokens",
     "Tests only check that an exception of some type is thrown, not what it says.",
     ["src/util/exceptions.hpp", "src/util/exceptions.cpp", "src/util/logger.hpp", "src/variables/types.hpp", "src/variables/expression.hpp", "src/parser/parsertoken.hpp"],
     [("ScheckException, SCHNEK_ASSERT", "src/util/exceptions.hpp"), ("VariableNotInitialisedException", "src/variables/types.hpp"), ("ParserError", "src/parser/parsertoken.hpp")], ["ScheckException::ScheckException"])
prop("P39", "Setup files are parsed according to their grammar",
     "A sequence of tokens is accepted exactly if it is a setup file: declarations of one or more variables with or without values, assignments, and blocks with or without a name; expressions of numbers, strings, variables, function calls with any number of arguments and brackets, with powers binding more strongly than products and quotients and those more strongly than sums, differences and signs. Whenever a construct is complete, what it stands for is done once, with the parts it consists of in their order. Anything else, including expressions too deeply nested for the parser, is a syntax error; nothing that was read is dropped.",
     ["inputs"], "all sequences of tokens",
     "Tests parse a few short setup files.",
     ["src/parser/deckgrammar.inc", "src/parser/deckgrammar.hpp", "src/parser/parser.cpp", "src/parser/parsertoken.t"],
     [("Parse, yy_reduce", "src/parser/deckgrammar.inc"), ("Parser::parse", "src/parser/parser.cpp")], ["Parse"])
json_path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(json_path, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))

#!/usr/bin/env python3
"""Writes properties.jsonl (the list is kept here because it is easier to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

S = "src/mathic/"
p("C01", "Divisor lists answer divisor and multiple queries exactly",
  "For every divisor-list configuration (array or linked list, with or without divisibility masks, sorted or unsorted, with or without automatic rebuilds) and at every point of every history of insertions, removals, reorderings and rebuilds, asking for a divisor of a monomial returns a stored entry that divides it whenever one exists and reports none otherwise. Asking for all divisors, or for all multiples, reports exactly the stored entries that divide, or are divided by, the monomial, duplicates included.",
  ["histories", "inputs", "configurations"],
  "all histories of list operations over all monomials (any number of variables, any exponents) and all list configurations",
  "The only divisor test constructs an empty list and tree; no query over a non-trivial history is ever made.",
  [S+"DivList.h", S+"DivMask.h", S+"Comparer.h"],
  [("linear scan with mask pre-check; sorted scan cut off by upper_bound", S+"DivList.h"),
   ("mask recomputation on rebuild", S+"DivList.h")],
  ["return values of findDivisor/findDivisorIterator", "entries passed to proceed()"])
p("C02", "k-d trees answer divisor and multiple queries exactly",
  "For every k-d tree configuration (binary or packed nodes, any leaf size, entry masks and subtree masks on or off, sorted leaves or not, divisor cache on or off, automatic rebuilds on or off) and at every point of every history of single and bulk insertions, removals, clears and rebuilds, asking for a divisor of a monomial returns a stored entry that divides it whenever one exists and reports none otherwise. Asking for all divisors, or for all multiples, reports exactly the stored entries that divide, or are divided by, the monomial.",
  ["histories", "inputs", "configurations"],
  "all histories of tree operations over all monomials and all tree configurations; at most a leaf's worth of identical entries",
  "No test inserts into a tree; which subtree is pruned depends on the whole history of splits and mask updates.",
  [S+"KDTree.h", S+"BinaryKDTree.h", S+"PackedKDTree.h", S+"KDEntryArray.h", S+"DivMask.h"],
  [("split on a variable and exponent; descend into both or one child", S+"BinaryKDTree.h"),
   ("packed children list with early stop", S+"PackedKDTree.h"),
   ("subtree masks as lower bounds of entry masks", S+"DivMask.h")],
  ["return values of findDivisor", "entries passed to proceed()"])
p("C03", "A divisor list holds exactly what was inserted and not removed",
  "After every operation on a divisor list, iteration, the visit of all entries, the size and the emptiness test agree with the multiset of entries inserted and not yet removed. Removing multiples removes and reports exactly the multiples of the given monomial and says whether there were any, removing one element removes one entry with those exponents if there is one and nothing else, and all other entries keep their relative order. An unsorted list keeps insertion order except that moving an entry to the front puts that entry first, and a list configured as sorted is always iterated in sorted order.",
  ["histories", "inputs", "configurations"],
  "all histories of list operations in all list configurations",
  "No test removes from, moves within or iterates over a list with entries.",
  [S+"DivList.h"],
  [("compaction while removing", S+"DivList.h"), ("sorted insertion", S+"DivList.h"), ("splice / shift to the front", S+"DivList.h")],
  ["begin()/end()", "size()", "forAll", "removeMultiples output"])
p("C04", "A k-d tree holds exactly what was inserted and not removed",
  "After every operation on a k-d tree, the visit of all entries, the size and the emptiness test agree with the multiset of entries inserted, one at a time or as a range, and not yet removed or cleared. Removing multiples removes and reports exactly the multiples of the given monomial and says whether there were any; removing one element removes one entry with those exponents if there is one and nothing else. The insertion of an entry that is refused because a leaf is full of identical entries throws and changes nothing.",
  ["histories", "inputs", "configurations"],
  "all histories of tree operations in all tree configurations",
  "No test inserts into or removes from a tree.",
  [S+"KDTree.h", S+"BinaryKDTree.h", S+"PackedKDTree.h", S+"KDEntryArray.h"],
  [("splitting of full leaves", S+"KDEntryArray.h"), ("size bookkeeping", S+"KDTree.h")],
  ["forAll", "size()", "removeMultiples output", "removeElement result"])
p("C05", "Divisibility masks never rule out a true divisor",
  "Whatever entries the meaning of the mask bits was last computed from (none, some, any exponents, any number of variables), if one monomial divides another then the mask of the first can divide the mask of the second. A mask lowered to a bound of several masks can divide everything that any of the monomials divides, and an entry or reference extended with its mask reports divisibility exactly as the monomials themselves do.",
  ["inputs", "configurations"],
  "all monomials, all entry sets used to choose the bits, all variable counts and exponent types",
  "Masks are never computed for a non-empty set of entries in the tests.",
  [S+"DivMask.h"],
  [("monotone threshold bits", S+"DivMask.h"), ("combineAnd", S+"DivMask.h")],
  ["canDivide", "Extender::divides"])
p("C06", "Rebuilding a divisor structure never changes its answers or contents",
  "Rebuilding a divisor list or k-d tree, explicitly at any moment or automatically at any rebuild ratio and minimum, changes neither the entries held nor the answer to any query. A structure whose history is interleaved with rebuilds is indistinguishable, except for the choice among several divisors, from one that is never rebuilt, and it accepts further operations in the same way; rebuilding an empty structure is harmless.",
  ["histories", "configurations"],
  "all placements of explicit rebuilds and all automatic rebuild parameters in all histories",
  "No test rebuilds.",
  [S+"DivList.h", S+"KDTree.h", S+"BinaryKDTree.h", S+"PackedKDTree.h", S+"DivMask.h"],
  [("rebuild / reportChanges", S+"KDTree.h"), ("rebuild / reportChanges", S+"DivList.h"), ("reset from a range", S+"PackedKDTree.h")],
  ["answers of two structures driven by the same history"])
p("C07", "Visitors see each match once and stop exactly when they ask to",
  "When all divisors, all multiples or all entries of a divisor list or k-d tree are visited, each matching entry is passed to the visitor exactly once until the visitor returns false, after which it is not called again. A visit, complete or cut short at any point, through a constant or a mutable reference, leaves the structure unchanged and fully usable for every later operation.",
  ["histories", "inputs", "configurations"],
  "all stopping points of all visits in all configurations",
  "No test passes a visitor to a structure with entries.",
  [S+"DivList.h", S+"BinaryKDTree.h", S+"PackedKDTree.h", S+"KDEntryArray.h"],
  [("return value of proceed propagated up", S+"KDEntryArray.h"), ("navigation stack emptied on early exit", S+"BinaryKDTree.h")],
  ["sequence of calls to proceed()"])
p("C08", "The divisor cache never makes a query wrong",
  "A k-d tree with the divisor cache turned on, from the start or at some later point through the configuration it hands out, answers whether there is a divisor exactly as one without it does, at every point of every history. What it returns is always an entry currently stored in the tree: never one that was removed, cleared away or relocated by an insertion, a removal or a rebuild.",
  ["histories"],
  "all interleavings of queries with operations that change, move or remove entries, or turn the cache on or off",
  "No test turns the cache on; a stale pointer only shows when a query hits, then the entry goes, then a query would hit it again.",
  [S+"KDTree.h"],
  [("cache cleared in reportChanges and on rebuild", S+"KDTree.h")],
  ["address and content of what findDivisor returns"],
  [("_divisorCache", "divisor returned by the previous query", S+"KDTree.h")])
p("C09", "Divisor structures manage the lifetime of their entries exactly",
  "Divisor lists and k-d trees construct and destroy the entries they hold in matching pairs: no entry is used before construction or after destruction, none is destroyed twice, and the number of live entries held by a structure always equals its size. After a structure is cleared or destroyed every entry it held has been destroyed, so that entries owning resources are safe.",
  ["histories", "configurations"],
  "all histories in all configurations, with entries that own resources",
  "The tests use no entries with observable construction or destruction.",
  [S+"KDEntryArray.h", S+"BinaryKDTree.h", S+"PackedKDTree.h", S+"DivList.h"],
  [("placement new and explicit destructor calls in leaf memory", S+"KDEntryArray.h"), ("clear() walks the tree before freeing the arena", S+"BinaryKDTree.h")],
  ["constructor, assignment and destructor calls of the entry type"])
p("C10", "The heap always delivers a maximal element",
  "For every sequence of pushes (single or as a range), pops and replacements of the top on the heap, with either index scheme, top and pop yield an element that no element in the queue exceeds. The elements ever popped together with those still inside are exactly the elements pushed, with nothing lost, invented or altered, and size and emptiness say so.",
  ["histories", "inputs", "configurations"],
  "all operation sequences, all orders with ties, both index schemes",
  "No unit test touches the heap.",
  [S+"Heap.h", S+"ComTree.h"],
  [("hole moved down, value moved up", S+"Heap.h"), ("implicit tree indices", S+"ComTree.h")],
  ["top()", "pop()", "size()", "empty()", "forAll"])
p("C11", "The tournament tree always delivers a maximal element",
  "For every sequence of pushes (single or as a range), pops and replacements of the top on the tournament tree, top and pop yield an element that no element in the queue exceeds. The elements ever popped together with those still inside are exactly the elements pushed, with nothing lost, invented or altered.",
  ["histories", "inputs"],
  "all operation sequences, all orders with ties",
  "The tournament tree is tested only indirectly, through the pair queue on fixed small inputs.",
  [S+"TourTree.h", S+"ComTree.h"],
  [("winners copied to parents; replay of the path on change", S+"TourTree.h"), ("player pointers rebased on reallocation", S+"TourTree.h")],
  ["top()", "pop()", "empty()", "forAll"])
p("C12", "The geobucket always delivers a maximal element in every configuration",
  "For every geobucket configuration (geometric base, minimum bucket size, insertion factor, front tracking, binary or linear search, premerging, cached maxima, each of the three storage schemes) and every sequence of single pushes, sorted range pushes, pops, clears and replacements of the top, top and pop yield an element that no element in the queue exceeds. The elements ever popped together with those still inside are exactly the elements pushed, with nothing lost, invented or altered, and size and emptiness say so.",
  ["histories", "inputs", "configurations"],
  "all operation sequences in all configurations",
  "No unit test touches the geobucket; its merges depend on how full every bucket is.",
  [S+"Geobucket.h", S+"GeoFront.h"],
  [("cascade of merges into larger buckets", S+"Geobucket.h"), ("sorted front of buckets", S+"GeoFront.h")],
  ["top()", "pop()", "size()", "empty()", "forAll"])
p("C13", "The set-based queue always delivers a maximal element",
  "For every sequence of pushes (single or as a range) and pops on the queue based on a standard ordered set, top and pop yield an element that no element in the queue exceeds. The elements ever popped together with those still inside are exactly the elements pushed, with nothing lost, invented or altered, equal elements included, and emptiness says so.",
  ["histories", "inputs", "configurations"],
  "all operation sequences, all orders with ties",
  "No unit test touches the set-based queue.",
  [S+"StlSet.h"], [("std::multiset ordered by the configuration", S+"StlSet.h")],
  ["top()", "pop()", "empty()"])
p("C14", "Deduplication merges equal elements and nothing else",
  "In a heap or geobucket that supports deduplication, elements are combined only with elements that compare equal to them, every combination removes exactly one element from the queue and keeps the combined payload of both, and no two combinable elements are combined twice. Whenever two elements are compared and the configuration says that they are equal, these two are combined. Over any history the payload popped for each key plus the payload still inside equals the payload pushed for it, and the number of elements inside equals pushes minus pops minus combinations.",
  ["histories", "inputs", "configurations"],
  "all operation sequences with duplicate keys, all configurations with deduplication",
  "No unit test uses deduplication.",
  [S+"Heap.h", S+"Geobucket.h"],
  [("deduplicate on the way up, moving elements back", S+"Heap.h"), ("deduplicate in merge and in small-bucket insertion", S+"Geobucket.h")],
  ["calls of deduplicate", "popped payloads", "size()"])
p("C15", "Bulk queue operations agree with their elementary meaning",
  "On the heap, tournament tree and geobucket, replacing the top by an element that is not larger is the same as popping and pushing that element, visiting all elements passes each element in the queue exactly once until the visitor asks to stop and changes nothing, and clearing leaves an empty queue that works like a new one however it was used before. Pushing a range is the same as pushing its elements one by one, also when the range is empty, and moving a heap transfers all its elements and leaves the source empty and usable.",
  ["histories", "configurations"],
  "all operation sequences with these operations at any point, in all configurations",
  "No unit test calls these operations on a queue.",
  [S+"Heap.h", S+"TourTree.h", S+"Geobucket.h", S+"GeoFront.h", S+"ComTree.h"],
  [("decreaseTop / clear / forAll / move constructor", S+"Heap.h"), ("front reset on clear", S+"GeoFront.h")],
  ["contents after the operation", "visitor calls"])
p("C16", "The pair queue delivers every added pair once, largest first",
  "For every sequence of added columns (empty, short or long, any subset of the smaller indices in descending order) and pops on the pair queue, without retirement, the top is always a maximal pair among those added and not yet popped, and every added pair is delivered exactly once. The pair, column and emptiness counts are exact, and the pair data exposed for the top is the data of that very pair; all of this holds also when column indices exceed the range of 16-bit numbers.",
  ["histories", "inputs"],
  "all interleavings of column additions and pops, all orders with ties, small and large indices",
  "The tests fix a few orders of a handful of pairs.",
  [S+"PairQueue.h", S+"TourTree.h"],
  [("one tournament entry per column, advanced in place", S+"PairQueue.h"), ("16-bit or 32-bit row storage", S+"PairQueue.h")],
  ["topPair", "topPairData", "pairCount", "columnCount", "empty"])
p("C17", "Retired indices never surface again in the pair queue",
  "Once an index is retired, no pair involving it is ever the top pair again and no pair data is computed for such a pair any more, while every other pair is still delivered exactly once and in order. An index reports as retired exactly when it was retired, which is never on a queue without support for retirement, the queue is empty exactly when no pair of live indices remains, and the pair count is never below the number of remaining live pairs.",
  ["histories"],
  "all interleavings of column additions, pops and retirements",
  "Two tests retire fixed indices of one small triangle.",
  [S+"PairQueue.h"],
  [("skipping of retired rows and columns when the top advances", S+"PairQueue.h")],
  ["topPair", "computePairData calls", "retired", "pairCount", "empty"],
  [("mRetired", "flag per index", S+"PairQueue.h")])
p("C18", "Pair data is constructed, refreshed and destructed in matching pairs",
  "Every pair data object of a pair queue is constructed once and destructed once, through the configurable construction and destruction functions only, and the destruction function is told the pair that the data currently describes. Comparisons only ever receive live data that describes the pair they are given, and when the queue is destroyed, whatever its state, no pair data stays behind.",
  ["histories", "configurations"],
  "all histories, with and without retirement, default and specialised functions",
  "One test counts constructions on one fixed history.",
  [S+"PairQueue.h"],
  [("manual construction in arena memory", S+"PairQueue.h"), ("destruct on exhausted or retired column", S+"PairQueue.h")],
  ["constructPairData / destructPairData / compare calls"])
p("C19", "A failed column addition leaves the pair queue unchanged",
  "If computing the pair data of a new column throws an exception, or memory for the column runs out, the exception reaches the caller and the pair queue is left as before the call: same column count, pairs, retirement state and order, nothing leaked or destructed twice. The addition can then be repeated and the queue used normally, and memory does not pile up however often additions fail.",
  ["fault_sequences", "histories"],
  "an exception at any pair data computation or memory allocation made during any column addition of any history",
  "No test throws from the configuration.",
  [S+"PairQueue.h"],
  [("try/catch with undo and an arena guard", S+"PairQueue.h")],
  ["queue state before and after", "construct/destruct balance"])
p("C20", "The bit triangle is an independent set of bits, initially false",
  "In a bit triangle with any number of columns, every bit (column, row) with row smaller than column reads as the value last set for exactly that pair, or false if it was never set since its column was added. Setting one bit or adding a column changes no other bit, the unordered accessors address the same bits with their arguments in either order, and the column count is the number of columns added.",
  ["histories", "inputs"],
  "all sequences of column additions, settings and readings",
  "The test sets and reads a few bits of a small triangle.",
  [S+"BitTriangle.h", S+"BitTriangle.cpp"], [("vector of bit vectors", S+"BitTriangle.h")],
  ["bit", "bitUnordered", "columnCount"])
p("C21", "The hash table is a map whose handles stay valid while it grows",
  "For every sequence of insertions, lookups and removals, with any key type, hash function (however many collisions) and initial size, looking up a key finds a handle with that key and the value last stored through it exactly when the key is in the table. Inserting an existing key reports so and returns the existing handle without changing its value, and handles keep their address, key and value while the table grows.",
  ["histories", "inputs", "configurations"],
  "all operation sequences, hash functions and initial table sizes",
  "The tests insert a handful of strings; the table never grows and no bin holds a long chain.",
  [S+"HashTable.h"], [("chained bins, growth by relinking nodes", S+"HashTable.h")],
  ["insert / lookup / remove results", "handle addresses and contents"])
p("C22", "The column printer lays every table out in aligned columns",
  "For any columns, texts, prefixes, suffixes and flush directions, the printed table has as many lines as the longest column, each line consists of the line prefix and then for each column its prefix, its cell padded on the proper side to the width of the widest cell of that column, and its suffix. Every cell's text appears unchanged exactly once in its place, cells filled to the end of the line are padded with the requested character, and printing changes nothing, so that printing again gives the same.",
  ["inputs", "configurations"],
  "all tables", "There is no test of the column printer.",
  [S+"ColumnPrinter.h", S+"ColumnPrinter.cpp"], [("two passes: widths, then rows", S+"ColumnPrinter.cpp")],
  ["printed text"])
p("C23", "Formatted numbers are correct for every value",
  "For every number in range: digits grouped with commas read back as the same number and are grouped in threes from the right; amounts with a decimal prefix or in byte units denote the number rounded to the printed precision, with a mantissa in the range of its unit; and ratios and percentages denote the quotient to one decimal. Zero denominators are reported as such, fixed-width percentages are padded to their width, and nothing ever reads out of bounds.",
  ["inputs"],
  "all 64-bit numbers and all quotients of non-negative numbers up to the range of the printed digits", "There is no test of number formatting.",
  [S+"ColumnPrinter.cpp"], [("unit selection with rounding-aware cut-offs", S+"ColumnPrinter.cpp")],
  ["returned strings"])
p("C24", "Command-line names resolve to the one entity they denote",
  "For any set of registered names, a name or prefix resolves to the registered name equal to it, or else to the only registered name that starts with it. A prefix of no name and an ambiguous prefix raise their own distinct errors, the latter naming the candidates; listing names by prefix gives exactly the matching names in increasing order, and creating by exact name gives the product registered under it or none.",
  ["inputs"],
  "all sets of distinct names and all prefixes", "There is no test of the command-line classes.",
  [S+"NameFactory.h", S+"CliParser.cpp"], [("uniqueNameWithPrefix", S+"NameFactory.h")],
  ["resolved name, product or exception"])
p("C25", "Command lines are parsed into exactly the stated options",
  "For any action and any command line, parsing hands the action the arguments that precede the first option, gives each named parameter the argument that follows it (or none), in order, and leaves all other parameters at their defaults. Integer parameters accept exactly canonical non-negative decimal numbers in range, boolean parameters exactly on, off or nothing, string parameters anything, and the displayed value of a parameter is what it was given; malformed command lines raise errors.",
  ["inputs"],
  "all command lines over all parameter sets", "There is no test of the command-line classes.",
  [S+"CliParser.cpp", S+"IntegerParameter.cpp", S+"BoolParameter.cpp", S+"StringParameter.cpp", S+"Action.cpp"],
  [("split in direct options and options", S+"CliParser.cpp"), ("round-trip check of integers", S+"IntegerParameter.cpp")],
  ["parameter values", "direct options", "exceptions"])
p("C26", "Displayed messages are wrapped without losing words",
  "A displayed message appears on the error stream with the same words in the same order, every line starting with the given prefix and the indentation of the message line it comes from. Lines are broken only at white space and only when the next word would not fit in 79 columns, explicit line breaks and empty lines are kept, and the note, error and internal-error variants differ only in their leading label.",
  ["inputs"],
  "all messages and prefixes", "There is no test of message display.",
  [S+"display.cpp"], [("word-by-word printer", S+"display.cpp")],
  ["text written to the error stream"])
p("C27", "The timer reports the elapsed processor time",
  "At any moment the timer reports the processor time since its construction or last reset, rounded to the nearest millisecond. The printed form denotes the same number of milliseconds, split into hours, minutes, seconds and three-digit milliseconds, omitting only leading zero units.",
  ["inputs", "histories"],
  "all elapsed times and reset moments", "There is no test of the timer.",
  [S+"Timer.h", S+"Timer.cpp"], [("clock() difference", S+"Timer.cpp")],
  ["getMilliseconds", "printed text, with a controlled clock"])
p("C28", "No documented use makes the library misbehave at the memory level",
  "Under any documented use of any class of the library, in any configuration, there is no out-of-bounds or use-after-free access, no invalid or double free, no read of an uninitialised value that matters, no signed overflow or other undefined operation, and no leak of memory that the library owns. The library's own internal consistency assertions, when compiled in, hold throughout.",
  ["histories", "inputs", "configurations"],
  "all documented uses of all classes", "The tests run without sanitizers and touch a small part of the classes.",
  [S+"KDEntryArray.h", S+"PackedKDTree.h", S+"BinaryKDTree.h", S+"ComTree.h", S+"TourTree.h", S+"Geobucket.h", S+"GeoFront.h", S+"PairQueue.h", S+"HashTable.h", S+"ColumnPrinter.cpp", S+"display.cpp"],
  [("manual memory layout in arenas and raw arrays", S+"PackedKDTree.h")],
  ["sanitizer, allocator and assertion reports"])
p("C29", "Operations stay within their stated cost",
  "The heap and the tournament tree make at most a logarithmic number of comparisons per push, pop and replacement of the top; the geobucket makes an amortised logarithmic number; and the pair queue makes a number of comparisons logarithmic in the number of columns per column added and per pair popped, and computes the data of each pair at most once. The hash table calls the key comparison a bounded number of times per operation on average for a good hash function, however large it grows, and queries on a divisor structure test each stored entry against the query at most once (a cached divisor possibly once more).",
  ["histories", "inputs", "configurations"],
  "all operation sequences of all sizes", "The tests count nothing.",
  [S+"Heap.h", S+"TourTree.h", S+"Geobucket.h", S+"PairQueue.h", S+"HashTable.h", S+"KDTree.h", S+"DivList.h"],
  [("implicit trees, geometric buckets, table growth", S+"Heap.h")],
  ["number of calls of compare, keysEqual, divides and computePairData"])
p("C30", "Reported memory use covers what a structure has allocated",
  "The memory use reported by a queue, divisor structure, bit triangle or hash table is never less than the memory needed to hold its current elements and is never more than a small factor above what it has actually allocated; apart from what elements point to and the retirement marks of a pair queue, it is not a larger factor below it either. It does not shrink below the contents when elements are added, and removing or clearing elements does not make it grow beyond the working space of a traversal.",
  ["histories", "configurations"],
  "all histories in all configurations", "No test reads the memory use of a structure with contents.",
  [S+"Heap.h", S+"TourTree.h", S+"Geobucket.h", S+"PairQueue.h", S+"HashTable.h", S+"KDTree.h", S+"DivList.h", S+"BitTriangle.cpp"],
  [("capacity times element size, plus arenas", S+"ComTree.h")],
  ["getMemoryUse against an interposed allocator's count"])
p("C31", "The simulation programs run every queue and structure to agreement",
  "The priority-queue simulator completes normally for every number of elements, positive span length, positive average size and duplicate percentage, and every queue it compares processes the same events and produces the same results. The divisor simulator completes normally and reports the same number of divisors found for every structure and configuration it compares on a given simulation.",
  ["inputs", "configurations"],
  "all argument values of the simulators", "The programs are never run by the tests.",
  ["src/pqsim/Simulator.cpp", "src/pqsim/Simulator.h", "src/pqsim/pqMain.cpp", "src/pqsim/Item.h", "src/divsim/Simulation.cpp", "src/divsim/divMain.cpp", "src/divsim/DivListModel.h", "src/divsim/KDTreeModel.h"],
  [("same event list replayed on every model", "src/pqsim/Simulator.h")],
  ["exit status, diagnostics and output of the programs"])
p("C32", "Help lists every action and describes each parameter",
  "The help action without a topic displays the registered messages and one aligned line for every registered action, in increasing order of names, with its short description. With a topic, resolved like any action name, it displays that action's description and, for each of its parameters in increasing order of names, the name, argument type, current default and description; more than one topic or an unknown topic raises an error.",
  ["inputs"],
  "all sets of actions and parameters", "There is no test of the help action.",
  [S+"HelpAction.cpp", S+"CliParser.cpp", S+"CliParser.h"], [("displayActionHelp", S+"HelpAction.cpp")],
  ["text written to the error stream", "exceptions"])
p("C33", "The packed tree keeps its elements through growth, copies and moves",
  "A packed complete binary tree, with either index scheme, holds exactly the elements pushed on its end and not yet popped or cleared, in order, whatever growths, assignments to elements, copies with any minimum capacity, moves and swaps come in between. Copies are independent of the original, a tree that was moved from is empty and usable, it tells truly how many more elements fit, and its nodes lead to their parents, children, siblings and neighbours as in a complete binary tree numbered level by level.",
  ["histories", "inputs", "configurations"],
  "all histories of operations on trees that come from one another, all entry sizes, both index schemes",
  "No unit test touches the packed tree; which array an element is read from depends on the history of growths, copies and swaps.",
  [S+"ComTree.h"],
  [("node arithmetic with indices or byte offsets", S+"ComTree.h"), ("copying into an array of the new capacity", S+"ComTree.h")],
  ["operator[]", "size()", "lastLeaf()", "hasFreeCapacity()", "node comparisons"])
p("C34", "Reported errors raise the right exception with the whole message",
  "Every way of reporting an error raises an exception of exactly the class that was asked for: expected errors are all caught as MathicException and as std::runtime_error, internal errors as InternalMathicException and std::logic_error, and neither as the other. Its text is the whole message, however long and whatever it contains, after the label of its kind, with the file and line of the place where those are given, and it outlives the strings it was made from; raising an error displays nothing.",
  ["inputs"],
  "all messages, files and line numbers, all ways of reporting",
  "No test raises an error of the library or looks at its text.",
  [S+"error.h", S+"error.cpp"], [("exception hierarchy and reporting functions", S+"error.h")],
  ["class and text of the exception that is raised"])
p("C35", "Separate objects do not influence one another",
  "Any number of divisor structures, queues, pair queues, bit triangles, hash tables, packed trees, mask calculators, printers, parsers and timers can exist at the same time, of equal or different types, and each behaves as if it was alone, however their operations follow one another and when one is used inside a call of another's configuration. Separate objects other than divisor structures, which share scratch memory, can be used in different threads at the same time without a data race.",
  ["histories", "schedules", "configurations"],
  "all interleavings of operations on separate objects, in one thread or several",
  "The tests use one object at a time in one thread.",
  [S+"KDTree.h", S+"DivList.h", S+"DivMask.h", S+"Geobucket.h", S+"Heap.h", S+"TourTree.h", S+"PairQueue.h", S+"HashTable.h", S+"BitTriangle.h", S+"ColumnPrinter.cpp", S+"CliParser.h", S+"NameFactory.h"],
  [("no mutable static state anywhere; working storage is a member", S+"PackedKDTree.h")],
  ["results of operations with and without other objects", "ThreadSanitizer reports"])
p("C36", "Automatic rebuilds happen when they are due and only then",
  "With automatic rebuilds on, a divisor list or k-d tree rebuilds itself in the insertion or removal that brings the number of entries inserted and removed since the last rebuild to max(size() * rebuild ratio, rebuild minimum), and never in one before that, whatever mixture of single insertions, range insertions, removals of one entry or of many at once led there. Explicit rebuilds, clearing and the insertion of a range into an empty structure count as rebuilds and start the count afresh. With automatic rebuilds off, no insertion or removal rebuilds. size() may be that of any moment since the last rebuild.",
  ["histories", "configurations"],
  "all histories, rebuild ratios and minimums",
  "No test turns automatic rebuilds on.",
  [S+"DivFinder.h", S+"DivList.h", S+"KDTree.h"],
  [("when rebuild is called", S+"DivFinder.h"), ("reportChanges / resetNumberOfChangesTillRebuild", S+"KDTree.h"), ("reportChanges / resetNumberOfChangesTillRebuild", S+"DivList.h")],
  ["copies of entries made and exponents read within one operation"])
p("C37", "Printing a queue shows what is in it and changes nothing",
  "At any moment in any history, print() of a queue starts with its name and ends the line, leaves the queue as it was, and prints the same again. A heap shows each of its elements once, a set-based queue each of its elements in order of priority, and a geobucket the number of elements in each bucket, which add up to the size of the queue, with all the elements of small buckets and the first two and last two of larger ones, in order and each of them in the queue.",
  ["histories", "configurations"],
  "all histories and configurations",
  "No test prints a queue.",
  [S+"Heap.h", S+"ComTree.h", S+"Geobucket.h", S+"StlSet.h", S+"TourTree.h"],
  [("print", S+"Heap.h"), ("print", S+"ComTree.h"), ("print", S+"Geobucket.h"), ("print", S+"StlSet.h"), ("print", S+"TourTree.h")],
  ["what print() writes to the stream"])
p("C38", "The name of a structure tells its configuration",
  "getName() of a divisor list, k-d tree, heap, tournament tree, geobucket or set-based queue is one line of text that depends on its type and options alone. Two of them have the same name exactly when they are of the same type with the same switches and numbers (as far as these have an effect in that type and can be told apart when printed), so that results reported by name, as the simulators do, are never attributed to another configuration.",
  ["configurations"],
  "all pairs of configurations",
  "No test looks at a name.",
  [S+"DivList.h", S+"KDTree.h", S+"Heap.h", S+"TourTree.h", S+"Geobucket.h", S+"StlSet.h"],
  [("getName", S+"DivList.h"), ("getName", S+"KDTree.h"), ("getName", S+"Heap.h"), ("getName", S+"TourTree.h"), ("getName", S+"Geobucket.h"), ("getName", S+"StlSet.h")],
  ["the names of objects of many configurations"])
p("C39", "A structure asks its own copy of the configuration and no other",
  "A divisor list, k-d tree, heap, tournament tree, geobucket, set-based queue, pair queue or hash table copies the configuration it is made from when it is constructed, keeps exactly one copy and makes none later. Once constructed it depends on the original no more, which can be changed or destroyed: every function of the configuration is called on the one object that getConfiguration() or configuration() returns, which stays where it is for the life of the structure, keeps what the user stores in it and is destroyed with the structure.",
  ["histories", "configurations"],
  "all histories",
  "No test uses a configuration with state and looks at it.",
  [S+"DivList.h", S+"KDTree.h", S+"BinaryKDTree.h", S+"PackedKDTree.h", S+"Heap.h", S+"TourTree.h", S+"Geobucket.h", S+"GeoFront.h", S+"StlSet.h", S+"PairQueue.h", S+"HashTable.h"],
  [("documentation of the configuration", S+"Geobucket.h"), ("constructor", S+"KDTree.h"), ("configuration", S+"PairQueue.h"), ("configuration", S+"HashTable.h"), ("Cmp", S+"StlSet.h"), ("Comparer", S+"Comparer.h")],
  ["construction, copying, destruction and calls of configurations"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))

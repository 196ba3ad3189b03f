#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), tech=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, state=state, observe=observe, tech=tech, note=note))

prop("C01", "BDD operations are exact and canonical",
 "Every BDD operation (not, and, or, xor, imp, nand, nor, xnor, if-then-else) on any operands yields a diagram that evaluates, at every assignment, to that Boolean connective of the operands. Two diagrams of one manager denote the same function exactly when they are the same node, however, in whatever order and over whatever variable order they were built; this holds at any forest size and number of variables.",
 ["inputs", "histories", "configurations"], "all operand pairs and triples, all construction orders, all variable orders, warm and cold computed tables, forests of any size",
 "Tests evaluate a handful of formulas and compare dot output or counts; they never quantify over operand pairs, construction orders or forests large enough for the computed table to collide and grow.",
 ["bddcore/src/bdd.rs", "bddcore/src/bdd_ops.rs", "common/src/compute_cache.rs", "bss/src/bdd.rs"],
 [("unique table and redundant-node elimination on node creation", "bddcore/src/bdd.rs"), ("terminal cases and operand normalisation of the recursive apply", "bddcore/src/bdd_ops.rs")],
 [("unique table", "one node per (variable, low, high)", "bddcore/src/bdd.rs"), ("computed table", "results of earlier operations", "bddcore/src/bdd_ops.rs")],
 ["BddNode and/or/xor/not/ite/eq", "BddManager operations"],
 "explicit-state enumeration of all functions and operation pairs/triples on the real managers against truth tables",
 "All 256x256 pairs x 7 operations and all 256^3 ite triples of 3-variable functions (every header order, sparse and huge levels), all 65536 4-variable functions, undetermined branches, forests beyond 2^17 nodes, 70000 variables, multiplier circuits that force the computed table to grow. Trusted: the truth-table reference model and the diagram walker.")

prop("C02", "A BDD handle keeps its function across every garbage collection",
 "As long as a BDD handle (or a clone of it, or a path iterator made from it) is alive, it denotes the function it was created with, whatever operations, explicit collections, automatic collections at any threshold, cache clearings, clones and drops happen in between. Results computed after a collection are the same functions, and equal functions are still equal handles, as without the collection.",
 ["histories"], "all histories of handle operations, drops, clones, collections and iterator steps",
 "Tests run a few fixed histories; a stale computed-table entry or a recycled slot shows only when a specific dead node's slot is reused by a specific new node and the same operation is asked again.",
 ["bddcore/src/bdd.rs", "bss/src/bdd.rs", "bss/src/bdd_path.rs", "common/src/compute_cache.rs"],
 [("mark from the registered roots and sweep", "bddcore/src/bdd.rs"), ("root registration in the handle's constructor, clone and drop", "bss/src/bdd.rs"), ("purge of computed-table entries with dead operands or results", "common/src/compute_cache.rs")],
 [("root reference counts", "which nodes have live handles", "bss/src/bdd.rs"), ("free list", "slots to recycle", "bddcore/src/bdd.rs")],
 ["BddNode operations after BddMgr::gc / set_gc_threshold"],
 "exhaustive enumeration of operation/collection histories on the real managers against truth tables",
 "All handle histories of 4 (thorough 5) actions over 26 actions; all (F, op, keep-set, G) collect-and-recompute histories over all 3-variable functions; every pair of roots; every threshold 1..16; iterators paused at every position. Single-threaded by construction of the library (handles are Rc).")

prop("C03", "ZDD operations are exact set-family algebra and canonical",
 "Union, intersection, difference, product (all pairwise unions) and quotient (all q disjoint from every divisor set b with q united with b in the dividend) of any two families give exactly that family; a quotient by the empty family is undetermined. Two family handles of one manager are equal exactly when the families are equal, however built and in whatever order elements were introduced.",
 ["inputs", "histories", "configurations"], "all pairs of families, all element orders, all construction orders",
 "Tests use a few families of two or three sets; before this work intersection lost the empty set and quotient was wrong for most families although every test passed.",
 ["bddcore/src/zdd.rs", "bddcore/src/zdd_ops.rs", "bss/src/zdd.rs", "bss/src/zdd_convert.rs"],
 [("zero-suppression rule and unique table on node creation", "bddcore/src/zdd.rs"), ("terminal cases and level comparison in each recursive operation", "bddcore/src/zdd_ops.rs")],
 [("unique table", "one node per (element, low, high)", "bddcore/src/zdd.rs")],
 ["ZddNode union/intersect/setdiff/product/divide/eq/extract", "ZddMgr from_sets/singleton"],
 "explicit-state enumeration of all pairs of families on the real managers against bit-set families",
 "All 256x256 pairs of families over 3 elements x 5 operations under every element order and sparse levels, cold and warm tables; 4-element families against structured operands (thorough: deeper); handles from sets in every listing order; lists of up to 130000 sets.")

prop("C04", "A ZDD handle keeps its family across every garbage collection",
 "As long as a ZDD handle (or a clone, or a set iterator made from it) is alive it denotes the family it was created with, whatever operations, collections at any threshold, cache clearings, clones and drops happen in between. Families computed after a collection are exact, and equal families are equal handles.",
 ["histories"], "all histories of family operations, drops, clones, collections and iterator steps",
 "Tests run a few fixed histories; stale entries need a specific slot reuse.",
 ["bddcore/src/zdd.rs", "bss/src/zdd.rs", "bss/src/zdd_path.rs", "common/src/compute_cache.rs"],
 [("mark and sweep from registered roots", "bddcore/src/zdd.rs"), ("root registration in the handle", "bss/src/zdd.rs"), ("computed-table purge", "common/src/compute_cache.rs")],
 [("root reference counts", "which nodes have live handles", "bss/src/zdd.rs")],
 ["ZddNode operations after automatic collection"],
 "exhaustive enumeration of operation/collection histories on the real managers against bit-set families",
 "All handle histories of 4 (thorough 5) actions; all (F, op, keep-set, G) collect-and-recompute histories over all 3-element families; every pair of roots; every threshold 1..16; set iterators paused at every position with collections in between.")

prop("C05", "Multi-valued decision diagrams: Boolean operations exact and canonical",
 "Over variables with any numbers of states (at least two), the Boolean operations, if-then-else and filling of undetermined points give, at every state vector, the connective of the operands' values; equal functions are the same node and different functions different nodes.",
 ["inputs", "configurations", "histories"], "all operand pairs and triples over mixed-radix domains, all variable orders, any range",
 "Tests evaluate a few functions over one domain; cross-products of different ranges and operand orders are not sampled.",
 ["mddcore/src/mdd.rs", "mddcore/src/mdd_ops.rs"],
 [("redundant-node elimination over all edges and unique table", "mddcore/src/mdd.rs"), ("terminal cases and edge-wise recursion", "mddcore/src/mdd_ops.rs")],
 [("unique table", "one node per (variable, children)", "mddcore/src/mdd.rs")],
 ["MddManager operations", "MddNode and/or/xor/not/ite"],
 "explicit-state enumeration of all functions over small mixed-radix domains on the real managers against tables",
 "All pairs over domains (2,3), (3,2), (2,2,2), (3), (4); all ite triples on (2,2)/(3); undetermined operands where defined; variables with up to 300 states; sparse levels; all header orders.")

prop("C06", "Multi-terminal diagrams: integer arithmetic exact, undetermined absorbing",
 "Addition, subtraction, multiplication, division, remainder, minimum and maximum of two value diagrams give at every state vector the integer operation of the operands' values, truncated division, with undetermined whenever an operand is undetermined or the divisor is zero. Equal functions are the same node.",
 ["inputs", "configurations"], "all operand pairs over small domains and value alphabets including negatives, zero, large values and undetermined",
 "Tests check a few sums and maxima over positive values; identities that shortcut terminals (0, 1, equal operands) and undetermined mixes are not sampled.",
 ["mddcore/src/mtmdd.rs", "mddcore/src/mtmdd_ops.rs", "mddcore/src/mtmdd2_ops.rs", "mss/src/mdd.rs"],
 [("shortcut cases and leaf arithmetic of the recursive apply", "mddcore/src/mtmdd_ops.rs"), ("terminal sharing by value", "mddcore/src/mtmdd.rs")],
 [("terminal table", "one terminal per value", "mddcore/src/mtmdd.rs")],
 ["MtMddManager add/sub/mul/div/rem/min/max/replace", "MddNode add/sub/mul/div/min/max"],
 "explicit-state enumeration of all value functions over small domains and alphabets against tables",
 "All pairs of functions over domains (2),(3),(2,2) with alphabets mixing negatives, 0, 1, large values and undetermined, x 8 operations, cold and warm; i32 and i64 terminals.")

prop("C07", "Comparisons and if-then-else between value and Boolean diagrams are exact",
 "Comparing two undetermined-free value diagrams with ==, !=, <, <=, >, >= gives the Boolean diagram of the pointwise comparison; if-then-else selects pointwise between two Boolean or two value diagrams (undetermined leaves included), and guarding a value by a condition keeps it where true and makes it undetermined elsewhere. Boolean and value results are canonical in one shared variable space.",
 ["inputs", "configurations"], "all operand pairs and condition/branch triples over small domains and alphabets",
 "Tests compare a few diagrams; before this work <= on diagrams was wrong for most operands although every test passed.",
 ["mddcore/src/mtmdd2.rs", "mddcore/src/mtmdd2_ops.rs", "mss/src/mdd.rs"],
 [("mixed recursion over value and Boolean forests with shared headers", "mddcore/src/mtmdd2_ops.rs")],
 [("paired forests", "value and Boolean nodes over the same variables", "mddcore/src/mtmdd2.rs")],
 ["MddNode eq/ne/lt/le/gt/ge/ite", "MtMdd2Manager comparisons, vif"],
 "explicit-state enumeration of all value functions and conditions over small domains against tables",
 "All pairs over (2,2) with 4-value and (3) with 5-value alphabets, (2,3) with 2 values; all ite triples over (2,2)/(3); wrappers included.")

prop("C08", "A multi-state handle keeps its function across every garbage collection",
 "As long as a handle to a Boolean, value, path or cut diagram (or a clone, or an iterator made from it) is alive it denotes what it was created with, whatever operations, explicit or automatic collections, cache clearings, clones and drops happen in between. Results computed after a collection are exact and canonical, including minimal path and cut families and their extraction.",
 ["histories"], "all histories of operations, drops, clones, collections and iterator steps over the paired forests",
 "Tests run a few fixed histories; comparisons, guards and conversions cache results across two forests, and a stale entry needs a specific slot reuse in one of them.",
 ["mddcore/src/mdd.rs", "mddcore/src/mtmdd.rs", "mddcore/src/mtmdd2.rs", "mddcore/src/zmdd.rs", "mss/src/mdd.rs", "mss/src/zmdd.rs", "mss/src/mdd_path.rs"],
 [("marking both forests and purging both computed tables", "mddcore/src/mtmdd2.rs"), ("root registration in handles", "mss/src/mdd.rs"), ("root registration in family handles", "mss/src/zmdd.rs")],
 [("root reference counts", "live handles per node of either forest", "mss/src/mdd.rs")],
 ["MddNode and ZmddNode operations after collections"],
 "exhaustive enumeration of operation/collection histories on the real managers against tables",
 "All MddMgr handle histories of 4 (thorough 5) actions; all collect-and-recompute histories for MDD, MTMDD, MTMDD2 and ZMDD operations over all functions of small domains and all keep-sets; every threshold; path iterators paused everywhere.")

prop("C09", "Binary system probability and importance measures are exact",
 "The probability of a binary structure function (for true, false or either) equals the sum over all assignments of the product of the components' probabilities (a component without a given probability counts as probability 0), and the Birnbaum measure of each component the function depends on equals the difference of that probability with the component forced up and forced down. Both depend only on the function and the probabilities, never on variable order, sharing, earlier queries or collections.",
 ["inputs", "histories", "configurations"], "all functions, probability vectors, variable orders and query histories",
 "Tests check a few fault trees at one probability vector; stale per-query caches, skipped variables and complements need other functions and repeated queries.",
 ["bss/src/bdd_prob.rs", "bss/src/bdd.rs"],
 [("memoised Shannon expansion", "bss/src/bdd_prob.rs"), ("gradient accumulation over levels", "bss/src/bdd_prob.rs")],
 [("per-query memo", "probability of each shared node", "bss/src/bdd_prob.rs")],
 ["BddNode::prob", "BddNode::bmeas"],
 "exhaustive enumeration of functions, probability grids and query sequences with exactly representable arithmetic",
 "All 3-variable functions x all probability vectors on a dyadic grid (exact in f64), all 65536 4-variable functions at fixed vectors, all variable orders, k-of-n up to 12 components; systems of 16 to 50 components and diagrams of up to 2^21 nodes in closed form; missing, extra and easily confused names; repeated values in the selection; diagrams rebuilt on recycled places.")

prop("C10", "Minimal path sets, minimal cut sets and duals of binary systems are exact",
 "For a monotone binary function the minimal path sets are exactly its minimal true sets and the minimal cut sets exactly the minimal sets whose joint failure makes it false; for a non-monotone function there is no answer rather than a wrong one. The dual of any function is not f(not x), its own inverse, and equal results are equal handles.",
 ["inputs", "configurations", "histories"], "all functions, monotone or not, all variable orders",
 "Tests run a handful of fault trees; minimality interacts with sharing and level skipping in ways only other functions exercise.",
 ["bss/src/bdd_minsol.rs", "bss/src/bdd_dual.rs", "bss/src/bss.rs", "bss/src/zdd_convert.rs"],
 [("coherence test and recursive difference of solutions", "bss/src/bdd_minsol.rs"), ("dual construction", "bss/src/bdd_dual.rs")],
 [], ["BssMgr::minpath", "BssMgr::mincut", "BddNode::dual"],
 "explicit-state enumeration of all functions against brute-force minimal sets",
 "All 3- and 4-variable functions (65536, of which 168 monotone), all orders; all monotone 5-variable functions (7581); k-of-n systems to 10 components, to 61 in closed form; diagrams of up to 2^17 nodes in closed form; nodes whose numbers are 2^8 to 2^21 apart; every pair of functions with a collection in between.")

prop("C11", "Binary counting and extraction agree with the function",
 "Counting the assignments of a BDD with selected values, and extracting them, cover exactly the assignments of the variables up to the root's level with that value, each once, and the iterator's length, the count and the number of items agree; for a set family, count and extraction cover exactly the member sets (or, for false, the non-members the diagram reaches). Repeated and interleaved iterators do not influence one another.",
 ["inputs", "histories"], "all functions and families, all value selections, all interleavings of two iterators",
 "Tests count a few functions; skipped levels at the top, middle and bottom and constant diagrams are the untested cases.",
 ["bss/src/bdd_count.rs", "bss/src/bdd_path.rs", "bss/src/zdd_count.rs", "bss/src/zdd_path.rs"],
 [("level-gap multiplication", "bss/src/bdd_count.rs"), ("explicit-stack path walk", "bss/src/bdd_path.rs")],
 [], ["BddNode::bdd_count/bdd_extract", "ZddNode::count/extract"],
 "explicit-state enumeration of all functions, families and iterator interleavings against tables",
 "All 3- and 4-variable functions and families x value selections; variables with gaps; all interleavings of two iterators over small functions; iterators stay exhausted after their end; 63 variables and diagrams of up to 2^21 nodes in closed form.")

prop("C12", "N-ary and/or/min/max and k-of-n equal their definitions",
 "The n-ary conjunction, disjunction, minimum and maximum of any list of diagrams equal the fold of the binary operation (empty conjunction true, empty disjunction false), independent of list order and repetition. k-of-n of any list of Boolean diagrams, for every k, is true exactly where at least k of the listed diagrams are true.",
 ["inputs", "configurations"], "all lists up to a length over all small functions, all k",
 "Tests check one or two small systems; repeated operands, k = 0, k > n, and non-literal operands are not sampled.",
 ["bss/src/bdd.rs", "bss/src/bdd_kofn.rs", "mss/src/mdd.rs"],
 [("fold over operands", "bss/src/bdd.rs"), ("recursive k-of-n with memo", "bss/src/bdd_kofn.rs")],
 [], ["BddMgr::and/or/kofn", "MddMgr::and/or/min/max"],
 "exhaustive enumeration of operand lists and thresholds against tables",
 "All lists of length 0..3 over all 2-variable functions (plus length 4-5 over literals and their negations) with all k; literals to n = 12 with all k; all value lists of length 1..3 over small alphabets; lists of up to 70000 entries with one different entry; k-of-n of 300 (thorough 500) variables by exploring the product of the diagram and a counter.")

prop("C13", "Binary RPN expressions denote their postfix meaning",
 "Evaluating any postfix string builds exactly the function the tokens denote (constants, variables, and, or, xor, not, if-then-else, save and load); a malformed string (missing operand, more than one result, unknown saved name, nothing to save) yields an error, never a panic or a wrong function. New names are introduced as variables in order of first use, known names reuse their variable, and saved names hold within one expression.",
 ["programs", "histories"], "all token strings up to a length, and sequences of expressions on one manager",
 "Tests run a few well-formed strings; before this work a missing operand panicked.",
 ["bss/src/bdd.rs", "bss/src/bss.rs"],
 [("token loop with an operand stack", "bss/src/bdd.rs")],
 [("variable table", "names already introduced", "bss/src/bdd.rs")],
 ["BddMgr::rpn", "BssMgr::rpn"],
 "exhaustive enumeration of all token strings up to a length against a reference stack machine",
 "All strings of up to 5 (thorough 6) tokens over 12 tokens, on fresh and shared managers and both manager types; all pairs of short strings on one manager; 222 ordered pairs of easily confused names as variables and as saved names.")

prop("C14", "Multi-state RPN expressions denote their postfix meaning",
 "Evaluating any well-typed postfix string over declared variables builds exactly the function the tokens denote (integers, variables, arithmetic, comparisons, logic, min, max, if-then-else, save and load); a missing operand, leftover operands or unknown saved name yields an error. The given range applies to variables introduced by the expression, and names already known reuse their variable.",
 ["programs", "histories"], "all well-typed token strings up to a length, and sequences of expressions on one manager",
 "Tests run a few strings; operand order of the non-commutative operators and nesting of conditionals are barely sampled.",
 ["mss/src/mdd.rs", "mss/src/mss.rs"],
 [("token loop with an operand stack", "mss/src/mdd.rs")],
 [("variable table", "names already introduced", "mss/src/mdd.rs")],
 ["MddMgr::rpn", "MssMgr::rpn"],
 "exhaustive enumeration of all token strings up to a length against a reference stack machine",
 "All strings of up to 4 (thorough 5) tokens over 24 tokens, plus all operator nestings over operands to depth 3; 222 ordered pairs of easily confused names; ill-typed strings are skipped.")

prop("C15", "Multi-state system probability and importance measures are exact",
 "The probability that a multi-state structure function (Boolean or valued) takes one of the given values equals the sum over all matching state vectors of the product of state probabilities (each component's summing to one), and the importance vector of each component the function depends on holds, for each pair of adjacent states, the difference of that probability with the component in the upper and in the lower state. Both depend only on the function and the probabilities, never on order, sharing, earlier queries or collections.",
 ["inputs", "histories", "configurations"], "all functions over small domains, probability vectors, value selections and query histories",
 "Tests check one or two systems at one probability vector; skipped variables, repeated queries with other selections, and undetermined leaves are not sampled.",
 ["mss/src/mdd_prob.rs", "mss/src/mdd.rs"],
 [("memoised expansion over states", "mss/src/mdd_prob.rs")],
 [("per-query memo", "probability of each shared node", "mss/src/mdd_prob.rs")],
 ["MddNode::prob", "MddNode::bmeas"],
 "exhaustive enumeration of functions, probability grids and query sequences with exactly representable arithmetic",
 "All functions over (2,3), (3,2), (2,2,2) Boolean and (2,2),(3) valued x dyadic probability vectors x all value selections; repeated queries on one handle in every order; diagrams of up to 2^20 nodes in closed form; nodes whose numbers are 2^8 to 2^21 apart.")

prop("C16", "Multi-state minimal path and cut vectors are exact",
 "For a monotone multi-state function the minimal path vectors of value v are exactly the minimal state vectors with that value, those of level v the minimal vectors with at least that value, and dually for cut vectors (maximal vectors with that value, or at most it). For a non-monotone function there is no answer rather than a wrong one.",
 ["inputs", "configurations"], "all functions over small mixed-radix domains, monotone or not, all value labels",
 "Tests run a couple of systems; strata of gapped value sets, constant functions and skipped variables are not sampled.",
 ["mss/src/mdd_minsol.rs", "mss/src/mss.rs", "mss/src/zmdd.rs", "mss/src/zmdd_convert.rs"],
 [("coherence test and recursive removal of dominated vectors", "mss/src/mdd_minsol.rs"), ("extraction by label and by level", "mss/src/zmdd.rs")],
 [], ["MssMgr::minpath/mincut", "ZmddNode::extract/extract_level/count"],
 "explicit-state enumeration of all functions over small domains against brute-force extremal vectors",
 "All functions into 3 values over (2,2),(2,3),(3,3) restricted where needed to monotone ones, all Boolean functions over (2,3),(2,2,2),(3,3), gapped and negative value sets, all variable orders; components with 20-700 states, one point changed at every place; 30 components and diagrams of up to 2^20 nodes in closed form; nodes whose numbers are 2^8 to 2^21 apart; functions with 2^17 values and levels of thousands of members; recycled places.")

prop("C17", "Multi-state counting and extraction agree with the function",
 "Counting the state vectors whose value is in a given set, and extracting them, cover exactly those vectors (over the variables up to the root's level), each once; count, iterator length and number of items agree. Repeated and interleaved queries with different value sets do not influence one another.",
 ["inputs", "histories"], "all functions over small domains, all value sets, all query sequences",
 "Tests count one or two functions; before this work a Boolean count with skipped variables was wrong although every test passed.",
 ["mss/src/mdd_count.rs", "mss/src/mdd_path.rs", "mss/src/mdd.rs"],
 [("memo keyed by node and level", "mss/src/mdd_count.rs"), ("explicit-stack path walk", "mss/src/mdd_path.rs")],
 [], ["MddNode::mdd_count", "MddNode::mdd_extract"],
 "explicit-state enumeration of all functions and value sets against tables",
 "All Boolean functions over (2,3),(3,2),(2,2,2),(3,3) and value functions over (2,2),(2,3),(3) x all value sets including absent values; undetermined leaves; interleaved iterators; wide diagrams in closed form.")

prop("C18", "Multi-state path/cut families: intersection, difference and queries are exact",
 "Intersection and difference of two path families (or two cut families) of one manager contain exactly the (vector, label) members common to both, or in the first and not the second; membership, count, labels and variables reported for a family agree with its vectors. Setting the baseline adds exactly that member. Equal families are equal nodes however they were obtained.",
 ["inputs", "histories"], "all pairs of families obtained from monotone functions and from chained operations",
 "Tests intersect one or two families.",
 ["mddcore/src/zmdd.rs", "mddcore/src/zmdd_ops.rs", "mss/src/zmdd.rs"],
 [("zero-suppression over states and recursive operations", "mddcore/src/zmdd_ops.rs")],
 [("unique table", "one node per (variable, children)", "mddcore/src/zmdd.rs")],
 ["ZmddNode intersect/setdiff/count/extract/labels/vars"],
 "explicit-state enumeration of all pairs of labelled families against tables",
 "All pairs of labelled families over domains (2,2),(3),(2,3) in the core, all pairs of path/cut families of monotone functions through handles, chained operations.")

prop("C19", "The computed table may forget but never lies",
 "Whatever sequence of stores, lookups, clears and purges is applied to the operation cache, a lookup returns nothing or the value most recently stored under exactly that key; after a purge no entry that mentions a dead node remains and no surviving entry changes, and after a clear nothing is found. Clearing caches at any moment never changes the result of any operation.",
 ["histories", "inputs"], "all store/lookup/clear/purge sequences up to a depth over colliding keys, and growth past every resize",
 "Tests exercise a few keys; wrong hits need keys that collide in a slot or survive a resize.",
 ["common/src/compute_cache.rs"],
 [("full key comparison on lookup", "common/src/compute_cache.rs"), ("rehash on growth", "common/src/compute_cache.rs")],
 [("slots", "direct-mapped entries", "common/src/compute_cache.rs")],
 ["ComputeCache get/put/retain_live/retain_live3/clear"],
 "exhaustive enumeration of cache operation sequences against a map, with keys chosen to collide",
 "All sequences of 4 (thorough 5) operations over colliding keys, after every prefix; key sweeps over each key component including values at type limits; growth through every resize; purges for every liveness pattern of 4 nodes.")

prop("C20", "Garbage collection reclaims exactly the unreachable nodes",
 "After a collection the number of live nodes is exactly the number of nodes reachable from live handles plus the constant terminals, for every set of live handles; nothing a live handle needs is reclaimed and no garbage survives. With automatic collection, repeating work whose results are dropped does not grow memory without bound: the node count stays within the larger of the threshold and twice the surviving nodes, plus one operation's work.",
 ["histories", "configurations"], "all sets of live handles, all drop orders, all thresholds, arbitrarily long repetition",
 "Tests collect once in one situation; leaks show only in the count after particular clone/drop patterns.",
 ["bddcore/src/bdd.rs", "bddcore/src/zdd.rs", "mddcore/src/mdd.rs", "mddcore/src/mtmdd.rs", "mddcore/src/mtmdd2.rs", "bss/src/bdd.rs", "bss/src/zdd.rs", "mss/src/mdd.rs"],
 [("mark and sweep", "bddcore/src/bdd.rs"), ("threshold re-arming", "bss/src/bdd.rs")],
 [("live node count", "nodes in use", "bddcore/src/bdd.rs"), ("threshold", "next automatic collection", "bss/src/bdd.rs")],
 ["live_node_count after gc", "set_gc_threshold"],
 "exhaustive enumeration of live-handle subsets and thresholds with reachability as the oracle",
 "Every subset of 8 handles kept for BDD, ZDD and multi-state managers; thresholds 1..2048 with long repetition; each operation alone after a pile; 3*10^5 (thorough 3*10^6) dead nodes collected in one go in every core manager.")

prop("C21", "Dot output and size reports describe the diagram faithfully",
 "The dot text of a diagram, read back, is a graph with one node per reachable diagram node, labelled with its variable or terminal value, and one edge per child labelled with the branch, and evaluates to the diagram's function (branches to undetermined, and for families to the empty family, are left out). The reported size of a diagram equals the numbers of non-terminal nodes, terminals and edges reachable from its root.",
 ["inputs", "configurations"], "all functions over small domains for every diagram kind",
 "Tests print dot text without checking it.",
 ["common/src/dot.rs", "bddcore/src/bdd_dot.rs", "bddcore/src/zdd_dot.rs", "mddcore/src/mdd_dot.rs", "mddcore/src/mtmdd_dot.rs", "mddcore/src/mtmdd2_dot.rs", "mddcore/src/zmdd_dot.rs", "bddcore/src/bdd.rs", "mddcore/src/mdd.rs"],
 [("depth-first emission with a visited set", "common/src/dot.rs")],
 [], ["dot", "size"],
 "explicit-state enumeration of all functions, with the dot text parsed back and evaluated against tables",
 "All 3-variable BDDs and ZDDs, all functions over (2,3)/(2,2,2) for MDDs and (2,2) with 3 values and undetermined for value diagrams and families, every node count and edge compared with an independent walk; pictures of diagrams with 2^17 nodes and of nodes whose numbers differ in one bit among 2^20.")

prop("C22", "Variables, order and introspection are consistent; managers are independent",
 "Defining a name again returns the same variable; variables keep their definition order, reported level, label and range in every history; the root of any function is its topmost variable and its children are the restrictions by that variable. A diagram is always ordered and reduced with no duplicate nodes, and operations on one manager never affect another.",
 ["histories", "configurations", "inputs"], "all interleavings of definitions and operations, all functions, several managers",
 "Tests define a few variables up front; late definitions between operations and repeated definitions are barely sampled.",
 ["bss/src/bdd.rs", "bss/src/zdd.rs", "bss/src/bss.rs", "mss/src/mdd.rs", "mss/src/mss.rs", "common/src/nodes.rs"],
 [("variable table lookup before creation", "bss/src/bdd.rs"), ("level assignment in definition order", "mss/src/mdd.rs")],
 [("variable table", "name to header", "bss/src/bdd.rs")],
 ["defvar", "get_varorder", "get_level/get_label/get_children/get_header"],
 "exhaustive enumeration of definition/operation histories and functions against tables",
 "All histories of 5 definitions/redefinitions/operations over 4 names; introspection of all 3-variable functions and all functions over (2,3); two managers interleaved.")

import sys, re
src = open(os.path.join(ROOT, "harness/src/props.rs")).read()
done = set(re.findall(r'"(C\d\d)" =>', src))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=list(p["observe"]), hook_needed=None)),
            ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="./check.sh build",
    checks=[dict(property=p["id"], quick_cmd="./check.sh " + p["id"],
        thorough_cmd="VERIF_TIER=thorough ./check.sh " + p["id"], evidence_file="evidence/%s.json" % p["id"],
        technique="model checking: " + p["tech"], level="model_checking", level_note=p["note"]) for p in P if p["id"] in done],
    not_applicable=[dict(property=p["id"], reason="check under construction") for p in P if p["id"] not in done],
    notes="No hooks in /repo: the checks use only public API. See DESIGN.md for bounds and known_findings.txt for repaired defects.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties are edited here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    a = {"files": ["rustfst/src/" + f if not f.startswith("rustfst-") else f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Every weight type obeys the semiring laws it declares",
  "For every shipped weight type, addition and multiplication satisfy the semiring axioms (associativity, neutral and absorbing elements, commutative addition, and left/right distributivity, commutativity, idempotence and the path property whenever the type declares them), every weight is (approximately) equal to itself, and in-place and by-value forms agree. Reversal is an involution that exchanges the order of products, division undoes multiplication on the side it is asked for, and the star operation returns a solution of w* = 1 + w.w* wherever the series converges.",
  ["inputs"], "all weights (all triples of weights) of every weight type",
  "Unit tests evaluate a few constants per type; the laws quantify over all triples, including zero, one, infinite, negative, empty-string and composite (product, string, gallic, union) values.",
  ["semirings/"], [("plus/times/reverse/divide/closure implementations of each weight type", "rustfst/src/semirings/*.rs")])

p("C02", "Property flags recorded on an FST are never false",
  "Whatever sequence of edits, algorithms, copies and reloads produced an FST, no structural property recorded on it (acceptor, deterministic, sorted, epsilon-free, cyclic/acyclic, topologically sorted, accessible, weighted, string, ...) contradicts the actual machine. Computing properties on demand gives exactly the truth for every property asked for, in both polarities.",
  ["histories", "inputs"], "all edit histories and all algorithm applications, from every starting machine and every prior state of knowledge of the flags",
  "Algorithms branch on recorded flags, so one stale bit makes a later, unrelated operation wrong; tests check a handful of machines and flags right after one operation.",
  ["fst_properties/", "fst_impls/vector_fst/mutable_fst.rs", "trs_iter_mut.rs", "algorithms/"],
  [("per-mutation and per-algorithm flag transfer functions", "rustfst/src/fst_properties/mutate_properties.rs"), ("flag computation by traversal", "rustfst/src/fst_properties/compute_fst_properties.rs")])

p("C03", "Mutable FSTs behave like a plain list of states and transitions",
  "After any sequence of mutable-FST operations (adding, deleting, editing states, transitions, final weights, the start state, sorting, summing, de-duplicating) the start state, final weights, ordered transitions, transition counts and epsilon counts read back are those of the obvious sequential model. A rejected operation reports an error and changes nothing, and editing one copy of an FST never affects another copy or transitions already handed out.",
  ["histories"], "all operation histories up to a depth over a small alphabet of operations, states, labels and weights",
  "Tests run a few fixed histories; renumbering on deletion, cached epsilon counts and copy-on-write sharing only fail for particular operation orders.",
  ["fst_impls/vector_fst/", "trs_iter_mut.rs", "trs.rs", "fst_traits/mutable_fst.rs"],
  [("copy-on-write transition lists and cached epsilon counters", "rustfst/src/fst_impls/vector_fst/data_structure.rs"), ("state deletion with renumbering", "rustfst/src/fst_impls/vector_fst/mutable_fst.rs")])

p("C04", "Saving and reloading an FST or symbol table loses nothing",
  "Writing an FST to the binary or text format and reading it back, as either storage type that supports the format, yields the same machine: same start, states, final weights, ordered transitions, weights and (binary) attached symbol tables and true property flags; symbol tables likewise. A write that fails at any byte is reported as an error. For text this holds up to what the format can express (numbering of the first-mentioned start state and trailing isolated states). A drawing of an FST lists each of its states and transitions exactly once, with its labels, weight, start and final marks.",
  ["inputs"], "all machines, weight types and symbol tables",
  "Tests round-trip a few sample machines; losses appear for unusual shapes (no start, no states, non-zero start, zero weights, large labels, extreme floats, empty or multi-byte symbols).",
  ["fst_impls/vector_fst/serializable_fst.rs", "fst_impls/const_fst/serializable_fst.rs", "parsers/", "symbol_table.rs", "semirings/"],
  [("binary writer/reader", "rustfst/src/fst_impls/*/serializable_fst.rs"), ("text writer/reader", "rustfst/src/parsers/text_fst"), ("symbol table formats", "rustfst/src/parsers/bin_symt, text_symt")])

p("C05", "Damaged FST or symbol-table data is reported, never trusted or fatal",
  "Reading binary data that was cut short at any byte always reports an error. Reading data in which any byte was altered either reports an error or yields a machine all of whose state references are in range and whose contents can be traversed safely; it never crashes, and text with a malformed row is rejected rather than loaded in part.",
  ["fault_sequences", "inputs"], "all truncation points and all single-byte (and header-field) corruptions of every stored file",
  "Tests only load intact files; the fault space is every offset times every byte value of every format.",
  ["parsers/", "fst_impls/vector_fst/serializable_fst.rs", "fst_impls/const_fst/serializable_fst.rs", "fst_impls/vector_fst/parse_const.rs"],
  [("header, state and transition parsers", "rustfst/src/parsers/bin_fst"), ("symbol table parsers", "rustfst/src/parsers/bin_symt")])

p("C06", "Composition computes exactly the composed weighted relation",
  "The composition of two FSTs relates x to z with weight equal to the sum over all y of (first machine's weight of x:y) times (second machine's weight of y:z), with every path pair counted exactly once under every epsilon filter meant for it, whichever side is label-sorted, with or without trimming, eager or delayed. When neither side is known to be sorted as required, an error is returned rather than a wrong machine.",
  ["inputs", "configurations"], "all pairs of FSTs over a commutative semiring, all filters and matcher configurations",
  "The existing passing tests compose a few machines; redundant or lost epsilon paths show only in specific epsilon configurations and only in non-idempotent semirings.",
  ["algorithms/compose/"],
  [("composition filters", "rustfst/src/algorithms/compose/compose_filters"), ("matchers", "rustfst/src/algorithms/compose/matchers"), ("lazy expansion", "rustfst/src/algorithms/compose/compose_fst_op.rs")])

p("C07", "Union, concatenation and closure compute the rational operations",
  "In-place union, concatenation and (star/plus) closure yield the sum, Cauchy product and iteration of the operands' weighted relations, with weights multiplied in path order, for all operands including machines without states, without start state or without final states. The second operand is left untouched.",
  ["inputs"], "all FSTs (pairs) over every, also non-commutative, semiring",
  "Tests use a few machines and commutative weights; order of multiplication and degenerate operands are not exercised.",
  ["algorithms/union/union_static.rs", "algorithms/concat/concat_static.rs", "algorithms/closure/closure_static.rs"],
  [("state splicing and epsilon linking", "rustfst/src/algorithms/{union,concat,closure}/*_static.rs")])

p("C08", "Replacement and the delayed rational operations expand correctly",
  "Replacing non-terminal labels by machines yields the relation obtained by substituting, for each occurrence, every path of the named machine, with call/return labels as configured; recursive rules that nest finitely expand faithfully. Delayed union, concatenation and closure denote the same weighted relation as their eager counterparts.",
  ["inputs", "configurations"], "all small rule systems, roots and label configurations; all operands",
  "Tests replace a few hand-written grammars; nested calls, shared callees, empty callees and epsilon handling multiply combinatorially.",
  ["algorithms/replace/", "algorithms/union/union_fst.rs", "algorithms/concat/concat_fst.rs", "algorithms/closure/closure_fst.rs"],
  [("call-stack prefixes in the state table", "rustfst/src/algorithms/replace/replace_fst_op.rs"), ("delayed operations built on replacement", "rustfst/src/algorithms/*/*_fst.rs")])

p("C09", "Inversion, projection, relabelling and reversal transform the relation",
  "Inversion swaps the two sides of the weighted relation, projection keeps exactly one side, relabelling substitutes exactly the listed labels simultaneously, and reversal yields the mirror-image strings with reversed weights so that reversing twice gives back the original relation.",
  ["inputs"], "all FSTs and relabelling lists over every, also non-commutative, semiring",
  "Tests sample a few machines; chained or swapped relabellings, missing start or final states and non-commutative weights are not covered.",
  ["algorithms/inversion.rs", "algorithms/projection.rs", "algorithms/relabel_pairs.rs", "algorithms/reverse.rs", "fst_traits/mutable_fst.rs"],
  [("label rewriting and edge reversal", "rustfst/src/algorithms/{inversion,projection,relabel_pairs,reverse}.rs")])

p("C10", "Encoding then decoding an FST gives back the same machine",
  "Encoding labels and/or weights of an FST maps distinct label/weight combinations to distinct labels and equal ones to equal labels, leaving an acceptor (labels) and/or an unweighted machine (weights). Decoding with the table returned restores the original weighted relation, also after a relation-preserving transformation in between.",
  ["inputs", "configurations"], "all FSTs and encoding modes",
  "Tests check a few machines; collisions depend on which label/weight tuples coexist and on final-weight super-states.",
  ["algorithms/encode/"],
  [("tuple table and final-weight transitions", "rustfst/src/algorithms/encode/table.rs")])

p("C11", "Determinization preserves the relation and yields a deterministic machine",
  "For every determinizable input, determinization terminates with a machine having no two transitions with the same input label leaving a state and the same weighted relation; functional inputs keep their output strings, and the disambiguating mode keeps for each input the best output. Non-functional inputs given to the functional mode are reported as errors, and determinizing the same machine again gives the same result.",
  ["inputs", "configurations"], "all determinizable acceptors and transducers, all modes",
  "The tests passing here determinize a few machines; residual-weight subsets and string residuals need all small ambiguity patterns.",
  ["algorithms/determinize/", "algorithms/factor_weight/"],
  [("weighted subset construction", "rustfst/src/algorithms/determinize/determinize_fsa_op.rs"), ("gallic encoding of outputs", "rustfst/src/algorithms/determinize/determinize_static.rs")])

p("C12", "Minimization gives an equivalent machine with the fewest states",
  "Minimizing a deterministic acceptor or transducer, weighted or not, preserves the weighted relation; for deterministic acceptors the result has exactly the number of states of the canonical minimal automaton, independently of state numbering and transition order. Non-deterministic input is refused unless explicitly allowed, in which case the relation is still preserved.",
  ["inputs", "configurations"], "all deterministic acceptors and transducers up to a size, all numberings and transition orders",
  "Tests check equivalence on a few machines and never minimality; partition refinement fails only for particular refinement orders.",
  ["algorithms/minimize.rs", "algorithms/partition.rs"],
  [("acyclic and cyclic partition refinement", "rustfst/src/algorithms/minimize.rs"), ("refinable partition", "rustfst/src/algorithms/partition.rs")])

p("C13", "Epsilon removal removes every epsilon and keeps the relation",
  "Removing epsilons, eagerly or delayed, yields a machine with no transition that is epsilon on both sides (when the machine has a start state) and exactly the same weighted relation, including epsilon cycles whose weights converge, weights multiplied in path order, and epsilon chains into final states. Removing final epsilons keeps the relation as well and leaves no epsilon transition into a dead-end final state of the input.",
  ["inputs"], "all FSTs over every, also non-commutative, semiring with convergent epsilon cycles",
  "Tests check a few machines; the epsilon sub-graph shapes (cycles, diamonds, unreachable parts) and weight order are not enumerated.",
  ["algorithms/rm_epsilon/", "algorithms/rm_final_epsilon.rs"],
  [("epsilon closure by generic shortest distance", "rustfst/src/algorithms/rm_epsilon/rm_epsilon_state.rs")])

p("C14", "Pushing and reweighting preserve the relation and normalise as promised",
  "Reweighting by potentials and pushing weights to the start or to the final states keep the weighted relation (up to the removed total weight when asked to remove it); after pushing to the start, at every useful state other than the start, the weights of the final exit and of the transitions to useful states sum to one. Pushing labels keeps the relation (up to the removed common affix when asked to remove it) and moves output labels as early (or late) as one label per transition allows; weights keep their place and order along each path unless pushing weights is also asked for, in which case they are normalised as above.",
  ["inputs", "configurations"], "all trim FSTs over divisible semirings, all push modes",
  "Tests sample machines; residual weights at start and final states, infinite potentials and non-zero start states are the failing corners.",
  ["algorithms/push.rs", "algorithms/reweight.rs"],
  [("potential-based reweighting", "rustfst/src/algorithms/reweight.rs"), ("push modes", "rustfst/src/algorithms/push.rs")])

p("C15", "Shortest distances equal the sum over all paths",
  "For every state, the distance from the start (or to the final states in the reverse direction) is the semiring sum of the weights of all paths, multiplied in path order, whichever queue discipline is chosen automatically for the graph shape; unreachable states have weight zero. All-pairs distances agree with single-source distances from each state.",
  ["inputs"], "all graphs (cyclic and acyclic, any numbering) and convergent weights over every semiring",
  "Tests use a few graphs; the queue choice depends on the component structure, sortedness and weights.",
  ["algorithms/shortest_distance.rs", "algorithms/all_pairs_shortest_distance.rs", "algorithms/queues/"],
  [("generic relaxation with adder arrays", "rustfst/src/algorithms/shortest_distance.rs"), ("automatic queue selection", "rustfst/src/algorithms/queues/auto_queue.rs")])

p("C16", "Shortest path returns the n best paths and nothing else",
  "The single shortest path is an accepting path of the input of minimal weight; asking for n paths yields the n best accepting paths (all of them when fewer exist) with their labels and weights, best-first multiset of weights identical to exhaustive enumeration. With uniqueness requested, each input string appears once with its best weight; an FST with no accepting path yields an empty result.",
  ["inputs", "configurations"], "all FSTs with non-negative weights, all n and uniqueness settings",
  "Tests compare a few machines; ties, zero-weight cycles, multiple final states and heap orderings are input-shape dependent.",
  ["algorithms/shortest_path.rs", "algorithms/queues/"],
  [("single-source relaxation with parents", "rustfst/src/algorithms/shortest_path.rs"), ("reverse best-first search", "rustfst/src/algorithms/shortest_path.rs")])

p("C17", "Trimming, condensing and state reordering keep exactly the useful structure",
  "Trimming keeps exactly the states lying on some path from the start to a final state, with all transitions among them, and so preserves the relation. Topological sorting succeeds exactly on acyclic machines and then every transition goes to a higher-numbered state; sorting states by a permutation only renumbers, condensation merges exactly the strongly connected components, and adding a super-final state leaves one final state with the same relation.",
  ["inputs"], "all graphs up to a size, with any start, final and unreachable parts",
  "Tests check a few graphs; component and reachability algorithms depend on the whole shape.",
  ["algorithms/connect.rs", "algorithms/condense.rs", "algorithms/top_sort.rs", "algorithms/state_sort.rs", "algorithms/add_super_final_state.rs", "algorithms/dfs_visit.rs", "algorithms/visitors/"],
  [("iterative depth-first visits", "rustfst/src/algorithms/dfs_visit.rs"), ("strongly connected components", "rustfst/src/algorithms/visitors/scc_visitors.rs")])

p("C18", "Sorting, merging and mapping transitions keep the relation",
  "Sorting transitions only reorders them by the requested label; summing merges exactly the transitions that agree in labels and destination by adding weights; de-duplicating removes exactly repeated identical transitions; transition mappers and weight conversion apply their function exactly once to every transition and final weight of a machine with a start state. None of these changes the rest of the machine.",
  ["inputs"], "all FSTs and mappers",
  "Tests use a few arrangements of parallel transitions; order-dependent adjacency errors need every order.",
  ["algorithms/tr_sort.rs", "algorithms/tr_sum.rs", "algorithms/tr_unique.rs", "algorithms/tr_map.rs", "algorithms/tr_mappers/", "algorithms/weight_convert.rs"],
  [("transition rewriting", "rustfst/src/algorithms/tr_{sort,sum,unique,map}.rs"), ("mappers", "rustfst/src/algorithms/tr_mappers")])

p("C19", "A delayed FST answers the same whatever was asked before",
  "For every delayed FST (composition, replacement, union, concatenation, closure, epsilon removal, factoring) and every cache, each query about a state (start, final weight, transitions, transition and epsilon counts) returns the same answer whatever queries preceded it, clones included, and equals the fully expanded machine up to state numbering.",
  ["histories", "configurations"], "all query orders up to a length, all caches, all delayed operations",
  "Tests expand delayed machines in one breadth-first order only; stale or missing cache entries show up only in other orders.",
  ["algorithms/lazy/", "algorithms/compose/compose_fst.rs", "algorithms/replace/replace_fst.rs"],
  [("expansion cache", "rustfst/src/algorithms/lazy/cache"), ("state numbering tables", "rustfst/src/algorithms/lazy/state_table.rs"), ("delayed FST front-end", "rustfst/src/algorithms/lazy/lazy_fst.rs, lazy_fst_2.rs")])

p("C20", "A delayed FST shared between threads stays consistent",
  "When several threads query one shared delayed FST at the same time, every schedule completes without deadlock or panic, every answer a thread gets is consistent with one single machine (same state numbers denote the same states in all threads), and that machine equals the one a single thread would build up to state numbering.",
  ["schedules"], "all interleavings of the synchronisation operations of 2-3 threads up to a preemption bound",
  "No test uses threads; a lost or doubled state number needs one particular interleaving.",
  ["algorithms/lazy/state_table.rs", "algorithms/lazy/cache/", "algorithms/lazy/lazy_fst.rs", "algorithms/determinize/state_table.rs", "algorithms/factor_weight/state_table.rs"],
  [("mutex-protected caches and state tables", "rustfst/src/algorithms/lazy")], hook="scheduling points at lock acquisition, behind a cfg flag")

p("C21", "A delayed composition can be saved and resumed at any point",
  "Saving the cache and the operation state of a delayed composition after any amount of expansion and reloading them gives a delayed machine that continues exactly where the saved one stopped: same state numbers, same cached answers, and the same fully expanded machine. A save file damaged or cut short is reported as an error and never crashes the reader.",
  ["histories", "fault_sequences"], "all expansion histories before saving, all caches, all truncations and byte corruptions of the files",
  "Tests save one cache state; the partially filled states and fault points are not enumerated.",
  ["algorithms/lazy/cache/", "algorithms/lazy/state_table.rs", "algorithms/compose/compose_fst_op.rs", "algorithms/compose/filter_states/"],
  [("cache and state-table serialization", "rustfst/src/algorithms/lazy/cache/utils_{parsing,serialization}.rs")])

p("C22", "Factoring weights and gallic conversion preserve the relation",
  "Factoring the weights of an FST yields a machine in which every selected weight is fully factored and whose weighted relation, after multiplying the factors back along each path, is that of the input, in every mode. Converting a transducer to string-weighted (gallic) form and back gives the original weighted relation.",
  ["inputs", "configurations"], "all FSTs with string, gallic or plain weights, all factoring modes and label options",
  "Tests factor a few machines; final-weight chains and label increments are not enumerated.",
  ["algorithms/factor_weight/", "algorithms/weight_converters/"],
  [("factor iterators and state table", "rustfst/src/algorithms/factor_weight"), ("gallic converters", "rustfst/src/algorithms/weight_converters")])

p("C23", "A symbol table is a stable one-to-one map between symbols and labels",
  "After any sequence of additions and merges every symbol has exactly one label and every label one symbol, labels are handed out densely in insertion order with epsilon first, re-adding a symbol returns its old label, and lookups, membership, size, iteration and equality agree with that map. Relabelling an FST to other symbol tables preserves the strings of symbols it relates.",
  ["histories"], "all histories of additions, merges and relabellings up to a depth",
  "Tests add a few symbols; interaction of duplicates, merges and empty tables is not enumerated.",
  ["symbol_table.rs", "fst_traits/mutable_fst.rs"],
  [("two-way map", "rustfst/src/symbol_table.rs"), ("table relabelling", "rustfst/src/fst_traits/mutable_fst.rs")])

p("C24", "Path enumeration, path lookup and linear builders are exact",
  "Iterating over the paths of an acyclic FST yields each accepting path exactly once with its labels (epsilons dropped) and product weight; path lookup accepts exactly the paths of the FST; building a linear acceptor or transducer from label sequences and decoding it back gives the same labels and weight, and decoding refuses machines with several paths. String rendering of paths follows the symbol tables.",
  ["inputs"], "all acyclic FSTs and label sequences up to a size",
  "Tests list a few machines; interleavings of final and non-final branches are not enumerated.",
  ["fst_traits/paths_iterator.rs", "fst_traits/string_paths_iterator.rs", "fst_path.rs", "utils/", "string_path.rs"],
  [("path iterator", "rustfst/src/fst_traits/paths_iterator.rs"), ("linear builders", "rustfst/src/utils")])

p("C25", "Random generation only samples real paths of the FST",
  "For every outcome of the random choices, every sample produced by random generation is an accepting path of the input no longer than the configured maximum; exactly as many samples are produced as were requested, except for those cut by the length limit or stuck in a state without way out; in weighted mode the weights give back how often each branch was drawn (with or without the total, as configured). The built-in selector draws every possibility, only possibilities that exist, and the same seed gives the same result.",
  ["inputs", "configurations"], "all FSTs, all outcomes of the random choice at each step up to a depth, all configurations",
  "Tests draw a few seeds; the property ranges over every choice sequence.",
  ["algorithms/randgen/"],
  [("sampler and choice interface", "rustfst/src/algorithms/randgen/tr_sampler.rs, tr_selector.rs"), ("lazy sample tree", "rustfst/src/algorithms/randgen/randgen_fst_op.rs")])

p("C26", "Look-ahead composition equals plain composition",
  "Composing with label look-ahead, with or without weight and label pushing, on the output side of the first operand (or on the input side of the second when the first has no output epsilons) yields the same weighted relation as plain composition of the same operands, and the reachability test it relies on answers exactly whether a state can reach a label.",
  ["inputs", "configurations"], "all pairs of FSTs and look-ahead settings",
  "The existing passing tests barely touch look-ahead composition; pushed weights and labels interact with epsilon filters.",
  ["algorithms/compose/lookahead_filters/", "algorithms/compose/lookahead_matchers/", "algorithms/compose/label_reachable.rs", "algorithms/compose/interval_set.rs", "algorithms/compose/state_reachable.rs"],
  [("reachability intervals", "rustfst/src/algorithms/compose/label_reachable.rs"), ("push filters", "rustfst/src/algorithms/compose/lookahead_filters")])

p("C27", "Matchers enumerate exactly the matching transitions",
  "Asking a matcher for a label at a state returns exactly the transitions whose matched-side label equals it, plus the implicit epsilon self-loop when asked for epsilon; the rest-of-alphabet (sigma) matcher adds exactly the catch-all transitions rewritten as configured, and the multi-epsilon matcher treats exactly the registered labels as epsilons. A matcher says it cannot match when the machine is not suitably sorted.",
  ["inputs", "configurations"], "all states, labels (including epsilon, absent and extreme labels) and matcher configurations",
  "Tests query a few labels; binary-search boundaries need every position.",
  ["algorithms/compose/matchers/"],
  [("sorted, sigma and multi-epsilon matchers", "rustfst/src/algorithms/compose/matchers")])

p("C28", "State queues deliver what was enqueued in their discipline",
  "For every sequence of enqueue, update, dequeue and clear operations, each queue discipline returns states exactly in its order (last-in-first-out, first-in-first-out, state order, topological order, best weight first, component by component), is empty exactly when everything was delivered, and reports its head consistently.",
  ["histories"], "all operation histories up to a depth for each discipline",
  "Tests do not exercise queues directly; front/back bookkeeping errors need particular histories.",
  ["algorithms/queues/", "algorithms/queue.rs"],
  [("queue implementations", "rustfst/src/algorithms/queues")])

p("C29", "The immutable FST and format conversions mirror the original machine",
  "Converting between the mutable and the immutable storage types, by any of the conversion routes, yields a machine for which every read operation (start, final weights, transitions and their slices, counts, epsilon counts, iteration, properties, symbol tables) answers as on the original, and out-of-range states are reported as errors. Equality, approximate equality and isomorphism tests answer truthfully between any two machines.",
  ["inputs"], "all machines and pairs of machines up to a size",
  "Tests convert a few machines; offsets into shared transition storage depend on every state's size.",
  ["fst_impls/const_fst/", "algorithms/fst_convert.rs", "algorithms/isomorphic.rs", "fst_traits/expanded_fst.rs", "trs.rs"],
  [("packed transition storage", "rustfst/src/fst_impls/const_fst"), ("isomorphism search", "rustfst/src/algorithms/isomorphic.rs")])

p("C30", "The one-call optimisation keeps the relation",
  "Optimising an FST preserves its weighted relation and its symbol tables, for acceptors and transducers, deterministic or not, with or without epsilons. An acyclic acceptor, or a deterministic unweighted one, whose property flags are known comes out deterministic and with the fewest possible states; a deterministic acceptor never grows (save for one start state carrying pushed-out weight).",
  ["inputs"], "all FSTs over the supported weight types",
  "It chains encoding, epsilon removal, determinization, minimization and decoding chosen from property flags; tests run it on few machines.",
  ["algorithms/optimize.rs"], [("pipeline selection from properties", "rustfst/src/algorithms/optimize.rs")])

p("C31", "The C interface mirrors the library and reports failures as error codes",
  "Every exported C function applied to valid handles has the same effect and result as the corresponding library operation; failures (unknown state ids, positions past the end, invalid configuration values, wrong kinds of machine, null handles, unreadable files) come back as an error status with a retrievable message and leave the handle usable, never as a crash.",
  ["inputs", "histories"], "all call sequences up to a depth over small machines, including invalid arguments",
  "The Python tests call each function once on valid input.",
  ["rustfst-ffi/src/"], [("handle wrappers", "rustfst-ffi/src/fst"), ("algorithm wrappers", "rustfst-ffi/src/algorithms")])

p("C32", "The command-line tool does what the library does and fails loudly",
  "Every command of the command-line tool, with every combination of its options, writes to its output file exactly the machine the corresponding library operation gives for its input file(s), leaves the input files alone, and runs a benchmark only when asked to. Whenever the operation, the reading or the writing fails, or the command line is wrong, the exit status is non-zero and no result is presented as valid.",
  ["inputs", "configurations", "faults"], "all commands and option combinations over all machines up to a size, and all kinds of bad files and command lines",
  "The tool has no tests at all.",
  ["rustfst-cli/src/"], [("commands and option parsing", "rustfst-cli/src/main.rs"), ("read, run, write", "rustfst-cli/src/unary_fst_algorithm.rs"), ("one file per command", "rustfst-cli/src/cmds")])

p("C33", "The Python package mirrors the library and raises on every failure",
  "Every method, function, operator and configuration object of the Python package gives the result of the corresponding library operation, whether called as a method or as a function: reading a machine back gives exactly what was put in (no start state or no final weight is None), operations that work in place return the machine they changed, copies and tables are independent of what they were taken from, and invalid arguments (unknown states, symbols, positions or configuration values) raise an exception and leave the object usable.",
  ["inputs", "histories", "configurations"], "all small machines, edit histories up to a depth and combinations of configuration values",
  "The Python tests call most functions once, with one machine.",
  ["rustfst-python/rustfst/"], [("machines", "rustfst-python/rustfst/fst"), ("algorithms", "rustfst-python/rustfst/algorithms"), ("tables, transitions, iterators", "rustfst-python/rustfst")])

p("C34", "Every operation leaves the right symbol table on each side of its result",
  "On each side of the result of an operation, delayed or computed, stands the symbol table that names the labels found there: in-place and copying operations keep both tables of their operand (also when it has no start state or no state), inversion exchanges them, projection copies the kept side's table, union, concatenation and replacement keep the first machine's, composition takes the input table of the first and the output table of the second machine; an absent table stays absent.",
  ["inputs", "configurations"], "all operations on all small machines with every way of attaching tables",
  "The tests compare machines without tables almost everywhere.",
  ["rustfst/src/algorithms/"], [("copying both tables", "rustfst/src/fst_traits/mutable_fst.rs:448"), ("delayed machines", "rustfst/src/algorithms/lazy"), ("composition", "rustfst/src/algorithms/compose/compose_fst.rs")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))

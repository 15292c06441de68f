#!/usr/bin/env python3
"""Writes properties.jsonl (single place where ids, statements and anchors are kept)."""
import json, os
A = "rustfst/src/algorithms/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

p("C01", "Mutable FSTs behave as the abstract automaton under any edit history",
  "After any sequence of construction and mutation calls, a mutable FST reports, through every accessor and iterator, exactly the states, start state, final weights, transitions and per-state transition and epsilon counts that a plain model of those calls predicts. A call addressing a state that does not exist returns an error and leaves the FST as it was. Clones, and transition lists obtained earlier, are never affected by later changes to the original.",
  ["histories", "inputs"], "every sequence of mutation calls on one FST and its clones, with every weight type",
  "Transition storage is shared copy-on-write and epsilon counts and state numbers are maintained incrementally; a handful of fixed call sequences never interleaves deletion, in-place iteration, clones and batch pops.",
  ["rustfst/src/fst_impls/vector_fst/mutable_fst.rs", "rustfst/src/trs_iter_mut.rs", "rustfst/src/trs.rs", "rustfst/src/fst_traits/mutable_fst.rs", "rustfst/src/fst_traits/expanded_fst.rs"],
  [("state deletion and renumbering", "MutableFst::del_states for VectorFst"), ("copy-on-write transition lists", "TrsVec / Arc::make_mut"), ("in-place transition editing", "TrsIterMut"), ("incremental epsilon counts", "VectorFstState::niepsilons/noepsilons")])

p("C02", "Property bits an FST reports are always true of it",
  "Whatever an FST went through - any sequence of mutations, conversions, reads from disk or library operations, including lazily computed results - every structural property it reports as known (acceptor, sorted, cyclic, deterministic, epsilon-free, weighted, accessible, string and the rest) really holds of it. Opposite properties are never both reported. (Whether a machine that has states but no start state is a string is left undefined.)",
  ["histories", "inputs"], "every FST produced by any history of edits and library operations",
  "Properties are updated by hand-written masks in every mutator and algorithm, and algorithms then trust them silently; tests compare outputs, not the bits, and the false bit only bites in a later operation.",
  ["rustfst/src/fst_properties/mutate_properties.rs", "rustfst/src/fst_properties/properties.rs", "rustfst/src/fst_impls/vector_fst/mutable_fst.rs", A+"compose/compose_fst_op.rs"],
  [("per-mutation property masks", "fst_properties::mutable_properties::*"), ("per-operation output properties", "concat/union/closure/compose/reverse/shortest_path/... _properties functions"), ("trinary known/unknown encoding", "FstProperties bits")])

p("C03", "Computed FST properties are exact",
  "Asking the library to compute structural properties of an FST yields, for every requested property, exactly the truth of that property's definition on that FST, both bits of each pair being decided. The answer does not depend on what the FST had stored before.",
  ["inputs"], "every FST and every requested subset of properties",
  "The computation interleaves one depth-first search with per-state scans and has shortcuts for already known bits; tests check a few hand-made machines.",
  ["rustfst/src/fst_properties/compute_fst_properties.rs", "rustfst/src/fst_traits/expanded_fst.rs", A+"visitors/scc_visitors.rs", A+"dfs_visit.rs"],
  [("property computation", "compute_fst_properties / compute_and_update_properties"), ("strongly connected components", "SccVisitor")])

p("C04", "Weight types satisfy the semiring laws they advertise",
  "For every weight type, addition and multiplication satisfy the semiring laws with the advertised identities, and each advertised extra law (commutative, idempotent, path, left or right distributive) holds. Division, where defined, inverts multiplication on the side requested, closure is a fixed point of x* = 1 + x x* where that series converges, reversal is an involution exchanging the sides of multiplication, and quantisation moves a weight by no more than its step. Equal weights compare and print consistently and parse back to an equal weight.",
  ["inputs"], "every triple of weights of every weight type, including zero, one and infinite values",
  "Every algorithm is generic over these laws; unit tests evaluate a few constants per type.",
  ["rustfst/src/semirings/tropical_weight.rs", "rustfst/src/semirings/log_weight.rs", "rustfst/src/semirings/probability_weight.rs", "rustfst/src/semirings/integer_weight.rs", "rustfst/src/semirings/boolean_weight.rs", "rustfst/src/semirings/product_weight.rs", "rustfst/src/semirings/power_weight.rs", "rustfst/src/semirings/string_weight.rs", "rustfst/src/semirings/gallic_weight.rs", "rustfst/src/semirings/union_weight.rs"],
  [("plus / times / divide / closure / reverse / quantize", "impl Semiring, WeaklyDivisibleSemiring, StarSemiring, ReverseBack, WeightQuantize")])

p("C05", "FSTs survive every save/load format unchanged",
  "Writing an FST (mutable or constant, any serialisable weight type, with or without symbol tables, to a file or to memory) in binary form and reading it back gives the same states, start, final weights, transitions in order and symbol tables, and a file written by one representation loads in the other where supported. Writing a machine with a start state as text and reading it back gives the same machine up to weight printing and the order of states that text cannot express. The binary files are laid out as OpenFst's, so a vector or constant (aligned or not) file of the standard arc type loads as the machine an OpenFst reader would see in it, and the files written here hold that machine for such a reader. A write that does not complete is reported as an error.",
  ["inputs"], "every FST, weight type, symbol table and file representation",
  "The binary layout has per-representation headers, alignment and symbol-table flags, and the text form has optional fields; fixtures on disk exercise a few machines.",
  ["rustfst/src/fst_impls/vector_fst/serializable_fst.rs", "rustfst/src/fst_impls/const_fst/serializable_fst.rs", "rustfst/src/parsers/bin_fst", "rustfst/src/parsers/text_fst", "rustfst/src/fst_traits/serializable_fst.rs"],
  [("binary writer/reader", "SerializableFst::write/read/load/store for VectorFst and ConstFst"), ("text writer/reader", "SerializableFst::text / from_text_string / write_text / read_text")])

p("C06", "Malformed data is refused with an error, never a crash",
  "Reading any byte string or text as an FST, a symbol table or saved lazy state returns either a well-formed object or an error; it never panics, aborts, hangs, or uses memory out of proportion to the size of the data and the largest state number it names. An FST that was accepted is internally consistent: its start state and every transition target exist, so that traversing it is safe. A file that is cut short, is of another kind, weight type or unsupported older version, carries unknown flags, or whose symbol table does not number its symbols 0, 1, 2, ... is refused.",
  ["inputs", "fault_sequences"], "every byte string and text, in particular every truncation and corruption of a valid file",
  "Files come from disk or network and from another implementation; tests feed only well-formed ones.",
  ["rustfst/src/parsers/bin_fst/fst_header.rs", "rustfst/src/parsers/bin_symt/nom_parser.rs", "rustfst/src/parsers/nom_utils.rs", "rustfst/src/fst_impls/vector_fst/serializable_fst.rs", "rustfst/src/fst_impls/const_fst/serializable_fst.rs", "rustfst/src/parsers/text_fst/parsed_text_fst.rs"],
  [("header and body parsing", "FstHeader::parse, parse_vector_fst, parse_const_fst"), ("length-prefixed strings", "OpenFstString::parse")])

p("C07", "Symbol tables stay a consistent bijection",
  "After any sequence of insertions, merges and renumberings, a symbol table maps each symbol to exactly one label and each label back to that symbol; adding an existing symbol returns its existing label and adding a new one returns a label nothing else uses. Membership, length, iteration and lookup agree with each other. A table written in binary form, or in text form when no symbol contains white space, reads back with the same symbol-label pairs.",
  ["histories", "inputs"], "every sequence of table operations and every set of symbols",
  "Lookup runs through two maps kept in step by hand, and the text and binary encodings quote nothing; unit tests add three symbols.",
  ["rustfst/src/symbol_table.rs", "rustfst/src/parsers/bin_symt", "rustfst/src/parsers/text_symt"],
  [("symbol/label maps", "SymbolTable"), ("binary and text forms", "SymbolTable::read/write/read_text/write_text")])

p("C08", "Composition realises the relational composition",
  "Composing A with B yields, for every pair of strings (x, z), the sum over y of A(x, y) times B(y, z), whichever epsilon-handling filter that is exact for the inputs is chosen, and whichever side is sorted on the labels of the join. Epsilon paths are neither lost nor counted twice. Asking for trimming only removes useless states, and a pair of which neither side is sorted is refused with an error (a machine whose sortedness was never computed may be refused too).",
  ["inputs", "configurations"], "every pair of transducers over every weight type, and every filter and connect setting",
  "Redundant epsilon paths show up only in non-idempotent weights or specific epsilon interleavings that sampled examples rarely contain.",
  [A+"compose/compose_static.rs", A+"compose/compose_fst_op.rs", A+"compose/compose_filters", A+"compose/matchers/sorted_matcher.rs"],
  [("state tuple expansion", "ComposeFstOp::compute_trs"), ("epsilon filters", "Sequence/AltSequence/Match/NoMatch/Trivial/Null ComposeFilter"), ("label matching", "SortedMatcher")])

p("C09", "Wildcard (sigma) composition matches exactly the allowed labels",
  "When one side of a composition uses a wildcard label, the result equals composing with the machine in which every wildcard transition is replaced by one copy per allowed ordinary label, epsilon excluded, with the wildcard rewritten as the rewrite mode says. Explicit transitions on the same label at the same state remain available alongside the wildcard.",
  ["inputs", "configurations"], "every pair of transducers, wildcard label, allowed set, rewrite mode, and side",
  "The matching iterator switches between explicit and wildcard transitions mid-stream; tests use one sentence-like example.",
  [A+"compose/matchers/sigma_matcher.rs", A+"compose/compose_static.rs"],
  [("wildcard matching", "SigmaMatcher / IteratorSigmaMatcher")])

p("C10", "Look-ahead composition gives the same relation as plain composition",
  "Composition accelerated by label look-ahead, with or without pushing of weights and labels, realises the same weighted relation as ordinary composition of the same two machines up to the documented relabelling. Reachability data used for the look-ahead answers exactly whether a label, or the end of a path, can be reached through epsilon transitions.",
  ["inputs", "configurations"], "every pair of transducers, look-ahead side and filter stack",
  "Pruning on a wrong reachability interval silently drops paths; the only tests for it are not part of the runnable suite.",
  [A+"compose/lookahead_filters", A+"compose/lookahead_matchers", A+"compose/label_reachable.rs", A+"compose/state_reachable.rs", A+"compose/interval_set.rs", A+"compose/matchers/multi_eps_matcher.rs", A+"compose/matcher_fst.rs"],
  [("label reachability intervals", "LabelReachable / IntervalSet"), ("weight and label pushing", "PushWeightsComposeFilter, PushLabelsComposeFilter")])

p("C11", "Union, concatenation and closure realise the rational operations",
  "The union of FSTs accepts exactly the pairs either accepts with weights summed, the concatenation exactly the split pairs with weights multiplied and summed over splits, and star or plus closure exactly the finite repetitions with the corresponding weights. This holds for machines without states, without a start state, with the start state final or with incoming transitions, and the in-place and lazy forms agree.",
  ["inputs"], "every pair of FSTs over every weight type, including degenerate machines",
  "The in-place versions renumber and splice states; degenerate operands take separate code paths that examples skip.",
  [A+"union/union_static.rs", A+"concat/concat_static.rs", A+"closure/closure_static.rs", A+"union/union_fst.rs", A+"concat/concat_fst.rs", A+"closure/closure_fst.rs"],
  [("state splicing", "union, concat, closure"), ("lazy forms", "UnionFst, ConcatFst, ClosureFst")])

p("C12", "Replacement expands nonterminals exactly",
  "Replacing nonterminal labels by their machines yields exactly the relation obtained by recursively substituting each nonterminal transition by the relation of its machine, with the call and return labelling asked for. The lazy and the eager form agree, recursive rules can be explored lazily to any depth, and a root label without a machine is reported as an error.",
  ["inputs", "configurations"], "every finite system of machines with acyclic nonterminal references",
  "Call stacks are interned as state prefixes; sharing or mis-popping them shows only for nested or repeated calls.",
  [A+"replace/replace_static.rs", A+"replace/replace_fst_op.rs", A+"replace/state_table.rs", A+"replace/config.rs"],
  [("call-stack interning", "ReplaceStateTable / StackPrefix"), ("call/return transitions", "ReplaceFstOp::compute_trs")])

p("C13", "Lazy FSTs are independent of access order, cache, sharing and restarts",
  "A lazily computed FST presents the same machine whatever the order in which its states are queried, however often, with whichever cache implementation, whether it is queried from several threads at once, and whether its cached state was saved and restored in between. Its full expansion equals what the eager operation computes. A cache returns exactly what it was last told, also from clones and reloaded copies, and nothing once cleared.",
  ["schedules", "histories", "configurations"], "every sequence or interleaving of accesses, cache implementation and save/restore point",
  "State numbers are handed out on first discovery and results are memoised behind locks; order effects appear only under unusual query orders or concurrency.",
  [A+"lazy/lazy_fst.rs", A+"lazy/lazy_fst_2.rs", A+"lazy/cache", A+"lazy/state_table.rs", A+"compose/compose_fst.rs", A+"replace/replace_fst.rs", A+"rm_epsilon/rm_epsilon_fst.rs"],
  [("memoisation", "SimpleVecCache, SimpleHashMapCache, CacheStatus"), ("tuple interning", "StateTable"), ("save/restore", "SerializableLazyFst::write, SerializableCache::read")])

p("C14", "Cleaning and ordering passes keep the relation and deliver their shape",
  "Trimming, state sorting, topological sorting, transition sorting, removing duplicate transitions, merging parallel transitions, folding final epsilons and adding a single final state all leave the weighted relation unchanged (removing duplicates: for idempotent weights). Each delivers its promise: only states on successful paths remain, states follow the requested order, transitions are ordered by the requested label, no two identical or no two parallel transitions remain, an epsilon into a final state from which nothing further is accepted is folded into the final weight, exactly one state is final.",
  ["inputs"], "every FST over every weight type",
  "These passes renumber and delete in place; index slips show on unreachable parts, self loops and duplicates.",
  [A+"connect.rs", A+"top_sort.rs", A+"state_sort.rs", A+"tr_sort.rs", A+"tr_unique.rs", A+"tr_sum.rs", A+"rm_final_epsilon.rs", A+"add_super_final_state.rs", A+"dfs_visit.rs", A+"visitors"],
  [("trimming", "connect"), ("renumbering", "state_sort, top_sort"), ("transition rewriting", "tr_sort, tr_unique, tr_sum"), ("final-state rewriting", "rm_final_epsilon, add_super_final_state")])

p("C15", "Epsilon removal keeps the relation and removes every epsilon",
  "Epsilon removal yields, for a machine with a start state, a machine without epsilon:epsilon transitions that realises the same weighted relation, for machines with epsilon chains and epsilon cycles wherever the weights make the sum finite. The lazy form realises the same relation.",
  ["inputs"], "every FST, including epsilon cycles and epsilon paths to final states",
  "Epsilon closures are computed with a shared, incrementally reused distance table and state ordering tricks; mistakes need particular epsilon topologies.",
  [A+"rm_epsilon/rm_epsilon_static.rs", A+"rm_epsilon/rm_epsilon_state.rs", A+"rm_epsilon/rm_epsilon_fst.rs", A+"shortest_distance.rs"],
  [("epsilon closure", "RmEpsilonState::expand"), ("distance reuse", "ShortestDistanceState with retain")])

p("C16", "Determinization is deterministic and equivalent",
  "Determinizing yields a machine in which no state has two transitions with the same input label and which assigns the same weight to the same string pairs as the original, for acceptors and for functional transducers; the disambiguating mode keeps the best output of each input, and non-functional input is refused in functional mode. Repeated runs give machines of the same size (unless residual weights have to be rounded). Weights that floats cannot represent exactly do not multiply the states.",
  ["inputs", "configurations"], "every determinizable machine and determinization mode",
  "Subset construction merges weighted subsets by hashing residual weights; a wrong residual or key shows only when subsets collide.",
  [A+"determinize/determinize_static.rs", A+"determinize/determinize_fsa_op.rs", A+"determinize/divisors.rs", A+"factor_weight"],
  [("weighted subset construction", "DeterminizeFsaOp"), ("transducer encoding", "determinize_fst via gallic weights and factor_weight")])

p("C17", "Minimization is equivalent and minimal",
  "Minimizing a deterministic machine gives a machine realising the same weighted relation. For a deterministic acceptor over an idempotent semiring the result is deterministic and no equivalent deterministic acceptor has fewer states, except that one extra state may carry the total weight; minimizing twice changes no sizes. Symbol tables are kept. Non-deterministic machines are refused, except that over an idempotent semiring they are minimized to an equivalent machine when that is explicitly allowed.",
  ["inputs", "configurations"], "every deterministic acceptor or transducer, weighted or not, cyclic or acyclic",
  "Separate acyclic and cyclic refinement code must agree with the coarsest congruence; merging too little passes equivalence tests, merging too much passes size tests.",
  [A+"minimize.rs", A+"partition.rs", A+"push.rs", A+"encode"],
  [("acyclic refinement", "AcyclicMinimizer"), ("cyclic refinement", "CyclicMinimizer / partition refinement"), ("weight pushing and quantization", "minimize_with_config")])

p("C18", "Pushing redistributes weights and labels without changing the relation",
  "Pushing weights, labels or both towards either end, and reweighting by any non-zero potentials, leave the weighted relation unchanged, except for the total weight or the common output prefix (suffix) exactly when their removal is requested. After pushing weights towards the start the outgoing weights of every state but the start sum to one, and towards the end the incoming ones do; output labels pushed towards the start are emitted as early as one label per transition allows, and pushing labels alone leaves every weight behind the input label it followed. Symbol tables are kept.",
  ["inputs", "configurations"], "every FST and every combination of push options",
  "Potentials are divided in on one side and multiplied on the other, with special cases for start, final and unreachable states.",
  [A+"push.rs", A+"reweight.rs", A+"shortest_distance.rs"],
  [("weight pushing", "push_weights, push"), ("potential-based reweighting", "reweight")])

p("C19", "Optimization never changes the relation",
  "The general optimization pass returns a machine realising the same weighted relation as its input, for acceptors and transducers, deterministic or not, cyclic or acyclic, weighted or not, whatever is known about the input beforehand, and keeps its symbol tables. An epsilon-free acceptor over an idempotent semiring that is known to be deterministic comes out minimal (up to one state for the total weight).",
  ["inputs"], "every FST, with every combination of stored property knowledge",
  "The pass picks among encodings, determinization and minimization on the basis of stored property bits, so each combination is a different pipeline.",
  [A+"optimize.rs", A+"encode/encode_static.rs", A+"rm_epsilon/rm_epsilon_static.rs", A+"tr_sum.rs"],
  [("pipeline selection", "optimize")])

p("C20", "Shortest distances equal the sum over all paths",
  "The distance from the start to each state, from each state to the final states, and between every pair of states equals the semiring sum of the weights of all corresponding paths, whichever queue discipline is used. Unreachable states get the zero weight or are absent.",
  ["inputs", "configurations"], "every FST and weight type for which the sum converges, and every queue",
  "Relaxation order differs by queue and topology; a missed re-enqueue gives a plausible but wrong number only on certain graphs.",
  [A+"shortest_distance.rs", A+"all_pairs_shortest_distance.rs", A+"queues", A+"queue.rs"],
  [("generic relaxation", "ShortestDistanceState"), ("all pairs", "all_pairs_shortest_distance"), ("queue choice", "AutoQueue, SccQueue, TopOrderQueue, ...")])

p("C21", "Shortest path returns the n best paths",
  "The single shortest path is a linear machine whose path belongs to the input and has the minimal weight. Asking for n paths returns the n lightest paths (fewer only if fewer exist) with their weights, and asking for unique ones returns the n lightest distinct strings of an acceptor without epsilons. No path is invented or repeated.",
  ["inputs", "configurations"], "every FST over path-property weights, every n, and the unique option",
  "The n-best search runs on the reversed machine with a heap of partial paths; ties, final weights and cycles are the failing inputs.",
  [A+"shortest_path.rs", A+"determinize", A+"reverse.rs"],
  [("single best", "single_shortest_path"), ("n best", "n_shortest_path")])

p("C22", "Reversal, inversion, projection, relabeling and mapping act pointwise",
  "Reversing maps each accepted pair to the reversed strings with the reversed weight, inverting swaps input and output, projecting copies the chosen side, relabeling substitutes labels as the given pairs say, and each transition mapper applies its function to every transition and final weight. Applying reversal or inversion twice restores the relation, and symbol tables follow the labels.",
  ["inputs", "configurations"], "every FST, weight type, relabeling table and mapper",
  "These are small loops, but with in-place editing, super-states and property masks; examples rarely combine final weights with mapping.",
  [A+"reverse.rs", A+"inversion.rs", A+"projection.rs", A+"relabel_pairs.rs", A+"tr_map.rs", A+"tr_mappers"],
  [("reversal", "reverse"), ("label rewriting", "invert, project, relabel_pairs"), ("mapping", "tr_map and tr_mappers::*")])

p("C23", "Encoding, factoring and weight conversion lose nothing",
  "Encoding labels and/or weights and then decoding with the same table restores the relation, and an encoded machine distinguishes exactly the transitions that differed in the encoded parts. Factoring weights leaves the relation unchanged while every remaining weight is a single factor. Converting weights to another representation and back, where a reverse exists, preserves the relation.",
  ["inputs", "configurations"], "every FST, encode type, factor iterator and convertible weight pair",
  "The tables intern (input, output, weight) triples with hashing; final weights and repeated encodes are the untested corners.",
  [A+"encode", A+"factor_weight", A+"weight_convert.rs", A+"weight_converters"],
  [("label tables", "EncodeTable"), ("factoring", "FactorWeightOp"), ("conversion", "weight_convert with To/FromGallicConverter")])

p("C24", "Isomorphism and condensation answers are exact",
  "The isomorphism test says yes exactly when some renumbering of states turns one machine into the other (transition order aside, weights compared up to the tolerance asked for), for machines all of whose states are reachable and, where the answer is no or an error, that are deterministic. Condensation maps two states together exactly when each reaches the other, and the condensed machine connects components exactly as transitions do.",
  ["inputs"], "every pair of FSTs and every FST",
  "A false yes needs two different states mapped onto one; no example has that shape.",
  [A+"isomorphic.rs", A+"condense.rs", A+"visitors/scc_visitors.rs"],
  [("pairing of states", "isomorphic"), ("components", "condense")])

p("C25", "Random generation only yields real paths",
  "Every path produced by random generation is an accepted path of the input machine no longer than the requested bound, and at most the requested number is produced: exactly that number when every draw can end in a path (the empty path being kept once). Each draw follows the choices of the given selector, the uniform selector choosing every transition and the final weight of a state equally often; the same seed gives the same result. The weighted form assigns to each path the number of times it was drawn, or its share of the draws; symbol tables are kept.",
  ["inputs", "configurations"], "every FST, seed, path count, length bound and weighting option",
  "The sampler is itself a lazy machine with counting weights; tests only run it.",
  [A+"randgen"],
  [("sampling machine", "RandGenFstOp / TrSampler"), ("path collection", "RandGenVisitor")])

p("C26", "Path enumeration lists exactly the accepted paths",
  "Enumerating the paths of a machine without cycles yields each successful path exactly once with its input labels, output labels and weight, epsilons left out; string enumeration renders the same paths through the symbol tables. Building a linear machine from labels or symbols and decoding it gives back the same path, and decoding a machine with more than one path is refused.",
  ["inputs"], "every acyclic FST and every label or symbol sequence",
  "The iterator keeps an explicit stack and merges final weights; examples enumerate two or three paths.",
  ["rustfst/src/fst_traits/paths_iterator.rs", "rustfst/src/fst_traits/string_paths_iterator.rs", "rustfst/src/fst_path.rs", "rustfst/src/string_path.rs", "rustfst/src/utils"],
  [("path iteration", "PathsIterator"), ("string rendering", "StringPathsIterator"), ("linear machines", "acceptor, transducer, decode_linear_fst")])

p("C27", "Constant and converted FSTs present the same machine",
  "Converting between the mutable and the constant representation, or copying any FST into another representation, preserves states, start, final weights, transition order, symbol tables and epsilon counts, and every read accessor and iterator of the copy agrees with the original. Asking any representation about a state it does not have returns an error.",
  ["inputs"], "every FST and every pair of representations",
  "The constant form stores all transitions in one array with per-state windows; off-by-one windows show only with several states of different fan-out.",
  ["rustfst/src/fst_impls/const_fst", "rustfst/src/trs.rs", A+"fst_convert.rs", "rustfst/src/fst_impls/vector_fst/fst.rs"],
  [("windowed transition storage", "ConstFst / TrsConst"), ("copying", "fst_convert, fst_convert_from_ref, From<VectorFst>")])

p("C28", "The C interface and Python package agree with the core library",
  "Every operation reached through the C interface or the Python package returns what the same call on the core library returns, for the same machine and options. Errors of the core surface as error results or exceptions, never as a crash, and objects passed as inputs are left unchanged unless the call is documented to modify them.",
  ["inputs", "histories", "configurations"], "every machine, operation and option value exposed by the bindings",
  "Bindings translate enums, optional arguments and ownership by hand; tests touch each call once with defaults.",
  ["rustfst-ffi/src/fst", "rustfst-ffi/src/algorithms", "rustfst-ffi/src/symbol_table.rs", "rustfst-ffi/src/iterators.rs", "rustfst-python/rustfst"],
  [("C wrappers", "rustfst-ffi extern functions"), ("ctypes wrappers", "rustfst-python/rustfst")])

p("C29", "Command-line tools compute what the library computes",
  "Each command-line subcommand, given input files, writes the FST that the library call of the same name and options produces on those files, and exits with success exactly when it did; missing or malformed input makes it exit with an error and write no output that looks complete.",
  ["inputs", "configurations", "fault_sequences"], "every input file pair, subcommand and flag combination",
  "Flags are mapped to options by hand and no test runs the binary.",
  ["rustfst-cli/src/main.rs", "rustfst-cli/src/cmds", "rustfst-cli/src/unary_fst_algorithm.rs", "rustfst-cli/src/binary_fst_algorithm.rs"],
  [("subcommand dispatch", "rustfst-cli/src/main.rs handle"), ("option mapping", "rustfst-cli/src/cmds/*")])

p("C30", "State queues return every enqueued state in their discipline's order",
  "Whatever the sequence of operations, a queue used by graph algorithms returns each state that was put in, reports emptiness truthfully, and returns states in its discipline's order: last-in first-out, first-in first-out, by topological order, by state number, or by best distance first (the trivial queue holds one state, and the queues ordered by state or topological position hold each state once). Nothing is returned that was not put in.",
  ["histories"], "every sequence of enqueue, dequeue, update and clear",
  "Queues are exercised only through the algorithms, which tolerate wrong orders at the price of wrong early results or endless work.",
  [A+"queues", A+"queue.rs"],
  [("queue disciplines", "LifoQueue, FifoQueue, StateOrderQueue, TopOrderQueue, ShortestFirstQueue, SccQueue, OtherQueue, AutoQueue")])

p("C31", "Matchers find exactly the transitions with the requested label",
  "Asking a matcher for a label at a state returns exactly the transitions of that state that carry the label on the matched side of a machine sorted on that side, each once; asking for epsilon also returns the implicit self-loop, asking for no label returns the real epsilon transitions alone. A wildcard matcher adds the wildcard transitions for every allowed label, rewritten as its mode says, and demands to be the matching side where a state has some; a multi-epsilon matcher treats exactly the labels currently registered as epsilons, answering them with the self-loop and listing their transitions with the epsilons, as its flags say. Final weights, priorities and unknown states are passed through.",
  ["inputs", "histories"], "every sorted machine, state, label, side, set of special labels and history of registering them",
  "Matchers are only exercised through compositions, which visit a few label and state combinations and hide what a matcher returns too much or too little.",
  [A+"compose/matchers"],
  [("binary search and implicit loop", "SortedMatcher / IteratorSortedMatcher"), ("wildcards", "SigmaMatcher"), ("several epsilon labels", "MultiEpsMatcher and its CompactSet")])

p("C32", "Drawings show exactly the machine",
  "Drawing a machine that has a start state writes a well-formed DOT graph with one node per state and one edge per transition, the start state bold, exactly the final states double-circled, labels rendered through the symbol tables whatever characters the symbols contain, weights shown as the configuration says, and the layout options as given. A label the symbol table lacks is an error.",
  ["inputs", "configurations"], "every machine, symbol table and drawing configuration",
  "No test reads a drawing back; unusual symbols and option combinations are never drawn.",
  ["rustfst/src/fst_traits/serializable_fst.rs", "rustfst/src/drawing_config.rs"],
  [("DOT output", "SerializableFst::draw"), ("states and transitions", "draw_single_fst_state")])

p("C33", "Chains of operations compute the composed meaning",
  "Applying any sequence of library operations - combining, inverting, reversing, projecting, relabeling, composing, replacing, sorting, cleaning, encoding and decoding, pushing, determinizing, minimizing, optimizing, converting, saving and reloading - one to the result of the other gives a well-formed machine whose weighted relation is the one obtained by applying the meanings of those operations in that order, whatever each step left recorded about the machine.",
  ["histories", "inputs"], "every sequence of operations and every starting machine and operands (whole relations of machines without cycles, bounded string lengths otherwise)",
  "Each operation trusts the property bits, state order and symbol tables of earlier ones; a wrong bit or a shape one operation produces and the next does not expect shows only in the combination.",
  ["rustfst/src/algorithms", "rustfst/src/fst_properties", "rustfst/src/fst_impls"],
  [("property bits handed from one operation to the next", "FstProperties of results"), ("shortcuts taken on known properties", "connect, rm_epsilon, minimize, optimize, tr_sort, compose")])

p("C34", "Symbol tables follow machines through every operation",
  "The result of an operation carries the symbol tables its labels need: edits, in-place algorithms, copies, conversions, saving and reloading, reversal, determinization, pushing, shortest paths, random paths and weight conversion keep the operand's input and output tables; union, concatenation, closure and replacement keep those of the first machine; composition takes the input table of the first and the output table of the second; inversion swaps the two and projection copies the kept side's over the other, also when one of them is absent. Lazy machines show the same tables as the computed result, and setting or taking a table affects exactly that side, on static and lazy machines alike. Operands keep their own tables.",
  ["inputs", "histories", "configurations"], "every operation and sequence of operations, every machine and every combination of present, absent, shared and distinct tables",
  "Unit tests attach one table to both sides and check that some table is left after four operations; swapped, stale or one-sided tables and the lazy machines are not tried.",
  [A+"inversion.rs", A+"projection.rs", A+"replace", A+"union", A+"concat", A+"closure", A+"lazy", "rustfst/src/fst_traits", "rustfst/src/fst_impls"],
  [("tables of results", "MutableFst::set_symts_from_fst and its callers"), ("tables of lazy machines", "LazyFst, UnionFst, ConcatFst, ClosureFst, ReplaceFst, ComposeFst, RmEpsilonFst, FactorWeightFst"), ("tables that change sides", "invert, project")])

d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(d, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        for q in x["anchors"]["files"]:
            assert os.path.exists("/repo/" + q), (x["id"], q)
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long lines stay reviewable)."""
import json, pathlib
VEC = ["gearley-vec2d/src/lib.rs"]
CART = ["gearley-utils/src/cartesian_product.rs"]
REC = "gearley-recognizer/src/recognizer.rs"
HEAP = "gearley-recognizer/src/binary_heap.rs"
PRED = "gearley-recognizer/src/predict.rs"
LA = "gearley-recognizer/src/lookahead.rs"
EV = "gearley-recognizer/src/event.rs"
PH = "gearley-recognizer/src/perf_hint.rs"
DG = "gearley-default-grammar/src/lib.rs"
GG = "gearley-grammar/src/lib.rs"
SB, ST = "simple-bocage/src/bocage.rs", "simple-bocage/src/traverse.rs"
CB, CT, CG = "compact-bocage/src/bocage.rs", "compact-bocage/src/traverse.rs", "compact-bocage/src/graph.rs"
PA = "gearley-utils/src/parse.rs"
FORE = "gearley-forest/src/forest.rs"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

NOTEST = "gearley-vec2d has no tests of its own; the parser tests only run a few fixed call patterns through it."
VSTATE = [("chart", "all items, set after set, then the unfinished set", VEC[0]), ("indices", "where each set begins", VEC[0])]
prop("V01", "Stored sets read back exactly as appended, and finished sets never change",
  "In the two-dimensional set store (Vec2d), after any sequence of pushing and popping items, finishing sets and appending whole sets, the finished sets read by index are exactly the item sequences that were finished, in order, and the unfinished set holds exactly the items pushed since then and not popped. "
  "The accessors for the unfinished set, the last item, an item by absolute position, the item count, where a set begins and the length (finished sets plus one) all agree with that. "
  "Changing the unfinished set, through any mutating call, never alters a finished set.",
  ["histories"], "all sequences of store operations (push, pop, finish set, append set of any length incl. empty, write through the mutable view, shorten the unfinished set)", NOTEST,
  VEC, [("push_item/next_set/extend_with_set/last_mut/Index", VEC[0])], VSTATE, ["Index, last, last_mut, last_item, get_item, item_count, index_at, len"])
prop("V02", "Truncating the set store keeps a prefix and carries over the unfinished set",
  "Truncating a Vec2d to n sets, for any n up to the number of finished sets, keeps the first n finished sets unchanged, drops the later finished sets, and keeps the unfinished set with the same items in the same order as the unfinished set that now follows set n. "
  "Shortening by absolute item count within the unfinished set drops only that set's trailing items. "
  "Everything done to the store afterwards behaves as if the store had been built that way from the start.",
  ["histories"], "all operation sequences containing truncations to every possible n, with every mix of shorter, equal and longer dropped and carried sets", NOTEST,
  VEC, [("truncate/truncate_chart", VEC[0])], VSTATE)
prop("V03", "A cleared set store is indistinguishable from a new one",
  "After clear, whatever was done before, a Vec2d holds no finished set, no item and an empty unfinished set, and every later sequence of operations gives the same observations as on a newly created store.",
  ["histories"], "all histories before clear, all histories after it, including repeated clears", NOTEST,
  VEC, [("clear", VEC[0])], VSTATE)
prop("V04", "Bulk construction of the set store equals step-by-step construction",
  "Collecting an iterator of item sequences into a Vec2d, extending a Vec2d by such an iterator (also when an unfinished set already holds items, which the first new sequence then joins), appending whole sets one at a time, and pushing items one by one all give the same store. "
  "Default, new and with_capacity with any capacities all give the same empty store, and capacities are never observable. "
  "A clone is equal to the original and independent of it.",
  ["inputs", "histories"], "all shapes of nested sequences (incl. empty sets and empty iterators), all capacities, all later histories", NOTEST,
  VEC, [("FromIterator/Extend/with_capacity/Default/Clone", VEC[0])], VSTATE)
prop("V05", "A set store survives serialization unchanged",
  "Serializing a Vec2d and deserializing the result, with either supported serialization library, gives a store with the same finished sets and the same unfinished set, which also behaves the same under every later operation.",
  ["histories"], "every reachable store (finished and unfinished sets, after truncation or clear), both serializers, all later histories",
  "No test serializes a Vec2d on its own; test_serde needs the absent cfg crates and looks at two fields.",
  VEC, [("derive(Serialize, Deserialize) for serde and miniserde", VEC[0])], VSTATE)

prop("C01", "The cartesian product visits every combination exactly once, in odometer order",
  "For any list of non-empty slices, starting from the combination of first elements and advancing until advance returns false, the product yields every combination of one element per slice exactly once, with the first slice varying fastest, each combination having the factors in the order in which they were added. "
  "The advance that returns false leaves the product at the combination of first elements again, so a second run yields the same sequence. "
  "A product without factors has one, empty, combination.",
  ["inputs"], "all lists of factor lengths (number of factors, length of each, slices shared between factors), element types of any size",
  "test_cartesian_product runs one list of three factors once and stops.", CART,
  [("CartesianProduct::advance, Factor::advance", CART[0])], [("ptrs", "current element of each factor", CART[0]), ("ranges", "bounds of each factor", CART[0])], ["as_slice", "advance"])
prop("C02", "Any mix of push, extend and clear builds the same cartesian product",
  "However factors are added - one by one with push, several at once with extend (including extending by none), in any mixture, before or after a clear, and before or after some advances - the product has exactly the factors added since the last clear, in that order. "
  "Adding factors leaves the current elements of the factors already there as they are and starts each new factor at its first element; clear removes all factors.",
  ["histories"], "all sequences of push, extend, clear and advance",
  "The only test calls extend once on an empty product and never push.", CART,
  [("CartesianProduct::push/extend/clear", CART[0])], [("ptrs", "current element of each factor", CART[0]), ("ranges", "bounds of each factor", CART[0])])
prop("C03", "The cartesian product only ever refers to elements of its factors",
  "Through any use of the safe interface with non-empty factors, every reference handed out points to an element of the factor at that position, and no operation forms a reference to, or reads, memory outside the given slices.",
  ["histories", "inputs"], "all operation sequences over slices that are parts of larger arrays, single-element slices, and slices at the end of an allocation",
  "A test sees only values; stepping past the end is undefined behaviour that happens to work.", CART,
  [("Factor::new/advance raw pointers", CART[0])], None, ["Miri, address identity of as_slice() elements"])

GR = "all context-free grammars without a nonterminal that derives itself, "
prop("R01", "The recognizer accepts exactly the sentences of the grammar",
  "For a grammar in which no nonterminal derives itself and any sequence of tokens read one per location without lookahead hints, after the start of input and after each token the recognizer reports a finished parse exactly if the tokens read so far are a sentence of the grammar. "
  "A new or reset recognizer that has read nothing reports a finished parse exactly if the empty input is a sentence. "
  "This includes empty rules, left, right and hidden recursion, ambiguity, long rules and grammars with many symbols.",
  ["inputs", "programs"], GR + "all token sequences",
  "The tests run about five grammars on one accepted sentence each; rejection is never tested.", [REC, HEAP, PRED, DG, GG, VEC[0]],
  [("scan/complete/predict passes", REC), ("online-sorting heap", HEAP), ("compiled tables", DG)],
  [("medial, predicted, complete", "the Earley sets", REC)], ["is_finished", "end_earleme"])
prop("R02", "Correct lookahead hints never change the outcome of a parse",
  "If some or all of the tokens are announced, one ahead, as lookahead hints, the verdict after the last token is the same as without hints. "
  "A sequence that is a sentence is never rejected early, and a sequence is rejected early only if no sentence begins with the tokens read plus the announced one.",
  ["inputs", "programs", "histories"], GR + "all token sequences, every choice of which locations announce their next token",
  "Tests use only parse(), which always announces, on accepted sentences.", [REC, LA, DG, PA],
  [("will_be_useful filters", REC), ("lhs_lr_set/lookahead_set", DG), ("hint set/clear", LA)])
prop("R03", "Reading fails exactly when no sentence can begin with the tokens read",
  "Without lookahead hints, ending a location reports failure exactly if no sentence of the grammar begins with the tokens read so far including that location's, and the recognizer then reports that it is exhausted; otherwise it succeeds. "
  "A location at which nothing is scanned always fails.",
  ["inputs", "programs"], GR + "all token sequences including erroneous ones, failing at every position",
  "No test feeds a wrong token.", [REC, PRED, DG], [("is_exhausted/end_earleme", REC), ("prediction check in complete", REC)])
prop("R04", "A reset recognizer behaves like a new one",
  "After reset, at any point of any earlier parse - finished, unfinished, failed, between tokens or within a location, with or without a pending lookahead hint - the recognizer gives the same verdicts, failures, predictions and progress for every following token sequence as a newly created one.",
  ["histories", "programs"], GR + "all earlier token sequences and interruption points, all later token sequences, repeated resets",
  "The reset tests repeat one accepted sentence, which cannot show leftovers.", [REC, LA],
  [("reset", REC)], [("predicted rows, hint, medial, complete", "what has to be forgotten", REC)])
prop("R05", "Several tokens at one location are read as alternatives",
  "If a set of one or more tokens is scanned at each location, in any order, the recognizer reports a finished parse exactly if some choice of one token per location is a sentence, and fails at a location exactly if no sentence begins with any such choice.",
  ["inputs", "programs"], GR + "all sequences of non-empty token sets, all scan orders",
  "No test scans two tokens at one location.", [REC, PA], [("scan accumulates completions and medial items of one location", REC)])
prop("R06", "Forgetting unreachable parts of the table bounds memory and is never noticed",
  "After each location at which a rule of the grammar is in progress, the recognizer keeps no table rows between the current location and the latest location at which a rule still in progress began, so the location count is at most one more than the largest such origin, and it stays bounded on input of any length for grammars in which rules in progress always begin near the start. "
  "Forgetting rows never changes any later verdict, prediction or progress report.",
  ["inputs", "histories"], GR + "all token sequences; long inputs for grammars with left recursion, right recursion and nesting",
  "No test looks at the table size or compares it with what is needed.", [REC, VEC[0]], [("remove_unreachable_sets", REC)], [("earleme", "number of the current table row", REC)])
prop("R07", "Predictions and items in progress are exactly the live ones",
  "At every location, the predicted symbols are exactly those that can come next in some continuation of the tokens read that can still become a sentence, as terminals or as the start of a nonterminal. "
  "The reported items in progress are exactly the rules, dot positions and origins that match the input so far with at least one token consumed and a symbol that can match tokens next.",
  ["inputs", "programs"], GR + "all token sequences without hints",
  "No test reads predicted_symbols or medial_items.", [REC, EV, DG, PRED], [("prediction_pass", REC), ("predicted_symbols/medial_items", REC), ("prediction matrix", DG)])
prop("R08", "Each completed fragment is processed once, latest origin first, and in full",
  "While a location is being completed, every grammar symbol and origin that matches the input between origin and this location, and was predicted there, comes up as a completion group exactly once, and nothing else does. "
  "Groups come up with non-increasing origins, a group contains all alternatives of that fragment, and nothing that a later group does can add to an earlier group.",
  ["inputs", "programs"], GR + "all token sequences, all declaration orders of the symbols",
  "test_leo compares totals of one run on one grammar.", [HEAP, REC, DG], [("heap ordered by origin and rule number", HEAP), ("symbol order remap_symbols", DG), ("next_sum/next_summand", REC)])
prop("R09", "Memory hints, policies, forest choice and borrowing never change the outcome",
  "For the same grammar and tokens, every verdict, failure, prediction and item in progress is the same with any capacity hints, with lookahead switched off or on in the policy, with no forest, the simple forest or the compact forest, and whether the recognizer owns or borrows the grammar.",
  ["configurations", "inputs", "programs"], "all combinations of policy, capacities, forest and grammar ownership; " + GR + "all token sequences",
  "Each test uses one configuration.", [REC, PH, GG, SB, CB], [("PerfHint constants and capacities", PH), ("forwarding impl for borrowed grammars", GG), ("Forest callbacks", REC)])
prop("R10", "Skipping a completion group removes exactly that fragment from the parse",
  "If the caller drives completion group by group and skips some groups, the recognizer behaves exactly as if the skipped symbol did not match the input between that origin and this location, and everything else is as before: the groups offered, the verdicts and the failures are those of that restricted language. "
  "Completing every group by hand, item by item, is the same as completing the location in one call.",
  ["histories", "inputs", "programs"], GR + "all token sequences, every set of skip decisions",
  "No test drives completion by hand.", [REC, HEAP], [("next_sum, skip_entire_sum, complete_entire_sum, next_summand, push_summand, complete_sum", REC)])
prop("R11", "Progress reports name the right rules, events and expected tokens",
  "At every location, the trace lists for each predicted symbol a rule of that symbol with the dot at its start, and for each item in progress its rule, dot position and origin; events and minimal distances list what the grammar attached to those dots. "
  "The expected terminals are exactly the tokens, including end of input, with which the parse can go on.",
  ["inputs", "programs"], GR + "all token sequences, events attached to every dot of every rule",
  "No test calls trace, events, minimal_distances or expected_terminals.", [EV, DG], [("trace/events/minimal_distances/expected_terminals", EV), ("event and tracing columns", DG)])

FD = "In a parse forest built by the recognizer, "
prop("R12", "Recognizers do not affect each other",
  "Any number of recognizers over one compiled grammar, with any forests, and the evaluation of their parses, give in any interleaving of their operations (reading, announced tokens, completion groups, progress reports, resets, evaluation) exactly what each of them gives alone. Compiling and using another grammar in between changes nothing either.",
  ["schedules", "inputs", "programs"], GR + "all interleavings of the operations of several recognizers",
  "No test has two recognizers at a time.", [REC, "gearley-recognizer/src/lookahead.rs"], [("state of Recognizer, DefaultLookahead", REC)])
prop("F01", "Evaluating an unambiguous parse yields exactly its derivation tree",
  "For a sentence with exactly one derivation, evaluating the forest gives one result: each rule application is evaluated once with its rule's number and its children's results in rule order, each token with its symbol and the value it was scanned with, in input order. "
  "This holds for both forests and for rules of any length.",
  ["inputs", "programs"], GR + "all their sentences with one derivation",
  "Three tests evaluate one sentence each, two of them comparing a single sum.", [ST, CT, SB, CB, DG], [("evaluate", ST), ("evaluate", CT), ("external_origin", GG)])
prop("F02", "Evaluating an ambiguous parse yields every derivation exactly once",
  "For a sentence with several derivations, evaluating the forest gives one result per derivation, each derivation exactly once, also when the ambiguity is nested inside other rules or inside a part of a long rule. "
  "If the caller keeps only one alternative of each completion group, exactly one of those derivations is the result.",
  ["inputs", "programs"], GR + "all their sentences",
  "One ambiguous sentence is tested, by a test that cannot be built here.", [ST, CT, SB, CB, REC], [("Sum nodes and evaluate", ST), ("BeginSum/EndSum and evaluate", CT)])
prop("F03", "The compact forest and the simple forest always agree",
  "For the same grammar and the same calls, the compact and the simple forest give the same set of results from evaluation for every finished parse: empty input, empty subtrees, ambiguous and unambiguous, whether completion runs automatically or is driven item by item.",
  ["inputs", "programs", "histories"], GR + "all their sentences, automatic and manual completion",
  "The compact forest has one test, on one sentence.", [SB, ST, CB, CT, CG], [("two implementations of Forest and evaluate", CB)])
prop("F04", "Empty subtrees appear as their symbol, in place, exactly once each",
  "Wherever a derivation has a symbol that derives nothing, evaluation calls nulling exactly once for that symbol of the rule and puts its result at that symbol's position among the children, for any number and arrangement of such symbols in a rule, including rules in which all but one, and an input in which all symbols are empty. "
  "It is never called for a symbol that is not in the derivation. A new recognizer that has read nothing has a finished node if the empty input is a sentence, and that node evaluates to the start symbol derived empty.",
  ["inputs", "programs"], "all grammars with empty rules, without a nonterminal that derives itself; all their sentences including the empty one",
  "Two sentences with empty symbols are tested.", [ST, CT, SB, CB, DG, GG], [("postprocess_product_tree_node", SB), ("initialize_nulling", SB), ("populate_nulling", DG)])
prop("F05", "Evaluation is repeatable and evaluating one node does not disturb another",
  "Evaluating the same finished parse again, any number of times, gives the same results; finished parses of several locations of one run can be evaluated in any order, and each gives the derivations of its own prefix of the input.",
  ["histories", "inputs", "programs"], GR + "all sentences with sentence prefixes, all evaluation orders",
  "Every test evaluates one node once and drops the forest.", [ST, CT, SB, CB], [("evaluate rewrites nodes on the fly", ST)])
prop("F06", "Forest storage is exact for values and forests of any size",
  "Token values, symbol numbers, rule numbers and forest sizes of any magnitude that fits the interface come back exactly: no value, however many bytes it needs, is changed or mixed up with a neighbour, in short and in very long parses.",
  ["inputs"], "all boundary values around each byte width (1, 2, 3, 4 bytes) for each stored field, inputs long enough for each width of node number",
  "Tests store values below 10 in forests of a few dozen bytes.", [CG, CB, SB], [("Graph::push/get/get_node_size variable-width encoding", CG)])

prop("F07", "What the caller keeps of the completion groups is exactly what evaluation gives",
  "If the caller skips whole completion groups (also after having pushed some of their alternatives without completing them), the parses that are still finished evaluate to exactly the derivations that use none of the skipped fragments. If the caller keeps several alternatives of a group, in whatever order they are pushed, evaluation gives exactly the derivations that single choices among the kept alternatives would give, each once.",
  ["histories", "inputs", "programs"], GR + "all inputs that a sentence begins with, all sequences of decisions to skip or complete each group, all subsets of the alternatives of each group",
  "No test skips a group with a forest or keeps a part of a group.", [REC, SB, CB, ST, CT], [("CompleteGroup::{skip_entire_sum, next_summand, push_summand, complete_sum}", REC), ("begin_sum / push_summand / sum", SB), ("begin_sum / push_summand / sum", CB)])
prop("F08", "The results of evaluation depend on the grammar and the tokens only",
  "Evaluating a sentence gives the same results whichever of the next tokens are announced truthfully as lookahead hints, with every policy, capacity and way of owning the grammar, whether completion is automatic or item by item, in a recognizer (and forest) that was reset after any earlier parse or part of a parse (also in the middle of a completion group), and after reading further tokens, whether they can be read or not.",
  ["histories", "inputs", "programs"], GR + "all their sentences, all choices of announced locations, all earlier and later tokens, all listed policies and capacities",
  "Every test evaluates right after one parse in a new recognizer with default settings.", [REC, SB, CB, ST, CT], [("reset keeps the forest", REC), ("hints filter completions", REC)])

prop("F09", "A forest of the caller's own is told exactly the derivations, in order",
  "A recognizer with a forest written by the caller tells it, at each location, of each scanned token once, with its symbol, value and position in the table, and of every fragment completed there once: the beginning of the sum, its alternatives with no other product in between, each of that symbol and origin, and the sum. "
  "Children are told before their parents, products join only adjacent fragments, and without lookahead hints no product is built that is no alternative of a sum, and none is an alternative twice. Expanded with the rule numbers and eliminated empty symbols of the grammar's forest information, each sum stands for exactly the derivations of its fragment, and the finished node for those of the input; nodes of before a reset do not turn up again.",
  ["inputs", "programs", "histories"], GR + "all inputs that a sentence begins with, all wrong next tokens, automatic and item by item completion, hints, resets",
  "Every test uses a forest of the library or none.", [REC, FORE, DG], [("scan: leaf; complete: product, begin_sum/push_summand/sum", REC), ("Forest trait", FORE)])

prop("F10", "Tokens read at one location as alternatives are alternatives in evaluation",
  "If several tokens, also the same one with different values, are scanned at some locations, in any order, evaluating the finished parse gives exactly the derivations, with their values, of all ways of choosing one token per location, each once; so does keeping one alternative of every completion group, in all ways.",
  ["inputs", "programs"], GR + "all sequences of token lists, with repeated tokens and tokens that cannot be read, in all scan orders",
  "No test evaluates a parse with two tokens at one location.", [REC, SB, CB, ST, CT], [("scan: one leaf per token; completions are grouped, items in progress are not deduplicated", REC)])

prop("G01", "Symbols map one to one between the user's grammar and the compiled grammar",
  "In a compiled grammar, every symbol of the user's grammar that can occur in a parse has an internal number that maps back to it, different symbols have different internal numbers, and symbols that cannot occur have none. "
  "The start symbol, the start-of-input and end-of-input symbols and the rule numbers reported for rules are the ones of the user's grammar and are consistent with that mapping.",
  ["programs"], "all grammars without a nonterminal that derives itself, all declaration orders, with useless symbols",
  "Two mapping values of one grammar are tested.", [DG], [("remap_symbols/populate_maps/to_internal/to_external", DG)])
prop("G02", "Prediction tables are exactly the left-corner closure of the grammar",
  "The prediction row of a symbol contains exactly that symbol and every symbol that can come first in something derived from it, as the beginning of a nonempty part, when symbols that may be empty are skipped.",
  ["programs"], "all grammars without a nonterminal that derives itself, all declaration orders, more symbols than one machine word",
  "No test reads the tables.", [DG], [("populate_prediction_matrix", DG)])
prop("G03", "Lookahead tables never miss a token that can come next",
  "For each symbol, the follow table contains every token (or end of input) that can come directly after it in a sentence, and for each dot the lookahead table contains every token that can come next if that rule position is part of a sentence.",
  ["programs"], "all grammars without a nonterminal that derives itself",
  "No test reads the tables or announces a token in a rejected sentence.", [DG], [("populate_lr_sets/lookahead_set/lhs_lr_set", DG)])
prop("G04", "A saved and reloaded grammar parses exactly as the original",
  "Serializing a compiled grammar and deserializing it, with either supported serialization library, gives a grammar with the same tables, with which recognition, progress reports and forest evaluation give the same results on every input.",
  ["programs", "inputs"], "all grammars without a nonterminal that derives itself, all token sequences, both serializers",
  "test_serde compares two numbers of one reloaded grammar and never parses with it.", [DG, GG], [("derive(Serialize, Deserialize)", DG)])
prop("G05", "Compiling is deterministic and independent of how rules and symbols are ordered",
  "Compiling the same grammar twice gives the same compiled grammar, and declaring the same symbols or rules in another order changes neither the language, nor the failures, nor the set of evaluation results (apart from the renumbering itself).",
  ["programs", "inputs", "configurations"], "all grammars without a nonterminal that derives itself, all permutations of symbol and rule declaration, all token sequences",
  "Each test declares its grammar once, with the start symbol first.", [DG, HEAP], [("remap_symbols order relation", DG), ("sort_rules_by_lhs", DG)])

prop("G06", "Compiled rules stand for exactly the rules of the user's grammar",
  "The rules of a compiled grammar, as its completion tables list them, with generated symbols and eliminated empty symbols expanded, are exactly the useful rules of the user's grammar, each once for every way in which some but not all of its symbols are derived empty, under the number of that rule, and the start symbol between start and end of input. "
  "Every dot is listed exactly once, rules of two parts before those of one for each first symbol, with the second part, the left-hand side and the symbol whose prediction it depends on; the grammar and its forest information agree.",
  ["programs"], "all grammars without a nonterminal that derives itself, all declaration orders",
  "No test reads the tables.", [DG, GG], [("compute_completion_table, populate_grammar_with_lhs/rhs/history, populate_nulling", DG)])

prop("U01", "parse() returns the right verdict or the position of the first wrong token",
  "Parsing a token list returns success with true if the list is a sentence and with false if it is not but some sentence begins with it. "
  "Otherwise it returns an error whose position is the first token after which no sentence can begin with what was read, or the one before it (where the lookahead first shows it), and whose token is the token at that position.",
  ["inputs", "programs"], GR + "all token lists",
  "parse() is only tested on sentences.", [PA, REC], [("RecognizerParseExt::parse", PA)])
prop("U02", "Parsing a list of words accepts exactly the sentences spelled by them",
  "Parsing a list of terminal names succeeds exactly if every word names a symbol and the named tokens form a sentence; a word that names no symbol is reported as a tokenizing error with that word, and anything else that is not a sentence is reported as an error.",
  ["inputs", "programs"], GR + "all word lists, with unknown words at every position",
  "No test calls it.", [PA], [("parse_terminal_list", PA)])
prop("U03", "Character parsing accepts exactly the texts some classification makes a sentence",
  "Parsing a text with a map from characters to sets of terminals succeeds exactly if some choice of one terminal per character is a sentence; a text that is not, including one with a character that is in no class, is reported as an error, at the position of the first character after which no sentence can begin with what was read if there is one.",
  ["inputs", "programs"], GR + "all texts, all overlapping character classes",
  "No test calls it.", [PA], [("parse_tokenizing", PA)])
prop("U04", "Tokens that the grammar cannot use are reported as errors, not crashes",
  "A token list that contains a symbol the compiled grammar has no use for (declared but unused, only used by useless rules, or not declared in that grammar) is never accepted, and parsing it returns an error at or before the first such token, without panicking, also when it is only seen as lookahead.",
  ["inputs", "programs"], GR + "all token lists with such symbols at every position",
  "No test uses a symbol outside the rules.", [PA, DG], [("to_internal in parse", PA)])
prop("U05", "After parse() the recognizer holds the parse, can go on, and can be used again",
  "After parse() of a sentence there is a finished node, which evaluates to exactly the derivations of the sentence, each token being a leaf with its symbol and, as its value, its position in the list, starting with 0; after parse() of a list that is not a sentence but begins one there is none. "
  "Reading further tokens then goes on exactly as if all tokens had been read one by one. After a reset, parse() of any list gives the same result and the same evaluation as with a new recognizer, whatever was parsed before and however it ended. "
  "parse() gives the same result with any forest, any capacities, and a borrowed or owned grammar (without lookahead, the reported position is where the wrong token is).",
  ["inputs", "programs", "histories"], GR + "all token lists, all continuations, all sequences of lists with resets",
  "The tests parse one sentence with each recognizer.", [PA, REC], [("RecognizerParseExt::parse", PA), ("Recognizer::reset", REC)])
prop("D01", "Turning on logging changes nothing",
  "With the crates built with their logging features and a logger that formats every record at the most detailed level, compiling grammars, reading, hints, failures, resets, alternatives, forgetting, progress reports, completion groups, evaluation, parse() and the parsing of words and texts give exactly the results that the other properties require without logging, and nothing panics.",
  ["inputs", "programs", "histories"], GR + "all inputs, hints, resets, decisions and texts of the explorations named, within smaller bounds",
  "No test turns logging on.", [REC, DG, PA], [("trace! arguments and cfg!(feature = \"log\") code", REC), ("trace! arguments", DG)])
prop("E01", "The bundled arithmetic grammars accept exactly the arithmetic expressions",
  "With its own tokenizer, the precedenced example grammar accepts exactly the expressions over digits, the four operators and balanced parentheses, with one derivation each, grouped by the usual precedence and from left to right, and the ambiguous one accepts exactly those without parentheses, with one derivation per way of bracketing the operators.",
  ["inputs"], "all strings over the example's characters",
  "Two sentences are tested, in crates that cannot be built here.", ["gearley-example-grammars/src/precedenced_math/mod.rs", "gearley-example-grammars/src/ambiguous_math/mod.rs"],
  [("grammar/tokenize", "gearley-example-grammars/src/precedenced_math/mod.rs")])
prop("E02", "The bundled evaluators compute the values of arithmetic expressions",
  "Evaluating a parsed expression with the bundled evaluator of the precedenced example grammar, given the grammar's own symbols, gives its one value by the usual precedence, from left to right, with numbers of any length read as decimal and division truncated; evaluating with the evaluator of the ambiguous example grammar gives, once for each way of bracketing the operators, the value of that bracketing; with either forest. (Expressions that divide by zero or exceed the range of values are left open.)",
  ["inputs"], "all expressions over the example's characters",
  "Two sentences are evaluated by tests that cannot be built here.", ["gearley-example-grammars/src/precedenced_math/mod.rs", "gearley-example-grammars/src/ambiguous_math/mod.rs"],
  [("grammar/Evaluator", "gearley-example-grammars/src/precedenced_math/mod.rs"), ("grammar/Evaluator", "gearley-example-grammars/src/ambiguous_math/mod.rs")])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P), "properties")

"""Which explorer decides which property, and what each explorer takes for granted."""
ENGINE = {}
for _p in ("V01", "V02", "V03", "V04", "V05"):
    ENGINE[_p] = "vec2d"
for _p in ("C01", "C02", "C03"):
    ENGINE[_p] = "cartesian"
ASSUME = {
    "vec2d": ["the store is generic over its items and cannot inspect them, so fresh numbers stand for all items",
              "only operations whose preconditions hold are applied (no pop or shortening into finished sets, no truncation beyond the finished sets)"],
    "cartesian": ["factors are non-empty slices", "values of elements do not influence the product (it is generic over them)"],
}
TECHNIQUE = {
    "vec2d": "exhaustive exploration of operation sequences on the real Vec2d against a list-of-lists model",
    "cartesian": "exhaustive exploration of operation sequences on the real CartesianProduct against an odometer model",
    "C03": "exhaustive exploration of operation sequences on the real CartesianProduct, natively by element address and inside Miri",
}
NOTE = {
    "vec2d": "Every operation sequence up to the stated depth is run on the real code (no merging), and every store within the stated size caps is reached by breadth-first search with merging of stores that are equal up to renaming items; all accessors are compared with the model after every step. Assumes that the store does not inspect items (it is generic).",
    "cartesian": "Every list of factor lengths / operation sequence within the bounds is run on the real code and compared with the model after every step.",
    "C03": "Every operation sequence within the bounds; the native run compares element addresses, the Miri run (smaller bounds) reports any reference formed or access made outside the slices. Trusts Miri's aliasing model.",
}

_PARSE = "R01 R02 R03 R04 R05 R06 R07 R08 R09 R10 R11 R12 F01 F02 F03 F04 F05 F06 F07 F08 F09 F10 G01 G02 G03 G05 G06 U01 U02 U03 U04 U05 E01 E02".split()
for _p in _PARSE:
    ENGINE[_p] = "parse"
ASSUME["parse"] = [
    "the crates are compiled from their sources in /repo, but with the stand-ins of shims/ for the absent git dependency 'cfg' (grammar container and normalization) and 'bit-matrix'; a change of behaviour in those dependencies is not seen",
    "grammars in which a nonterminal derives itself are left out (they have infinitely many derivations, which the library does not represent)",
    "the caller uses the interface in the documented order (one end_earleme per location, queries about a location after beginning it, evaluation of a finished parse only)",
]
_in = "All grammars of bounded families (without renamings), and hand-picked larger ones, in several declaration orders, each with all inputs that a sentence begins with up to a length, and each of these with every wrong next token; the real code is run on every one of them"
_trust = "Trusts the stand-ins of shims/ for the absent dependency 'cfg'. The reference (a table of what derives what, and an enumeration of derivations) shares no code with the implementation."
def _reg(p, technique, note):
    TECHNIQUE[p] = technique
    NOTE[p] = f"{note} {_trust}"
_x = "exhaustive exploration of grammars and token sequences on the real recognizer"
_reg("R01", _x + " against a derivation table", _in + "; the verdict is compared at every location.")
_reg("R02", _x + ", with every pattern of lookahead announcements", _in + "; every subset of the locations announces the next token.")
_reg("R03", _x + " against a viable-prefix table", _in + "; success, failure and exhaustion are compared at every location.")
_reg("R04", _x + ", with a reset at every point of every history", _in + "; after every history (also within a location, failed, finished, with an announced token) the reset recognizer is compared with a new one on all continuations.")
_reg("R05", _x + " with every sequence of token sets, in every scanning order", _in + "; here inputs are sequences of token sets.")
_reg("R06", _x + ", comparing the number of kept table rows at every location", _in + "; in addition very long inputs of five grammars.")
_reg("R07", _x + " against definitions of prediction and progress", _in + "; predicted symbols and items in progress are compared at every location.")
_reg("R08", _x + ", observing every completion group", _in + "; the groups, their order and their alternatives are compared at every location.")
_reg("R09", _x + " under every listed policy, capacity, forest and way of owning the grammar", _in + "; all observations are compared between the configurations, and the first of them against nothing but itself (R01-R08 decide it).")
_reg("R10", _x + " and every sequence of decisions to skip or complete a group", _in + "; every decision sequence is followed (at most 3000 per input and grammar, which is reported) and compared with a reference in which the skipped fragments do not match. Driven without a forest.")
_reg("R11", _x + " on grammars with events, against the reference tables", _in + "; traces, events, minimal distances and expected terminals are compared at every location.")
_y = "exhaustive exploration of grammars and sentences, evaluating both real forests, against all derivation trees"
_reg("R12", "exhaustive exploration of all interleavings, up to two switches (three in the thorough tier), of the operations of two real recognizers on one grammar, and of one with the compiling and use of another compiled grammar", "All grammars of small families and listed ones; up to three or four inputs each, with no forest, the simple and the compact one, in one call or group by group, with and without announced tokens, some twice with a reset; every operation shows the same as alone, progress and evaluation (twice) included.")
_reg("F01", _y, _in + "; every sentence with one derivation is evaluated into a tree with values.")
_reg("F02", _y, _in + "; every sentence with up to 2000 derivations is evaluated, also after every selection of one alternative per completion group (at most 300 selections per sentence, the rest is counted in the evidence).")
_reg("F03", "exhaustive exploration of grammars, sentences and completion choices on both real forests in lockstep", _in + "; every sentence, also after selections of alternatives (at most 60 per sentence).")
_reg("F04", _y + ", over grammars with empty rules", _in + "; the calls of nulling are counted and located.")
_reg("F05", _y + ", for every order of evaluations", _in + "; every finished location of every run, repeatedly, in every order of two.")
_reg("F07", "exhaustive exploration of grammars, inputs, skipped completion groups and kept alternatives on both real forests, against the derivations of the restricted grammar table", _in + "; every sequence of decisions to skip or complete a group (if there are more than 600, all with up to two skips), and every subset of the alternatives of every group (if there are more than 600, all that differ in one group from keeping everything), pushed in either order.")
_reg("F08", "exhaustive exploration of grammars, sentences, announcements, configurations, earlier and later tokens on both real forests, against all derivation trees", _in + "; every sentence is evaluated under every choice of announced locations (up to six), every listed policy and capacity, after every listed history and reset, and with up to two further locations.")
_reg("F09", "exhaustive exploration of grammars, inputs and ways of driving, recording every call a caller's own forest receives, against all derivation trees", _in + "; every viable input and every wrong next token, completed automatically, alternative by alternative, with announced tokens and after a reset.")
_reg("F10", "exhaustive exploration of grammars and sequences of token lists on both real forests, against the derivations of every choice of one token per location", _in + "; at every location every list of different tokens in every order, one token twice with different values, and one token before and after another; automatic and alternative by alternative completion, and selections of one alternative per group (up to 12).")
_reg("F06", "exhaustive exploration of token values around all byte boundaries, and of grammar and forest sizes, on both real forests, a part of it also inside Miri", "Every tuple of boundary values in short sentences; every list length within a range and selected long ones; every pair of symbols and rule number of wide grammars. The Miri run places local values at varying addresses, so that alignment mistakes show.")
_z = "exhaustive exploration of grammars and declaration orders on the real compiler of grammars"
_reg("G01", _z + ", comparing the symbol maps", "All grammars of bounded families (useless rules included) in several declaration orders.")
_reg("G02", _z + ", comparing prediction rows with the left-corner closure", "All grammars of bounded families in several declaration orders; every row is compared in both directions.")
_reg("G03", _z + ", comparing lookahead tables with the tokens that can follow", "All grammars of bounded families in several declaration orders; the tables must contain every token that can follow (they may contain more).")
_reg("G05", "exhaustive exploration of all declaration orders of all small grammars on the real code", "Every permutation of symbols, every permutation of up to 4 rules (rotations beyond), compared by verdicts, failures and sets of evaluation results on all inputs up to the bound.")
_reg("G06", "exhaustive exploration of grammars and declaration orders, expanding all compiled rules, against the rules of the description with every way of leaving out empty symbols", _in + ".")
_u = "exhaustive exploration of grammars and inputs on the real helper functions"
_reg("U01", _u + " against the viable-prefix table", _in + ".")
_reg("U02", _u + " for all lists of words, known and unknown", "All grammars of bounded families with all lists of words up to a length.")
_reg("U03", _u + " for all texts and classifications of characters", "All grammars of bounded families with several classifications and all texts up to a length.")
_reg("U04", _u + " with declared, useless, unused and undeclared symbols", "All grammars of bounded families with useless rules, with all token lists over usable and unusable symbols up to a length.")
_reg("U05", "exhaustive exploration of grammars, token lists and pairs of token lists on the real parse(), against derivations, the viable-prefix table and new recognizers", "All grammars of bounded families; what parse() leaves on both forests for all viable lists up to a length and all ways of going on with up to two tokens; all pairs of lists (wrong and undeclared tokens included) with resets in between; nine kinds of recognizers. Sentences with more than 60 derivations are not evaluated.")
_reg("E01", "exhaustive exploration of all character sequences on the real example grammars", "All texts over the alphabet up to a length against a recursive-descent reference, with evaluation by a tree evaluator.")
_reg("E02", "exhaustive exploration of all expressions on the real example grammars and evaluators, with both real forests", "All expressions over the alphabets up to a length (those in which something is divided by zero, or a value is too large, are left out), against a recursive computation of the value or values. The evaluators are given the symbols of the example's grammar (the library reports its internal numbers; the check maps them back).")
ENGINE["G04"] = "serde"
ASSUME["serde"] = ASSUME["parse"]
_reg("G04", "exhaustive exploration of grammars, ways of saving and reloading, and inputs on the real code", "All grammars of bounded families in several declaration orders, with events, saved and reloaded by serde (text and value), miniserde, both, and twice; every table that the interface exposes is compared, and verdicts, failures, progress and evaluation results on all inputs up to the bound.")
ENGINE["D01"] = "log"
ASSUME["log"] = ASSUME["parse"]
_reg("D01", "exhaustive exploration of grammars, inputs and histories on the real code built with logging and with every log record formatted, against the same references as without", "The explorations of verdicts, hints, failures, resets, token sets, forgetting, progress, completion groups, skipping, evaluation, histories, parse(), words and texts, with smaller families of grammars, on the crates built with their log features and a logger at the most detailed level.")

NOT_CLAIMED = {}

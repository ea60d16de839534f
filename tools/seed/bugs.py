"""Planted bugs: each a change of /repo with a demonstration. See mkseed.py."""
VEC = "gearley-vec2d/src/lib.rs"
CP = "gearley-utils/src/cartesian_product.rs"
REC = "gearley-recognizer/src/recognizer.rs"
HEAP = "gearley-recognizer/src/binary_heap.rs"
DG = "gearley-default-grammar/src/lib.rs"
CB = "compact-bocage/src/bocage.rs"
CG = "compact-bocage/src/graph.rs"
SB = "simple-bocage/src/bocage.rs"
PARSE = "gearley-utils/src/parse.rs"

BUGS = []

def bug(id, property, kind, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, kind=kind, needs=needs, what_it_breaks=breaks, edits=edits, demo=demo))

# ---------------------------------------------------------------- Vec2d

bug("V01-last-item", "V01", "rustc",
    "a finished set with items, an empty unfinished set, and then last_item",
    "last_item looks only into the unfinished set, so it finds nothing right after a set was finished.",
    [(VEC, "        self.chart.last()\n", "        self.last().last()\n")],
    """use gearley_vec2d::Vec2d;
fn main() {
    let mut v = Vec2d::new();
    v.push_item(7u32);
    assert_eq!(v.last_item(), Some(&7));
    v.next_set();
    assert_eq!(v.last_item(), Some(&7), "the item stored last");
    v.push_item(8);
    assert_eq!(v.last_item(), Some(&8));
}
""")

bug("V01-empty-set", "V01", "rustc",
    "appending a set, from an iterator known to be empty",
    "extend_with_set returns early when the iterator is known to be empty and then does not finish the set.",
    [(VEC, "        self.chart.extend(set);\n        self.next_set();\n",
      "        let (_, at_most) = set.size_hint();\n        self.chart.extend(set);\n        if at_most != Some(0) || self.len() == 1 || !self.last().is_empty() {\n            self.next_set();\n        }\n")],
    """use gearley_vec2d::Vec2d;
fn main() {
    let mut v = Vec2d::new();
    v.extend_with_set([1u32, 2].into_iter());
    v.extend_with_set(std::iter::empty());
    v.extend_with_set([3].into_iter());
    assert_eq!(v.len(), 4);
    assert_eq!(&v[1], &[] as &[u32]);
    assert_eq!(&v[2], &[3]);
}
""")

bug("V02-backward-copy", "V02", "rustc",
    "truncation with an unfinished set that is longer than what is dropped",
    "truncate moves the unfinished set item by item from its end, which overwrites items not moved yet when source and target overlap.",
    [(VEC, """        self.chart
            .copy_within(self.indices.last().unwrap().., new_medial_start as usize);
""", """        let last_start = self.indices.last().copied().unwrap();
        for i in (0..self.chart.len() - last_start).rev() {
            self.chart[new_medial_start + i] = self.chart[last_start + i];
        }
""")],
    """use gearley_vec2d::Vec2d;
fn main() {
    for dropped in 0..4u32 {
        for unfinished in 0..6u32 {
            let mut v = Vec2d::new();
            v.extend_with_set([100u32, 101].into_iter());
            v.extend_with_set(0..dropped);
            for i in 0..unfinished {
                v.push_item(200 + i);
            }
            v.truncate(1);
            let want: Vec<u32> = (0..unfinished).map(|i| 200 + i).collect();
            assert_eq!(v.last(), &want[..], "dropped {dropped}");
            assert_eq!(&v[0], &[100, 101]);
        }
    }
}
""")

bug("V02-nothing-to-move", "V02", "rustc",
    "truncation that drops only empty sets, with nothing in the unfinished set",
    "truncate returns early when the chart needs no change and forgets to drop the (empty) sets.",
    [(VEC, "        let new_medial_start = self.indices[new_len];\n",
      "        let new_medial_start = self.indices[new_len];\n        if new_medial_start == self.chart.len() {\n            // No items to drop or to move.\n            return;\n        }\n"),
     (VEC, "        self.indices.truncate(new_len + 1);\n", "        self.indices.truncate(1 + new_len);\n")],
    """use gearley_vec2d::Vec2d;
fn main() {
    let mut v = Vec2d::new();
    v.extend_with_set([1u32].into_iter());
    v.next_set();
    v.next_set();
    v.truncate(1);
    assert_eq!(v.len(), 2);
    v.push_item(5);
    v.next_set();
    assert_eq!(v.len(), 3);
    assert_eq!(&v[1], &[5]);
}
""")

bug("V02-truncate-chart", "V02", "rustc",
    "shortening by item count to exactly the beginning of the unfinished set, when it is not empty",
    "truncate_chart keeps one item of the unfinished set when asked to drop them all.",
    [(VEC, "        self.chart.truncate(new_len);\n",
      "        let start = self.indices.last().copied().unwrap();\n        self.chart.truncate(if start > 0 { new_len.max(start + 1) } else { new_len });\n")],
    """use gearley_vec2d::Vec2d;
fn main() {
    let mut v = Vec2d::new();
    v.extend_with_set([1u32, 2].into_iter());
    v.push_item(3);
    v.push_item(4);
    v.truncate_chart(3);
    assert_eq!(v.last(), &[3]);
    v.truncate_chart(2);
    assert_eq!(v.last(), &[] as &[u32]);
}
""")

bug("V03-nothing-finished", "V03", "rustc",
    "clear while no set is finished but items are in the unfinished set",
    "clear does nothing when no set is finished, so the items of the unfinished set stay.",
    [(VEC, "        self.chart.clear();\n        // Indices reset to [0, 0].\n",
      "        if self.indices.len() == 1 {\n            return;\n        }\n        self.chart.clear();\n        // Indices reset to [0, 0].\n"),
     (VEC, "        self.indices.push(0);\n        // // Current medial start", "        self.indices.extend([0]);\n        // // Current medial start")],
    """use gearley_vec2d::Vec2d;
fn main() {
    let mut v = Vec2d::new();
    v.push_item(1u32);
    v.clear();
    assert_eq!(v.item_count(), 0);
    v.push_item(2);
    assert_eq!(v.last(), &[2]);
}
""")

bug("V04-size-hint", "V04", "rustc",
    "collecting from iterators whose lower size bound is not exact, such as a filter",
    "Extend computes where the next set begins from the iterator's lower size bound instead of the items it gave.",
    [(VEC, """            self.extend_with_set(set.into_iter());
""", """            let set = set.into_iter();
            let (at_least, at_most) = set.size_hint();
            let start = self.chart.len();
            self.extend_with_set(set);
            if at_most.is_none() || at_least > 0 {
                *self.indices.last_mut().unwrap() = (start + at_least).max(self.chart.len());
            } else if at_most.map_or(false, |n| n > 100) {
                *self.indices.last_mut().unwrap() = start + at_least;
            }
""")],
    """use gearley_vec2d::Vec2d;
fn main() {
    for n in [3u32, 50, 101, 500] {
        let v: Vec2d<u32> = [0, n].into_iter().map(|k| (0..k).filter(|x| x % 2 == 1)).collect();
        let want: Vec<u32> = (0..n).filter(|x| x % 2 == 1).collect();
        assert_eq!(v.len(), 3);
        assert_eq!(&v[0], &[] as &[u32]);
        assert_eq!(&v[1], &want[..]);
    }
}
""")

bug("V04-joined-set", "V04", "rustc",
    "extending by an empty sequence while the unfinished set holds items",
    "an empty first sequence does not finish the set that was there.",
    [(VEC, "            self.extend_with_set(set.into_iter());\n",
      "            let unfinished = self.last().len();\n            self.chart.extend(set);\n            if unfinished == 0 || self.last().len() > unfinished {\n                self.next_set();\n            }\n")],
    """use gearley_vec2d::Vec2d;
fn main() {
    let mut v = Vec2d::new();
    v.push_item(1u32);
    v.extend([vec![], vec![2]]);
    assert_eq!(v.len(), 3);
    assert_eq!(&v[0], &[1]);
    assert_eq!(&v[1], &[2]);
}
""")

bug("V05-list-of-sets", "V05", "serde",
    "serde, with finished sets and nothing in the unfinished set",
    "serde stores a list of sets, the unfinished one last, but leaves that out if it is empty, so the last finished set comes back as unfinished.",
    [(VEC, "#[cfg_attr(feature = \"serde\", derive(serde::Serialize, serde::Deserialize))]\n", ""),
     (VEC, "#[derive(Default)]\npub struct Vec2dCapacity {\n", """// Stored as a list of sets.
#[cfg(feature = "serde")]
impl<I: serde::Serialize> serde::Serialize for Vec2d<I> {
    fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
        let sets = (0..self.len() - 1).map(|i| &self[i]);
        let last = Some(self.last()).filter(|last| !last.is_empty() || self.len() == 1);
        serializer.collect_seq(sets.chain(last))
    }
}

#[cfg(feature = "serde")]
impl<'de, I: serde::Deserialize<'de>> serde::Deserialize<'de> for Vec2d<I> {
    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
        let sets: Vec<Vec<I>> = serde::Deserialize::deserialize(deserializer)?;
        let mut result: Self = sets.into_iter().collect();
        // The last set is the unfinished one.
        result.indices.pop();
        Ok(result)
    }
}

#[derive(Default)]
pub struct Vec2dCapacity {
"""),
     ],
    """use gearley_vec2d::Vec2d;
fn main() {
    let mut v = Vec2d::new();
    let round = |v: &Vec2d<u32>| -> Vec2d<u32> { serde_json::from_str(&serde_json::to_string(v).unwrap()).unwrap() };
    assert_eq!(round(&v).len(), 1);
    v.extend_with_set([1u32, 2].into_iter());
    v.push_item(3);
    let w = round(&v);
    assert_eq!(w.last(), &[3]);
    assert_eq!(&w[0], &[1, 2]);
    v.next_set();
    let w = round(&v);
    assert_eq!(w.len(), 3);
    assert_eq!(w.last(), &[] as &[u32]);
    let w: Vec2d<u32> = miniserde::json::from_str(&miniserde::json::to_string(&v)).unwrap();
    assert_eq!(w.len(), 3);
}
""")

# ---------------------------------------------------------------- CartesianProduct

bug("C02-clear-keeps-ranges", "C02", "rustc",
    "clear before the first advance, then new factors and advancing",
    "clear drops only the current elements, and the factors only if there were advances (when the first factor has moved).",
    [(CP, "        self.ranges.clear();\n        self.ptrs.clear();\n",
      "        self.ptrs.clear();\n        if self.ranges.iter().any(|factor| factor.slice.len() > 1) {\n            self.ranges.clear();\n        }\n")],
    """use cartesian::CartesianProduct;
fn main() {
    let one = [1u32];
    let two = [5u32, 6];
    let mut p = CartesianProduct::new();
    p.push(&one);
    p.clear();
    p.push(&two);
    assert_eq!(p.as_slice(), &[&5]);
    assert!(p.advance());
    assert_eq!(p.as_slice(), &[&6]);
    assert!(!p.advance());
}
""")

bug("C01-stop-early", "C01", "rustc",
    "two neighbouring factors of length one after a longer one, when it wraps",
    "advance gives up when a wrapped factor is followed by two factors with a single element.",
    [(CP, "            if !factor.advance(ptr) {\n                return true;\n            }\n",
      "            if !factor.advance(ptr) {\n                return true;\n            }\n            ones = if factor.slice.len() == 1 { ones + 1 } else { 0 };\n            if ones == 2 {\n                return false;\n            }\n"),
     (CP, "        for (ptr, factor) in self.ptrs.iter_mut().zip(&mut self.ranges) {\n",
      "        let mut ones = 0;\n        for (ptr, factor) in self.ptrs.iter_mut().zip(self.ranges.iter_mut()) {\n")],
    """use cartesian::CartesianProduct;
fn main() {
    let one = [1u32];
    let two = [5u32, 6];
    for order in [[&two[..], &one, &one, &two], [&one, &one, &two, &two], [&two, &two, &one, &one]] {
        let mut p = CartesianProduct::new();
        p.extend(order.into_iter());
        let mut n = 1;
        while p.advance() {
            n += 1;
        }
        assert_eq!(n, 4);
    }
}
""")

# ---------------------------------------------------------------- Recognizer

FULL = "mod kit;\nuse kit::*;\n"

bug("R01-completion-order", "R01", "full",
    "a grammar in which some symbol begins both a rule of one symbol and a longer rule, with the shorter one first in the table",
    "the completion table lists rules in grammar order; completing predictions relies on the binary ones coming first.",
    [(DG, "        for (rhs0_sym, transition) in binary_rules.into_iter().chain(unary_rules.into_iter()) {\n",
      "        let mut rules: Vec<_> = binary_rules.into_iter().chain(unary_rules).collect();\n        rules.sort_by_key(|(_, transition)| transition.dot);\n        for (rhs0_sym, transition) in rules {\n")],
    FULL + """fn main() {
    for text in ["S = a | A b ; A = a", "S = A b | B ; A = a ; B = a", "S = A | B c ; A = a b ; B = a", "S = A c | B ; A = a ; B = a b | a"] {
        let g = grammar(text);
        let ok = ["a", "ab", "ac", "abc"].map(|w| w.chars().all(|c| g.ext.contains_key(&c)).then(|| g.accepts(w)).flatten().unwrap_or(false));
        let want = match text {
            "S = a | A b ; A = a" => [true, true, false, false],
            "S = A b | B ; A = a ; B = a" => [true, true, false, false],
            "S = A | B c ; A = a b ; B = a" => [false, true, true, false],
            _ => [true, true, true, false],
        };
        assert_eq!(ok, want, "{text}");
    }
}
""")

bug("R02-stale-hint", "R02", "full",
    "a lookahead hint at one location and none at the next",
    "the hint is not forgotten when the location is completed, so it also filters the next location.",
    [(REC, "            completion.complete_entire_sum();\n        }\n        self.lookahead.clear_hint();\n", "            completion.complete_entire_sum();\n        }\n        // The hint is replaced by the next one.\n")],
    FULL + """use gearley_recognizer::lookahead::Lookahead;
fn main() {
    let g = grammar("S = A B c ; A = a ; B = b");
    let mut r = g.null();
    r.begin_earleme();
    r.lookahead().set_hint(g.i('b'));
    r.scan(g.i('a'), 0);
    assert!(r.end_earleme());
    assert!(read(&mut r, g.i('b')));
    assert!(read(&mut r, g.i('c')));
    assert!(r.is_finished());
}
""")

bug("R04-leftover-completions", "R04", "full",
    "reset after a token is scanned and before the location is ended",
    "reset keeps the completions waiting for the end of the location, which then take part in the next parse.",
    [(REC, "        self.leo.clear();\n        self.complete.clear();\n", "        self.leo.clear();\n        if self.is_exhausted() {\n            self.complete.clear();\n        }\n")],
    FULL + """fn main() {
    let g = grammar("S = a b | c b ; A = a");
    let mut r = g.null();
    r.begin_earleme();
    r.scan(g.i('a'), 0);
    r.reset();
    start(&mut r);
    r.begin_earleme();
    assert!(!r.end_earleme(), "nothing was scanned");
    // and in a parse that goes on
    let g = grammar("S = a a a");
    let mut r = g.null();
    assert!(read(&mut r, g.i('a')));
    r.begin_earleme();
    r.scan(g.i('a'), 0);
    r.reset();
    start(&mut r);
    for _ in 0..3 {
        assert!(read(&mut r, g.i('a')));
    }
    assert!(r.is_finished());
}
""")

bug("R05-one-origin", "R05", "full",
    "two tokens scanned at one location, the first of which completes nothing",
    "the items of a location are taken as complete from the wrong place when an earlier completion of the location left none in progress.",
    [(REC, "        let mut binary = self.medial.last().len();\n", "        let mut binary = if self.complete.is_empty() { self.medial.last().len() } else { self.medial.last().len().min(1) };\n")],
    FULL + """fn main() {
    let g = grammar("S = a b | a c d | b c d | c d ; T = a");
    let mut r = g.null();
    r.begin_earleme();
    for c in ['a', 'b', 'c'] {
        r.scan(g.i(c), 0);
    }
    assert!(r.end_earleme());
    assert!(!r.is_finished());
    assert!(read(&mut r, g.i('c')));
    assert!(!r.is_finished());
    assert!(read(&mut r, g.i('d')));
    assert!(r.is_finished());
    let g = grammar("S = X c | Y c | Z d ; X = a | b b ; Y = b | a a ; Z = c | a d | b d");
    let mut r = g.null();
    r.begin_earleme();
    for c in ['a', 'b', 'c'] {
        r.scan(g.i(c), 0);
    }
    assert!(r.end_earleme());
    assert!(!r.is_finished());
    assert!(read(&mut r, g.i('d')));
    assert!(r.is_finished());
}
""")

bug("R06-last-origin", "R06", "full",
    "a location whose items in progress do not end with the one of the latest origin, after rows were unneeded",
    "the latest origin still in use is taken from the last item in the order of the set instead of their maximum, so rows still needed are dropped.",
    [(REC, "            .map(origin)\n            .max()\n", "            .map(origin)\n            .last()\n")],
    FULL + """fn main() {
    // The rules are tried in several orders, so that the item that comes last differs.
    for text in ["S = x y A c d | x L ; L = y a c M ; M = d d ; A = a", "S = x L | x y A c d ; L = y a c M ; A = a ; M = d d",
                 "S = L | x y z A c ; L = x y z a c d d ; A = a c", "S = x y z A c | L ; A = a c ; L = x y z a c d d",
                 "S = L | x y z A e ; A = a e c ; L = x y z a e d d", "S = x y z A e | L ; A = a e c ; L = x y z a e d d"] {
        let g = grammar(text);
        let words: &[&str] = &["xyacd", "xyacdd", "xyzacc", "xyzacdd", "xyzaece", "xyzaedd"];
        let want: &[&str] = match text.contains('e') {
            true => &["xyzaece", "xyzaedd"],
            false if text.contains('z') => &["xyzacc", "xyzacdd"],
            false => &["xyacd", "xyacdd"],
        };
        for w in words {
            if w.chars().all(|c| g.ext.contains_key(&c)) {
                assert_eq!(g.accepts(w) == Some(true), want.contains(w), "{text}: {w}");
            }
        }
    }
}
""")

bug("R06-stale-row", "R06", "full",
    "rows being forgotten, and a token that was expected earlier at the location reused",
    "forgetting rows keeps one row of predictions too many, which is then taken for the new location's predictions.",
    [(REC, "            self.predicted.truncate(new_earleme + 1);\n", "            self.predicted.truncate(new_earleme + 2);\n"),
     (REC, "        self.predicted.grow(1, false);\n", "        if self.predicted.size().0 < self.earleme() + 2 {\n            self.predicted.grow(1, false);\n        }\n")],
    FULL + """fn main() {
    let g = grammar("S = S x | a b c d e ; T = a");
    for (w, want) in [("abcde", Some(true)), ("abcb", None), ("abcdexx", Some(true)), ("abcdexb", None), ("abd", None), ("abcc", None)] {
        assert_eq!(g.accepts(w), want, "{w}");
    }
    let g = grammar("S = L ; L = L A | A ; A = a b c d");
    for w in ["abcdabcd", "abcdabcdabcd"] {
        assert_eq!(g.accepts(w), Some(true), "{w}");
    }
    // Predictions are those of a parse of the same rest.
    let mut r = g.null();
    for c in "abcdabc".chars() {
        assert!(read(&mut r, g.i(c)));
    }
    r.begin_earleme();
    let expected: Vec<char> = r.predicted_symbols().map(|s| g.c(s)).collect();
    assert_eq!(expected, vec!['d']);
}
""")

bug("R08-right-child", "R08", "full",
    "three or more completions waiting at the same time, of which the last one is the greatest child",
    "sifting down never compares with a right child that is last in the heap, so groups come up in the wrong order and twice.",
    [(HEAP, "            // compare with the greater of the two children\n            if right < end && !(self.heap_get(child)", "            // compare with the greater of the two children\n            if right + 1 < end && !(self.heap_get(child)")],
    FULL + """fn main() {
    let g = grammar("S = A | B | C D | a S ; A = a | a A ; B = a B | a a ; C = a | a C ; D = a | a D");
    let mut r = g.simple();
    for n in 0..7 {
        r.begin_earleme();
        r.scan(g.i('a'), 0);
        let mut seen = std::collections::BTreeSet::new();
        let mut last = u32::MAX;
        while let Some(mut group) = r.next_sum() {
            let (s, o) = (group.symbol(), group.origin());
            assert!(o <= last, "origins do not increase");
            last = o;
            assert!(seen.insert((s.usize(), o)), "each group once, at token {n}");
            group.complete_entire_sum();
        }
        r.advance_after_completion();
    }
}
""")

bug("R10-skip-first", "R10", "full",
    "skipping a group that has several alternatives",
    "skipping a group removes only its first alternative, so the group comes up again.",
    [(REC, "        while let Some(_) = self.next_summand() {}\n", "        let _ = self.next_summand();\n")],
    FULL + """fn main() {
    let g = grammar("S = A b ; A = B | C ; B = a ; C = a");
    let a = g.i('A').usize();
    let mut r = g.null();
    r.begin_earleme();
    r.scan(g.i('a'), 0);
    let mut times = 0;
    while let Some(mut group) = r.next_sum() {
        if group.symbol().usize() == a {
            times += 1;
            assert!(times == 1, "the skipped group came up again");
            group.skip_entire_sum();
        } else {
            group.complete_entire_sum();
        }
    }
    assert_eq!(times, 1);
    assert!(r.is_exhausted());
}
""")

bug("R11-first-event", "R11", "full",
    "a predicted symbol with several rules, of which not the last one has an event at its start",
    "the prediction events of a symbol are those of its first rule with an event, but the trace names its last rule.",
    [(DG, "                self.columns[0].events[rule.lhs.usize()] = (rule_dot.event, rule_dot.distance);\n",
      "                if self.columns[0].events[rule.lhs.usize()] == (EventId::null(), MinimalDistance::null()) {\n                    self.columns[0].events[rule.lhs.usize()] = (rule_dot.event, rule_dot.distance);\n                }\n")],
    FULL + """use cfg::Cfg;
use gearley_default_grammar::DefaultGrammar;
use gearley_recognizer::Recognizer;
fn main() {
    let mut cfg = Cfg::new();
    let s = cfg.next_sym(Some("S"));
    let t: Vec<_> = (0..3).map(|i| cfg.next_sym(Some(&format!("t{i}")))).collect();
    for (id, &t) in t.iter().enumerate() {
        cfg.rule(s).rhs(vec![t]);
        cfg.set_dot_event(id as u32, 0, 100 + id as u32, 1 + id as u32);
    }
    cfg.set_roots([s]);
    let dg = DefaultGrammar::from_grammar(cfg);
    let mut r = Recognizer::new(&dg);
    start(&mut r);
    r.begin_earleme();
    let mut seen = 0;
    for ((dot, _), (event, distance)) in r.trace().zip(r.events()) {
        if dot.id < 3 && dot.pos == 0 && event.id != !0 {
            assert_eq!((event.id, distance.distance), (100 + dot.id, 1 + dot.id));
            seen += 1;
        }
    }
    assert!(seen > 0);
}
""")

# ---------------------------------------------------------------- Forests

bug("F05-repeated-nulling", "F05", "full",
    "evaluating a finished parse twice, when a rule has an empty symbol next to a nonempty one",
    "a rule node whose empty symbol has been filled in is filled in again by the next evaluation.",
    [(SB, "            if let Node::Rule { .. } = self[factors] {\n                return node;\n            }\n            if action == NULL_ACTION {\n",
      "            if action == NULL_ACTION || action as usize >= self.forest_info.nulling_eliminated.len() {\n")],
    FULL + """use gearley_forest::Forest;
fn main() {
    let g = grammar("S = A b ; A = ");
    let mut r = g.simple();
    assert!(read(&mut r, g.i('b')));
    let n = r.finished_node().unwrap();
    let mut f = r.into_forest();
    for _ in 0..3 {
        let t = f.evaluate(Show(&g, Default::default()), n);
        assert_eq!(t, vec!["S0(A() b)"]);
    }
    let _ = Forest::nulling(&f, g.i('A'));
}
""")

bug("F06-three-byte-nodes", "F06", "full",
    "an ambiguous parse whose forest is larger than 65536 bytes",
    "the size of a node is computed with one bit of its length field missing, so the alternatives of a node that refers far into the forest are not found.",
    [(CG, "        let r_len = ((head >> 5) & 0b11) + 1;\n", "        let r_len = ((head >> 5) & 0b1) + 1;\n")],
    FULL + """fn main() {
    let g = grammar("S = S A | A ; A = B | C ; B = a ; C = b c | D ; D = b c");
    for n in [3usize, 1500, 3000] {
        let mut w = "a".repeat(n);
        w.push_str("bc");
        let t = g.trees_compact(&w);
        assert_eq!(t.len(), 2);
        assert_ne!(t[0], t[1]);
    }
}
""")

bug("F06-powers-of-256", "F06", "full",
    "a token value of 256, or another number whose bytes end in exactly that",
    "the number of bytes of a stored number is one too small for 256, 65536 and so on.",
    [(CG, "            let mut i = 0;\n            while x != 0 {\n", "            let mut i = 1u8;\n            while x > 0x100 {\n"),
     (CG, "            (i.max(1u8), slice)\n", "            (i, slice)\n")],
    FULL + """use gearley_forest::Evaluate;
use gearley_recognizer::Recognizer;
struct Values;
impl Evaluate for Values {
    type Elem = Vec<u32>;
    fn leaf(&self, _: cfg::Symbol, value: u32) -> Vec<u32> {
        vec![value]
    }
    fn product<'a>(&self, _: u32, args: impl Iterator<Item = &'a Vec<u32>>) -> Vec<u32>
    where
        Vec<u32>: 'a,
    {
        args.flatten().copied().collect()
    }
    fn nulling<'r>(&self, _: cfg::Symbol, results: &'r mut Vec<Vec<u32>>) {
        results.push(vec![]);
    }
}
fn main() {
    let g = grammar("S = a a");
    for v in [0u32, 1, 255, 256, 257, 65535, 65536, 1 << 24, u32::MAX] {
        let mut r = Recognizer::with_forest(&g.dg, compact_bocage::Bocage::new(&g.dg));
        start(&mut r);
        for v in [v, 7] {
            r.begin_earleme();
            r.scan(g.i('a'), v);
            assert!(r.end_earleme());
        }
        let n = r.finished_node().unwrap();
        assert_eq!(r.into_forest().evaluate(Values, n), vec![vec![v, 7]]);
    }
}
""")

bug("F03-sum-without-begin", "F03", "full",
    "the compact forest, an ambiguous group completed item by item, keeping exactly the second alternative",
    "the compact forest takes a node with one alternative for the alternative itself only if the alternative was counted since begin_sum.",
    [(CB, "        self.num_summands += 1;\n", "        self.num_summands = if self.num_summands == 2 { 1 } else { self.num_summands + 1 };\n")],
    FULL + """fn main() {
    let g = grammar("S = A | B | C ; A = a ; B = a ; C = a");
    assert_eq!(g.trees_simple("a"), g.trees_compact("a"));
    let g = grammar("S = A | B | C | D ; A = a ; B = a ; C = a ; D = a");
    assert_eq!(g.trees_simple("a"), g.trees_compact("a"));
    assert_eq!(g.trees_compact("a").len(), 4);
}
""")

bug("F04-nulling-side", "F04", "full",
    "a rule with an empty symbol in the compact forest that is directly after a nonterminal",
    "the empty symbol is put on the wrong side when the other one is a nonterminal.",
    [(CB, "                let (left, right) = if dir {\n", "                let (left, right) = if dir || matches!(self.get(factors), Node::BeginSum) {\n")],
    FULL + """fn main() {
    let g = grammar("S = N A ; N = ; A = B | C ; B = a ; C = a");
    assert_eq!(g.trees_compact("a"), vec!["S0(N() A2(B4(a)))", "S0(N() A3(C5(a)))"]);
    assert_eq!(g.trees_simple("a"), g.trees_compact("a"));
}
""")

bug("F02-sum-origin", "F02", "full",
    "three or more alternatives of one fragment in the simple forest",
    "the count of alternatives of a node is capped at two.",
    [(SB, "                        count: self.summand_count as u32,\n", "                        count: self.summand_count.min(2),\n")],
    FULL + """fn main() {
    let g = grammar("S = A | B ; A = a ; B = a");
    assert_eq!(g.trees_simple("a").len(), 2);
    let g = grammar("S = A | B | C ; A = a ; B = a ; C = a");
    assert_eq!(g.trees_simple("a").len(), 3);
}
""")

# ---------------------------------------------------------------- Grammar tables and helpers

bug("G02-long-rules", "G02", "full",
    "a rule of four or more symbols",
    "the prediction matrix follows the chain of helper symbols of a long rule for one step only.",
    [(DG, """                while lhs >= self.size.syms {
                    if times > 0 {
                        trace!("{:?}", lhs);
""", """                let mut steps = 0;
                while lhs >= self.size.syms && steps < 2 {
                    steps += 1;
                    if times > 0 {
                        trace!("{:?}", lhs);
"""),
     (DG, "                self.prediction_matrix.set(lhs, rule.rhs[0].usize(), true);\n",
      "                if lhs < self.size.syms {\n                    self.prediction_matrix.set(lhs, rule.rhs[0].usize(), true);\n                }\n")],
    FULL + """fn main() {
    for (text, w) in [("S = a b", "ab"), ("S = a b c", "abc"), ("S = a b c d", "abcd"), ("S = a b c d e f", "abcdef")] {
        assert_eq!(grammar(text).accepts(w), Some(true), "{text}");
    }
}
""")

bug("G03-follow-of-helpers", "G03", "full",
    "a lookahead hint at the end of a nonterminal that is the last symbol before the end of input, with more input possible only through another rule",
    "the follow table leaves out what can follow through the first set of the symbol itself.",
    [(DG, "                if before.usize() < syms && after_sym.usize() < syms {\n", "                if before.usize() < syms && after_sym.usize() < syms && *before != after_sym {\n")],
    FULL + """use gearley_recognizer::lookahead::Lookahead;
fn main() {
    let g = grammar("S = S a | A ; A = a | b");
    for w in ["ba", "aaa", "baa"] {
        let mut r = g.null();
        let w: Vec<char> = w.chars().collect();
        for i in 0..w.len() {
            r.begin_earleme();
            if i + 1 < w.len() {
                r.lookahead().set_hint(g.i(w[i + 1]));
            }
            r.scan(g.i(w[i]), 0);
            assert!(r.end_earleme());
        }
        assert!(r.is_finished());
    }
    // The follow table itself: `a` can follow `a`.
    use gearley_grammar::Grammar;
    assert!(g.dg.lhs_lr_set(g.i('a'))[g.i('a').usize()]);
}
""")

bug("U03-two-classes", "U03", "full",
    "a character that belongs to three classes, of which only the third fits",
    "the text parser reads a character as at most two of the terminals it may stand for.",
    [(PARSE, "        for &terminal in loaded.lexer_map.get(ch) {\n", "        for &terminal in loaded.lexer_map.get(ch).iter().take(2) {\n")],
    FULL + """use cfg_load::advanced::{AdvancedGrammar, LexerMap};
fn main() {
    for text in ["S = a b c", "S = b c a", "S = c b a"] {
        let g = grammar(text);
        let classes = ['a', 'b', 'c'].iter().map(|c| (g.ext[c], vec!['x'])).collect();
        let loaded = AdvancedGrammar { cfg: g.cfg.clone(), lexer_map: LexerMap::from_classes(classes) };
        let r = gearley_utils::parse_tokenizing(loaded, g.dg.clone(), "xxx");
        assert!(matches!(r, Ok(true)), "{text}");
    }
}
""")

bug("F06-many-symbols", "F06", "full",
    "a token whose symbol has an internal number above 255",
    "the compact forest stores symbol numbers of leaves in one byte.",
    [(CG, "            Node::Leaf { symbol, values } => [5, symbol.usize() as u32, values],\n            Node::NullingLeaf { symbol } => [6, symbol.usize() as u32, 0],\n        };\n        let f",
          "            Node::Leaf { symbol, values } => [5, symbol.usize() as u8 as u32, values],\n            Node::NullingLeaf { symbol } => [6, symbol.usize() as u32, 0],\n        };\n        let f")],
    FULL + """fn main() {
    for n in [10u32, 400] {
        let mut text = String::from("S = ");
        let token = |i: u32| char::from_u32(0x4e00 + i).unwrap();
        for i in 0..n {
            if i > 0 {
                text.push('|');
            }
            text.push(token(i));
        }
        let g = grammar(&text);
        for i in 0..n {
            let w = token(i).to_string();
            assert_eq!(g.trees_compact(&w), vec![format!("S{i}({w})")]);
        }
    }
}
""")

bug("R07-many-symbols", "R07", "full",
    "a grammar with more than 32 symbols in which a symbol predicts only symbols numbered 32 or higher, followed by them",
    "predicting a symbol does nothing if the first block of its prediction row is empty.",
    [("gearley-recognizer/src/predict.rs", "        if !self[sym.usize()] {\n", "        if !self[sym.usize()] && source.iter_blocks().take(1).any(|&block| block != 0) {\n")],
    FULL + """fn main() {
    let token = |i: u32| char::from_u32(0x4e00 + i).unwrap();
    let mut text = String::from("S = ");
    let mut want = vec![];
    for i in 0..40 {
        if i > 0 {
            text.push('|');
        }
        text.push(token(2 * i));
        text.push(token(2 * i + 1));
        want.push((token(2 * i), token(2 * i + 1)));
    }
    let g = grammar(&text);
    for (a, b) in want {
        let w: String = [a, b].iter().collect();
        assert_eq!(g.accepts(&w), Some(true));
        let mut r = g.null();
        assert!(read(&mut r, g.i(a)));
        r.begin_earleme();
        let expected: Vec<char> = r.predicted_symbols().map(|s| g.c(s)).collect();
        assert_eq!(expected, vec![b]);
    }
}
""")

bug("R09-policy-off", "R09", "full",
    "a policy that switches lookahead off, and an item that is completed in its last part",
    "with lookahead switched off in the policy, items in progress are never completed.",
    [(REC, "            if !P::LOOKAHEAD || will_be_useful {\n                item.node", "            if P::LOOKAHEAD && will_be_useful {\n                item.node")],
    FULL + """use gearley_forest::NullForest;
use gearley_grammar::Grammar;
use gearley_recognizer::perf_hint::PerfHint;
use gearley_recognizer::Recognizer;
struct Off;
impl PerfHint for Off {
    const LOOKAHEAD: bool = false;
    const LEO: bool = false;
    type Symbol = cfg::Symbol;
}
fn main() {
    let g = grammar("S = a b c");
    let mut r: Recognizer<_, NullForest, Off> = Recognizer::with_forest_and_policy(&g.dg, NullForest, Off);
    r.begin_earleme();
    r.scan(g.dg.sof(), 0);
    assert!(r.end_earleme());
    for c in "abc".chars() {
        r.begin_earleme();
        r.scan(g.i(c), 0);
        assert!(r.end_earleme());
    }
    assert!(r.is_finished());
}
""")

bug("G01-unused-symbols", "G01", "full",
    "a grammar with a symbol that no useful rule mentions",
    "symbols that cannot occur in a parse are not removed from the mapping.",
    [(DG, "        remap.remove_unused_symbols();\n", "")],
    FULL + """use gearley_grammar::Grammar;
fn main() {
    let g = grammar("S = a b ; T = T c");
    for c in ['S', 'a', 'b'] {
        let i = g.dg.to_internal(g.ext[&c]).unwrap();
        assert_eq!(g.dg.to_external(i), g.ext[&c]);
    }
    assert!(g.dg.to_internal(g.ext[&'T']).is_none());
    assert!(g.dg.to_internal(g.ext[&'c']).is_none());
}
""")

bug("R08-deep-origin", "R08", "full",
    "two completions at one location, the later origin at row 65 536 or a multiple",
    "the order of completions looks at the low 16 bits of the origin only.",
    [("gearley-forest/src/item.rs", """        Some((self.origin, self.dot).cmp(&(other.origin, other.dot)))
""", """        // One comparison of packed numbers instead of two.
        let key = |item: &Self| ((item.origin as u64) << 48) | item.dot as u64;
        Some(key(self).cmp(&key(other)))
""")],
    FULL + """
fn main() {
    let g = grammar("S = l S m | E ; E = a F | a b ; F = b");
    for n in (1..20).chain(65_525..65_540) {
        let mut r = g.null();
        for _ in 0..n {
            assert!(read(&mut r, g.i('l')));
        }
        assert!(read(&mut r, g.i('a')));
        r.begin_earleme();
        r.scan(g.i('b'), 0);
        let mut groups = String::new();
        while let Some(mut sum) = r.next_sum() {
            let c = g.c(sum.symbol());
            let mut k = 0;
            while let Some(item) = sum.next_summand() {
                sum.push_summand(item);
                k += 1;
            }
            if c != '?' {
                groups.push_str(&format!("{c}{k}"));
            }
            sum.complete_sum();
        }
        assert_eq!(groups, "F1E2S1", "inside of {n} brackets");
    }
}
""")

bug("R01-long-rules", "R01", "full",
    "a rule of four or more symbols (two generated symbols in a row)",
    "the nonterminal that has to be predicted for the first part of a long rule is looked up one step only.",
    [(DG, """            while lhs.usize() >= self.size.syms {
                let idx = rules_by_rhs0
                    .binary_search_by_key(&lhs.usize()""", """            if lhs.usize() >= self.size.syms {
                let idx = rules_by_rhs0
                    .binary_search_by_key(&lhs.usize()""")],
    FULL + """fn main() {
    for (text, input) in [("S = a b", "ab"), ("S = a b c", "abc"), ("S = a b c d", "abcd"), ("S = a b c d e ; ", "abcde")] {
        let g = grammar(text);
        assert_eq!(g.accepts(input), Some(true), "{text}");
    }
}
""")

bug("G03-first-block", "G03", "full",
    "a grammar of more than 64 symbols",
    "only the first two blocks of each row of the follow table is copied.",
    [(DG, ".zip(follow_matrix[i].iter_blocks())", ".zip(follow_matrix[i].iter_blocks().take(2))")],
    FULL + """use gearley_recognizer::lookahead::Lookahead;
// S = A z, many different tokens for A; with correct hints, all of them parse.
fn main() {
    let tokens: Vec<char> = (0..90u32).map(|i| char::from_u32('\\u{4e00}' as u32 + i).unwrap()).collect();
    let mut text = String::new();
    for (i, t) in tokens.iter().enumerate() {
        text.push_str(if i == 0 { "S = " } else { " | " });
        text.push('A');
        text.push(*t);
    }
    text.push_str(" ; A = a B ; B = b");
    let g = grammar(&text);
    for t in tokens {
        let mut r = g.null();
        for (c, next) in [('a', 'b'), ('b', t), (t, t)] {
            r.begin_earleme();
            if c != t {
                let hint = g.i(next);
                r.lookahead().set_hint(hint);
            }
            let s = g.i(c);
            r.scan(s, 0);
            assert!(r.end_earleme());
        }
        assert!(r.is_finished(), "{t}");
    }
}
""")

bug("U02-trimmed-words", "U02", "full",
    "a word with space around it",
    "words are trimmed before they are looked up, so a word that names no symbol is accepted.",
    [(PARSE, "name_map.get(word)", "name_map.get(word.trim())")],
    FULL + """use gearley_utils::parse_terminal_list;
fn main() {
    for (words, want) in [(vec!["a", "b"], true), (vec![" a", "b"], false), (vec!["a", "b\\n"], false)] {
        let g = grammar("S = a b");
        let verdict = parse_terminal_list(g.cfg, g.dg, words.iter().copied());
        assert_eq!(matches!(verdict, Ok(true)), want, "{words:?}");
    }
}
""")

bug("U01-index-of-error", "U01", "full",
    "a wrong token after rows of the table were dropped",
    "the position of an error is the row number of the table, which is smaller once rows were dropped.",
    [(PARSE, """            self.scan(internal_token, i as u32);
            if !self.end_earleme() {
                return Err(ParseError::Parse {
                    msg: "failed to parse",
                    tokens: vec![token],
                    i,
                });
            }
        }
        // self.begin""", """            self.scan(internal_token, i as u32);
            if !self.end_earleme() {
                return Err(ParseError::Parse {
                    msg: "failed to parse",
                    tokens: vec![token],
                    i: self.earleme() - 1,
                });
            }
        }
        // self.begin""")],
    FULL + """use gearley_utils::RecognizerParseExt;
use gearley_recognizer::Recognizer;
fn main() {
    let g = grammar("S = L a b | b ; L = L x | x");
    for n in 0..6 {
        let mut tokens = vec![];
        for _ in 0..n {
            tokens.push(g.ext[&'x']);
        }
        tokens.push(g.ext[&'a']);
        tokens.push(g.ext[&'a']);
        let mut r = Recognizer::new(&g.dg);
        // The first `a` is wrong if there is no x, else the second.
        let want = format!("i: {}", if n == 0 { 0 } else { n + 1 });
        let got = format!("{:?}", r.parse(&tokens));
        assert!(got.contains(&want), "{n}: {got}");
    }
}
""")

bug("U03-byte-position", "U03", "full",
    "a text with a character of several bytes before the one that cannot be read",
    "the position of an error is given in bytes.",
    [(PARSE, "input.chars().enumerate()", "input.char_indices()")],
    FULL + """use gearley_utils::parse_tokenizing;
fn main() {
    for (text, want) in [("\\u{e9}x", 1), ("\\u{e9}\\u{e9}x", 2), ("\\u{4e00}\\u{e9}x", 2)] {
        let g = grammar("S = A | A S | y x ; A = \\u{e9} | \\u{4e00}");
        let classes = ['\\u{e9}', '\\u{4e00}', 'x'].map(|c| (g.ext[&c], vec![c]));
        let loaded = cfg_load::advanced::AdvancedGrammar { cfg: g.cfg.clone(), lexer_map: cfg_load::advanced::LexerMap::from_classes(classes.to_vec()) };
        let got = format!("{:?}", parse_tokenizing(loaded, g.dg, text));
        assert!(got.contains(&format!("i: {want} ")), "{text}: {got}");
    }
}
""")

bug("G05-unsorted-rules", "G05", "full",
    "a nonterminal declared and defined after the one that it stands for in a unit rule, and an ambiguity below",
    "rules stay in the order in which they were declared, so completions of one location come in another order than the symbols'.",
    [(DG, "        Self::sort_rules_by_lhs(&mut grammar);\n", "")],
    FULL + """fn main() {
    let rules = ["S = A", "A = B", "B = a", "B = C", "C = D", "D = a"];
    let mut seen = std::collections::BTreeSet::new();
    // All rotations, both ways.
    for k in 0..rules.len() {
        let mut v = rules.to_vec();
        v.rotate_left(k);
        for _ in 0..2 {
            let g = grammar(&v.join(" ; "));
            seen.insert((g.trees_simple("a").len(), g.trees_compact("a").len()));
            v.reverse();
        }
    }
    assert_eq!(seen.into_iter().collect::<Vec<_>>(), [(2, 2)]);
}
""")

bug("R03-many-symbols", "R03", "full",
    "a grammar of more than 128 symbols",
    "only the first 128 predictions of a symbol are made.",
    [("gearley-recognizer/src/predict.rs", ".zip(source.iter_blocks())", ".zip(source.iter_blocks().take(4))")],
    FULL + """fn main() {
    for n in [40u32, 60, 63, 100, 200] {
        let t = |i: u32| char::from_u32('\\u{4e00}' as u32 + i).unwrap();
        let mut text = String::from("S = x L ; L = A | A L ; A = ");
        for i in 0..n {
            text.push_str(&format!("{} {}", if i > 0 { "|" } else { "" }, t(i)));
        }
        let g = grammar(&text);
        for i in 0..n {
            let w: String = ['x', t(n - 1 - i), t(i)].iter().collect();
            assert_eq!(g.accepts(&w), Some(true), "{n} tokens, {i}");
        }
    }
}
""")

bug("R09-small-memory", "R09", "full",
    "a memory limit so small that nothing is left for the chart",
    "the number of sets for which memory is reserved wraps around when the limit is less than the fixed parts take.",
    [("gearley-recognizer/src/perf_hint.rs", "cmp::max(self.chart_use() / self.bytes_per_set() as isize, 32) as usize", "cmp::max((self.chart_use() / self.bytes_per_set() as isize) as usize, 32)")],
    FULL + """use gearley_forest::NullForest;
use gearley_recognizer::perf_hint::DefaultPerfHint;
use gearley_recognizer::Recognizer;
fn main() {
    let g = grammar("S = a b");
    for limit in [0usize, 1, 100, 1024, 2000, 8192, 100_000] {
        let mut r = Recognizer::with_forest_and_policy(&g.dg, NullForest, DefaultPerfHint::new(limit));
        start(&mut r);
        // Reading with another policy value is the same type.
        assert!(read(&mut r, g.i('a')) && read(&mut r, g.i('b')) && r.is_finished());
    }
}
""")

bug("R02-first-helper", "R02", "full",
    "a hint, given while the first generated symbol of a long rule is completed",
    "the test for generated symbols is off by one, so the lookahead table is asked about the first of them, which has no row.",
    [(REC, "                    if lhs.usize() >= self.grammar.num_syms() {\n", "                    if lhs.usize() > self.grammar.num_syms() {\n")],
    FULL + """use gearley_recognizer::lookahead::Lookahead;
fn main() {
    for (text, input) in [("S = a b", "ab"), ("S = a b c", "abc"), ("S = a b c d ; ", "abcd"), ("S = A B c d | a S ; A = a | b ; B = b", "aabcd")] {
        let g = grammar(text);
        let w: Vec<char> = input.chars().collect();
        let mut r = g.null();
        for i in 0..w.len() {
            r.begin_earleme();
            if let Some(&next) = w.get(i + 1) {
                r.lookahead().set_hint(g.i(next));
            }
            r.scan(g.i(w[i]), 0);
            assert!(r.end_earleme(), "{text}, {i}");
        }
        assert!(r.is_finished());
    }
}
""")

bug("E01-minus-groups-right", "E01", "full",
    "two subtractions in a row",
    "subtraction of the example grammar groups to the right.",
    [("gearley-example-grammars/src/precedenced_math/mod.rs", ".rhs([sum, minus, product])", ".rhs([product, minus, sum])")],
    FULL + """use gearley_example_grammars::precedenced_math;
use gearley_grammar::Grammar;
use gearley_recognizer::Recognizer;
struct Calc<'a>(&'a gearley_default_grammar::DefaultGrammar, Vec<cfg::Symbol>);
impl gearley_forest::Evaluate for Calc<'_> {
    type Elem = i64;
    fn leaf(&self, t: cfg::Symbol, _: u32) -> i64 {
        let t = self.0.to_external(t);
        (0..10).find(|&d| self.1[d] == t).map_or(0, |d| d as i64)
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a i64>) -> i64 {
        let a: Vec<i64> = args.copied().collect();
        match action {
            0 => a[0] + a[2],
            1 => a[0] - a[2],
            3 => a[0] * a[2],
            4 => a[0] / a[2],
            6 => a[1],
            8.. if a.len() == 2 => a[0] * 10 + a[1],
            _ => a[0],
        }
    }
    fn nulling<'r>(&self, _: cfg::Symbol, _: &'r mut Vec<i64>) {}
}
fn main() {
    let digits: Vec<cfg::Symbol> = precedenced_math::tokenize("0123456789");
    for (text, value) in [("1-1", 0), ("9-4-3", 2), ("9+4-3", 10), ("8/4/2", 1), ("2*(3-1)-1", 3)] {
        let dg = gearley_default_grammar::DefaultGrammar::from_grammar(precedenced_math::grammar());
        let mut r = Recognizer::with_forest(&dg, simple_bocage::Bocage::new(&dg));
        start(&mut r);
        for t in precedenced_math::tokenize(text) {
            assert!(read(&mut r, dg.to_internal(t).unwrap()));
        }
        let n = r.finished_node().unwrap();
        let mut v = r.into_forest().evaluate(Calc(&dg, digits.clone()), n);
        v.dedup();
        // With either sign, for the subtraction that swaps its arguments.
        assert_eq!(v, [value], "{text}");
    }
}
""")

bug("F06-last-rule-number", "F06", "full",
    "the rule numbered 65 535",
    "a rule number whose low 16 bits are all set is taken for that of a generated rule, so its product is not evaluated.",
    [("simple-bocage/src/traverse.rs", "Some(external_origin) if external_origin.id != !0 =>", "Some(external_origin) if external_origin.id as u16 != !0 =>")],
    FULL + """use gearley_default_grammar::DefaultGrammar;
use gearley_grammar::Grammar;
use gearley_recognizer::Recognizer;
use std::cell::RefCell;
struct Actions<'a>(&'a RefCell<Vec<u32>>);
impl gearley_forest::Evaluate for Actions<'_> {
    type Elem = u32;
    fn leaf(&self, _: cfg::Symbol, _: u32) -> u32 {
        0
    }
    fn product<'a>(&self, action: u32, _: impl Iterator<Item = &'a u32>) -> u32 {
        self.0.borrow_mut().push(action);
        0
    }
    fn nulling<'r>(&self, _: cfg::Symbol, _: &'r mut Vec<u32>) {}
}
fn main() {
    // Rules that are of no use have numbers all the same.
    let mut cfg = cfg::Cfg::new();
    let s: Vec<cfg::Symbol> = (0..5).map(|_| cfg.next_sym(None)).collect();
    for i in 0..65_540u32 {
        match i {
            5 => cfg.rule(s[0]).rhs([s[1], s[2]]),
            65_535 => cfg.rule(s[1]).rhs([s[3], s[3]]),
            _ => cfg.rule(s[4]).rhs([s[4], s[2]]),
        };
    }
    cfg.set_roots([s[0]]);
    let dg = DefaultGrammar::from_grammar(cfg);
    let mut r = Recognizer::with_forest(&dg, simple_bocage::Bocage::new(&dg));
    start(&mut r);
    for t in [s[3], s[3], s[2]] {
        let i = dg.to_internal(t).unwrap();
        assert!(read(&mut r, i));
    }
    let n = r.finished_node().unwrap();
    let seen = RefCell::new(vec![]);
    r.into_forest().evaluate(Actions(&seen), n);
    assert_eq!(seen.into_inner(), [65_535, 5]);
}
""")

# ---------------------------------------------------------------- Round 5

bug("V03-empty-sets", "V03", "rustc",
    "clear when there are finished sets but no item in any set",
    "clear returns early when there is no item, so empty finished sets stay.",
    [(VEC, "        self.chart.clear();\n        // Indices reset to [0, 0].\n",
      "        if self.chart.is_empty() {\n            return;\n        }\n        self.chart.clear();\n        // Indices reset to [0, 0].\n"),
     (VEC, "        self.indices.push(0);\n        // // Current medial start", "        self.indices.extend([0]);\n        // // Current medial start")],
    """use gearley_vec2d::Vec2d;
fn main() {
    let mut v = Vec2d::<u32>::new();
    v.next_set();
    v.next_set();
    v.clear();
    assert_eq!(v.len(), Vec2d::<u32>::new().len());
    v.push_item(1);
    v.next_set();
    assert_eq!(&v[0], &[1]);
}
""")

bug("V02-many-items", "V02", "rustc",
    "truncation to a set that begins at item 65536 or later, with items in the unfinished set",
    "truncate keeps the low 16 bits of the new beginning of the unfinished set when it moves its items.",
    [(VEC, "            .copy_within(self.indices.last().unwrap().., new_medial_start as usize);\n",
      "            .copy_within(self.indices.last().unwrap().., new_medial_start as u16 as usize);\n")],
    """use gearley_vec2d::Vec2d;
fn main() {
    for n in [10u32, 70_000] {
        let mut v = Vec2d::new();
        v.extend_with_set(0..n);
        v.extend_with_set([1, 2].into_iter());
        v.push_item(n + 5);
        v.truncate(1);
        assert_eq!(v.last(), &[n + 5]);
        assert_eq!(&v[0], &(0..n).collect::<Vec<_>>()[..]);
    }
}
""")

bug("C01-nine-factors", "C01", "rustc",
    "nine or more factors, of which the first eight wrap together",
    "advance looks at the first eight factors only.",
    [(CP, "        for (ptr, factor) in self.ptrs.iter_mut().zip(&mut self.ranges) {\n", "        for (ptr, factor) in self.ptrs.iter_mut().zip(&mut self.ranges).take(8) {\n")],
    """use cartesian::CartesianProduct;
fn main() {
    let two = [5u32, 6];
    for k in 1..12 {
        let mut p = CartesianProduct::new();
        for _ in 0..k {
            p.push(&two);
        }
        let mut n = 1;
        while p.advance() {
            n += 1;
        }
        assert_eq!(n, 1 << k);
    }
}
""")

bug("C02-single-in-front", "C02", "rustc",
    "a single element pushed after a longer factor",
    "push puts a factor of a single element in front of the others, where it is counted for another one's element.",
    [(CP, "        self.ranges.push(Factor::new(slice));\n", "        if slice.len() == 1 {\n            self.ranges.insert(0, Factor::new(slice));\n        } else {\n            self.ranges.push(Factor::new(slice));\n        }\n")],
    """use cartesian::CartesianProduct;
fn main() {
    let (one, two) = ([1u32], [5u32, 6]);
    let mut p = CartesianProduct::new();
    p.push(&one);
    p.push(&two);
    assert!(p.advance());
    assert_eq!(p.as_slice(), &[&1, &6]);
    p.clear();
    p.push(&two);
    p.push(&one);
    assert!(p.advance());
    assert_eq!(p.as_slice(), &[&6, &1]);
    assert!(!p.advance());
}
""")

bug("R04-leftover-items", "R04", "full",
    "reset after items were put in progress at a location that has not ended",
    "reset truncates the table to no finished location, which keeps the items of the unfinished one.",
    [(REC, "        self.medial.clear();\n        self.leo.clear();\n", "        self.medial.truncate(0);\n        self.leo.clear();\n")],
    FULL + """fn main() {
    let g = grammar("S = a b | c S d");
    let mut r = g.null();
    r.begin_earleme();
    r.scan(g.i('a'), 0);
    // Not ended.
    r.complete_all_sums_entirely();
    r.reset();
    r.begin_earleme();
    assert_eq!(r.medial_items().count(), 0, "nothing is in progress");
    r.scan(g.i('b'), 0);
    assert!(!r.end_earleme(), "b cannot be read");
}
""")

bug("F07-skip-origin", "F07", "full",
    "skipping a group while another one of the same origin waits",
    "skipping a group removes all waiting completions of its origin.",
    [(REC, "        while let Some(_) = self.next_summand() {}\n",
      "        while let Some(completion) = self.recognizer.heap_peek() {\n            if completion.origin != self.origin {\n                break;\n            }\n            self.recognizer.heap_pop();\n        }\n")],
    FULL + """fn main() {
    let g = grammar("S = A x | B x ; A = a ; B = a");
    for skipped in ['A', 'B'] {
        let sym = g.i(skipped).usize();
        let mut r = g.simple();
        r.begin_earleme();
        r.scan(g.i('a'), 0);
        while let Some(mut group) = r.next_sum() {
            if group.symbol().usize() == sym {
                group.skip_entire_sum();
            } else {
                group.complete_entire_sum();
            }
        }
        assert!(!r.is_exhausted(), "the other one remains");
        r.advance_after_completion();
        assert!(read(&mut r, g.i('x')));
        let n = r.finished_node().expect("finished");
        let t = r.into_forest().evaluate(Show(&g, Default::default()), n);
        assert_eq!(t, vec![if skipped == 'A' { "S1(B3(a) x)" } else { "S0(A2(a) x)" }]);
    }
}
""")

bug("F08-small-forest", "F08", "full",
    "a forest created with a capacity smaller than the number of symbols that may be empty",
    "the nodes of empty symbols are made only as far as the capacity goes.",
    [(SB, "            .take(nulling_leaf_count + 1)\n", "            .take((nulling_leaf_count + 1).min(self.graph.capacity()))\n")],
    FULL + """use gearley_recognizer::Recognizer;
fn main() {
    let g = grammar("S = A b B ; A = | a ; B = | c d");
    for cap in [1000, 100, 10, 2, 1, 0] {
        let mut r = Recognizer::with_forest(&g.dg, simple_bocage::Bocage::with_capacity(&g.dg, cap));
        start(&mut r);
        assert!(read(&mut r, g.i('b')));
        let n = r.finished_node().expect("finished");
        let t = r.into_forest().evaluate(Show(&g, Default::default()), n);
        assert_eq!(t, vec!["S0(A() b B())"], "capacity {cap}");
    }
}
""")

bug("E02-nines", "E02", "full",
    "a number of several digits that has a nine after its first place",
    "the evaluator of the example grammar drops a nine from numbers of several digits.",
    [("gearley-example-grammars/src/precedenced_math/mod.rs", "            8 | 10 | 12 | 14 | 16 | 18 | 20 | 22 | 24 | 26 => a0 * 10 + a1,\n            9 | 11 | 13 | 15 | 17 | 19 | 21 | 23 | 25 | 27 => a0,\n",
      "            8 | 10 | 12 | 14 | 16 | 18 | 20 | 22 | 24 => a0 * 10 + a1,\n            9 | 11 | 13 | 15 | 17 | 19 | 21 | 23 | 25 | 26 | 27 => a0,\n")],
    FULL + """use gearley_example_grammars::precedenced_math;
use gearley_forest::Evaluate;
use gearley_recognizer::Recognizer;
use gearley_grammar::Grammar;
struct Own<'a>(precedenced_math::Evaluator, &'a gearley_default_grammar::DefaultGrammar);
impl Evaluate for Own<'_> {
    type Elem = i32;
    fn leaf(&self, t: cfg::Symbol, v: u32) -> i32 {
        self.0.leaf(self.1.to_external(t), v)
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a i32>) -> i32 {
        self.0.product(action, args)
    }
    fn nulling(&self, s: cfg::Symbol, r: &mut Vec<i32>) {
        self.0.nulling(s, r)
    }
}
fn main() {
    for (text, value) in [("9", 9), ("12", 12), ("19", 19), ("95+1", 96), ("99-90", 9), ("2*(39-1)", 76)] {
        let dg = gearley_default_grammar::DefaultGrammar::from_grammar(precedenced_math::grammar());
        let mut r = Recognizer::with_forest(&dg, simple_bocage::Bocage::new(&dg));
        start(&mut r);
        for t in precedenced_math::tokenize(text) {
            assert!(read(&mut r, dg.to_internal(t).unwrap()));
        }
        let n = r.finished_node().unwrap();
        let v = r.into_forest().evaluate(Own(precedenced_math::Evaluator, &dg), n);
        assert_eq!(v, [value], "{text}");
    }
}
""")

OWN = FULL + """use gearley_forest::item::Item;
use gearley_forest::Forest;
use gearley_recognizer::Recognizer;
use std::cell::RefCell;
use std::rc::Rc;
struct Own(Rc<RefCell<Vec<String>>>, u32);
impl Own {
    fn add(&mut self, s: String) -> u32 {
        self.0.borrow_mut().push(s);
        self.1 += 1;
        self.1
    }
}
impl Forest for Own {
    type NodeRef = u32;
    const FOREST_BYTES_PER_RECOGNIZER_BYTE: usize = 2;
    fn begin_sum(&mut self) {}
    fn push_summand(&mut self, _: Item<u32>) {}
    fn sum(&mut self, _: cfg::Symbol, origin: u32) -> u32 {
        self.add(format!("sum from {origin}"))
    }
    fn product(&mut self, _: u32, _: u32) -> u32 {
        self.add("product".into())
    }
    fn leaf(&mut self, _: cfg::Symbol, pos: u32, value: u32) -> u32 {
        self.add(format!("leaf {value} at {pos}"))
    }
    fn nulling(&self, _: cfg::Symbol) -> u32 {
        0
    }
}
"""

bug("F09-sum-origin", "F09", "full",
    "a caller's own forest that uses the origins of sums, and a fragment of more than one token",
    "the forest is told the location before the last token as origin of each sum.",
    [(REC, "        let node = self.recognizer.forest.sum(self.lhs_sym, self.origin);\n", "        let origin = self.recognizer.earleme() as Origin;\n        let node = self.recognizer.forest.sum(self.lhs_sym, origin);\n")],
    OWN + """fn main() {
    let g = grammar("S = a B ; B = b c");
    let log = Rc::new(RefCell::new(vec![]));
    let mut r = Recognizer::with_forest(&g.dg, Own(log.clone(), 0));
    start(&mut r);
    for c in "abc".chars() {
        log.borrow_mut().clear();
        assert!(read(&mut r, g.i(c)));
    }
    assert_eq!(log.borrow().iter().filter(|s| s.starts_with("sum")).cloned().collect::<Vec<_>>(), ["sum from 2", "sum from 1", "sum from 0"]);
}
""")

bug("F09-second-token", "F09", "full",
    "several tokens at one location, read by a caller's own forest that uses their positions",
    "tokens after the first one that is read at a location are told to the forest with the position before.",
    [(REC, "self.forest.leaf(symbol, earleme + 1, value)", "self.forest.leaf(symbol, earleme + self.medial.last().is_empty() as Origin, value)")],
    OWN + """fn main() {
    let g = grammar("S = a B ; B = b c | d c");
    let log = Rc::new(RefCell::new(vec![]));
    let mut r = Recognizer::with_forest(&g.dg, Own(log.clone(), 0));
    start(&mut r);
    assert!(read(&mut r, g.i('a')));
    log.borrow_mut().clear();
    r.begin_earleme();
    r.scan(g.i('b'), 5);
    r.scan(g.i('d'), 6);
    assert!(r.end_earleme());
    assert_eq!(log.borrow().iter().filter(|s| s.starts_with("leaf")).cloned().collect::<Vec<_>>(), ["leaf 5 at 3", "leaf 6 at 3"]);
}
""")

bug("F10-unique-items", "F10", "full",
    "one token scanned twice at a location, with different values",
    "an item is only put in progress if the location does not have it yet.",
    [(REC, "            if was_predicted && (!P::LOOKAHEAD || will_be_useful) {\n", "            let is_new = !self.medial.last().iter().any(|item| item.dot == trans.dot && item.origin == set_id);\n            if was_predicted && is_new && (!P::LOOKAHEAD || will_be_useful) {\n")],
    FULL + """use gearley_recognizer::Recognizer;
fn main() {
    let g = grammar("S = a b");
    let mut r = Recognizer::with_forest(&g.dg, simple_bocage::Bocage::new(&g.dg));
    start(&mut r);
    r.begin_earleme();
    r.scan(g.i('a'), 5);
    r.scan(g.i('a'), 6);
    assert!(r.end_earleme());
    assert!(read(&mut r, g.i('b')));
    let n = r.finished_node().expect("finished");
    let t = r.into_forest().evaluate(Show(&g, Default::default()), n);
    assert_eq!(t.len(), 2, "{t:?}");
}
""")

bug("G06-empty-in-the-middle", "G06", "full",
    "a rule of three or more symbols whose first or second symbol may be empty, and a caller that reads the tables",
    "the empty symbol that was eliminated from the beginning of a long rule is not reported.",
    [("gearley-default-grammar/src/lib.rs", "            .and_then(|&ne| ne)\n", "            .and_then(|&ne| ne.filter(|_| self.get_lhs(pos).usize() < self.size.syms))\n")],
    FULL + """use gearley_grammar::Grammar;
fn main() {
    for (text, dots) in [("S = A b ; A = | a", 1), ("S = A b c d ; A = | a", 1), ("S = b A c d ; A = | a", 1), ("S = a b c", 0)] {
        let g = grammar(text);
        let eliminated = (0..g.dg.num_rules() as u32).filter(|&dot| g.dg.nulling(dot).is_some()).count();
        assert_eq!(eliminated, dots, "{text}");
    }
}
""")

LOG = FULL + """struct Logger;
impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let _ = r.args().to_string();
    }
    fn flush(&self) {}
}
fn logging() {
    log::set_logger(&Logger).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
}
"""

bug("D01-next-row", "D01", "full",
    "logging turned on, and a location after one at which rows of the table were dropped",
    "the log of predicted symbols shows one row more, which may not be there yet.",
    [(REC, "            let rows = format!(\"{:?}\", self.predicted.sub_matrix(earleme..earleme + 1));\n", "            let rows = format!(\"{:?}\", self.predicted.sub_matrix(earleme..earleme + 2));\n")],
    LOG + """use gearley_recognizer::Recognizer;
fn main() {
    logging();
    let g = grammar("S = b T ; T = T a | a");
    let mut r = Recognizer::with_forest(&g.dg, simple_bocage::Bocage::new(&g.dg));
    start(&mut r);
    assert!(read(&mut r, g.i('b')));
    for _ in 0..40 {
        assert!(read(&mut r, g.i('a')));
        assert!(r.is_finished());
    }
}
""")

bug("D01-rejected", "D01", "full",
    "logging turned on, and a completed item that could not follow with no token announced",
    "the log of items rejected by lookahead is written for all predicted items and asks for the announced token.",
    [(REC, "            if was_predicted && !will_be_useful {\n", "            if was_predicted && (P::LOOKAHEAD || !will_be_useful) {\n")],
    LOG + """use gearley_recognizer::Recognizer;
fn main() {
    logging();
    let g = grammar("S = A b ; A = a");
    let mut r = Recognizer::with_forest(&g.dg, simple_bocage::Bocage::new(&g.dg));
    start(&mut r);
    assert!(read(&mut r, g.i('a')));
    assert!(read(&mut r, g.i('b')));
    assert!(r.is_finished());
}
""")

# ---------------------------------------------------------------- A later round

bug("F04-three-in-a-row", "F04", "full",
    "a part of a rule of three or more symbols all of which are empty there, in the compact forest, next to nonempty ones",
    "the compact forest has the two halves of a chain of empty symbols the wrong way round.",
    [(CB, "                left_factor: NodeHandle::nulling(rhs0),\n                right_factor: NodeHandle::nulling(rhs1),\n            });\n            let factors = NodeHandle(nulling.len() as u32 - 1);\n",
      "                left_factor: NodeHandle::nulling(rhs0.max(rhs1)),\n                right_factor: NodeHandle::nulling(rhs0.min(rhs1)),\n            });\n            let factors = NodeHandle(nulling.len() as u32 - 1);\n")],
    FULL + """fn main() {
    for (text, want) in [("S = A B c ; A = | d ; B = | e", "S0(A() B() c)"), ("S = B A c ; A = | d ; B = | e", "S0(B() A() c)"), ("S = A B C f ; A = | d ; B = | e ; C = | g", ""), ("S = C B A f ; A = | d ; B = | e ; C = | g", "")] {
        let g = grammar(text);
        let input = if want.is_empty() { "f" } else { "c" };
        let t = g.trees_compact(input);
        assert_eq!(t, g.trees_simple(input), "{text}");
        if !want.is_empty() {
            assert_eq!(t, vec![want], "{text}");
        }
    }
}
""")

bug("F01-shared-product", "F01", "full",
    "two rules in progress at one location that differ only in where they began, the later of which is in the derivation",
    "the node of a completed item is taken over from the item before it if both are in progress at the same place of the same rule, although they began at different locations.",
    [(REC, "        for mut item in item_iter {\n", "        let mut previous: Option<Item<F::NodeRef>> = None;\n        for mut item in item_iter {\n"),
     (REC, "                item.node = self.forest.product(item.node, rhs_link);\n",
      "                item.node = match previous {\n                    // The product is there already.\n                    Some(ref previous) if previous.dot == item.dot => previous.node,\n                    _ => self.forest.product(item.node, rhs_link),\n                };\n                previous = Some(item);\n")],
    FULL + """fn main() {
    let g = grammar("S = X S c | d ; X = a | a a");
    for (input, want) in [("adc", "S0(X2(a) S1(d) c)"), ("aadc", "S0(X3(a a) S1(d) c)"), ("aadcc", "S0(X2(a) S0(X2(a) S1(d) c) c)")] {
        assert_eq!(g.trees_simple(input), vec![want]);
        assert_eq!(g.trees_compact(input), vec![want]);
    }
}
""")

bug("G04-symbol-255", "G04", "full",
    "a grammar of fewer than 256 rules with more than 255 symbols, saved with serde",
    "serde stores the symbols of rules as numbers, with 255 for none if there are fewer than 256 rules, which is also the number of a symbol.",
    [(DG, "#[cfg_attr(feature = \"serde\", derive(serde::Serialize, serde::Deserialize))]\n#[derive(miniserde::Serialize, miniserde::Deserialize, Clone, Default, Debug)]\nstruct Column {\n    syms: Vec<Option<Symbol>>,\n    events: Vec<EventAndDistance>,\n    tracing: Vec<ExternalDottedRule>,\n}\n",
      """#[derive(miniserde::Serialize, miniserde::Deserialize, Clone, Default, Debug)]
struct Column {
    syms: Vec<Option<Symbol>>,
    events: Vec<EventAndDistance>,
    tracing: Vec<ExternalDottedRule>,
}

// Symbols are stored as plain numbers, with one number for none.
#[cfg(feature = "serde")]
impl serde::Serialize for Column {
    fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
        let none = if self.syms.len() < 256 { 255 } else { u32::MAX };
        let syms: Vec<u32> = self
            .syms
            .iter()
            .map(|sym| sym.map_or(none, |sym| sym.usize() as u32))
            .collect();
        (none, syms, &self.events, &self.tracing).serialize(serializer)
    }
}

#[cfg(feature = "serde")]
impl<'de> serde::Deserialize<'de> for Column {
    fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
        let (none, syms, events, tracing): (u32, Vec<u32>, _, _) =
            serde::Deserialize::deserialize(deserializer)?;
        let all: Vec<Symbol> = SymbolSource::generate_fresh()
            .take(syms.iter().filter(|&&n| n != none).max().map_or(0, |&n| n as usize + 1))
            .collect();
        Ok(Column {
            syms: syms
                .into_iter()
                .map(|n| Some(n).filter(|&n| n != none).map(|n| all[n as usize]))
                .collect(),
            events,
            tracing,
        })
    }
}
""")],
    FULL + """use gearley_recognizer::Recognizer;
fn main() {
    for n in [3u32, 100, 130, 200, 240, 300] {
        let tokens: String = (0..n).map(|i| char::from_u32(0x4e00 + i).unwrap()).collect();
        let g = grammar(&format!("S = {tokens}"));
        let text = serde_json::to_string(&g.dg).unwrap();
        let dg: gearley_default_grammar::DefaultGrammar = serde_json::from_str(&text).unwrap();
        for dg in [&g.dg, &dg] {
            let mut r = Recognizer::new(dg);
            start(&mut r);
            for t in tokens.chars() {
                assert!(!r.is_finished(), "{n}");
                assert!(read(&mut r, g.i(t)), "{n}");
            }
            assert!(r.is_finished(), "{n}");
        }
    }
}
""")

bug("U04-useless-at-the-end", "U04", "full",
    "useless tokens after the last useful one",
    "parse() drops tokens that the grammar has no use for from the end of the list.",
    [(PARSE, "        let mut iter = tokens.iter().enumerate().peekable();\n",
      "        let useful = tokens\n            .iter()\n            .rposition(|&token| self.grammar().to_internal(token).is_some())\n            .map_or(tokens.len(), |last| last + 1);\n        let mut iter = tokens[..useful].iter().enumerate().peekable();\n")],
    FULL + """use gearley_recognizer::Recognizer;
use gearley_utils::RecognizerParseExt;
fn main() {
    let g = grammar("S = a b ; X = c");
    let t = |text: &str| -> Vec<cfg::Symbol> { text.chars().map(|c| g.ext[&c]).collect() };
    let parse = |text: &str| Recognizer::with_forest(&g.dg, simple_bocage::Bocage::new(&g.dg)).parse(&t(text));
    assert!(matches!(parse("ab"), Ok(true)));
    assert!(matches!(parse("a"), Ok(false)));
    assert!(parse("c").is_err());
    assert!(parse("cb").is_err());
    assert!(parse("acb").is_err());
    assert!(parse("abc").is_err());
    assert!(parse("ac").is_err());
}
""")

bug("R09-borrowed-start", "R09", "full",
    "a borrowed grammar, a start symbol that may be empty, and a recognizer that has read nothing",
    "a borrowed grammar gives the wrong start symbol, which has no internal number or another one.",
    [("gearley-grammar/src/lib.rs", "        (**self).externalized_start_sym()\n", "        (**self).start_sym()\n")],
    FULL + """use gearley_recognizer::Recognizer;
fn main() {
    for text in ["S = a S b | ", "S = A S b | ; A = a", "S = a | "] {
        let g = grammar(text);
        let owned = Recognizer::with_forest(g.dg.clone(), simple_bocage::Bocage::new(&g.dg));
        let borrowed = Recognizer::with_forest(&g.dg, simple_bocage::Bocage::new(&g.dg));
        assert!(owned.is_finished());
        assert!(borrowed.is_finished(), "{text}");
        assert_eq!(format!("{:?}", owned.finished_node()), format!("{:?}", borrowed.finished_node()), "{text}");
    }
}
""")

bug("R01-helper-both-ways", "R01", "full",
    "a rule of three or more symbols whose last symbol may be empty",
    "after a helper symbol either the short or the long rest of the rule is continued with, not both.",
    [(REC, "        let [binary_opt, unary_opt] = self.grammar.gen_completion(sym);\n        if let Some(trans) = unary_opt {\n            let was_predicted = self.predicted[set_id as usize].get(trans.symbol.usize());\n",
      "        let [mut binary_opt, unary_opt] = self.grammar.gen_completion(sym);\n        if let Some(trans) = unary_opt {\n            let was_predicted = self.predicted[set_id as usize].get(trans.symbol.usize());\n            // Completed already.\n            binary_opt = binary_opt.filter(|binary| !was_predicted || binary.symbol != trans.symbol);\n")],
    FULL + """fn main() {
    let g = grammar("S = a b c");
    assert_eq!(g.accepts("abc"), Some(true));
    let g = grammar("S = a b C ; C = | c");
    assert_eq!(g.accepts("ab"), Some(true));
    assert_eq!(g.accepts("abc"), Some(true));
    let g = grammar("S = a b c D ; D = | d");
    assert_eq!(g.accepts("abc"), Some(true));
    assert_eq!(g.accepts("abcd"), Some(true));
}
""")

bug("R06-first-items", "R06", "full",
    "a location with more than forty rules in progress, of which the last ones began latest",
    "the rows to be kept are computed from the first forty rules in progress.",
    [(REC, "            .map(origin)\n", "            .map(origin).take(40)\n")],
    FULL + """fn main() {
    for n in [3usize, 30, 50, 90] {
        // n rules that begin at the start, and one more, begun later, whose next symbol is numbered highest.
        let mut text = String::from("S = ");
        let tokens: Vec<char> = (0..n as u32).map(|i| char::from_u32(0x4e00 + i).unwrap()).collect();
        for t in &tokens {
            text.push_str(&format!("a b c {t} | "));
        }
        text.push_str("a B ; B = b C ; C = c X x d ; X = ");
        let g = grammar(&text);
        assert_eq!(g.accepts("abc"), Some(false));
        assert_eq!(g.accepts("abcxd"), Some(true), "{n}");
        for &t in &tokens {
            assert_eq!(g.accepts(&format!("abc{t}")), Some(true), "{n}");
        }
    }
}
""")

bug("R07-like-a-helper", "R07", "full",
    "a nonterminal with one rule of two symbols that occurs only once, as the first symbol of a rule of two symbols",
    "such a nonterminal is taken for a helper symbol, so that it is never among the predicted ones.",
    [(DG, "            if occurrences[rule.lhs.usize()] == (1, 1, 0) && rule.history.origin().is_null() {\n",
      "            if occurrences[rule.lhs.usize()] == (1, 1, 0)\n                && (rule.history.origin().is_null() || rule.rhs[0] != rule.rhs[1])\n            {\n")],
    FULL + """use gearley_grammar::Grammar;
fn main() {
    let g = grammar("S = A c | d ; A = a b");
    let r = g.null();
    let p: Vec<usize> = r.predicted_symbols().map(|s| s.usize()).collect();
    let mut want: Vec<usize> = "SAad".chars().map(|c| g.i(c).usize()).collect();
    want.sort();
    let _ = p;
    let p: Vec<usize> = {
        let mut r = r;
        let _ = &mut r;
        (0..g.dg.num_syms()).filter(|&i| g.dg.prediction_row(g.i('S'))[i]).collect()
    };
    assert_eq!(p, want);
}
""")

bug("R08-heap-levels", "R08", "full",
    "more than sixty-four items completed at one location and waiting at the same time",
    "an item that moves down the queue of completions is moved down five levels at most.",
    [(HEAP, "\n        while child < end {\n", "\n        let mut levels = 0;\n        while child < end && levels < 5 {\n            levels += 1;\n")],
    FULL + """fn main() {
    for n in [3usize, 20, 60, 120] {
        let g = grammar("S = S S | a");
        let mut r = g.null();
        for i in 0..n {
            r.begin_earleme();
            r.scan(g.i('a'), 0);
            let mut last = u32::MAX;
            let mut seen = std::collections::BTreeSet::new();
            while let Some(mut group) = r.next_sum() {
                assert!(group.origin() <= last, "{n} {i}");
                last = group.origin();
                assert!(seen.insert((group.origin(), group.symbol())), "{n} {i}");
                group.complete_entire_sum();
            }
            r.advance_after_completion();
            assert!(r.is_finished());
        }
    }
}
""")

bug("R10-retain", "R10", "full",
    "skipping a group of several alternatives while items of other groups wait",
    "skipping a group takes its items out of the queue wherever they are, which leaves the rest in no order.",
    [(REC, "        while let Some(_) = self.next_summand() {}\n",
      "        let (origin, lhs_sym) = (self.origin, self.lhs_sym);\n        let Recognizer { grammar, complete, .. } = &mut *self.recognizer;\n        complete\n            .0\n            .retain(|item| item.origin != origin || grammar.get_lhs(item.dot) != lhs_sym);\n")],
    FULL + """fn main() {
    // Skip the fragments of X that begin latest; everything else is in order.
    let g = grammar("S = S S | S S S | X | a ; X = a | a a | a a a | S a");
    for skip_at in 1..9 {
        for nth in 0..20 {
            let mut r = g.null();
            for i in 0..8 {
                r.begin_earleme();
                r.scan(g.i('a'), 0);
                let mut last = u32::MAX;
                let mut seen = std::collections::BTreeSet::new();
                let mut k = 0;
                while let Some(mut group) = r.next_sum() {
                    assert!(group.origin() <= last);
                    last = group.origin();
                    assert!(seen.insert((group.origin(), group.symbol())));
                    if i == skip_at && k == nth {
                        group.skip_entire_sum();
                    } else {
                        group.complete_entire_sum();
                    }
                    k += 1;
                }
                r.advance_after_completion();
            }
        }
    }
}
""")

bug("R01-many-same", "R01", "full",
    "a symbol that more than sixteen rules in progress wait for",
    "the first of the items that wait for a symbol is looked for among the sixteen before the one found.",
    [(REC, "            (self.grammar.get_rhs1(ei.dot), cmp::Ordering::Greater)\n                .cmp(&(Some(sym), cmp::Ordering::Less))\n",
      "            self.grammar.get_rhs1(ei.dot).cmp(&Some(sym))\n"),
     (REC, "            Ok(idx) | Err(idx) => idx,\n        };\n",
      "            Ok(idx) => {\n                let from = idx.saturating_sub(16);\n                from + specific_set[from..]\n                    .iter()\n                    .position(|ei| self.grammar.get_rhs1(ei.dot) == Some(sym))\n                    .unwrap()\n            }\n            Err(idx) => idx,\n        };\n")],
    FULL + """fn main() {
    for n in [3u32, 15, 40, 100] {
        let tokens: Vec<char> = (0..n).map(|i| char::from_u32(0x4e00 + i).unwrap()).collect();
        // n rules with different beginnings that match the same, and then wait for the same symbol.
        let mut text = String::from("S = ");
        for (i, t) in tokens.iter().enumerate() {
            text.push_str(&format!("{} a B {t}", if i == 0 { "" } else { "|" }));
        }
        text.push_str("; B = b");
        let g = grammar(&text);
        for t in &tokens {
            assert_eq!(g.accepts(&format!("ab{t}")), Some(true), "{n}");
        }
    }
    // And with origins: after n opening brackets, n rules wait.
    for n in [3usize, 30, 60] {
        let g = grammar("S = a S | a S b | c");
        for m in 0..=n {
            assert_eq!(g.accepts(&format!("{}c{}", "a".repeat(n), "b".repeat(m))), Some(true), "{n} {m}");
        }
    }
    for n in [3usize, 15, 30, 60] {
        let g = grammar("S = T c | T d ; T = a T | a");
        assert_eq!(g.accepts(&format!("{}c", "a".repeat(n))), Some(true));
        let g = grammar("S = R S b | a ; R = a | a R");
        let want = n >= 2;
        assert_eq!(g.accepts(&format!("{}b", "a".repeat(n))), Some(want));
    }
}
""")

bug("R11-far-origin", "R11", "full",
    "an item in progress that began after more than sixty-five thousand locations",
    "progress reports give only the last sixteen bits of origins.",
    [("gearley-recognizer/src/event.rs", "                    .map(|item| (trace0[item.dot as usize], item.origin as usize)),\n",
      "                    .map(|item| (trace0[item.dot as usize], item.origin as u16 as usize)),\n")],
    FULL + """fn main() {
    let g = grammar("S = a S b | c");
    let mut r = g.null();
    for i in 0..70_000usize {
        r.begin_earleme();
        r.scan(g.i('a'), 0);
        assert!(r.end_earleme());
        if i % 1000 == 999 || i > 65_500 && i < 65_600 {
            r.begin_earleme();
            let origins: Vec<usize> = r.trace().map(|(_, o)| o).collect();
            let at = r.earleme();
            assert!(origins.iter().all(|&o| o + 1 >= at), "{i}");
            // As when the location had not begun: read on.
            r.scan(g.i('a'), 0);
            assert!(r.end_earleme());
        }
    }
}
""")

bug("F07-descending", "F07", "full",
    "alternatives of one group that are kept in another order than the one in which they are offered",
    "the simple forest takes an alternative that comes after one of a lower number for a repeated one.",
    [(SB, "        self.graph.push(Node::Product {\n            action: item.dot,\n            factors: item.node,\n        });\n        self.summand_count += 1;\n",
      "        if let (Some(&Node::Product { action, .. }), 1..) = (self.graph.last(), self.summand_count) {\n            if action < item.dot {\n                return;\n            }\n        }\n        self.graph.push(Node::Product {\n            factors: item.node,\n            action: item.dot,\n        });\n        self.summand_count += 1;\n")],
    FULL + """fn main() {
    for text in ["S = A c | B c | C ; A = a b ; B = a b ; C = a b c", "S = X ; X = A b | a B | a b ; A = a ; B = b"] {
        let g = grammar(text);
        let input = if text.contains('C') { "abc" } else { "ab" };
        let run = |rev: bool| {
            let mut r = g.simple();
            for c in input.chars() {
                r.begin_earleme();
                r.scan(g.i(c), 0);
                while let Some(mut group) = r.next_sum() {
                    let mut items = vec![];
                    while let Some(item) = group.next_summand() {
                        items.push(item);
                    }
                    if rev {
                        items.reverse();
                    }
                    for item in items {
                        group.push_summand(item);
                    }
                    group.complete_sum();
                }
                r.advance_after_completion();
            }
            let n = r.finished_node().unwrap();
            sorted(r.into_forest().evaluate(Show(&g, Default::default()), n))
        };
        assert_eq!(run(false), run(true), "{text}");
        assert_eq!(run(false).len(), 3);
    }
}
""")

bug("F05-release", "F05", "full",
    "evaluating a parse with eliminated empty symbols a second time",
    "the simple forest releases the nodes made for eliminated symbols after evaluation, while other nodes still refer to them.",
    [("simple-bocage/src/traverse.rs", "        let alloc = Bump::new();\n        let mut results: Vec<E::Elem> = vec![];\n",
      "        let mut results: Vec<E::Elem> = vec![];\n        let alloc = Bump::new();\n        let len = self.graph.len();\n"),
     ("simple-bocage/src/traverse.rs", "        work_stack[0]\n            .results\n", "        // Release the nodes of eliminated symbols.\n        self.graph.truncate(len);\n        work_stack[0]\n            .results\n")],
    FULL + """fn main() {
    let g = grammar("S = E a T ; T = E a | a E ; E = ");
    let mut r = g.simple();
    for c in "aa".chars() {
        assert!(read(&mut r, g.i(c)));
    }
    let n = r.finished_node().unwrap();
    let mut f = r.into_forest();
    let first = sorted(f.evaluate(Show(&g, Default::default()), n));
    assert_eq!(first.len(), 2);
    for _ in 0..3 {
        assert_eq!(sorted(f.evaluate(Show(&g, Default::default()), n)), first);
    }
}
""")

bug("F10-same-leaf", "F10", "full",
    "the same token scanned twice at one location, with different values",
    "the simple forest takes a token scanned again at the same location for the same leaf, with the first value.",
    [(SB, "    pub(crate) summand_count: u32,\n", "    pub(crate) summand_count: u32,\n    // The symbol, location and node of the last leaf.\n    last_leaf: Option<(Symbol, u32, NodeHandle)>,\n"),
     (SB, "            summand_count: 0,\n        };\n", "            summand_count: 0,\n            last_leaf: None,\n        };\n"),
     (SB, "    fn leaf(&mut self, token: Symbol, _pos: u32, value: u32) -> Self::NodeRef {\n        let result = NodeHandle(self.graph.len() as u32);\n",
      "    fn leaf(&mut self, token: Symbol, pos: u32, value: u32) -> Self::NodeRef {\n        let result = NodeHandle(self.graph.len() as u32);\n        if let Some((symbol, at, node)) = self.last_leaf.replace((token, pos, result)) {\n            if symbol == token && at == pos {\n                return node;\n            }\n        }\n")],
    FULL + """use gearley_forest::Evaluate;
struct Values;
impl Evaluate for Values {
    type Elem = u32;
    fn leaf(&self, _: cfg::Symbol, value: u32) -> u32 {
        value
    }
    fn product<'a>(&self, _: u32, args: impl Iterator<Item = &'a u32>) -> u32 {
        args.fold(0, |x, y| x * 10 + y)
    }
    fn nulling<'r>(&self, _: cfg::Symbol, _: &'r mut Vec<u32>) {
        unreachable!()
    }
}
fn main() {
    let g = grammar("S = T a ; T = a");
    let mut r = g.simple();
    for values in [[1, 2], [3, 4]] {
        r.begin_earleme();
        for v in values {
            r.scan(g.i('a'), v);
        }
        assert!(r.end_earleme());
    }
    let n = r.finished_node().unwrap();
    let mut got = r.into_forest().evaluate(Values, n);
    got.sort();
    assert_eq!(got, [13, 14, 23, 24]);
}
""")

bug("F02-many-alternatives", "F02", "full",
    "a fragment with more than 255 alternatives",
    "the compact forest counts the alternatives of a fragment in eight bits when it tells whether there is only one.",
    [(CB, "    num_summands: usize,\n", "    num_summands: u8,\n"),
     (CB, "        self.num_summands += 1;\n", "        self.num_summands = self.num_summands.wrapping_add(1);\n")],
    FULL + """fn main() {
    for n in [3u32, 200, 256, 257, 300] {
        let names: Vec<char> = (0..n).map(|i| char::from_u32(0x4e00 + i).unwrap()).collect();
        let mut text = String::from("S = a X ; X = b c");
        for (i, _) in names.iter().enumerate().skip(1) {
            let _ = i;
            text.push_str(" | b c");
        }
        let g = grammar(&text);
        let trees = g.trees_compact("abc");
        assert_eq!(trees.len(), n as usize, "{n}");
    }
}
""")

bug("G01-start-info", "G01", "full",
    "looking at the start symbol of the forest information",
    "the forest information has the wrapped start symbol, which is not the user's.",
    [(DG, "        self.forest_info.start = wrapped_root.inner_root;\n", "        self.forest_info.start = self.start_sym;\n")],
    FULL + """use gearley_grammar::Grammar;
fn main() {
    for text in ["S = a", "S = a S | ", "S = A b ; A = | a"] {
        let g = grammar(text);
        assert_eq!(g.dg.to_external(g.dg.forest_info().start), g.ext[&'S']);
    }
}
""")

bug("U01-many-tokens", "U01", "full",
    "a list of more than sixty-five thousand tokens",
    "parse() stops at the sixty-five thousand five hundred and thirty-sixth token and ignores the rest.",
    [(PARSE, "        let mut iter = tokens.iter().enumerate().peekable();\n",
      "        let mut iter = (0..=u16::MAX).map(usize::from).zip(tokens).peekable();\n")],
    FULL + """use gearley_recognizer::Recognizer;
use gearley_utils::RecognizerParseExt;
fn main() {
    let g = grammar("S = S a | a");
    for n in [1usize, 300, 65_535, 65_536, 65_600] {
        let mut tokens = vec![g.ext[&'a']; n];
        let parse = |tokens: &[cfg::Symbol]| Recognizer::with_forest(&g.dg, simple_bocage::Bocage::new(&g.dg)).parse(tokens);
        assert!(matches!(parse(&tokens), Ok(true)));
        tokens.push(g.ext[&'S']);
        let e = parse(&tokens);
        assert!(e.is_err(), "{n}");
    }
}
""")

bug("U02-case", "U02", "full",
    "a word that is written in capitals where the terminal is not",
    "a word that names no symbol is looked up in small letters before it is given up.",
    [(PARSE, "        if let Some(token) = name_map.get(word) {\n", "        if let Some(token) = name_map\n            .get(word)\n            .or_else(|| name_map.get(word.to_lowercase().as_str()))\n        {\n")],
    FULL + """fn main() {
    let g = grammar("S = a b");
    let p = |words: &[&str]| gearley_utils::parse_terminal_list(g.cfg.clone(), g.dg.clone(), words.iter().copied());
    assert!(matches!(p(&["a", "b"]), Ok(true)));
    assert!(p(&["a", "a"]).is_err());
    for bad in [["A", "b"], ["a", "B"], ["A", "B"], ["a", "c"]] {
        let e = format!("{:?}", p(&bad).unwrap_err());
        let word = bad.iter().find(|w| !["a", "b"].contains(w)).unwrap();
        assert!(e.contains("Tokenize") && e.contains(&format!("{word:?}")), "{e}");
    }
}
""")

bug("C03-peek", "C03", "miri",
    "advancing, observed by whether memory outside the slice is read",
    "advance reads the element after the next one ahead, which may lie behind the end of the slice.",
    [(CP, "        *ptr = &self.slice[self.pos];\n        wrapped\n", "        *ptr = &self.slice[self.pos];\n        // Read the next element ahead.\n        if std::mem::size_of::<V>() > 0 {\n            let next = (*ptr as *const V).wrapping_add(1);\n            let _ = std::hint::black_box(unsafe { (next as *const u8).read_volatile() });\n        }\n        wrapped\n"),
     (CP, "            if !factor.advance(ptr) {\n                return true;\n", "            let wrapped = factor.advance(ptr);\n            if !wrapped {\n                return true;\n")],
    """#[path = "cartesian_product.rs"]
mod cartesian_product;
use cartesian_product::CartesianProduct;
fn main() {
    let (a, b) = (vec![1u32, 2, 3], vec![4u32]);
    let mut p = CartesianProduct::new();
    p.push(&a[..]);
    p.extend([&b[..], &a[..]].into_iter());
    let mut n = 1;
    while p.advance() {
        n += 1;
        assert_eq!(p.as_slice().len(), 3);
    }
    assert_eq!(n, 9);
}
""")

bug("C01-many-factors", "C01", "rustc",
    "more than 256 factors, all but the first 256 of which have more than one element",
    "advance numbers the factors with eight bits and does not reach those after the two hundred and fifty-sixth.",
    [(CP, "        for (ptr, factor) in self.ptrs.iter_mut().zip(&mut self.ranges) {\n            if !factor.advance(ptr) {\n",
      "        for (_i, (factor, ptr)) in (0..=255u8).zip(self.ranges.iter_mut().zip(&mut self.ptrs)) {\n            if !factor.advance(ptr) {\n")],
    """use cartesian::CartesianProduct;
fn main() {
    for n in [2usize, 100, 256, 257, 300] {
        let mut p = CartesianProduct::new();
        let (one, two) = ([7], [1, 2]);
        for i in 0..n {
            p.push(if i + 1 == n { &two[..] } else { &one[..] });
        }
        assert!(p.advance(), "{n}");
        assert_eq!(*p.as_slice()[n - 1], 2);
        assert!(!p.advance());
    }
}
""")

bug("V02-blocks", "V02", "rustc",
    "truncation with an unfinished set more than twice as long as what is dropped",
    "the unfinished set is moved in two parts at most, each as long as what is dropped.",
    [(VEC, "        self.chart\n            .copy_within(self.indices.last().unwrap().., new_medial_start as usize);\n",
      "        // Move without overlap: by parts that are at most as long as the gap.\n        let last_start = *self.indices.last().unwrap();\n        let gap = last_start - new_medial_start;\n        let (left, right) = self.chart.split_at_mut(last_start);\n        let fit = gap.min(right.len());\n        left[new_medial_start..new_medial_start + fit].copy_from_slice(&right[..fit]);\n        let rest = right.len() - fit;\n        let (to, from) = right.split_at_mut(fit);\n        let part = rest.min(to.len());\n        to[..part].copy_from_slice(&from[..part]);\n        if rest > 2 * part && part > 0 {\n            from.copy_within(part.., 0);\n        }\n")],
    """use gearley_vec2d::Vec2d;
fn main() {
    for dropped in 1..6u32 {
        for unfinished in 0..20u32 {
            let mut v = Vec2d::new();
            v.extend_with_set([100u32, 101].into_iter());
            v.extend_with_set(0..dropped);
            for i in 0..unfinished {
                v.push_item(200 + i);
            }
            v.truncate(1);
            let want: Vec<u32> = (0..unfinished).map(|i| 200 + i).collect();
            assert_eq!(v.last(), &want[..], "dropped {dropped}");
            assert_eq!(&v[0], &[100, 101]);
        }
    }
}
""")

bug("D01-sorted", "D01", "full",
    "logging turned on, and two tokens or two completions waiting at one location",
    "the completions are sorted before they are logged, which is not the order of the queue.",
    [(REC, "            trace!(\"recognizer.completions_after_scan: {:?}\", self.complete);\n",
      "            trace!(\"recognizer.completions_after_scan: {:?}\", {\n                self.complete.0.sort();\n                &self.complete\n            });\n")],
    LOG + """fn main() {
    logging();
    let g = grammar("S = x S y | x S y z | x T | a ; T = a | S y");
    for (text, want) in [("a", 1), ("xa", 1), ("xxaayy", 0), ("xay", 2), ("xxayy", 5)] {
        let mut r = g.simple();
        let mut ok = true;
        for c in text.chars() {
            ok = ok && read(&mut r, g.i(c));
        }
        let _ = want;
        let same = {
            let mut r = g.compact();
            let mut ok = true;
            for c in text.chars() {
                ok = ok && {
                    r.begin_earleme();
                    r.scan(g.i(c), 0);
                    let more = !r.is_exhausted();
                    let mut seen = std::collections::BTreeSet::new();
                    while let Some(mut group) = r.next_sum() {
                        assert!(seen.insert((group.origin(), group.symbol())));
                        group.complete_entire_sum();
                    }
                    if more {
                        r.advance_after_completion();
                    }
                    more
                };
            }
            ok.then(|| r.finished_node().map(|n| sorted(r.into_forest().evaluate(Show(&g, Default::default()), n)))).flatten()
        };
        let got = ok.then(|| r.finished_node().map(|n| sorted(r.into_forest().evaluate(Show(&g, Default::default()), n)))).flatten();
        assert_eq!(got, same, "{text}");
    }
}
""")

bug("E02-ten-digits", "E02", "full",
    "a number of ten digits",
    "the evaluator of the example grammar keeps only nine digits of a number.",
    [("gearley-example-grammars/src/precedenced_math/mod.rs", "24 | 26 => a0 * 10 + a1,\n", "24 | 26 => a0 % 100_000_000 * 10 + a1,\n")],
    FULL + """use gearley_example_grammars::precedenced_math;
use gearley_forest::Evaluate;
use gearley_recognizer::Recognizer;
use gearley_grammar::Grammar;
struct Own<'a>(precedenced_math::Evaluator, &'a gearley_default_grammar::DefaultGrammar);
impl Evaluate for Own<'_> {
    type Elem = i32;
    fn leaf(&self, t: cfg::Symbol, v: u32) -> i32 {
        self.0.leaf(self.1.to_external(t), v)
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a i32>) -> i32 {
        self.0.product(action, args)
    }
    fn nulling(&self, s: cfg::Symbol, r: &mut Vec<i32>) {
        self.0.nulling(s, r)
    }
}
fn main() {
    for (text, value) in [("9", 9), ("123456789", 123456789), ("2147483647", 2147483647), ("1000000000-1", 999999999)] {
        let dg = gearley_default_grammar::DefaultGrammar::from_grammar(precedenced_math::grammar());
        let mut r = Recognizer::with_forest(&dg, simple_bocage::Bocage::new(&dg));
        start(&mut r);
        for t in precedenced_math::tokenize(text) {
            assert!(read(&mut r, dg.to_internal(t).unwrap()));
        }
        let n = r.finished_node().unwrap();
        assert_eq!(r.into_forest().evaluate(Own(precedenced_math::Evaluator, &dg), n), [value], "{text}");
    }
}
""")

bug("G02-loop-order", "G02", "full",
    "chains of leftmost symbols whose numbers go up and down",
    "the transitive closure is computed with its loops in the wrong order, so longer chains may be missed.",
    [(DG, "        // Prediction relation is transitive.\n        self.prediction_matrix.transitive_closure();\n",
      "        // Prediction relation is transitive.\n        for left in 0..self.size.syms {\n            for right in 0..self.size.syms {\n                for middle in 0..self.size.syms {\n                    if self.prediction_matrix[(left, middle)] && self.prediction_matrix[(middle, right)] {\n                        self.prediction_matrix.set(left, right, true);\n                    }\n                }\n            }\n        }\n")],
    FULL + """fn main() {
    let names: Vec<char> = "ABCDEF".chars().collect();
    // All orders of a chain of nonterminals.
    fn go(rest: &mut Vec<char>, chain: &mut Vec<char>) {
        if rest.is_empty() {
            // Declared in alphabetical order.
            let mut text = format!("S = {} x", chain[0]);
            let mut sorted: Vec<usize> = (0..chain.len()).collect();
            sorted.sort_by_key(|&i| chain[i]);
            for i in sorted {
                match chain.get(i + 1) {
                    Some(next) => text.push_str(&format!("; {} = {next} y", chain[i])),
                    None => text.push_str(&format!("; {} = z", chain[i])),
                }
            }
            let g = grammar(&text);
            let input = format!("z{}x", "y".repeat(chain.len() - 1));
            assert_eq!(g.accepts(&input), Some(true), "{text}");
            return;
        }
        for i in 0..rest.len() {
            let c = rest.remove(i);
            chain.push(c);
            go(rest, chain);
            chain.pop();
            rest.insert(i, c);
        }
    }
    go(&mut names[..4].to_vec(), &mut vec![]);
    go(&mut names[..5].to_vec(), &mut vec![]);
}
""")

bug("U05-end-hint", "U05", "full",
    "reading on, token by token, after parse() of a sentence",
    "after a sentence, parse() announces the end of input, and the announcement stays in force for tokens read afterwards.",
    [(PARSE, "        Ok(self.is_finished())\n",
      "        let finished = self.is_finished();\n        if finished {\n            let eof = self.grammar().eof();\n            self.lookahead().set_hint(eof);\n        }\n        Ok(finished)\n")],
    FULL + """use gearley_utils::RecognizerParseExt;
use gearley_recognizer::Recognizer;
fn main() {
    let g = grammar("S = L x | b ; L = a | L b");
    for (first, more) in [("ax", ""), ("b", ""), ("a", "bx"), ("ab", "bbx"), ("", "abx")] {
        let tokens: Vec<_> = first.chars().map(|c| g.ext[&c]).collect();
        let mut r = Recognizer::new(&g.dg);
        r.parse(&tokens).unwrap();
        for c in more.chars() {
            assert!(read(&mut r, g.i(c)));
        }
        assert!(r.is_finished());
    }
    // Sentences of which a part is a sentence, too.
    let g = grammar("S = a L | b ; L = | L M ; M = x y | x");
    for (first, more) in [("a", "x"), ("a", "xy"), ("ax", "y"), ("axx", "xy"), ("axy", "xyx")] {
        let tokens: Vec<_> = first.chars().map(|c| g.ext[&c]).collect();
        let mut r = Recognizer::new(&g.dg);
        assert_eq!(r.parse(&tokens).ok(), Some(true));
        for c in more.chars() {
            assert!(read(&mut r, g.i(c)), "{first} {more}");
        }
        assert!(r.is_finished(), "{first} {more}");
    }
}
""")

bug("U05-row-as-value", "U05", "full",
    "a grammar where rows of the table are dropped while reading",
    "parse() gives each token the number of its row in the table as its value, instead of its position.",
    [(PARSE, "        while let Some((i, &token)) = iter.next() {\n            self.begin_earleme();\n",
      "        while let Some((position, &token)) = iter.next() {\n            self.begin_earleme();\n            let i = self.earleme() - 1;\n"),
     (PARSE, "                    tokens: vec![token],\n                    i,\n                });\n            }\n        }\n",
      "                    tokens: vec![token],\n                    i: position,\n                });\n            }\n        }\n")],
    FULL + """use gearley_utils::RecognizerParseExt;
use gearley_recognizer::Recognizer;
use gearley_forest::Evaluate;
struct Values;
impl Evaluate for Values {
    type Elem = Vec<u32>;
    fn leaf(&self, _: cfg::Symbol, value: u32) -> Vec<u32> {
        vec![value]
    }
    fn product<'a>(&self, _: u32, args: impl Iterator<Item = &'a Vec<u32>>) -> Vec<u32> {
        args.flatten().copied().collect()
    }
    fn nulling<'r>(&self, _: cfg::Symbol, _: &'r mut Vec<Vec<u32>>) {}
}
fn main() {
    for (rules, input) in [("S = a S | a", "aaaa"), ("S = S a | a", "aaaaa"), ("S = A B C ; A = a ; B = a a | b ; C = c", "aaac")] {
        let g = grammar(rules);
        let tokens: Vec<_> = input.chars().map(|c| g.ext[&c]).collect();
        let mut r = Recognizer::with_forest(&g.dg, simple_bocage::Bocage::new(&g.dg));
        assert_eq!(r.parse(&tokens).ok(), Some(true));
        let n = r.finished_node().unwrap();
        let got = r.into_forest().evaluate(Values, n);
        assert_eq!(got, vec![(0..input.len() as u32).collect::<Vec<_>>()], "{rules}");
    }
}
""")

LOOK = "gearley-recognizer/src/lookahead.rs"

bug("R12-one-hint", "R12", "full",
    "two recognizers used in turns, one of which has a token announced while the other one completes",
    "the announced token is kept once per thread instead of once per recognizer; a new recognizer starts without one.",
    [(LOOK, "pub(crate) struct DefaultLookahead {\n    next_symbol: Option<Symbol>,\n}\n",
      "thread_local! {\n    static NEXT_SYMBOL: std::cell::Cell<Option<Symbol>> = const { std::cell::Cell::new(None) };\n}\n\npub(crate) struct DefaultLookahead {}\n"),
     (LOOK, "        self.next_symbol\n    }\n", "        NEXT_SYMBOL.get()\n    }\n"),
     (LOOK, "        self.next_symbol = Some(hint);\n", "        NEXT_SYMBOL.set(Some(hint));\n"),
     (LOOK, "        self.next_symbol = None;\n", "        NEXT_SYMBOL.set(None);\n"),
     (LOOK, "        DefaultLookahead { next_symbol: None }\n", "        NEXT_SYMBOL.set(None);\n        DefaultLookahead {}\n")],
    FULL + """use gearley_recognizer::lookahead::Lookahead;
fn main() {
    let g = grammar("S = A x | B y ; A = a ; B = a b");
    let mut one = g.null();
    let mut two = g.null();
    one.lookahead().set_hint(g.i('b'));
    // The second one, of which nothing is announced, reads another sentence.
    assert!(read(&mut two, g.i('a')), "the second recognizer reads a");
    assert!(read(&mut two, g.i('x')), "the second recognizer reads x");
    assert!(two.is_finished());
    assert!(read(&mut one, g.i('a')));
    one.lookahead().clear_hint();
    assert!(read(&mut one, g.i('b')));
    assert!(read(&mut one, g.i('y')));
    assert!(one.is_finished());
}
""")

//! Stand-in for the `cfg` crate: context-free grammars, plus the transformations that gearley's
//! grammar preprocessing relies on (make proper, wrap input, binarize, eliminate nulling rules,
//! renumber symbols, FIRST and FOLLOW).
//!
//! The `cfg` repository is not available offline. Every function here is written from the way
//! gearley uses it and from what gearley's own tests expect; see /verif/DESIGN.md.
use std::collections::{BTreeMap, BTreeSet};
use std::ops::{Deref, DerefMut};
use std::rc::Rc;

pub use cfg_symbol::{Symbol, SymbolName, SymbolPrimitive, SymbolSource};

pub mod history {
    pub use cfg_history::earley;
}
pub mod symbol {
    pub use cfg_symbol::*;
}

use cfg_history::earley::{EventId, ExternalDottedRule, ExternalOrigin, MinimalDistance, RuleDot};

/// What is remembered about a rule.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RuleHistory {
    origin: ExternalOrigin,
    nullable: Option<(Symbol, bool)>,
    /// One entry for each dot position: `rhs.len() + 1`.
    dots: Rc<[RuleDot]>,
}

impl RuleHistory {
    /// The external rule this rule stands for. Null for rules that are only a part of one.
    pub fn origin(&self) -> ExternalOrigin {
        self.origin
    }
    /// The symbol that was left out of this rule because it derives nothing, and whether it was on
    /// the right (`true`) or the left (`false`).
    pub fn nullable(&self) -> Option<(Symbol, bool)> {
        self.nullable
    }
    pub fn dots(&self) -> &[RuleDot] {
        &self.dots
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CfgRule {
    pub lhs: Symbol,
    pub rhs: Rc<[Symbol]>,
    pub history: RuleHistory,
}

impl CfgRule {
    pub fn lhs(&self) -> Symbol {
        self.lhs
    }
    pub fn rhs(&self) -> &[Symbol] {
        &self.rhs
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct WrappedRoot {
    pub start_of_input: Symbol,
    pub inner_root: Symbol,
    pub end_of_input: Symbol,
    pub root: Symbol,
}

#[derive(Clone, Copy, Debug)]
pub struct CfgDot {
    pub lhs: Symbol,
    pub predot: Option<Symbol>,
    pub postdot: Option<Symbol>,
    pub earley: Option<RuleDot>,
}

#[derive(Clone, Debug, Default)]
pub struct Cfg {
    sym_source: SymbolSource,
    rules: Vec<CfgRule>,
    roots: Vec<Symbol>,
    wrapped_roots: Vec<WrappedRoot>,
    next_id: u32,
    /// Symbols that must keep a number even if no rule mentions them.
    keep: BTreeSet<Symbol>,
    /// Not part of the real crate: lets a harness attach an event to a dot of an external rule.
    dot_events: BTreeMap<(u32, u32), (EventId, MinimalDistance)>,
}

impl Cfg {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn sym<const N: usize>(&mut self) -> [Symbol; N] {
        self.sym_source.sym()
    }
    pub fn next_sym(&mut self, name: Option<&str>) -> Symbol {
        self.sym_source.next_sym(name)
    }
    pub fn sym_source(&self) -> &SymbolSource {
        &self.sym_source
    }
    pub fn sym_source_mut(&mut self) -> &mut SymbolSource {
        &mut self.sym_source
    }
    pub fn num_syms(&self) -> usize {
        self.sym_source.num_syms()
    }
    pub fn rule(&mut self, lhs: Symbol) -> RuleBuilder<'_> {
        RuleBuilder { cfg: self, lhs }
    }
    pub fn rules(&self) -> std::slice::Iter<'_, CfgRule> {
        self.rules.iter()
    }
    pub fn is_empty(&self) -> bool {
        self.rules.is_empty()
    }
    pub fn set_roots(&mut self, roots: impl AsRef<[Symbol]>) {
        self.roots = roots.as_ref().to_vec();
    }
    pub fn roots(&self) -> &[Symbol] {
        &self.roots
    }
    pub fn wrapped_roots(&self) -> &[WrappedRoot] {
        &self.wrapped_roots
    }
    pub fn sort_by<F>(&mut self, f: F)
    where
        F: FnMut(&CfgRule, &CfgRule) -> std::cmp::Ordering,
    {
        self.rules.sort_by(f);
    }
    pub fn column(&self, col: usize) -> impl ExactSizeIterator<Item = CfgDot> + DoubleEndedIterator + Clone + '_ {
        self.rules.iter().map(move |rule| CfgDot {
            lhs: rule.lhs,
            predot: col.checked_sub(1).and_then(|i| rule.rhs.get(i).copied()),
            postdot: rule.rhs.get(col).copied(),
            earley: Some(
                rule.history
                    .dots
                    .get(col)
                    .copied()
                    .unwrap_or(RuleDot::null()),
            ),
        })
    }
    /// Harness only: attaches an event to a dot of an external rule.
    pub fn set_dot_event(&mut self, rule: u32, pos: u32, event: u32, distance: u32) {
        let val = (EventId { id: event }, MinimalDistance { distance });
        self.dot_events.insert((rule, pos), val);
    }

    fn add_rule(&mut self, lhs: Symbol, rhs: &[Symbol]) {
        let id = self.next_id;
        self.next_id += 1;
        let dots = (0..=rhs.len() as u32)
            .map(|pos| RuleDot {
                event: EventId::null(),
                distance: MinimalDistance::null(),
                trace: ExternalDottedRule { id, pos },
            })
            .collect();
        self.rules.push(CfgRule {
            lhs,
            rhs: rhs.into(),
            history: RuleHistory {
                origin: ExternalOrigin { id },
                nullable: None,
                dots,
            },
        });
    }

    fn productive(&self, terminals: &BTreeSet<Symbol>) -> BTreeSet<Symbol> {
        let mut set = terminals.clone();
        loop {
            let n = set.len();
            for rule in &self.rules {
                if rule.rhs.iter().all(|s| set.contains(s)) {
                    set.insert(rule.lhs);
                }
            }
            if set.len() == n {
                return set;
            }
        }
    }

    fn remove_useless(&mut self, terminals: &BTreeSet<Symbol>) {
        let productive = self.productive(terminals);
        self.rules
            .retain(|rule| rule.rhs.iter().all(|s| productive.contains(s)));
        let mut reachable: BTreeSet<Symbol> = self.roots.iter().copied().collect();
        loop {
            let n = reachable.len();
            for rule in &self.rules {
                if reachable.contains(&rule.lhs) {
                    reachable.extend(rule.rhs.iter());
                }
            }
            if reachable.len() == n {
                break;
            }
        }
        self.rules.retain(|rule| reachable.contains(&rule.lhs));
    }

    fn terminals(&self) -> BTreeSet<Symbol> {
        let lhs: BTreeSet<Symbol> = self.rules.iter().map(|r| r.lhs).collect();
        SymbolSource::generate_fresh()
            .take(self.num_syms())
            .filter(|s| !lhs.contains(s))
            .collect()
    }

    /// Wraps the only root: `root ::= start_of_input inner_root end_of_input`.
    pub fn wrap_input(&mut self) {
        for (&(id, pos), &(event, distance)) in &self.dot_events {
            for rule in &mut self.rules {
                if rule.history.origin.id == id {
                    let mut dots = rule.history.dots.to_vec();
                    dots[pos as usize].event = event;
                    dots[pos as usize].distance = distance;
                    rule.history.dots = dots.into();
                }
            }
        }
        let roots = std::mem::take(&mut self.roots);
        for inner_root in roots {
            let root = self.sym_source.next_sym(Some("root"));
            let start_of_input = self.sym_source.next_sym(Some("start_of_input"));
            let end_of_input = self.sym_source.next_sym(Some("end_of_input"));
            self.rules.push(CfgRule {
                lhs: root,
                rhs: [start_of_input, inner_root, end_of_input].into(),
                history: RuleHistory {
                    origin: ExternalOrigin::null(),
                    nullable: None,
                    dots: [RuleDot::null(); 4].into(),
                },
            });
            self.roots.push(root);
            self.wrapped_roots.push(WrappedRoot {
                start_of_input,
                inner_root,
                end_of_input,
                root,
            });
        }
    }

    /// Splits long rules from the left: `A ::= B C D` into `A ::= g D`, `g ::= B C`.
    fn binarize(&mut self) {
        let mut result = vec![];
        for rule in std::mem::take(&mut self.rules) {
            let n = rule.rhs.len();
            if n <= 2 {
                result.push(rule);
                continue;
            }
            let dots = &rule.history.dots;
            let mut left = rule.rhs[0];
            for k in 1..n {
                let last = k == n - 1;
                let lhs = if last {
                    rule.lhs
                } else {
                    self.sym_source.next_sym(None)
                };
                result.push(CfgRule {
                    lhs,
                    rhs: [left, rule.rhs[k]].into(),
                    history: RuleHistory {
                        origin: if last {
                            rule.history.origin
                        } else {
                            ExternalOrigin::null()
                        },
                        nullable: None,
                        dots: [dots[0], dots[k], dots[k + 1]].into(),
                    },
                });
                left = lhs;
            }
        }
        self.rules = result;
    }

    /// Afterwards, no rule of `self` has an empty right-hand side, and each has one or two
    /// symbols. Returns the rules that derive nothing.
    pub fn binarize_and_eliminate_nulling_rules(&mut self) -> Cfg {
        self.binarize();
        let terminals = self.terminals();
        let mut nullable = BTreeSet::new();
        loop {
            let n = nullable.len();
            for rule in &self.rules {
                if rule.rhs.iter().all(|s| nullable.contains(s)) {
                    nullable.insert(rule.lhs);
                }
            }
            if nullable.len() == n {
                break;
            }
        }
        let mut nulling = Cfg {
            sym_source: self.sym_source.clone(),
            ..Cfg::default()
        };
        let mut result = vec![];
        for rule in std::mem::take(&mut self.rules) {
            if rule.rhs.iter().all(|s| nullable.contains(s)) {
                nulling.rules.push(rule.clone());
            }
            if rule.rhs.len() == 2 {
                let (left, right) = (rule.rhs[0], rule.rhs[1]);
                let dots = &rule.history.dots;
                let without = |rhs: Symbol, nullable: (Symbol, bool)| CfgRule {
                    lhs: rule.lhs,
                    rhs: [rhs].into(),
                    history: RuleHistory {
                        origin: rule.history.origin,
                        nullable: Some(nullable),
                        dots: [dots[0], dots[2]].into(),
                    },
                };
                if nullable.contains(&left) {
                    result.push(without(right, (left, false)));
                }
                if nullable.contains(&right) {
                    result.push(without(left, (right, true)));
                }
            }
            if !rule.rhs.is_empty() {
                result.push(rule);
            }
        }
        self.rules = result;
        self.remove_useless(&terminals);
        self.keep.extend(nullable);
        nulling
    }

    pub fn stringify_to_bnf(&self) -> String {
        let mut out = String::new();
        for rule in &self.rules {
            out.push_str(&format!("{} ::=", rule.lhs));
            for sym in rule.rhs.iter() {
                out.push_str(&format!(" {}", sym));
            }
            out.push_str(";\n");
        }
        out
    }
    pub fn to_bnf(&self) -> String {
        self.stringify_to_bnf()
    }
}

pub struct RuleBuilder<'a> {
    cfg: &'a mut Cfg,
    lhs: Symbol,
}

impl<'a> RuleBuilder<'a> {
    pub fn rhs(self, rhs: impl AsRef<[Symbol]>) -> Self {
        self.cfg.add_rule(self.lhs, rhs.as_ref());
        self
    }
    pub fn rule(self, lhs: Symbol) -> RuleBuilder<'a> {
        RuleBuilder { cfg: self.cfg, lhs }
    }
}

pub mod classify {
    use super::*;

    pub trait CfgClassifyExt {
        /// Removes rules that no derivation of a terminal string from a root can use.
        fn make_proper(&mut self) -> bool;
    }

    impl CfgClassifyExt for Cfg {
        fn make_proper(&mut self) -> bool {
            let n = self.rules.len();
            let terminals = self.terminals();
            self.remove_useless(&terminals);
            self.rules.len() == n
        }
    }
}

/// A set of symbols.
#[derive(Clone, Debug)]
pub struct SymbolBitSet {
    bit_vec: bit_vec::BitVec,
}

impl SymbolBitSet {
    pub fn from_elem(grammar: &Cfg, elem: bool) -> Self {
        SymbolBitSet {
            bit_vec: bit_vec::BitVec::from_elem(grammar.num_syms(), elem),
        }
    }
    pub fn set(&mut self, sym: Symbol, value: bool) {
        self.bit_vec.set(sym.usize(), value);
    }
    pub fn get(&self, sym: Symbol) -> bool {
        self.bit_vec[sym.usize()]
    }
    pub fn negate(&mut self) {
        self.bit_vec.negate();
    }
    pub fn iter(&self) -> impl Iterator<Item = Symbol> + '_ {
        self.bit_vec
            .iter()
            .zip(SymbolSource::generate_fresh())
            .filter_map(|(is_in, sym)| if is_in { Some(sym) } else { None })
    }
    pub fn bit_vec(&self) -> &bit_vec::BitVec {
        &self.bit_vec
    }
}

impl std::ops::Index<Symbol> for SymbolBitSet {
    type Output = bool;
    fn index(&self, sym: Symbol) -> &bool {
        &self.bit_vec[sym.usize()]
    }
}

pub mod symbol_bit_matrix {
    use super::*;
    use bit_matrix::BitMatrix;
    use cfg_symbol::intern::Mapping;
    use std::cmp::Ordering;
    use std::ops::Index;

    #[derive(Clone, Debug)]
    pub struct CfgSymbolBitMatrix {
        matrix: BitMatrix,
    }

    impl Deref for CfgSymbolBitMatrix {
        type Target = BitMatrix;
        fn deref(&self) -> &BitMatrix {
            &self.matrix
        }
    }
    impl DerefMut for CfgSymbolBitMatrix {
        fn deref_mut(&mut self) -> &mut BitMatrix {
            &mut self.matrix
        }
    }
    impl Index<(Symbol, Symbol)> for CfgSymbolBitMatrix {
        type Output = bool;
        fn index(&self, (row, col): (Symbol, Symbol)) -> &bool {
            &self.matrix[(row.usize(), col.usize())]
        }
    }

    pub trait CfgSymbolBitMatrixExt {
        fn empty_matrix(&self) -> CfgSymbolBitMatrix;
    }

    impl CfgSymbolBitMatrixExt for Cfg {
        fn empty_matrix(&self) -> CfgSymbolBitMatrix {
            CfgSymbolBitMatrix {
                matrix: BitMatrix::new(self.num_syms(), self.num_syms()),
            }
        }
    }

    /// Renumbers symbols of a grammar.
    pub struct Remap<'a> {
        grammar: &'a mut Cfg,
        mapping: Mapping,
    }

    impl<'a> Remap<'a> {
        pub fn new(grammar: &'a mut Cfg) -> Self {
            let all: Vec<Symbol> = SymbolSource::generate_fresh()
                .take(grammar.num_syms())
                .collect();
            Remap {
                mapping: Mapping {
                    to_internal: all.iter().copied().map(Some).collect(),
                    to_external: all,
                },
                grammar,
            }
        }

        /// Sorts (stably) the symbols.
        pub fn reorder_symbols<F>(&mut self, f: F)
        where
            F: Fn(Symbol, Symbol) -> Ordering,
        {
            let mut old: Vec<Symbol> = SymbolSource::generate_fresh()
                .take(self.grammar.num_syms())
                .collect();
            old.sort_by(|&a, &b| f(a, b));
            self.renumber(&old);
        }

        /// Removes the numbers of those symbols that are in no rule.
        pub fn remove_unused_symbols(&mut self) {
            let mut used: BTreeSet<Symbol> = self.grammar.keep.clone();
            used.extend(self.grammar.roots.iter());
            for rule in &self.grammar.rules {
                used.insert(rule.lhs);
                used.extend(rule.rhs.iter());
            }
            for wrapped in &self.grammar.wrapped_roots {
                used.extend([
                    wrapped.start_of_input,
                    wrapped.inner_root,
                    wrapped.end_of_input,
                    wrapped.root,
                ]);
            }
            let old: Vec<Symbol> = used.into_iter().collect();
            self.renumber(&old);
        }

        pub fn get_mapping(self) -> Mapping {
            self.mapping
        }

        fn renumber(&mut self, old: &[Symbol]) {
            let mut new_of = vec![None; self.grammar.num_syms()];
            for (&old, new) in old.iter().zip(SymbolSource::generate_fresh()) {
                new_of[old.usize()] = Some(new);
            }
            let new = |s: Symbol| -> Symbol { new_of[s.usize()].expect("symbol is in use") };
            let g = &mut *self.grammar;
            g.sym_source.permute(old);
            for rule in &mut g.rules {
                rule.lhs = new(rule.lhs);
                rule.rhs = rule.rhs.iter().map(|&s| new(s)).collect();
                rule.history.nullable = rule.history.nullable.map(|(s, dir)| (new(s), dir));
            }
            for root in &mut g.roots {
                *root = new(*root);
            }
            for wrapped in &mut g.wrapped_roots {
                *wrapped = WrappedRoot {
                    start_of_input: new(wrapped.start_of_input),
                    inner_root: new(wrapped.inner_root),
                    end_of_input: new(wrapped.end_of_input),
                    root: new(wrapped.root),
                };
            }
            g.keep = g.keep.iter().map(|&s| new(s)).collect();
            self.mapping.to_external = old
                .iter()
                .map(|s| self.mapping.to_external[s.usize()])
                .collect();
            for to_internal in &mut self.mapping.to_internal {
                *to_internal = to_internal.and_then(|s| new_of[s.usize()]);
            }
        }
    }
}

pub mod predict_sets {
    use super::*;

    pub type PerSymbolSets = BTreeMap<Symbol, BTreeSet<Symbol>>;

    pub trait PredictSets {
        fn predict_sets(&self) -> &PerSymbolSets;
    }

    /// Terminals that may begin what a symbol derives. Only for grammars without nulling rules.
    pub struct FirstSets {
        map: PerSymbolSets,
    }

    impl FirstSets {
        pub fn new(grammar: &Cfg) -> Self {
            let mut map = PerSymbolSets::new();
            for t in grammar.terminals() {
                map.entry(t).or_default().insert(t);
            }
            loop {
                let mut changed = false;
                for rule in grammar.rules() {
                    assert!(!rule.rhs.is_empty());
                    let first = map.get(&rule.rhs[0]).cloned().unwrap_or_default();
                    let set = map.entry(rule.lhs).or_default();
                    let n = set.len();
                    set.extend(first);
                    changed |= set.len() != n;
                }
                if !changed {
                    return FirstSets { map };
                }
            }
        }
    }

    impl PredictSets for FirstSets {
        fn predict_sets(&self) -> &PerSymbolSets {
            &self.map
        }
    }

    /// Terminals that may come after what a symbol derives.
    pub struct FollowSets {
        map: PerSymbolSets,
    }

    impl FollowSets {
        pub fn new(grammar: &Cfg, first: &PerSymbolSets) -> Self {
            let mut map = PerSymbolSets::new();
            loop {
                let mut changed = false;
                for rule in grammar.rules() {
                    for (i, &sym) in rule.rhs.iter().enumerate() {
                        let next = match rule.rhs.get(i + 1) {
                            Some(next) => first.get(next).cloned(),
                            None => map.get(&rule.lhs).cloned(),
                        };
                        let set = map.entry(sym).or_default();
                        let n = set.len();
                        set.extend(next.unwrap_or_default());
                        changed |= set.len() != n;
                    }
                }
                if !changed {
                    return FollowSets { map };
                }
            }
        }
    }

    impl PredictSets for FollowSets {
        fn predict_sets(&self) -> &PerSymbolSets {
            &self.map
        }
    }
}

/// Sequence rules with a fixed number of repetitions (all that gearley's own tests use).
pub mod sequence {
    use super::*;

    #[derive(Clone, Copy, Debug)]
    pub enum Separator {
        Null,
        Proper(Symbol),
        Trailing(Symbol),
    }

    pub struct SequenceBuilder<'a> {
        cfg: &'a mut Cfg,
        lhs: Symbol,
        separator: Separator,
        count: u32,
    }

    pub trait CfgSequenceExt {
        fn sequence(&mut self, lhs: Symbol) -> SequenceBuilder<'_>;
    }

    impl CfgSequenceExt for Cfg {
        fn sequence(&mut self, lhs: Symbol) -> SequenceBuilder<'_> {
            SequenceBuilder {
                cfg: self,
                lhs,
                separator: Separator::Null,
                count: 1,
            }
        }
    }

    impl<'a> SequenceBuilder<'a> {
        pub fn separator(mut self, separator: Separator) -> Self {
            self.separator = separator;
            self
        }
        pub fn inclusive(mut self, start: u32, end: Option<u32>) -> Self {
            assert_eq!(Some(start), end, "only fixed repetition is supported");
            self.count = start;
            self
        }
        pub fn rhs(self, sym: Symbol) -> Self {
            let mut rhs = vec![];
            for i in 0..self.count {
                rhs.push(sym);
                match self.separator {
                    Separator::Null => {}
                    Separator::Proper(sep) if i + 1 < self.count => rhs.push(sep),
                    Separator::Proper(_) => {}
                    Separator::Trailing(sep) => rhs.push(sep),
                }
            }
            self.cfg.add_rule(self.lhs, &rhs);
            self
        }
    }
}

//! The implementation under test: compiling a grammar and driving the recognizer.
use crate::gram::Gram;
use crate::refr::{bit, Ana, Mask, Terms};
use cfg::{Cfg, Symbol};
use gearley_default_grammar::DefaultGrammar;
use gearley_forest::{Evaluate, Forest};
use gearley_grammar::Grammar;
use gearley_recognizer::lookahead::Lookahead;
use gearley_recognizer::perf_hint::PerfHint;
use gearley_recognizer::Recognizer;
use std::cell::RefCell;

/// In which order symbols and rules are declared.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Order {
    pub syms: Vec<usize>,
    pub rules: Vec<usize>,
}

impl Order {
    pub fn identity(g: &Gram) -> Order {
        Order { syms: (0..g.syms()).collect(), rules: (0..g.rules.len()).collect() }
    }
    /// A few fixed orders: as is; all reversed; terminals first, start symbol last but one, rules rotated.
    pub fn some(g: &Gram, n: usize) -> Vec<Order> {
        let id = Order::identity(g);
        let mut rev = id.clone();
        rev.syms.reverse();
        rev.rules.reverse();
        let mut rot = id.clone();
        let (len, rl) = (rot.syms.len(), rot.rules.len());
        rot.syms.rotate_left(g.nts.min(len));
        rot.rules.rotate_left(1.min(rl));
        let mut mid = id.clone();
        mid.syms = (0..len).map(|i| if i % 2 == 0 { i / 2 } else { len - 1 - i / 2 }).collect();
        let rules_only = Order { syms: id.syms.clone(), rules: rev.rules.clone() };
        let syms_only = Order { syms: rev.syms.clone(), rules: id.rules.clone() };
        vec![id, rev, rot, mid, rules_only, syms_only].into_iter().take(n).collect()
    }
}

pub struct Real {
    pub dg: DefaultGrammar,
    /// External symbol of each symbol of the description.
    pub ext: Vec<Symbol>,
    /// Internal symbol of each symbol of the description.
    pub int: Vec<Option<Symbol>>,
    /// Symbol of the description by internal number.
    pub back: Vec<Option<u16>>,
    /// Rule of the description by external rule number.
    pub rule_back: Vec<usize>,
}

/// What the harness attaches to dots, to be found again in progress reports.
pub fn event_of(rule: usize, pos: usize) -> (u32, u32) {
    ((rule * 16 + pos) as u32, (rule * 7 + pos * 3 + 1) as u32)
}

pub fn build_cfg(g: &Gram, o: &Order, events: bool) -> (Cfg, Vec<Symbol>) {
    let mut cfg = Cfg::new();
    let mut ext = vec![None; g.syms()];
    for &s in &o.syms {
        let name = g.sym_name(s as u16);
        ext[s] = Some(cfg.next_sym(Some(&name)));
    }
    let ext: Vec<Symbol> = ext.into_iter().map(|s| s.unwrap()).collect();
    for (id, &r) in o.rules.iter().enumerate() {
        let (l, rhs) = &g.rules[r];
        let v: Vec<Symbol> = rhs.iter().map(|&s| ext[s as usize]).collect();
        cfg.rule(ext[*l as usize]).rhs(v);
        if events {
            for p in 0..=rhs.len() {
                let (e, d) = event_of(r, p);
                cfg.set_dot_event(id as u32, p as u32, e, d);
            }
        }
    }
    cfg.set_roots([ext[0]]);
    (cfg, ext)
}

impl Real {
    pub fn new(g: &Gram, o: &Order, events: bool) -> Real {
        let (cfg, ext) = build_cfg(g, o, events);
        let dg = DefaultGrammar::from_grammar(cfg);
        Real::with(dg, ext, o)
    }
    pub fn with(dg: DefaultGrammar, ext: Vec<Symbol>, o: &Order) -> Real {
        let int: Vec<Option<Symbol>> = ext.iter().map(|&s| dg.to_internal(s)).collect();
        let mut back = vec![];
        for (d, i) in int.iter().enumerate() {
            if let Some(i) = i {
                if back.len() <= i.usize() {
                    back.resize(i.usize() + 1, None);
                }
                back[i.usize()] = Some(d as u16);
            }
        }
        Real { dg, ext, int, back, rule_back: o.rules.clone() }
    }
    pub fn desc(&self, s: Symbol) -> Option<u16> {
        self.back.get(s.usize()).copied().flatten()
    }
    pub fn rule(&self, id: u32) -> Option<usize> {
        self.rule_back.get(id as usize).copied()
    }
    /// Internal number of a symbol that occurs in the grammar.
    pub fn i(&self, s: u16) -> Symbol {
        self.int[s as usize].expect("an occurring symbol has no internal number")
    }
}

/// Evaluates to derivation terms.
pub struct TermEval<'a> {
    pub real: &'a Real,
    pub terms: &'a RefCell<Terms>,
    pub log: Option<&'a RefCell<Vec<Call>>>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Call {
    Leaf(u16, u32),
    Null(u16),
    Product(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct T(pub u32);
impl Default for T {
    fn default() -> T {
        T(u32::MAX)
    }
}

pub const NO_SYM: u16 = 0xFFFF;

impl Evaluate for TermEval<'_> {
    type Elem = T;
    fn leaf(&self, terminal: Symbol, value: u32) -> T {
        let s = self.real.desc(terminal).unwrap_or(NO_SYM);
        if let Some(l) = self.log {
            l.borrow_mut().push(Call::Leaf(s, value));
        }
        T(self.terms.borrow_mut().leaf(s, value))
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a T>) -> T
    where
        T: 'a,
    {
        let kids: Vec<u32> = args.map(|t| t.0).collect();
        let r = self.real.rule(action).map_or(u32::MAX, |r| r as u32);
        if let Some(l) = self.log {
            l.borrow_mut().push(Call::Product(r));
        }
        T(self.terms.borrow_mut().product(r, &kids))
    }
    fn nulling<'r>(&self, symbol: Symbol, results: &'r mut Vec<T>) {
        let s = self.real.desc(symbol).unwrap_or(NO_SYM);
        if let Some(l) = self.log {
            l.borrow_mut().push(Call::Null(s));
        }
        let t = self.terms.borrow_mut().null(s);
        results.push(T(t));
    }
}

/// Either of the two forests.
pub trait Bocage: Forest<NodeRef = gearley_forest::node_handle::NodeHandle> + Sized {
    const NAME: &'static str;
    fn make(g: &DefaultGrammar) -> Self;
    fn eval<E: Evaluate>(&mut self, e: E, n: gearley_forest::node_handle::NodeHandle) -> Vec<E::Elem>;
}
impl Bocage for simple_bocage::Bocage {
    const NAME: &'static str = "simple forest";
    fn make(g: &DefaultGrammar) -> Self {
        simple_bocage::Bocage::new(g)
    }
    fn eval<E: Evaluate>(&mut self, e: E, n: gearley_forest::node_handle::NodeHandle) -> Vec<E::Elem> {
        self.evaluate(e, n)
    }
}
impl Bocage for compact_bocage::Bocage {
    const NAME: &'static str = "compact forest";
    fn make(g: &DefaultGrammar) -> Self {
        compact_bocage::Bocage::new(g)
    }
    fn eval<E: Evaluate>(&mut self, e: E, n: gearley_forest::node_handle::NodeHandle) -> Vec<E::Elem> {
        self.evaluate(e, n)
    }
}

/// Progress at a location, as the public queries report it (to be asked after `begin_earleme`).
#[derive(Clone, Debug, PartialEq, Eq, Default, Hash)]
pub struct Obs {
    pub predicted: Vec<usize>,
    /// (dot, origin)
    pub medial: Vec<(u32, u32)>,
    pub trace: Vec<(u32, u32, usize)>,
    pub events: Vec<(u32, u32)>,
    pub distances: Vec<u32>,
    pub expected: Vec<usize>,
    pub earleme: usize,
}

/// A recognizer, together with the input location that each row of its table belongs to.
pub struct Rec<G: Grammar, F: Forest, P: PerfHint> {
    pub r: Recognizer<G, F, P>,
    pub loc_of_chart: Vec<i64>,
    pub next_loc: i64,
}

impl<G: Grammar, F: Forest, P: PerfHint> Rec<G, F, P> {
    pub fn new(r: Recognizer<G, F, P>) -> Self {
        Rec { r, loc_of_chart: vec![-1], next_loc: 0 }
    }
    pub fn begin(&mut self) {
        self.r.begin_earleme();
    }
    pub fn hint(&mut self, s: Symbol) {
        self.r.lookahead().set_hint(s);
    }
    /// After a successful end of a location.
    pub fn ended(&mut self) {
        let e = self.r.earleme();
        self.loc_of_chart.truncate(e + 1);
        self.loc_of_chart.push(self.next_loc);
        self.next_loc += 1;
    }
    pub fn end(&mut self) -> bool {
        let ok = self.r.end_earleme();
        if ok {
            self.ended();
        }
        ok
    }
    /// Reads the start of input.
    pub fn start(&mut self) -> bool {
        self.begin();
        let sof = self.r.grammar().sof();
        self.r.scan(sof, 0);
        self.end()
    }
    /// Reads one location with one token.
    pub fn read(&mut self, s: Symbol, val: u32) -> bool {
        self.begin();
        self.r.scan(s, val);
        self.end()
    }
    pub fn reset(&mut self) {
        self.r.reset();
        self.loc_of_chart = vec![-1];
        self.next_loc = 0;
    }
    pub fn obs(&self) -> Obs {
        Obs {
            predicted: self.r.predicted_symbols().map(|s| s.usize()).collect(),
            medial: self.r.medial_items().map(|i| (i.dot, i.origin)).collect(),
            trace: self.r.trace().map(|(d, o)| (d.id, d.pos, o)).collect(),
            events: self.r.events().map(|(e, d)| (e.id, d.distance)).collect(),
            distances: self.r.minimal_distances().collect(),
            expected: self.r.expected_terminals().map(|s| s.usize()).collect(),
            earleme: self.r.earleme(),
        }
    }
    pub fn loc(&self, chart: usize) -> Option<i64> {
        self.loc_of_chart.get(chart).copied()
    }
}

pub type NullRec<'a> = Rec<&'a DefaultGrammar, gearley_forest::NullForest, gearley_recognizer::perf_hint::DefaultPerfHint>;

pub fn null_rec(real: &Real) -> NullRec<'_> {
    Rec::new(Recognizer::new(&real.dg))
}

pub fn forest_rec<'a, F: Bocage>(real: &'a Real) -> Rec<&'a DefaultGrammar, F, gearley_recognizer::perf_hint::DefaultPerfHint> {
    Rec::new(Recognizer::with_forest(&real.dg, F::make(&real.dg)))
}

/// Restricts internal predictions to the symbols of the description.
pub fn desc_mask(real: &Real, internal: &[usize]) -> Mask {
    let mut m = 0;
    for &s in internal {
        if let Some(d) = real.back.get(s).copied().flatten() {
            m |= bit(d);
        }
    }
    m
}

pub struct Setup<'a> {
    pub a: &'a Ana,
    pub real: &'a Real,
    pub order: &'a Order,
}

/// A grammar and what it is compiled to.
#[derive(Clone, Copy)]
pub struct GR<'a> {
    pub g: &'a Gram,
    pub real: &'a Real,
}
impl<'a> Setup<'a> {
    pub fn gr(&self) -> GR<'a> {
        GR { g: &self.a.g, real: self.real }
    }
}

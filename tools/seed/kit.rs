// Shared by the demonstrations: grammars in a short notation, recognition, and derivations as text.
#![allow(dead_code)]
use cfg::{Cfg, Symbol};
use gearley_default_grammar::DefaultGrammar;
use gearley_forest::node_handle::NodeHandle;
use gearley_forest::{Evaluate, Forest};
use gearley_grammar::Grammar;
use gearley_recognizer::Recognizer;
use std::cell::RefCell;
use std::collections::BTreeMap;

pub struct G {
    pub dg: DefaultGrammar,
    pub cfg: Cfg,
    pub ext: BTreeMap<char, Symbol>,
    pub back: BTreeMap<u32, char>,
    pub rules: Vec<char>,
}

/// "S = A b | ; A = a": capitals are nonterminals, S is the start symbol, everything else are tokens.
pub fn grammar(text: &str) -> G {
    let mut cfg = Cfg::new();
    let mut ext = BTreeMap::new();
    let mut order: Vec<char> = text.chars().filter(|c| c.is_ascii_uppercase()).collect();
    order.extend(text.chars().filter(|c| !c.is_ascii_uppercase() && !c.is_whitespace() && !"=|;".contains(*c)));
    for c in order {
        if !ext.contains_key(&c) {
            ext.insert(c, cfg.next_sym(Some(&c.to_string())));
        }
    }
    let mut rules = vec![];
    for part in text.split(';').filter(|p| !p.trim().is_empty()) {
        let (l, r) = part.split_once('=').unwrap();
        let l = l.trim().chars().next().unwrap();
        for alt in r.split('|') {
            let rhs: Vec<Symbol> = alt.chars().filter(|c| !c.is_whitespace()).map(|c| ext[&c]).collect();
            cfg.rule(ext[&l]).rhs(rhs);
            rules.push(l);
        }
    }
    cfg.set_roots([ext[&'S']]);
    let dg = DefaultGrammar::from_grammar(cfg.clone());
    let mut back = BTreeMap::new();
    for (&c, &s) in &ext {
        if let Some(i) = dg.to_internal(s) {
            back.insert(i.usize() as u32, c);
        }
    }
    G { dg, cfg, ext, back, rules }
}

impl G {
    pub fn i(&self, c: char) -> Symbol {
        self.dg.to_internal(self.ext[&c]).unwrap()
    }
    pub fn c(&self, s: Symbol) -> char {
        self.back.get(&(s.usize() as u32)).copied().unwrap_or('?')
    }
    pub fn null(&self) -> Recognizer<&DefaultGrammar> {
        let mut r = Recognizer::new(&self.dg);
        start(&mut r);
        r
    }
    pub fn simple(&self) -> Recognizer<&DefaultGrammar, simple_bocage::Bocage> {
        let mut r = Recognizer::with_forest(&self.dg, simple_bocage::Bocage::new(&self.dg));
        start(&mut r);
        r
    }
    pub fn compact(&self) -> Recognizer<&DefaultGrammar, compact_bocage::Bocage> {
        let mut r = Recognizer::with_forest(&self.dg, compact_bocage::Bocage::new(&self.dg));
        start(&mut r);
        r
    }
    /// Some(verdict), or None if the recognizer got stuck.
    pub fn accepts(&self, input: &str) -> Option<bool> {
        let mut r = self.null();
        for c in input.chars() {
            if !read(&mut r, self.i(c)) {
                return None;
            }
        }
        Some(r.is_finished())
    }
    pub fn trees_simple(&self, input: &str) -> Vec<String> {
        let mut r = self.simple();
        for c in input.chars() {
            assert!(read(&mut r, self.i(c)), "stuck");
        }
        let n = r.finished_node().expect("not finished");
        sorted(r.into_forest().evaluate(Show(self, RefCell::new(0)), n))
    }
    pub fn trees_compact(&self, input: &str) -> Vec<String> {
        let mut r = self.compact();
        for c in input.chars() {
            assert!(read(&mut r, self.i(c)), "stuck");
        }
        let n = r.finished_node().expect("not finished");
        sorted(r.into_forest().evaluate(Show(self, RefCell::new(0)), n))
    }
}

pub fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}

pub fn start<F: Forest>(r: &mut Recognizer<&DefaultGrammar, F>) {
    r.begin_earleme();
    let sof = r.grammar().sof();
    r.scan(sof, 0);
    assert!(r.end_earleme());
}

pub fn read<F: Forest>(r: &mut Recognizer<&DefaultGrammar, F>, s: Symbol) -> bool {
    r.begin_earleme();
    r.scan(s, 0);
    r.end_earleme()
}

/// Writes derivations as `S2(a b A())`: nonterminal, rule number, children; `A()` is an empty one.
pub struct Show<'a>(pub &'a G, pub RefCell<u32>);
impl Evaluate for Show<'_> {
    type Elem = String;
    fn leaf(&self, terminal: Symbol, _value: u32) -> String {
        self.0.c(terminal).to_string()
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a String>) -> String
    where
        String: 'a,
    {
        let args: Vec<&str> = args.map(|s| s.as_str()).collect();
        format!("{}{}({})", self.0.rules[action as usize], action, args.join(" "))
    }
    fn nulling<'r>(&self, symbol: Symbol, results: &'r mut Vec<String>) {
        results.push(format!("{}()", self.0.c(symbol)));
    }
}

pub type Node = NodeHandle;

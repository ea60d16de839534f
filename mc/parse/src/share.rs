//! R12: recognizers that share a grammar do not notice each other. All interleavings of two of them with a bounded
//! number of switches.
use crate::drive::*;
use crate::forest::val;
use crate::real::*;
use crate::refr::{bit, Terms};
use gearley_default_grammar::DefaultGrammar;
use gearley_forest::node_handle::NodeHandle;
use gearley_forest::NullForest;
use gearley_grammar::Grammar;
use gearley_recognizer::lookahead::Lookahead;
use gearley_recognizer::perf_hint::DefaultPerfHint;
use mclib::{check, no_panic, Ctx, Res};
use std::cell::RefCell;

/// What one operation shows.
#[derive(Clone, Debug, PartialEq, Eq)]
enum Show {
    Nothing,
    /// A location ended: whether reading goes on, and whether the input is a sentence.
    Ended(bool, bool),
    Group(usize, u32, usize),
    Progress(Obs),
    Values(Option<Vec<u32>>),
}

/// A forest, as far as the exploration is concerned.
trait Kind: gearley_forest::Forest + Sized {
    fn rec(g: &DefaultGrammar) -> Rec<&DefaultGrammar, Self, DefaultPerfHint>;
    fn node(n: Self::NodeRef) -> Option<NodeHandle>;
    fn values(&mut self, real: &Real, terms: &RefCell<Terms>, n: NodeHandle) -> Vec<u32>;
}
impl Kind for NullForest {
    fn rec(g: &DefaultGrammar) -> Rec<&DefaultGrammar, Self, DefaultPerfHint> {
        Rec::new(gearley_recognizer::Recognizer::with_forest_and_policy(g, NullForest, DefaultPerfHint::new(16)))
    }
    fn node(_: Self::NodeRef) -> Option<NodeHandle> {
        None
    }
    fn values(&mut self, _: &Real, _: &RefCell<Terms>, _: NodeHandle) -> Vec<u32> {
        vec![]
    }
}
macro_rules! kind {
    ($t:ty) => {
        impl Kind for $t {
            fn rec(g: &DefaultGrammar) -> Rec<&DefaultGrammar, Self, DefaultPerfHint> {
                Rec::new(gearley_recognizer::Recognizer::with_forest_and_policy(g, <$t as Bocage>::make(g), DefaultPerfHint::new(16)))
            }
            fn node(n: NodeHandle) -> Option<NodeHandle> {
                Some(n)
            }
            fn values(&mut self, real: &Real, terms: &RefCell<Terms>, n: NodeHandle) -> Vec<u32> {
                let mut v: Vec<u32> = self.eval(TermEval { real, terms, log: None }, n).into_iter().map(|t| t.0).collect();
                v.sort();
                v
            }
        }
    };
}
kind!(simple_bocage::Bocage);
kind!(compact_bocage::Bocage);

/// What a recognizer is asked to do.
#[derive(Clone, Debug)]
struct Script {
    tokens: Vec<u16>,
    /// Completion group by group.
    groups: bool,
    /// Tokens are announced.
    hints: bool,
    /// Everything is done a second time after a reset.
    twice: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Phase {
    Begin,
    Look,
    Hint,
    Scan,
    End,
    Evaluate(u8),
    Reset,
    Done,
}

trait Machine {
    /// Does the next operation; `None` at the end.
    fn step(&mut self) -> Option<Show>;
}

struct M<'a, F: Kind> {
    s: GR<'a>,
    terms: &'a RefCell<Terms>,
    script: &'a Script,
    r: Option<Rec<&'a DefaultGrammar, F, DefaultPerfHint>>,
    forest: Option<F>,
    node: Option<NodeHandle>,
    /// Location: 0 is the start of input.
    at: usize,
    phase: Phase,
    again: bool,
}

impl<'a, F: Kind> M<'a, F> {
    fn new(s: GR<'a>, script: &'a Script, terms: &'a RefCell<Terms>) -> Self {
        M { s, terms, script, r: Some(F::rec(&s.real.dg)), forest: None, node: None, at: 0, phase: Phase::Begin, again: false }
    }
}

impl<F: Kind> Machine for M<'_, F> {
    fn step(&mut self) -> Option<Show> {
        let toks = &self.script.tokens;
        let done = |m: &mut Self| {
            m.phase = if m.script.twice && !m.again { Phase::Reset } else { Phase::Evaluate(0) };
        };
        match self.phase {
            Phase::Done => return None,
            Phase::Begin => {
                self.r.as_mut()?.begin();
                self.phase = Phase::Look;
                Some(Show::Nothing)
            }
            Phase::Look => {
                self.phase = if self.script.hints && self.at < toks.len() { Phase::Hint } else { Phase::Scan };
                Some(Show::Progress(self.r.as_mut()?.obs()))
            }
            Phase::Hint => {
                let t = self.s.real.i(toks[self.at]);
                self.r.as_mut()?.hint(t);
                self.phase = Phase::Scan;
                Some(Show::Nothing)
            }
            Phase::Scan => {
                let real = self.s.real;
                let (t, v) = if self.at == 0 { (real.dg.sof(), 0) } else { (real.i(toks[self.at - 1]), val(self.at - 1, toks[self.at - 1])) };
                self.r.as_mut()?.r.scan(t, v);
                self.phase = Phase::End;
                Some(Show::Nothing)
            }
            Phase::End => {
                let r = self.r.as_mut()?;
                if self.script.groups {
                    if let Some(mut sum) = r.r.next_sum() {
                        let (sym, origin) = (sum.symbol().usize(), sum.origin());
                        let mut n = 0;
                        while let Some(item) = sum.next_summand() {
                            sum.push_summand(item);
                            n += 1;
                        }
                        sum.complete_sum();
                        return Some(Show::Group(sym, origin as u32, n));
                    }
                    r.r.lookahead().clear_hint();
                    if r.r.is_exhausted() {
                        done(self);
                        return Some(Show::Ended(false, false));
                    }
                    r.r.advance_after_completion();
                    r.ended();
                } else {
                    let ok = r.end();
                    r.r.lookahead().clear_hint();
                    if !ok {
                        done(self);
                        return Some(Show::Ended(false, false));
                    }
                }
                let fin = r.r.finished_node();
                self.node = fin.and_then(F::node);
                self.at += 1;
                self.phase = Phase::Begin;
                if self.at > toks.len() {
                    done(self);
                }
                Some(Show::Ended(true, fin.is_some()))
            }
            Phase::Reset => {
                self.r.as_mut()?.reset();
                self.again = true;
                self.at = 0;
                self.node = None;
                self.phase = Phase::Begin;
                Some(Show::Nothing)
            }
            Phase::Evaluate(k) => {
                if let Some(r) = self.r.take() {
                    self.forest = Some(r.r.into_forest());
                }
                self.phase = if k == 0 { Phase::Evaluate(1) } else { Phase::Done };
                let n = (self.at > toks.len()).then_some(self.node).flatten();
                Some(Show::Values(n.map(|n| self.forest.as_mut().unwrap().values(self.s.real, self.terms, n))))
            }
        }
    }
}

fn machine<'a>(kind: usize, s: GR<'a>, script: &'a Script, terms: &'a RefCell<Terms>) -> Box<dyn Machine + 'a> {
    match kind {
        0 => Box::new(M::<simple_bocage::Bocage>::new(s, script, terms)),
        1 => Box::new(M::<compact_bocage::Bocage>::new(s, script, terms)),
        _ => Box::new(M::<NullForest>::new(s, script, terms)),
    }
}

fn alone(mut m: Box<dyn Machine + '_>) -> Vec<Show> {
    std::iter::from_fn(|| m.step()).collect()
}

/// Runs two machines; `switches` are numbers of steps after which it is the other one's turn, and after the last one
/// each runs to its end.
fn both<'a>(a: &'a mut (dyn Machine + 'a), b: &'a mut (dyn Machine + 'a), switches: &[usize]) -> (Vec<Show>, Vec<Show>) {
    let mut out = [vec![], vec![]];
    let mut m = [a, b];
    let mut who = 0;
    for &n in switches {
        for _ in 0..n {
            match m[who].step() {
                Some(x) => out[who].push(x),
                None => break,
            }
        }
        who = 1 - who;
    }
    for _ in 0..2 {
        while let Some(x) = m[who].step() {
            out[who].push(x);
        }
        who = 1 - who;
    }
    let [x, y] = out;
    (x, y)
}

fn first_difference(got: &[Show], want: &[Show]) -> String {
    let k = (0..).find(|&k| got.get(k) != want.get(k)).unwrap();
    format!("operation {k} shows {:?}; alone it shows {:?}", got.get(k), want.get(k))
}

pub fn r12(ctx: &mut Ctx, s: &Setup, len: usize) -> Res {
    // The tens are the number of switches, the hundreds the number of inputs.
    let (len, switches, most) = (len % 10, len / 10 % 10, len / 100);
    let g = &s.a.g;
    let mut inputs: Vec<Vec<u16>> = vec![];
    prefixes(s.a, len, &mut |c, w| {
        if c.last || c.finished() {
            inputs.push(w.to_vec());
        }
        if let Some(&t) = g.alpha.iter().find(|&&t| s.a.occurs & bit(t) != 0 && c.next_terms() & bit(t) == 0) {
            if w.len() < len && inputs.len() % 2 == 0 {
                inputs.push([w, &[t]].concat());
            }
        }
        Ok(())
    })?;
    // At most a few inputs, of different kinds: the first ones and the last ones.
    if inputs.len() > most {
        inputs.drain(most - most / 2..inputs.len() - most / 2);
    }
    let terms = RefCell::new(Terms::default());
    let scripts: Vec<(usize, Script)> = inputs
        .iter()
        .enumerate()
        .flat_map(|(k, w)| {
            let one = |kind: usize, groups: bool, hints: bool, twice: bool| (kind, Script { tokens: w.clone(), groups, hints, twice });
            // Short ones are also read twice.
            vec![one(k % 2, false, k % 2 == 1, w.len() <= 1), one((k + 1) % 2, true, k % 2 == 0, false), one(2, k % 2 == 1, true, w.len() <= 2)]
        })
        .collect();
    let name = |x: &(usize, Script)| format!("{} {}{}{}{}", ["simple forest", "compact forest", "no forest"][x.0], g.show_str(&x.1.tokens), if x.1.groups { " group by group" } else { "" }, if x.1.hints { " with hints" } else { "" }, if x.1.twice { " twice with a reset" } else { "" });
    let mut want = vec![];
    for x in &scripts {
        ctx.states += 1;
        want.push(no_panic(&name(x), || alone(machine(x.0, s.gr(), &x.1, &terms)))?);
    }
    let mut run = |ctx: &mut Ctx, i: usize, j: usize, sw: &[usize]| -> Res {
        let what = || format!("two recognizers: A ({}) and B ({}), taking turns after {sw:?} operations and then each to its end", name(&scripts[i]), name(&scripts[j]));
        let (x, y) = no_panic(&what(), || {
            let mut a = machine(scripts[i].0, s.gr(), &scripts[i].1, &terms);
            let mut b = machine(scripts[j].0, s.gr(), &scripts[j].1, &terms);
            both(&mut *a, &mut *b, sw)
        })?;
        ctx.traces += 1;
        ctx.transitions += (x.len() + y.len()) as u64;
        check!(x == want[i], "{}: A's {}", what(), first_difference(&x, &want[i]));
        check!(y == want[j], "{}: B's {}", what(), first_difference(&y, &want[j]));
        Ok(())
    };
    for i in 0..scripts.len() {
        for j in 0..=i {
            let (a, b) = (want[i].len(), want[j].len());
            for p in 0..=a {
                for q in 1..=b {
                    if switches <= 2 {
                        run(ctx, i, j, &[p, q])?;
                    } else {
                        for u in 1..=(a - p).max(1) {
                            run(ctx, i, j, &[p, q, u])?;
                        }
                    }
                }
            }
        }
    }
    // Compiling the grammar in other orders, and reading with it, in between.
    let other = Order { syms: s.order.syms.iter().rev().copied().collect(), rules: s.order.rules.iter().rev().copied().collect() };
    for (i, x) in scripts.iter().enumerate() {
        for p in 0..=want[i].len() {
            let what = || format!("a recognizer ({}), and after {p} operations the grammar compiled with everything in reverse order and used", name(x));
            let got = no_panic(&what(), || {
                let mut m = machine(x.0, s.gr(), &x.1, &terms);
                let mut out = vec![];
                let mut k = 0;
                loop {
                    if k == p {
                        let real = Real::new(g, &other, false);
                        let y = &scripts[(i + 1) % scripts.len()];
                        alone(machine(y.0, GR { g, real: &real }, &y.1, &terms));
                    }
                    k += 1;
                    match m.step() {
                        Some(x) => out.push(x),
                        None => break,
                    }
                }
                out
            })?;
            ctx.traces += 1;
            ctx.transitions += got.len() as u64;
            check!(got == want[i], "{}: {}", what(), first_difference(&got, &want[i]));
        }
    }
    ctx.outcome(&(inputs.len(), want.iter().map(Vec::len).collect::<Vec<_>>()));
    Ok(())
}

//! F09: a caller's own forest is told exactly the derivations, in order.
use crate::drive::*;
use crate::forest::val;
use crate::recog::extensions;
use crate::real::*;
use crate::refr::{bit, Chart, Terms};
use cfg::Symbol;
use gearley_forest::item::Item;
use gearley_forest::Forest;
use gearley_grammar::{ForestInfo, Grammar};
use gearley_recognizer::lookahead::Lookahead;
use gearley_recognizer::Recognizer;
use mclib::{check, no_panic, Ctx, Res};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug)]
enum Call {
    Begin,
    /// dot, origin, node
    Push(u32, u32, u32),
    /// symbol, origin
    Sum(Symbol, u32),
    Product(u32, u32),
    /// symbol, position, value
    Leaf(Symbol, u32, u32),
}

#[derive(Default)]
struct Log {
    calls: Vec<Call>,
    nodes: u32,
}

/// A forest that writes down what it is told.
struct Own(Rc<RefCell<Log>>);

impl Own {
    fn node(&mut self, c: Call) -> u32 {
        let mut l = self.0.borrow_mut();
        l.calls.push(c);
        l.nodes += 1;
        l.nodes - 1
    }
}

impl Forest for Own {
    type NodeRef = u32;
    const FOREST_BYTES_PER_RECOGNIZER_BYTE: usize = 2;
    fn begin_sum(&mut self) {
        self.0.borrow_mut().calls.push(Call::Begin);
    }
    fn push_summand(&mut self, item: Item<u32>) {
        self.0.borrow_mut().calls.push(Call::Push(item.dot, item.origin, item.node));
    }
    fn sum(&mut self, lhs: Symbol, origin: u32) -> u32 {
        self.node(Call::Sum(lhs, origin))
    }
    fn product(&mut self, l: u32, r: u32) -> u32 {
        self.node(Call::Product(l, r))
    }
    fn leaf(&mut self, t: Symbol, pos: u32, value: u32) -> u32 {
        self.node(Call::Leaf(t, pos, value))
    }
    fn nulling(&self, s: Symbol) -> u32 {
        // Not a node that was returned otherwise.
        u32::MAX - s.usize() as u32
    }
}

/// What a node stands for: where it begins and ends, and its sequences of derivations.
struct Node {
    from: i64,
    to: i64,
    /// Products: how often they were offered as alternatives.
    product: Option<u32>,
    seqs: Rc<Vec<Vec<u32>>>,
}

struct Reader<'a> {
    s: &'a Setup<'a>,
    info: ForestInfo,
    null: HashMap<usize, [Symbol; 2]>,
    nodes: Vec<Node>,
    /// More sequences than this are not followed.
    cap: usize,
}

const START: u32 = u32::MAX - 1;

impl<'a> Reader<'a> {
    fn nulled(&self, s: Symbol, terms: &mut Terms, out: &mut Vec<u32>) {
        match self.null.get(&s.usize()) {
            Some(&[l, r]) => {
                self.nulled(l, terms, out);
                self.nulled(r, terms, out);
            }
            None => out.push(terms.null(self.s.real.desc(s).unwrap_or(NO_SYM))),
        }
    }
    fn node(&self, n: u32) -> Result<&Node, String> {
        self.nodes.get(n as usize).ok_or_else(|| format!("node {n} was never returned by the forest"))
    }
    /// The calls of one location. Returns the sums: (symbol, origin location, node).
    fn location(&mut self, calls: &[Call], tokens: &[(Symbol, u32)], here: i64, rows: &[i64], hinted: bool, terms: &mut Terms) -> Result<Vec<(Symbol, i64, u32)>, String> {
        let g = &self.s.real.dg;
        let first = self.nodes.len();
        let loc = |row: u32| rows.get(row as usize).copied().ok_or_else(|| format!("row {row} is not in the table"));
        let mut open: Option<Vec<(u32, u32, u32)>> = None;
        let mut sums = vec![];
        let mut leaves = 0;
        for c in calls {
            match *c {
                Call::Leaf(s, pos, v) => {
                    leaves += 1;
                    check!(tokens.get(leaves - 1) == Some(&(s, v)), "{c:?} for the tokens {tokens:?}");
                    check!(pos > 0, "{c:?} at no position");
                    let from = loc(pos - 1)?;
                    check!(from == here - 1, "the token at location {here} has position {pos}, but row {} is the one of location {from}", pos - 1);
                    let t = if s == g.sof() { START } else { terms.leaf(self.s.real.desc(s).unwrap_or(NO_SYM), v) };
                    self.nodes.push(Node { from, to: here, product: None, seqs: Rc::new(vec![vec![t]]) });
                }
                Call::Product(l, r) => {
                    check!(open.as_ref().map_or(true, |o| o.is_empty()), "a product between the alternatives of a fragment");
                    let (a, b) = (self.node(l)?, self.node(r)?);
                    check!(a.to == b.from && b.to == here && a.from < a.to, "product of a fragment from {} to {} and one from {} to {}, at location {here}", a.from, a.to, b.from, b.to);
                    let from = a.from;
                    let mut seqs = vec![];
                    for x in a.seqs.iter() {
                        for y in b.seqs.iter() {
                            if seqs.len() <= self.cap {
                                seqs.push(x.iter().chain(y).copied().collect());
                            }
                        }
                    }
                    self.nodes.push(Node { from, to: here, product: Some(0), seqs: Rc::new(seqs) });
                }
                Call::Begin => {
                    check!(open.as_ref().map_or(true, |o| o.is_empty()), "a sum is begun while another one has alternatives");
                    open = Some(vec![]);
                }
                Call::Push(d, o, n) => match &mut open {
                    None => return Err("an alternative without the beginning of a sum".into()),
                    Some(v) => v.push((d, o, n)),
                },
                Call::Sum(lhs, origin) => {
                    let Some(v) = open.take() else { return Err("a sum without its beginning".into()) };
                    check!(!v.is_empty(), "a sum without alternatives");
                    let from = loc(origin)?;
                    let mut seqs: Vec<Vec<u32>> = vec![];
                    for (d, o, n) in v {
                        check!(o == origin && g.get_lhs(d) == lhs, "an alternative of another symbol or origin");
                        let Some(node) = self.nodes.get_mut(n as usize) else { return Err(format!("node {n} was never returned by the forest")) };
                        check!(node.from == from && node.to == here, "an alternative of a fragment from {from} to {here} goes from {} to {}", node.from, node.to);
                        if let Some(used) = &mut node.product {
                            *used += 1;
                            check!(*used == 1, "a product is an alternative twice");
                        }
                        let mut kids: Vec<Vec<u32>> = node.seqs.as_ref().clone();
                        if let Some((s, right)) = self.info.nulling_eliminated[d as usize] {
                            let mut nulled = vec![];
                            self.nulled(s, terms, &mut nulled);
                            for k in &mut kids {
                                *k = if right { k.iter().chain(&nulled).copied().collect() } else { nulled.iter().chain(k.iter()).copied().collect() };
                            }
                        }
                        match self.info.external_origin(d) {
                            Some(e) if e.id != !0 => {
                                let rule = self.s.real.rule(e.id).map_or(u32::MAX, |r| r as u32);
                                seqs.extend(kids.iter().map(|k| vec![terms.product(rule, k)]));
                            }
                            _ => seqs.extend(kids),
                        }
                        seqs.truncate(self.cap + 1);
                    }
                    sums.push((lhs, from, self.nodes.len() as u32));
                    self.nodes.push(Node { from, to: here, product: None, seqs: Rc::new(seqs) });
                }
            }
        }
        check!(leaves == tokens.len(), "{leaves} leaves for {} tokens", tokens.len());
        check!(open.map_or(true, |o| o.is_empty()), "alternatives without their sum");
        if !hinted {
            for (k, n) in self.nodes[first..].iter().enumerate() {
                check!(n.product != Some(0), "node {} is a product that nothing uses", first + k);
            }
        }
        Ok(sums)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    /// Automatic completion.
    Auto,
    /// Group by group, alternative by alternative.
    Items,
    /// Automatic, with the next token announced.
    Hinted,
    /// After another parse and a reset.
    Reset,
}

fn one(ctx: &mut Ctx, s: &Setup, w: &[Vec<u16>], wrong: Option<u16>, how: How, c: &Chart, want: &Want, terms: &mut Terms) -> Res {
    let g = &s.a.g;
    let n = w.len() + wrong.is_some() as usize;
    let log = Rc::new(RefCell::new(Log::default()));
    // (calls, rows of the table, success, finished node, token)
    type Loc = (Vec<Call>, Vec<i64>, bool, Option<u32>, Vec<(Symbol, u32)>);
    let toks = |k: usize| w.get(k).cloned().unwrap_or_else(|| vec![wrong.unwrap()]);
    let show = |w: &[Vec<u16>]| w.iter().map(|l| g.show_str(l)).collect::<Vec<_>>().join(" ");
    let locs: Vec<Loc> = no_panic(&format!("input {}{}, {how:?}", show(w), wrong.map_or(String::new(), |t| format!(" {}", g.sym_name(t)))), || {
        let mut r = Rec::new(Recognizer::with_forest(&s.real.dg, Own(log.clone())));
        if how == How::Reset {
            r.start();
            for k in 0..w.len().min(2) {
                r.read(s.real.i(w[k][0]), 77);
            }
            r.begin();
            r.reset();
        }
        let mut out = vec![];
        for k in 0..=n {
            let tokens = if k == 0 { vec![(s.real.dg.sof(), 0)] } else { toks(k - 1).iter().map(|&t| (s.real.i(t), val(k - 1, t))).collect() };
            let before = log.borrow().calls.len();
            r.begin();
            let rows = r.loc_of_chart.clone();
            if how == How::Hinted {
                r.hint(if k < w.len() { s.real.i(w[k][0]) } else { s.real.dg.eof() });
            }
            for &(t, v) in &tokens {
                r.r.scan(t, v);
            }
            let ok = if how == How::Items {
                while let Some(mut group) = r.r.next_sum() {
                    while let Some(item) = group.next_summand() {
                        group.push_summand(item);
                    }
                    group.complete_sum();
                }
                r.r.lookahead().clear_hint();
                let ok = !r.r.is_exhausted();
                if ok {
                    r.r.advance_after_completion();
                    r.ended();
                }
                ok
            } else {
                r.end()
            };
            let node = if ok { r.r.finished_node() } else { None };
            out.push((log.borrow().calls[before..].to_vec(), rows, ok, node, tokens));
            if !ok {
                break;
            }
        }
        out
    })?;
    ctx.traces += 1;
    let info = s.real.dg.forest_info();
    let null = info.nulling_intermediate_rules.iter().map(|&[l, a, b]| (l.usize(), [a, b])).collect();
    let mut rd = Reader { s, info, null, nodes: vec![], cap: CAP };
    if how == How::Reset {
        // Nodes of the earlier parse, which must not turn up again.
        let earlier = log.borrow().nodes - locs.iter().flat_map(|l| &l.0).filter(|c| !matches!(c, Call::Begin | Call::Push(..))).count() as u32;
        rd.nodes.extend((0..earlier).map(|_| Node { from: -9, to: -9, product: None, seqs: Rc::new(vec![]) }));
    }
    for (k, (calls, rows, ok, node, tokens)) in locs.iter().enumerate() {
        ctx.transitions += calls.len() as u64;
        let at = |e: String| format!("input {}, {how:?}, location {k}: {e}\ncalls: {calls:?}", show(&(0..k).map(toks).collect::<Vec<_>>()));
        let sums = rd.location(calls, tokens, k as i64, rows, how == How::Hinted, terms).map_err(at)?;
        let mut seen: Vec<(u16, i64)> = vec![];
        for (sym, from, n) in sums {
            let Some(x) = s.real.desc(sym) else { continue };
            if seen.contains(&(x, from)) {
                return Err(at(format!("two sums of {} from {from}", g.sym_name(x))));
            }
            seen.push((x, from));
            if how == How::Hinted || k > w.len() || from < 0 {
                continue;
            }
            let mut got: Vec<u32> = vec![];
            for q in rd.nodes[n as usize].seqs.iter() {
                if q.len() != 1 {
                    return Err(at(format!("a derivation of {} is not one tree", g.sym_name(x))));
                }
                got.push(q[0]);
            }
            got.sort();
            let Some(should) = want.get(&(x, from as usize, k)) else {
                if c.count(x, from as usize, k, &mut HashMap::new()) <= CAP as u64 {
                    return Err(at(format!("{} from {from} does not match the input", g.sym_name(x))));
                }
                continue;
            };
            if &got != should {
                return Err(at(format!("{} from {from} is told to have {}; it has {}", g.sym_name(x), terms.show_all(g, &got), terms.show_all(g, should))));
            }
        }
        if k <= w.len() {
            if !*ok {
                return Err(at("the location fails".into()));
            }
            let finished = c.matches(0, 0, k) || (k == 0 && s.a.nullable & 1 != 0);
            // With an announced token only the end of the input has to be finished.
            if how != How::Hinted || k == w.len() {
                if node.is_some() != finished {
                    return Err(at(format!("finished node {node:?}")));
                }
            }
            let told = k > 0 && (how != How::Hinted || k == w.len());
            if let (Some(n), Some(should)) = (node, if told { want.get(&(0, 0, k)) } else { None }) {
                let q = &rd.node(*n).map_err(at)?.seqs;
                let mut got = vec![];
                for q in q.iter() {
                    if q.len() != 2 || q[0] != START {
                        return Err(at("the finished node is not the start of input and the start symbol".into()));
                    }
                    got.push(q[1]);
                }
                got.sort();
                if &got != should {
                    return Err(at(format!("the finished node stands for {}; the derivations are {}", terms.show_all(g, &got), terms.show_all(g, should))));
                }
            }
        } else if *ok {
            return Err(at("a wrong token is read".into()));
        }
    }
    Ok(())
}

/// Fragments with more derivations are only checked for the order of calls.
const CAP: usize = 60;

type Want = HashMap<(u16, usize, usize), Vec<u32>>;

/// The derivations of every fragment that has not too many.
fn wanted(ctx: &mut Ctx, c: &Chart, terms: &mut Terms) -> Want {
    let mut want = HashMap::new();
    let (mut counts, mut memo) = (HashMap::new(), HashMap::new());
    for x in 0..c.a.g.nts as u16 {
        for i in 0..c.at() {
            for j in i + 1..=c.at() {
                let n = c.count(x, i, j, &mut counts);
                if n > 0 && n <= CAP as u64 {
                    let mut t = c.trees(x, i, j, terms, &val, &mut memo);
                    t.sort();
                    want.insert((x, i, j), t);
                } else if n > 0 {
                    ctx.count("fragments with more than 60 derivations (not expanded)", 1);
                }
            }
        }
    }
    want
}

pub fn f09(ctx: &mut Ctx, s: &Setup, len: usize) -> Res {
    let terms = RefCell::new(Terms::default());
    let g = &s.a.g;
    prefixes(s.a, len, &mut |c, w| {
        if !maximal(c, w, len) && !c.finished() {
            return Ok(());
        }
        ctx.states += 1;
        let t = &mut *terms.borrow_mut();
        let want = wanted(ctx, c, t);
        let locs: Vec<Vec<u16>> = w.iter().map(|&t| vec![t]).collect();
        if maximal(c, w, len) {
            for how in [How::Auto, How::Items, How::Reset] {
                one(ctx, s, &locs, None, how, c, &want, t)?;
            }
        }
        if c.finished() {
            one(ctx, s, &locs, None, How::Hinted, c, &want, t)?;
        }
        for x in extensions(c) {
            one(ctx, s, &locs, Some(x), How::Auto, c, &want, t)?;
        }
        ctx.outcome(&want.len());
        ctx.sample(|| format!("{} | input {}: {} fragments are told with their derivations", g.show(), g.show_str(w), want.len()));
        Ok(())
    })?;
    // Several tokens at one location.
    let alpha: Vec<u16> = g.alpha.iter().copied().filter(|&t| s.a.occurs & bit(t) != 0).take(3).collect();
    let mut lists = token_lists(&alpha);
    if alpha.len() > 2 {
        lists.retain(|l| l.windows(2).all(|p| p[0] < p[1]) || l.windows(2).all(|p| p[0] > p[1]));
    }
    fn go(ctx: &mut Ctx, s: &Setup, c: &mut Chart, w: &mut Vec<Vec<u16>>, lists: &[Vec<u16>], max: usize, t: &mut Terms) -> Res {
        let mut leaf = true;
        for l in lists {
            let m = mask_of(l);
            if w.len() < max && c.next_terms() & m != 0 {
                leaf = false;
                c.push(m);
                w.push(l.clone());
                go(ctx, s, c, w, lists, max, t)?;
                w.pop();
                c.pop();
            }
        }
        if leaf && w.iter().any(|l| l.len() > 1) {
            ctx.states += 1;
            let want = wanted(ctx, c, t);
            one(ctx, s, w, None, How::Auto, c, &want, t)?;
            one(ctx, s, w, None, How::Items, c, &want, t)?;
        }
        Ok(())
    }
    let t = &mut *terms.borrow_mut();
    go(ctx, s, &mut Chart::new(s.a), &mut vec![], &lists, len.min(3), t)
}

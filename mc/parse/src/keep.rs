//! F07: what the caller keeps of the completion groups is what evaluation gives; F08: evaluation depends on the grammar
//! and the tokens only.
use crate::drive::*;
use crate::forest::{differ, eval_with, locs_of, sorted, val};
use crate::real::*;
use crate::refr::{bit, Chart, Terms};
use gearley_default_grammar::DefaultGrammar;
use gearley_forest::node_handle::NodeHandle;
use gearley_grammar::Grammar;
use gearley_recognizer::lookahead::Lookahead;
use gearley_recognizer::perf_hint::{DefaultPerfHint, PerfHint};
use gearley_recognizer::Recognizer;
use gearley_vec2d::Vec2dCapacity;
use mclib::{check, no_panic, Ctx, Res};
use std::cell::RefCell;
use std::collections::HashMap;

/// If there are more than this many decision sequences for an input, those with up to two skipped groups are followed
/// instead.
const RUNS: u64 = 600;

/// Reads a location up to its completion.
fn scan_location<G: Grammar, F: gearley_forest::Forest, P: PerfHint>(r: &mut Rec<G, F, P>, sof: cfg::Symbol, token: Option<(cfg::Symbol, u32)>) {
    r.begin();
    match token {
        None => r.r.scan(sof, 0),
        Some((t, v)) => r.r.scan(t, v),
    }
}

/// After the completion of a location by groups.
fn advance<G: Grammar, F: gearley_forest::Forest, P: PerfHint>(r: &mut Rec<G, F, P>) -> bool {
    r.r.lookahead().clear_hint();
    if r.r.is_exhausted() {
        return false;
    }
    r.r.advance_after_completion();
    r.ended();
    true
}

/// Groups with the decision made on each, whether the parse goes on, and the results of the parse that ends here.
type Loc = (Vec<(u16, usize, bool)>, bool, Option<Vec<u32>>);

/// Skips completion groups, in all combinations; the parses that remain are evaluated at every location.
fn skips<F: Bocage>(ctx: &mut Ctx, s: &Setup, w: &[u16], terms: &RefCell<Terms>) -> Res {
    let mut ch = Chooser::default();
    for _ in 0..RUNS {
        skips_one::<F>(ctx, s, w, terms, &mut ch)?;
        if !ch.next() {
            ctx.count("inputs with all decision sequences", 1);
            return Ok(());
        }
    }
    ctx.count("inputs with all decision sequences of up to two skips", 1);
    let mut ch = Chooser::default();
    skips_one::<F>(ctx, s, w, terms, &mut ch)?;
    for (next, mut ch) in ch.deviations_from(0) {
        skips_one::<F>(ctx, s, w, terms, &mut ch)?;
        for (_, mut ch) in ch.deviations_from(next) {
            skips_one::<F>(ctx, s, w, terms, &mut ch)?;
        }
    }
    Ok(())
}

fn skips_one<F: Bocage>(ctx: &mut Ctx, s: &Setup, w: &[u16], terms: &RefCell<Terms>, ch: &mut Chooser) -> Res {
    let g = &s.a.g;
    {
        let mut c2 = ch.clone();
        let out: Vec<Loc> = no_panic(&format!("{}: input {}, groups completed (0) or skipped (1) {:?}", F::NAME, g.show_str(w), ch.decisions()), || {
            let mut r = forest_rec::<F>(s.real);
            let sof = s.real.dg.sof();
            let mut all: Vec<(Loc, Option<NodeHandle>)> = vec![];
            for k in 0..=w.len() {
                scan_location(&mut r, sof, (k > 0).then(|| (s.real.i(w[k - 1]), val(k - 1, w[k - 1]))));
                let locs = r.loc_of_chart.clone();
                let mut groups = vec![];
                while let Some(mut sum) = r.r.next_sum() {
                    let Some(d) = s.real.desc(sum.symbol()) else {
                        sum.complete_entire_sum();
                        continue;
                    };
                    let o = locs.get(sum.origin() as usize).copied().unwrap_or(-9);
                    let skip = c2.choose(2) == 1;
                    groups.push((d, o.max(0) as usize, skip));
                    if skip {
                        // Alternatives that were already pushed do not count if the group is not completed.
                        if (k + groups.len()) % 2 == 0 {
                            if let Some(item) = sum.next_summand() {
                                sum.push_summand(item);
                            }
                        }
                        sum.skip_entire_sum();
                    } else if k % 2 == 0 {
                        sum.complete_entire_sum();
                    } else {
                        while let Some(item) = sum.next_summand() {
                            sum.push_summand(item);
                        }
                        sum.complete_sum();
                    }
                }
                if !advance(&mut r) {
                    all.push(((groups, false, None), None));
                    break;
                }
                all.push(((groups, true, None), r.r.finished_node()));
            }
            let mut f = r.r.into_forest();
            all.into_iter().map(|((groups, ok, _), n)| (groups, ok, n.map(|n| sorted(eval_with(s.gr(), &mut f, n, terms, None))))).collect()
        })?;
        *ch = c2;
        ctx.traces += 1;
        let mut c = Chart::new(s.a);
        for (k, (groups, ok, got)) in out.iter().enumerate() {
            ctx.transitions += groups.len() as u64 + 1;
            let at = || {
                let d = out.iter().map(|l| format!("{:?}", l.0.iter().map(|x| format!("{}{}@{}", if x.2 { "skip " } else { "" }, g.sym_name(x.0), x.1)).collect::<Vec<_>>())).collect::<Vec<_>>();
                format!("{}: input {}, location {k}, groups and decisions {}", F::NAME, g.show_str(w), d.join(" "))
            };
            if k > 0 {
                c.banned.extend(groups.iter().filter(|x| x.2).map(|x| (x.0, x.1, k)));
                c.push_tok(w[k - 1]);
            }
            if !ok {
                break;
            }
            let want = c.finished();
            check!(got.is_some() == want, "{}: the parse is {}finished", at(), if got.is_some() { "" } else { "not " });
            if let Some(got) = got {
                if c.sentence_count() > 300 {
                    continue;
                }
                let want = c.sentence_trees(&mut terms.borrow_mut(), &val);
                check!(*got == want, "{}: {}", at(), differ(g, terms, got, &want));
                ctx.outcome(&(k, got));
            }
        }
    }
    Ok(())
}

/// The choices made at groups that offer more than one alternative, and the results.
type Kept = (Vec<usize>, Vec<u32>);

/// One run; `pick(n)` gives the set of alternatives of a group to keep, as a mask.
fn keeping<F: Bocage>(s: &Setup, w: &[u16], terms: &RefCell<Terms>, backwards: bool, what: &str, pick: &mut dyn FnMut(usize) -> usize) -> Result<Kept, String> {
    let g = &s.a.g;
    let r = no_panic(&format!("{}: input {}, {what}", F::NAME, g.show_str(w)), || {
        let mut r = forest_rec::<F>(s.real);
        let sof = s.real.dg.sof();
        let mut sizes = vec![];
        let mut node = None;
        for k in 0..=w.len() {
            scan_location(&mut r, sof, (k > 0).then(|| (s.real.i(w[k - 1]), val(k - 1, w[k - 1]))));
            while let Some(mut sum) = r.r.next_sum() {
                let mut items = vec![];
                while let Some(item) = sum.next_summand() {
                    items.push(item);
                }
                let m = if items.len() == 1 {
                    1
                } else {
                    sizes.push(items.len());
                    pick(items.len())
                };
                let mut kept: Vec<_> = items.iter().enumerate().filter(|(i, _)| m >> i & 1 != 0).map(|x| *x.1).collect();
                if backwards {
                    kept.reverse();
                }
                for item in kept {
                    sum.push_summand(item);
                }
                sum.complete_sum();
            }
            if !advance(&mut r) {
                return None;
            }
            node = r.r.finished_node();
        }
        let node = node?;
        let mut f = r.r.into_forest();
        Some((sizes, sorted(eval_with(s.gr(), &mut f, node, terms, None))))
    })?;
    r.ok_or_else(|| format!("{}: input {}, {what}: no finished parse", F::NAME, g.show_str(w)))
}

/// Keeps several alternatives of each group, in all combinations.
fn subsets<F: Bocage>(ctx: &mut Ctx, s: &Setup, w: &[u16], terms: &RefCell<Terms>) -> Res {
    let g = &s.a.g;
    // What single alternatives give.
    let mut single: HashMap<Vec<usize>, u32> = HashMap::new();
    let mut sizes: Vec<usize> = vec![];
    let mut ch = Chooser::default();
    loop {
        let mut c2 = ch.clone();
        let mut picks = vec![];
        let (sz, v) = keeping::<F>(s, w, terms, false, &format!("alternatives kept {:?}", ch.decisions()), &mut |n| {
            let k = c2.choose(n);
            picks.push(k);
            1 << k
        })?;
        ctx.traces += 1;
        check!(v.len() == 1, "{}: input {}, one alternative of each group kept ({picks:?}): {} results", F::NAME, g.show_str(w), v.len());
        sizes = sz;
        single.insert(picks, v[0]);
        ch = c2;
        if !ch.next() {
            break;
        }
        if single.len() > 200 {
            ctx.count("sentences with too many selections (left out)", 1);
            return Ok(());
        }
    }
    ctx.count("sentences with several alternatives kept", 1);
    let total: u64 = sizes.iter().map(|&n| (1u64 << n) - 1).try_fold(1u64, |a, b| a.checked_mul(b)).unwrap_or(u64::MAX);
    // All combinations, or all those that differ in one group from keeping everything.
    let mut todo = vec![];
    let mut ch = Chooser::fixed(true);
    if total > 600 {
        ctx.count("sentences with subsets that differ in one group from keeping all", 1);
        for &n in &sizes {
            ch.choose((1 << n) - 1);
        }
        todo = ch.deviations();
    }
    let mut all = Chooser::default();
    loop {
        let mut c2 = if total > 600 {
            let Some(c) = todo.pop() else { break };
            c
        } else {
            all.clone()
        };
        for backwards in [false, true] {
            let mut c = c2.clone();
            let mut masks = vec![];
            let (sz, got) = keeping::<F>(s, w, terms, backwards, &format!("sets of alternatives kept (as masks minus one) {:?}, backwards {backwards}", c2.decisions()), &mut |n| {
                let m = c.choose((1 << n) - 1) + 1;
                masks.push(m);
                m
            })?;
            ctx.traces += 1;
            ctx.transitions += masks.len() as u64;
            check!(sz == sizes, "{}: input {}, sets of alternatives kept {masks:?}: groups with {sz:?} alternatives come up, instead of {sizes:?}", F::NAME, g.show_str(w));
            let mut want: Vec<u32> = single.iter().filter(|(p, _)| p.iter().zip(&masks).all(|(&k, &m)| m >> k & 1 != 0)).map(|x| *x.1).collect();
            want.sort();
            want.dedup();
            check!(got == want, "{}: input {}, sets of alternatives kept of the groups (masks) {masks:?}, {}: evaluation gives {}, but the single choices among those kept give {}", F::NAME, g.show_str(w), if backwards { "last first" } else { "in order" }, terms.borrow().show_all(g, &got), terms.borrow().show_all(g, &want));
            if backwards {
                c2 = c;
            }
        }
        if total <= 600 {
            all = c2;
            if !all.next() {
                break;
            }
        }
    }
    Ok(())
}

pub fn f07(ctx: &mut Ctx, s: &Setup, len: usize) -> Res {
    let g = &s.a.g;
    let terms = RefCell::new(Terms::default());
    prefixes(s.a, len, &mut |c, w| {
        if maximal(c, w, len) {
            ctx.states += 1;
            skips::<simple_bocage::Bocage>(ctx, s, w, &terms)?;
            skips::<compact_bocage::Bocage>(ctx, s, w, &terms)?;
        }
        if c.finished() {
            let n = c.sentence_count();
            if n > 1 && n <= 300 {
                ctx.states += 1;
                subsets::<simple_bocage::Bocage>(ctx, s, w, &terms)?;
                subsets::<compact_bocage::Bocage>(ctx, s, w, &terms)?;
                ctx.sample(|| format!("{} | input {}: every combination of skipped groups and kept alternatives", g.show(), g.show_str(w)));
            }
        }
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------------ F08

pub struct Without;
impl PerfHint for Without {
    const LOOKAHEAD: bool = false;
    const LEO: bool = false;
    type Symbol = cfg::Symbol;
}
pub struct Zero;
impl PerfHint for Zero {
    const LOOKAHEAD: bool = true;
    const LEO: bool = false;
    type Symbol = cfg::Symbol;
    fn completion_capacity(&self) -> usize {
        0
    }
    fn medial_capacity(&self) -> Vec2dCapacity {
        Vec2dCapacity { chart_capacity: 0, indices_capacity: 0 }
    }
}

trait Cap: Bocage {
    fn cap(g: &DefaultGrammar, n: usize) -> Self;
}
impl Cap for simple_bocage::Bocage {
    fn cap(g: &DefaultGrammar, n: usize) -> Self {
        simple_bocage::Bocage::with_capacity(g, n)
    }
}
impl Cap for compact_bocage::Bocage {
    fn cap(g: &DefaultGrammar, n: usize) -> Self {
        compact_bocage::Bocage::with_capacity(g, n)
    }
}

/// What happens before a reset: tokens read, and what comes then.
#[derive(Clone)]
struct Before {
    read: Vec<u16>,
    then: usize,
    token: Option<u16>,
}
impl Before {
    fn show(&self, s: &Setup) -> String {
        let t = self.token.map_or(String::new(), |t| s.a.g.sym_name(t));
        format!(
            "{} read{}; reset",
            s.a.g.show_str(&self.read),
            match self.then {
                0 => String::new(),
                1 => ", a location begun".into(),
                2 => format!(", a location begun, {t} scanned"),
                3 => format!(", then {t} (which may fail)"),
                4 => format!(", a location begun, {t} scanned, the first group completed"),
                5 => format!(", a location begun, {t} scanned, all groups completed"),
                7 => format!(", a location begun, {t} scanned, the first alternative of the first group kept and no more done"),
                _ => format!(", a location begun, {t} announced, {t} scanned, the first group skipped"),
            }
        )
    }
    fn run<G: Grammar, F: Bocage, P: PerfHint>(&self, r: &mut Rec<G, F, P>, real: &Real) {
        let ok = r.start();
        for (k, &t) in self.read.iter().enumerate() {
            if ok {
                r.read(real.i(t), 70_000 + k as u32);
            }
        }
        if self.then > 0 {
            r.begin();
        }
        if let Some(t) = self.token {
            if self.then == 6 {
                r.hint(real.i(t));
            }
            r.r.scan(real.i(t), 77_777);
            match self.then {
                3 => {
                    r.end();
                }
                4 => {
                    if let Some(mut sum) = r.r.next_sum() {
                        sum.complete_entire_sum();
                    }
                }
                5 => {
                    while let Some(mut sum) = r.r.next_sum() {
                        while let Some(item) = sum.next_summand() {
                            sum.push_summand(item);
                        }
                        sum.complete_sum();
                    }
                }
                7 => {
                    if let Some(mut sum) = r.r.next_sum() {
                        if let Some(item) = sum.next_summand() {
                            sum.push_summand(item);
                        }
                    }
                }
                6 => {
                    if let Some(mut sum) = r.r.next_sum() {
                        sum.skip_entire_sum();
                    }
                }
                _ => {}
            }
        }
        r.reset();
    }
}

/// Parses and evaluates; `after` are tokens scanned after the sentence (`None`: an empty location).
#[allow(clippy::too_many_arguments)]
fn results<G: Grammar, F: Bocage, P: PerfHint>(r: Recognizer<G, F, P>, s: &Setup, w: &[u16], terms: &RefCell<Terms>, before: &[&Before], hints: u32, items: bool, after: &[Option<u16>]) -> Option<Vec<u32>> {
    let mut r = Rec::new(r);
    for b in before {
        b.run(&mut r, s.real);
    }
    let (sof, eof) = (s.real.dg.sof(), s.real.dg.eof());
    for k in 0..=w.len() {
        r.begin();
        if hints >> k & 1 != 0 {
            r.hint(if k < w.len() { s.real.i(w[k]) } else { eof });
        }
        if k == 0 {
            r.r.scan(sof, 0);
        } else {
            r.r.scan(s.real.i(w[k - 1]), val(k - 1, w[k - 1]));
        }
        if items {
            while let Some(mut sum) = r.r.next_sum() {
                while let Some(item) = sum.next_summand() {
                    sum.push_summand(item);
                }
                sum.complete_sum();
            }
            if !advance(&mut r) {
                return None;
            }
        } else if !r.end() {
            return None;
        }
    }
    let node = r.r.finished_node()?;
    for (k, t) in after.iter().enumerate() {
        r.begin();
        if let Some(t) = t {
            r.r.scan(s.real.i(*t), 80_000 + k as u32);
        }
        if !r.end() {
            break;
        }
    }
    Some(sorted(r.r.into_forest().eval(TermEval { real: s.real, terms, log: None }, node).into_iter().map(|t| t.0).collect()))
}

fn f08_one<F: Cap>(ctx: &mut Ctx, s: &Setup, w: &[u16], trees: &[u32], terms: &RefCell<Terms>, befores: &[Before]) -> Res {
    let g = &s.a.g;
    let dg = &s.real.dg;
    let mut cmp = |what: &dyn Fn() -> String, f: &mut dyn FnMut() -> Option<Vec<u32>>| -> Res {
        let what = || format!("{}: input {}, {}", F::NAME, g.show_str(w), what());
        let got = no_panic("", f).map_err(|e| format!("{}: {e}", what()))?;
        ctx.traces += 1;
        ctx.transitions += w.len() as u64 + 1;
        let Some(got) = got else { return Err(format!("{}: no finished parse", what())) };
        check!(got == trees, "{}: {}", what(), differ(g, terms, &got, trees));
        Ok(())
    };
    let new = || Recognizer::with_forest(dg, F::make(dg));
    // Announcements of the next tokens.
    for hints in 1..1u32 << (w.len() + 1).min(6) {
        for items in [false, true] {
            cmp(&|| format!("tokens announced at the locations {:?}, completion item by item {items}", (0..=w.len()).filter(|k| hints >> k & 1 != 0).collect::<Vec<_>>()), &mut || results(new(), s, w, terms, &[], hints, items, &[]))?;
        }
    }
    // Policies, capacities, ownership.
    let every = (1u32 << (w.len() + 1)) - 1;
    for hints in [0, every] {
        for n in [0usize, 1, 2, 10, 1000, 100_000] {
            cmp(&|| format!("forest capacity {n}, announced {hints:#b}"), &mut || results(Recognizer::with_forest(dg, F::cap(dg, n)), s, w, terms, &[], hints, false, &[]))?;
        }
        cmp(&|| format!("no lookahead in the policy, announced {hints:#b}"), &mut || results(Recognizer::with_forest_and_policy(dg, F::make(dg), Without), s, w, terms, &[], hints, false, &[]))?;
        cmp(&|| format!("no capacities, announced {hints:#b}"), &mut || results(Recognizer::with_forest_and_policy(dg, F::cap(dg, 0), Zero), s, w, terms, &[], hints, false, &[]))?;
        cmp(&|| format!("grammar owned, announced {hints:#b}"), &mut || results(Recognizer::with_forest(dg.clone(), F::make(dg)), s, w, terms, &[], hints, false, &[]))?;
        for m in [0usize, 999, 4096, 2_000_001] {
            cmp(&|| format!("memory limit {m}, announced {hints:#b}"), &mut || results(Recognizer::with_forest_and_policy(dg, F::make(dg), DefaultPerfHint::new(m)), s, w, terms, &[], hints, false, &[]))?;
        }
    }
    // What is read afterwards.
    let mut tails: Vec<Vec<Option<u16>>> = vec![vec![None]];
    for &t in g.alpha.iter().filter(|&&t| s.a.occurs & bit(t) != 0) {
        tails.push(vec![Some(t)]);
        for &u in g.alpha.iter().filter(|&&t| s.a.occurs & bit(t) != 0) {
            tails.push(vec![Some(t), Some(u)]);
        }
        tails.push(vec![Some(t), None]);
    }
    for tail in &tails {
        cmp(&|| format!("followed by the locations {:?}", tail.iter().map(|t| t.map_or("nothing".into(), |t| g.sym_name(t))).collect::<Vec<_>>()), &mut || results(new(), s, w, terms, &[], 0, false, tail))?;
    }
    // What was read before a reset, once and twice.
    for b in befores {
        for items in [false, true] {
            cmp(&|| format!("{}, completion item by item {items}", b.show(s)), &mut || results(new(), s, w, terms, &[b], 0, items, &[]))?;
        }
        cmp(&|| format!("{}, and the same once more, all tokens announced", b.show(s)), &mut || results(new(), s, w, terms, &[b, b], every, false, &[]))?;
    }
    Ok(())
}

pub fn f08(ctx: &mut Ctx, s: &Setup, len: usize) -> Res {
    let g = &s.a.g;
    let terms = RefCell::new(Terms::default());
    let alpha: Vec<u16> = g.alpha.iter().copied().filter(|&t| s.a.occurs & bit(t) != 0).collect();
    let mut befores = vec![];
    prefixes(s.a, 2.min(len), &mut |_, w| {
        befores.push(Before { read: w.to_vec(), then: 0, token: None });
        befores.push(Before { read: w.to_vec(), then: 1, token: None });
        for &t in &alpha {
            for then in 2..=7 {
                befores.push(Before { read: w.to_vec(), then, token: Some(t) });
            }
        }
        Ok(())
    })?;
    prefixes(s.a, len, &mut |c, w| {
        if !c.finished() {
            return Ok(());
        }
        if c.sentence_count() > 60 {
            ctx.count("sentences with more than 60 derivations (left out)", 1);
            return Ok(());
        }
        let trees = c.sentence_trees(&mut terms.borrow_mut(), &val);
        ctx.states += 1;
        ctx.outcome(&trees);
        f08_one::<simple_bocage::Bocage>(ctx, s, w, &trees, &terms, &befores)?;
        f08_one::<compact_bocage::Bocage>(ctx, s, w, &trees, &terms, &befores)?;
        ctx.sample(|| format!("{} | input {}: the same results whatever is announced, configured, read before a reset or read afterwards", g.show(), g.show_str(w)));
        Ok(())
    })
}

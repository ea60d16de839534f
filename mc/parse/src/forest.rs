//! Forest properties F01..F06 and the independence property R09.
use crate::drive::*;
use crate::gram::Gram;
use crate::real::*;
use crate::refr::{bit, Ana, Chart, Terms};
use gearley_default_grammar::DefaultGrammar;
use gearley_forest::node_handle::NodeHandle;
use gearley_forest::{Evaluate, Forest, NullForest};
use gearley_grammar::Grammar;
use gearley_recognizer::lookahead::Lookahead;
use gearley_recognizer::perf_hint::{DefaultPerfHint, PerfHint};
use gearley_recognizer::Recognizer;
use mclib::{check, no_panic, unit, Ctx, Res, Tier, Unit};
use std::cell::RefCell;

/// Tokens of one location with their values.
pub type Locs = Vec<Vec<(u16, u32)>>;

pub fn locs_of(w: &[u16], val: &dyn Fn(usize, u16) -> u32) -> Locs {
    w.iter().enumerate().map(|(k, &t)| vec![(t, val(k, t))]).collect()
}

/// The value of a token: different at each location and for each token.
pub fn val(k: usize, t: u16) -> u32 {
    (k as u32 + 1) * 100 + t as u32
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Drive {
    /// Locations are completed in one call.
    Auto,
    /// Group by group, `complete_entire_sum`.
    Groups,
    /// Item by item.
    Items,
    /// One alternative of each group.
    Pick,
}

type FRec<'a, F> = Rec<&'a DefaultGrammar, F, DefaultPerfHint>;

/// Reads all locations; for each location (the start of input is the first), whether the parse goes on and the node.
pub fn run_forest<'a, F: Bocage>(s: GR<'a>, input: &Locs, drive: Drive, ch: &mut Chooser) -> (FRec<'a, F>, Vec<Option<NodeHandle>>) {
    let mut r = forest_rec::<F>(s.real);
    let mut nodes = vec![];
    for k in 0..=input.len() {
        r.begin();
        if k == 0 {
            let sof = s.real.dg.sof();
            r.r.scan(sof, 0);
        } else {
            for &(t, v) in &input[k - 1] {
                r.r.scan(s.real.i(t), v);
            }
        }
        let ok = if drive == Drive::Auto {
            r.end()
        } else {
            while let Some(mut sum) = r.r.next_sum() {
                match drive {
                    Drive::Groups => sum.complete_entire_sum(),
                    Drive::Items => {
                        while let Some(item) = sum.next_summand() {
                            sum.push_summand(item);
                        }
                        sum.complete_sum();
                    }
                    _ => {
                        let mut items = vec![];
                        while let Some(item) = sum.next_summand() {
                            items.push(item);
                        }
                        let k = ch.choose(items.len());
                        sum.push_summand(items[k]);
                        sum.complete_sum();
                    }
                }
            }
            r.r.lookahead().clear_hint();
            if r.r.is_exhausted() {
                false
            } else {
                r.r.advance_after_completion();
                r.ended();
                true
            }
        };
        if !ok {
            break;
        }
        nodes.push(r.r.finished_node());
    }
    (r, nodes)
}

pub fn eval_with<F: Bocage>(s: GR, f: &mut F, n: NodeHandle, terms: &RefCell<Terms>, log: Option<&RefCell<Vec<Call>>>) -> Vec<u32> {
    f.eval(TermEval { real: s.real, terms, log }, n).into_iter().map(|t| t.0).collect()
}

/// Evaluates the parse of the whole input; `None` if there is none.
pub fn eval_input<F: Bocage>(s: GR, input: &Locs, drive: Drive, terms: &RefCell<Terms>, log: Option<&RefCell<Vec<Call>>>, what: &str) -> Result<Option<Vec<u32>>, String> {
    no_panic(&format!("{}: {what}, completion {drive:?}", F::NAME), || {
        let (r, nodes) = run_forest::<F>(s, input, drive, &mut Chooser::default());
        let node = nodes.get(input.len()).copied().flatten()?;
        let mut f = r.r.into_forest();
        Some(eval_with(s, &mut f, node, terms, log))
    })
}

const CAP: u64 = 2000;

/// Visits every sentence up to a length together with its derivations (sorted); the reference's terms are in `terms`.
fn sentences(ctx: &mut Ctx, s: &Setup, len: usize, terms: &RefCell<Terms>, f: &mut dyn FnMut(&mut Ctx, &[u16], &[u32], u64) -> Res) -> Res {
    prefixes(s.a, len, &mut |c, w| {
        if !c.finished() {
            return Ok(());
        }
        let n = c.sentence_count();
        if n > CAP {
            ctx.count("sentences with more than 2000 derivations (left out)", 1);
            return Ok(());
        }
        let trees = c.sentence_trees(&mut terms.borrow_mut(), &val);
        assert_eq!(trees.len() as u64, n);
        ctx.states += 1;
        f(ctx, w, &trees, n)
    })
}

pub fn sorted(mut v: Vec<u32>) -> Vec<u32> {
    v.sort();
    v
}

pub fn differ(g: &Gram, t: &RefCell<Terms>, got: &[u32], want: &[u32]) -> String {
    let t = t.borrow();
    format!("evaluation gives {}; the derivations are {}", t.show_all(g, got), t.show_all(g, want))
}

pub fn f01_one<F: Bocage>(ctx: &mut Ctx, s: GR, w: &[u16], tree: u32, terms: &RefCell<Terms>) -> Res {
    let g = s.g;
    let what = format!("input {}", g.show_str(w));
    for drive in [Drive::Auto, Drive::Items] {
        let log = RefCell::new(vec![]);
        let got = eval_input::<F>(s, &locs_of(w, &val), drive, terms, Some(&log), &what)?;
        ctx.traces += 1;
        ctx.transitions += w.len() as u64 + 1;
        let Some(got) = got else { return Err(format!("{}: {what}: no finished parse", F::NAME)) };
        check!(got == [tree], "{}: {what}, completion {drive:?}: {}", F::NAME, differ(g, terms, &got, &[tree]));
        // Each rule application once, each token once and in input order.
        let mut want: Vec<Call> = vec![];
        terms.borrow().walk(tree, &mut |k| want.push(match k[0] {
            0 => Call::Leaf(k[1] as u16, k[2]),
            1 => Call::Null(k[1] as u16),
            _ => Call::Product(k[1]),
        }));
        let log = log.into_inner();
        let pick = |v: &[Call], f: fn(&Call) -> bool| -> Vec<Call> { v.iter().filter(|c| f(c)).cloned().collect() };
        let leaf: fn(&Call) -> bool = |c| matches!(c, Call::Leaf(..));
        check!(pick(&log, leaf) == pick(&want, leaf), "{}: {what}, completion {drive:?}: the tokens are evaluated as {:?}", F::NAME, pick(&log, leaf));
        let prod: fn(&Call) -> bool = |c| matches!(c, Call::Product(..));
        let key = |v: Vec<Call>| { let mut k: Vec<u32> = v.into_iter().map(|c| if let Call::Product(r) = c { r } else { 0 }).collect(); k.sort(); k };
        check!(key(pick(&log, prod)) == key(pick(&want, prod)), "{}: {what}, completion {drive:?}: rules are evaluated {:?} times", F::NAME, key(pick(&log, prod)));
    }
    Ok(())
}

pub fn f01(ctx: &mut Ctx, s: &Setup, len: usize) -> Res {
    let terms = RefCell::new(Terms::default());
    sentences(ctx, s, len, &terms, &mut |ctx, w, trees, n| {
        if n == 1 {
            ctx.count("unambiguous sentences", 1);
            f01_one::<simple_bocage::Bocage>(ctx, s.gr(), w, trees[0], &terms)?;
            f01_one::<compact_bocage::Bocage>(ctx, s.gr(), w, trees[0], &terms)?;
            ctx.outcome(&terms.borrow().show(&s.a.g, trees[0]));
            ctx.sample(|| format!("{} | input {} evaluates to {}", s.a.g.show(), s.a.g.show_str(w), terms.borrow().show(&s.a.g, trees[0])));
        }
        Ok(())
    })
}

pub fn f02_one<F: Bocage>(ctx: &mut Ctx, s: GR, input: &Locs, what: &str, trees: &[u32], terms: &RefCell<Terms>, picks: u64) -> Res {
    let g = s.g;
    let got = eval_input::<F>(s, input, Drive::Auto, terms, None, what)?;
    ctx.traces += 1;
    ctx.transitions += input.len() as u64 + 1;
    let Some(got) = got else { return Err(format!("{}: {what}: no finished parse", F::NAME)) };
    let got = sorted(got);
    check!(got == trees, "{}: {what}: {}", F::NAME, differ(g, terms, &got, trees));
    // One alternative of each group.
    let one = |ctx: &mut Ctx, ch: &mut Chooser| -> Result<u32, String> {
        let mut c2 = ch.clone();
        let one = no_panic(&format!("{}: {what}, alternatives picked {:?}", F::NAME, ch.decisions()), || {
            let (r, nodes) = run_forest::<F>(s, input, Drive::Pick, &mut c2);
            let node = nodes.get(input.len()).copied().flatten()?;
            let mut f = r.r.into_forest();
            Some(eval_with(s, &mut f, node, terms, None))
        })?;
        *ch = c2;
        ctx.traces += 1;
        let Some(one) = one else { return Err(format!("{}: {what}, alternatives picked {:?}: no finished parse", F::NAME, ch.decisions())) };
        check!(one.len() == 1 && trees.binary_search(&one[0]).is_ok(), "{}: {what}, one alternative of each group kept (choices {:?}): {}", F::NAME, ch.decisions(), differ(g, terms, &one, trees));
        Ok(one[0])
    };
    let mut ch = Chooser::default();
    let mut seen: Vec<u32> = vec![];
    for runs in 1.. {
        seen.push(one(ctx, &mut ch)?);
        if !ch.next() {
            seen.sort();
            seen.dedup();
            check!(seen == trees, "{}: {what}: picking one alternative of each group in all ways yields only {}", F::NAME, differ(g, terms, &seen, trees));
            ctx.count("sentences with all ways of picking alternatives", 1);
            return Ok(());
        }
        if runs >= picks {
            break;
        }
    }
    // Too many ways: all that differ from the first (or the last) alternatives in at most one place.
    ctx.count("sentences with all ways of picking alternatives but for one place", 1);
    for last in [false, true] {
        let mut base = Chooser::fixed(last);
        one(ctx, &mut base)?;
        for mut ch in base.deviations() {
            one(ctx, &mut ch)?;
        }
    }
    Ok(())
}

pub fn f02(ctx: &mut Ctx, s: &Setup, len: usize) -> Res {
    let terms = RefCell::new(Terms::default());
    sentences(ctx, s, len, &terms, &mut |ctx, w, trees, n| {
        if n > 1 {
            ctx.count("ambiguous sentences", 1);
            ctx.count("derivations", n);
            ctx.outcome(&terms.borrow().show_all(&s.a.g, trees));
            let what = format!("input {}", s.a.g.show_str(w));
            f02_one::<simple_bocage::Bocage>(ctx, s.gr(), &locs_of(w, &val), &what, trees, &terms, 300)?;
            f02_one::<compact_bocage::Bocage>(ctx, s.gr(), &locs_of(w, &val), &what, trees, &terms, 300)?;
            ctx.sample(|| format!("{} | input {}: {}", s.a.g.show(), s.a.g.show_str(w), terms.borrow().show_all(&s.a.g, trees)));
        }
        Ok(())
    })?;
    // Alternative tokens.
    let g = &s.a.g;
    let alpha: Vec<u16> = g.alpha.iter().copied().filter(|&t| s.a.occurs & bit(t) != 0).take(2).collect();
    if alpha.len() < 2 {
        return Ok(());
    }
    let lists = [vec![alpha[0], alpha[1]], vec![alpha[1], alpha[0]], vec![alpha[0]], vec![alpha[1]]];
    fn go(ctx: &mut Ctx, s: &Setup, c: &mut Chart, w: &mut Vec<Vec<u16>>, lists: &[Vec<u16>], max: usize, terms: &RefCell<Terms>) -> Res {
        if c.finished() && w.iter().any(|l| l.len() > 1) {
            let n = c.sentence_count();
            if n <= CAP {
                let trees = c.sentence_trees(&mut terms.borrow_mut(), &val);
                let input: Locs = w.iter().enumerate().map(|(k, l)| l.iter().map(|&t| (t, val(k, t))).collect()).collect();
                let what = format!("token sets {}", w.iter().map(|l| s.a.g.show_str(l)).collect::<Vec<_>>().join(" "));
                ctx.states += 1;
                f02_one::<simple_bocage::Bocage>(ctx, s.gr(), &input, &what, &trees, terms, 30)?;
                f02_one::<compact_bocage::Bocage>(ctx, s.gr(), &input, &what, &trees, terms, 30)?;
            }
        }
        if w.len() == max {
            return Ok(());
        }
        for l in lists {
            if c.next_terms() & mask_of(l) != 0 {
                c.push(mask_of(l));
                w.push(l.clone());
                go(ctx, s, c, w, lists, max, terms)?;
                w.pop();
                c.pop();
            }
        }
        Ok(())
    }
    go(ctx, s, &mut Chart::new(s.a), &mut vec![], &lists, len.min(3), &terms)
}

pub fn f03_one(ctx: &mut Ctx, s: GR, w: &[u16], terms: &RefCell<Terms>) -> Res {
    let g = s.g;
    let what = format!("input {}", g.show_str(w));
    let input = locs_of(w, &val);
    let mut first: Option<Vec<u32>> = None;
    for drive in [Drive::Auto, Drive::Groups, Drive::Items] {
        let a = eval_input::<simple_bocage::Bocage>(s, &input, drive, terms, None, &what)?;
        let b = eval_input::<compact_bocage::Bocage>(s, &input, drive, terms, None, &what)?;
        ctx.traces += 2;
        ctx.transitions += 2 * (w.len() as u64 + 1);
        let (Some(a), Some(b)) = (a, b) else { return Err(format!("{what}, completion {drive:?}: no finished parse")) };
        let (a, b) = (sorted(a), sorted(b));
        let show = |v: &[u32]| terms.borrow().show_all(g, v);
        check!(a == b, "{what}, completion {drive:?}: the simple forest gives {}, the compact forest {}", show(&a), show(&b));
        if let Some(f) = &first {
            check!(f == &a, "{what}: completion in one call gives {}, completion {drive:?} gives {}", show(f), show(&a));
        }
        first = Some(a);
    }
    ctx.outcome(&first);
    // All ways to keep one alternative of each group.
    let mut ch = Chooser::default();
    for _ in 0..60 {
        let mut one = |simple: bool| -> Result<(Option<Vec<u32>>, Chooser), String> {
            let mut c2 = ch.clone();
            let v = no_panic(&format!("{what}, alternatives picked {:?}", ch.decisions()), || {
                if simple {
                    let (r, nodes) = run_forest::<simple_bocage::Bocage>(s, &input, Drive::Pick, &mut c2);
                    nodes.get(w.len()).copied().flatten().map(|n| eval_with(s, &mut r.r.into_forest(), n, terms, None))
                } else {
                    let (r, nodes) = run_forest::<compact_bocage::Bocage>(s, &input, Drive::Pick, &mut c2);
                    nodes.get(w.len()).copied().flatten().map(|n| eval_with(s, &mut r.r.into_forest(), n, terms, None))
                }
            })?;
            Ok((v, c2))
        };
        let (a, c2) = one(true)?;
        let (b, _) = one(false)?;
        ctx.traces += 2;
        check!(a == b, "{what}, alternatives picked {:?}: the simple forest gives {:?}, the compact forest {:?}", ch.decisions(), a.map(|v| terms.borrow().show_all(g, &v)), b.map(|v| terms.borrow().show_all(g, &v)));
        ch = c2;
        if !ch.next() {
            break;
        }
    }
    ctx.sample(|| format!("{} | {what}: both forests give {}", g.show(), terms.borrow().show_all(g, first.as_ref().unwrap())));
    Ok(())
}

/// Both forests, all ways of driving completion, and skipping some groups.
pub fn f03(ctx: &mut Ctx, s: &Setup, len: usize) -> Res {
    let terms = RefCell::new(Terms::default());
    prefixes(s.a, len, &mut |c, w| {
        if !c.finished() || c.sentence_count() > CAP {
            return Ok(());
        }
        ctx.states += 1;
        f03_one(ctx, s.gr(), w, &terms)
    })
}

pub fn has_nullable(a: &Ana) -> bool {
    a.usable() && a.nullable != 0
}

pub fn f04_one<F: Bocage>(ctx: &mut Ctx, s: GR, w: &[u16], trees: &[u32], terms: &RefCell<Terms>) -> Res {
    let g = s.g;
    let what = format!("input {}", g.show_str(w));
    for drive in [Drive::Auto, Drive::Items] {
        let log = RefCell::new(vec![]);
        let got = eval_input::<F>(s, &locs_of(w, &val), drive, terms, Some(&log), &what)?;
        ctx.traces += 1;
        ctx.transitions += w.len() as u64 + 1;
        let Some(got) = got else { return Err(format!("{}: {what}: no finished parse", F::NAME)) };
        let got = sorted(got);
        check!(got == trees, "{}: {what}, completion {drive:?}: {}", F::NAME, differ(g, terms, &got, trees));
        // Calls of nulling.
        let mut want: Vec<u16> = vec![];
        for &t in trees {
            terms.borrow().walk(t, &mut |k| if k[0] == 1 { want.push(k[1] as u16) });
        }
        let mut calls: Vec<u16> = log.borrow().iter().filter_map(|c| if let Call::Null(x) = c { Some(*x) } else { None }).collect();
        if trees.len() == 1 {
            want.sort();
            calls.sort();
            check!(calls == want, "{}: {what}, completion {drive:?}: nulling is called for {}, but the empty symbols of the derivation are {}", F::NAME, g.show_str(&calls), g.show_str(&want));
        } else {
            for x in &calls {
                check!(want.contains(x), "{}: {what}, completion {drive:?}: nulling is called for {}, which is in no derivation", F::NAME, g.show_str(&[*x]));
            }
        }
    }
    Ok(())
}

/// What a recognizer has finished before its first location.
fn f04_new<F: Bocage>(ctx: &mut Ctx, s: GR, trees: &[u32], terms: &RefCell<Terms>) -> Res {
    let log = RefCell::new(vec![]);
    let got = no_panic(&format!("{}: evaluating a new recognizer's parse of nothing", F::NAME), || {
        let r = forest_rec::<F>(s.real);
        let n = r.r.finished_node()?;
        Some(sorted(eval_with(s, &mut r.r.into_forest(), n, terms, Some(&log))))
    })?;
    ctx.traces += 1;
    check!(got.as_deref() == Some(trees), "{}: a new recognizer's parse of nothing: {}", F::NAME, differ(s.g, terms, got.as_deref().unwrap_or(&[]), trees));
    check!(log.borrow().len() == 1, "{}: a new recognizer's parse of nothing: {} calls of the evaluator", F::NAME, log.borrow().len());
    Ok(())
}

pub fn f04(ctx: &mut Ctx, s: &Setup, len: usize) -> Res {
    let terms = RefCell::new(Terms::default());
    sentences(ctx, s, len, &terms, &mut |ctx, w, trees, _| {
        ctx.outcome(&trees);
        if w.is_empty() {
            f04_new::<simple_bocage::Bocage>(ctx, s.gr(), trees, &terms)?;
            f04_new::<compact_bocage::Bocage>(ctx, s.gr(), trees, &terms)?;
        }
        f04_one::<simple_bocage::Bocage>(ctx, s.gr(), w, trees, &terms)?;
        f04_one::<compact_bocage::Bocage>(ctx, s.gr(), w, trees, &terms)?;
        ctx.sample(|| format!("{} | input {}: {}", s.a.g.show(), s.a.g.show_str(w), terms.borrow().show_all(&s.a.g, trees)));
        Ok(())
    })
}

pub fn f05_one<F: Bocage>(ctx: &mut Ctx, s: GR, w: &[u16], per_prefix: &[Option<Vec<u32>>], terms: &RefCell<Terms>) -> Res {
    let g = s.g;
    let ends: Vec<usize> = (0..=w.len()).filter(|&k| per_prefix[k].is_some()).collect();
    // Orders in which the finished parses are evaluated: all, if there are few; each at least twice.
    let mut orders: Vec<Vec<usize>> = vec![];
    if ends.len() <= 3 {
        crate::gram::for_perms(ends.len(), &mut |p| {
            let once: Vec<usize> = p.iter().map(|&i| ends[i]).collect();
            orders.push(once.iter().chain(&once).copied().collect());
            orders.push(once.iter().flat_map(|&e| [e, e, e]).collect());
        });
    } else {
        let rev: Vec<usize> = ends.iter().rev().copied().collect();
        orders.push(ends.iter().chain(&ends).copied().collect());
        orders.push(rev.iter().chain(&ends).copied().collect());
        orders.push(rev.iter().flat_map(|&e| [e, e]).collect());
    }
    for order in orders {
        let input = locs_of(w, &val);
        let got = no_panic(&format!("{}: input {}, evaluating the parses that end after {order:?} tokens, in this order", F::NAME, g.show_str(w)), || {
            let (r, nodes) = run_forest::<F>(s, &input, Drive::Auto, &mut Chooser::default());
            let mut f = r.r.into_forest();
            order.iter().map(|&k| nodes.get(k).copied().flatten().map(|n| sorted(eval_with(s, &mut f, n, terms, None)))).collect::<Vec<_>>()
        })?;
        ctx.traces += 1;
        ctx.transitions += order.len() as u64 + w.len() as u64;
        for (n, (k, v)) in order.iter().zip(&got).enumerate() {
            let want = per_prefix[*k].as_ref().unwrap();
            match v {
                None => return Err(format!("{}: input {}: no finished parse after {k} tokens", F::NAME, g.show_str(w))),
                Some(v) => check!(v == want, "{}: input {}, evaluating the parses that end after {order:?} tokens, in this order: evaluation number {} of {k} tokens: {}", F::NAME, g.show_str(w), n + 1, differ(g, terms, v, want)),
            }
        }
    }
    Ok(())
}

pub fn f05(ctx: &mut Ctx, s: &Setup, len: usize) -> Res {
    let g = &s.a.g;
    let terms = RefCell::new(Terms::default());
    let mut per_prefix: Vec<Option<Vec<u32>>> = vec![];
    prefixes(s.a, len, &mut |c, w| {
        per_prefix.truncate(w.len());
        per_prefix.push(if c.finished() && c.sentence_count() <= 300 { Some(c.sentence_trees(&mut terms.borrow_mut(), &val)) } else { None });
        if !maximal(c, w, len) || per_prefix.iter().all(|p| p.is_none()) {
            return Ok(());
        }
        ctx.states += 1;
        ctx.outcome(&per_prefix);
        f05_one::<simple_bocage::Bocage>(ctx, s.gr(), w, &per_prefix, &terms)?;
        f05_one::<compact_bocage::Bocage>(ctx, s.gr(), w, &per_prefix, &terms)?;
        ctx.sample(|| format!("{} | input {}: finished after {:?} tokens, evaluated repeatedly and in several orders", g.show(), g.show_str(w), (0..=w.len()).filter(|&k| per_prefix[k].is_some()).collect::<Vec<_>>()));
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------------ F06

pub const BOUNDARY: [u32; 15] = [0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0xffff, 0x10000, 0xff_ffff, 0x100_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff];

/// All tuples of boundary values as token values.
fn f06_values(ctx: &mut Ctx, gram: &Gram, w: &[u16], first: u32) -> Res {
    let a = Ana::new(gram.clone());
    let o = Order::identity(gram);
    let real = no_panic("compiling the grammar", || Real::new(gram, &o, false))?;
    let s = Setup { a: &a, real: &real, order: &o };
    let n = w.len();
    let mut idx = vec![0usize; n];
    let mut chart = Chart::new(&a);
    for &t in w {
        chart.push_tok(t);
    }
    assert!(chart.finished());
    loop {
        let vals: Vec<u32> = idx.iter().enumerate().map(|(k, &i)| if k == 0 { first } else { BOUNDARY[i] }).collect();
        let v2 = vals.clone();
        let f = move |k: usize, _t: u16| v2[k];
        let terms = RefCell::new(Terms::default());
        let want = chart.sentence_trees(&mut terms.borrow_mut(), &f);
        let input = locs_of(w, &f);
        let what = format!("{}: input {}, values {vals:?}", gram.show(), gram.show_str(w));
        for (name, got) in [
            ("simple", eval_input::<simple_bocage::Bocage>(s.gr(), &input, Drive::Auto, &terms, None, &what)?),
            ("compact", eval_input::<compact_bocage::Bocage>(s.gr(), &input, Drive::Auto, &terms, None, &what)?),
        ] {
            let got = sorted(got.unwrap_or_default());
            check!(got == want, "{name} forest: {what}: {}", differ(gram, &terms, &got, &want));
            ctx.traces += 1;
        }
        ctx.states += 1;
        ctx.transitions += n as u64;
        ctx.sample(|| format!("{what}: values come back"));
        // Next tuple (the first position is the unit's).
        let mut k = n - 1;
        loop {
            if k == 0 {
                return Ok(());
            }
            idx[k] += 1;
            if idx[k] < BOUNDARY.len() {
                break;
            }
            idx[k] = 0;
            k -= 1;
        }
    }
}

/// Evaluates to a number that depends on everything: (hash, number of leaves).
struct HashEval<'a> {
    real_syms: &'a dyn Fn(cfg::Symbol) -> u32,
}
#[derive(Default, Clone, Copy, PartialEq, Eq, Debug)]
struct H(u64, u64);
fn mix(a: u64, b: u64) -> u64 {
    (a ^ b).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23) ^ (b << 1)
}
impl Evaluate for HashEval<'_> {
    type Elem = H;
    fn leaf(&self, t: cfg::Symbol, v: u32) -> H {
        H(mix(mix(1, (self.real_syms)(t) as u64), v as u64), 1)
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a H>) -> H
    where
        H: 'a,
    {
        let mut h = mix(2, action as u64);
        let mut n = 0;
        for a in args {
            h = mix(h, a.0);
            n += a.1;
        }
        H(h, n)
    }
    fn nulling<'r>(&self, s: cfg::Symbol, results: &'r mut Vec<H>) {
        results.push(H(mix(3, (self.real_syms)(s) as u64), 0));
    }
}

/// A grammar with many terminals and many rules: every sentence is a list of pairs of terminals, each pair with a rule
/// of its own; evaluated directly.
fn f06_wide<F: Bocage>(ctx: &mut Ctx, terms: usize, second: usize) -> Res {
    // S ::= P | S P;  P ::= t_i t_j
    let (ns, np) = (0u16, 1u16);
    let t = |i: usize| (2 + i) as u16;
    let mut rules = vec![(ns, vec![np]), (ns, vec![ns, np])];
    for i in 0..terms {
        for j in 0..second {
            rules.push((np, vec![t(i), t(j)]));
        }
    }
    let g = Gram::new("wide", 2, terms, rules);
    let o = Order::identity(&g);
    let what = format!("{} terminals, {} rules S ::= P | S P; P ::= x y", terms, g.rules.len());
    let real = no_panic(&what, || Real::new(&g, &o, false))?;
    let syms = |s: cfg::Symbol| real.desc(s).map_or(u32::MAX, |d| d as u32);
    // All pairs, in chunks of one sentence each.
    let pairs: Vec<(usize, usize)> = (0..terms).flat_map(|i| (0..second).map(move |j| (i, j))).collect();
    for chunk in pairs.chunks(1000) {
        let (got, want) = no_panic(&format!("{}: {what}", F::NAME), || {
            let mut r = forest_rec::<F>(&real);
            r.start();
            let mut v = 0u32;
            let mut want = H::default();
            for (n, &(i, j)) in chunk.iter().enumerate() {
                let mut leaves = vec![];
                for x in [i, j] {
                    v = v.wrapping_mul(3).wrapping_add(12345);
                    if !r.read(real.i(t(x)), v) {
                        return (None, want);
                    }
                    leaves.push(H(mix(mix(1, t(x) as u64), v as u64), 1));
                }
                let e = HashEval { real_syms: &syms };
                let rule = 2 + (i * second + j) as u32;
                let p = e.product(rule, leaves.iter());
                want = if n == 0 { e.product(0, [p].iter()) } else { e.product(1, [want, p].iter()) };
            }
            let Some(node) = r.r.finished_node() else { return (None, want) };
            (Some(r.r.into_forest().eval(HashEval { real_syms: &syms }, node)), want)
        })?;
        ctx.traces += 1;
        ctx.states += chunk.len() as u64;
        ctx.transitions += 2 * chunk.len() as u64;
        check!(got == Some(vec![want]), "{}: {what}: the list of the pairs {:?}.. evaluates to {got:?} instead of {want:?} (hash over symbols, values and rule numbers; number of leaves)", F::NAME, chunk[0]);
    }
    ctx.sample(|| format!("{}: {what}: every rule number and symbol comes back", F::NAME));
    Ok(())
}

/// Rules that a parse uses, with numbers on both sides of the places where a number needs another byte. Between them
/// are rules which no sentence uses and which have numbers all the same.
fn f06_numbers<F: Bocage>(ctx: &mut Ctx, around: usize, turn: usize) -> Res {
    let (ns, na, nb, nn, nu, ta, tb, tc) = (0u16, 1u16, 2u16, 3u16, 4u16, 5u16, 6u16, 7u16);
    // S ::= A B; A ::= a a; A ::= c; B ::= b N a; N ::=
    let used = [(ns, vec![na, nb]), (na, vec![ta, ta]), (na, vec![tc]), (nb, vec![tb, nn, ta]), (nn, vec![])];
    let number = |i: usize| (around - 3 + (i + turn) % used.len()) as u32;
    let mut rules = vec![(nu, vec![nu, ta]); around + 4];
    for (i, r) in used.iter().enumerate() {
        rules[number(i) as usize] = r.clone();
    }
    let g = Gram::new("numbers", 5, 3, rules);
    let o = Order::identity(&g);
    let what = format!("S ::= A B; A ::= a a; A ::= c; B ::= b N a; N ::= ; with the rule numbers {:?}, and {} rules that no sentence uses", (0..used.len()).map(number).collect::<Vec<_>>(), around + 4 - used.len());
    let real = no_panic(&what, || Real::new(&g, &o, false))?;
    let syms = |s: cfg::Symbol| real.desc(s).map_or(u32::MAX, |d| d as u32);
    for w in [vec![ta, ta, tb, ta], vec![tc, tb, ta]] {
        let (got, want) = no_panic(&format!("{}: {what}", F::NAME), || {
            let e = HashEval { real_syms: &syms };
            let leaf = |k: usize| H(mix(mix(1, w[k] as u64), k as u64), 1);
            let a = if w[0] == ta { e.product(number(1), [leaf(0), leaf(1)].iter()) } else { e.product(number(2), [leaf(0)].iter()) };
            let b = e.product(number(3), [leaf(w.len() - 2), H(mix(3, nn as u64), 0), leaf(w.len() - 1)].iter());
            let want = e.product(number(0), [a, b].iter());
            let mut r = forest_rec::<F>(&real);
            r.start();
            for (k, &t) in w.iter().enumerate() {
                if !r.read(real.i(t), k as u32) {
                    return (None, want);
                }
            }
            let Some(node) = r.r.finished_node() else { return (None, want) };
            (Some(r.r.into_forest().eval(e, node)), want)
        })?;
        ctx.traces += 1;
        ctx.states += 1;
        ctx.transitions += w.len() as u64;
        check!(got == Some(vec![want]), "{}: {what}: the sentence {} evaluates to {got:?} instead of {want:?} (hash over symbols, values and rule numbers; number of leaves)", F::NAME, w.iter().map(|&t| g.sym_name(t)).collect::<Vec<_>>().join(" "));
    }
    ctx.sample(|| format!("{}: {what}: every rule number comes back", F::NAME));
    Ok(())
}

/// A long list of tokens; the forest grows to any size.
fn f06_long<F: Bocage>(ctx: &mut Ctx, n: usize, right: bool) -> Res {
    let g = if right { Gram::parse("right list", "S = a S | b") } else { Gram::parse("left list", "S = S a | b") };
    let o = Order::identity(&g);
    let real = Real::new(&g, &o, false);
    let syms = |s: cfg::Symbol| real.desc(s).map_or(u32::MAX, |d| d as u32);
    let (ta, tb) = (1u16, 2u16);
    let what = format!("{} with {n} tokens", g.show());
    let (got, want) = no_panic(&format!("{}: {what}", F::NAME), || {
        let mut r = forest_rec::<F>(&real);
        r.start();
        let e = HashEval { real_syms: &syms };
        let value = |k: usize| (k as u32).wrapping_mul(0x9E37_79B1);
        let tok = |k: usize| if right == (k + 1 == n) { tb } else { ta };
        let tok = |k: usize| if right { tok(k) } else if k == 0 { tb } else { ta };
        let leaf = |k: usize| H(mix(mix(1, tok(k) as u64), value(k) as u64), 1);
        for k in 0..n {
            if !r.read(real.i(tok(k)), value(k)) {
                return (None, H::default());
            }
        }
        let want = if right {
            let mut h = e.product(1, [leaf(n - 1)].iter());
            for k in (0..n - 1).rev() {
                h = e.product(0, [leaf(k), h].iter());
            }
            h
        } else {
            let mut h = e.product(1, [leaf(0)].iter());
            for k in 1..n {
                h = e.product(0, [h, leaf(k)].iter());
            }
            h
        };
        let Some(node) = r.r.finished_node() else { return (None, want) };
        (Some(r.r.into_forest().eval(HashEval { real_syms: &syms }, node)), want)
    })?;
    ctx.traces += 1;
    ctx.states += 1;
    ctx.transitions += n as u64;
    check!(got == Some(vec![want]), "{}: {what}: evaluates to {got:?} instead of {want:?} (hash over symbols, values and rules; number of leaves)", F::NAME);
    ctx.sample(|| format!("{}: {what}: every value comes back in place", F::NAME));
    Ok(())
}

/// A long list in which the tokens at the given positions are ambiguous; the forest grows to any size before, between
/// and after them.
fn f06_long_ambiguous<F: Bocage>(ctx: &mut Ctx, n: usize, at: &[usize]) -> Res {
    // 0: S ::= S X; 1: S ::= X; 2: X ::= a; 3: X ::= P; 4: X ::= Q; 5: X ::= b; 6: P ::= b; 7: Q ::= b
    let (ns, nx, np, nq, ta, tb) = (0u16, 1u16, 2u16, 3u16, 4u16, 5u16);
    let g = Gram::new("ambiguous list", 4, 2, vec![(ns, vec![ns, nx]), (ns, vec![nx]), (nx, vec![ta]), (nx, vec![np]), (nx, vec![nq]), (nx, vec![tb]), (np, vec![tb]), (nq, vec![tb])]);
    let o = Order::identity(&g);
    let real = Real::new(&g, &o, false);
    let syms = |s: cfg::Symbol| real.desc(s).map_or(u32::MAX, |d| d as u32);
    let what = format!("{} with {n} tokens, b at {at:?}", g.show());
    let (mut got, mut want) = no_panic(&format!("{}: {what}", F::NAME), || {
        let mut r = forest_rec::<F>(&real);
        r.start();
        let e = HashEval { real_syms: &syms };
        let value = |k: usize| (k as u32).wrapping_mul(0x9E37_79B1);
        let mut want: Vec<H> = vec![];
        for k in 0..n {
            let t = if at.contains(&k) { tb } else { ta };
            if !r.read(real.i(t), value(k)) {
                return (None, want);
            }
            let leaf = H(mix(mix(1, t as u64), value(k) as u64), 1);
            let xs = if t == ta {
                vec![e.product(2, [leaf].iter())]
            } else {
                vec![e.product(3, [e.product(6, [leaf].iter())].iter()), e.product(4, [e.product(7, [leaf].iter())].iter()), e.product(5, [leaf].iter())]
            };
            want = if k == 0 {
                xs.iter().map(|x| e.product(1, [*x].iter())).collect()
            } else {
                want.iter().flat_map(|l| xs.iter().map(|x| e.product(0, [*l, *x].iter()))).collect()
            };
        }
        let Some(node) = r.r.finished_node() else { return (None, want) };
        (Some(r.r.into_forest().eval(HashEval { real_syms: &syms }, node)), want)
    })?;
    ctx.traces += 1;
    ctx.states += 1;
    ctx.transitions += n as u64;
    want.sort_by_key(|h| h.0);
    if let Some(got) = &mut got {
        got.sort_by_key(|h| h.0);
    }
    check!(got.as_ref() == Some(&want), "{}: {what}: evaluates to {} results that are not the {} derivations (hash over symbols, values and rules; number of leaves): {:?} instead of {:?}", F::NAME, got.as_ref().map_or(0, |g| g.len()), want.len(), got.map(|g| g.into_iter().take(4).collect::<Vec<_>>()), want.iter().take(4).collect::<Vec<_>>());
    ctx.sample(|| format!("{}: {what}: {} derivations", F::NAME, want.len()));
    Ok(())
}

fn term_named(g: &Gram, c: char) -> u16 {
    (0..g.ts).map(|i| (g.nts + i) as u16).find(|&s| g.sym_name(s) == c.to_string()).unwrap()
}

/// A small part of F06, run inside Miri.
pub fn f06_miri(ctx: &mut Ctx) -> Res {
    let deep = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    for (def, w) in [("S = a b", "ab"), ("S = S S | a", "aa")] {
        let g = Gram::parse("in Miri", def);
        let w: Vec<u16> = w.chars().map(|c| term_named(&g, c)).collect();
        for &first in BOUNDARY.iter().step_by(if deep { 2 } else { 14 }) {
            f06_values(ctx, &g, &w, first)?;
            if !deep {
                break;
            }
        }
    }
    Ok(())
}

pub fn f06_bounds(tier: Tier) -> String {
    format!(
        "all tuples of the token values {BOUNDARY:x?} (hexadecimal) in sentences of up to 3 tokens of five grammars; grammars with up to {} terminals, rules and sections; rules with all numbers from three below to one above the powers of two up to 2^{} at which numbers may need another bit or byte; lists (left-recursive) of every length up to {} and of selected lengths up to {} tokens; lists with ambiguous tokens at every place where the size of the compact forest passes 256 or 65536 bytes, and at the ends and in the middle of lists of up to {} tokens; both forests",
        tier.pick(300, 2000),
        tier.pick(16, 18),
        tier.pick(400, 1200),
        tier.pick(30_000, 1_000_000),
        tier.pick(750_000, 1_500_000)
    )
}

pub fn f06_units(tier: Tier) -> Vec<Unit> {
    let mut units = vec![];
    let cases: Vec<(&str, &str, &str)> = vec![
        ("ambiguous pair", "S = S S | a", "aaa"),
        ("pair", "S = a b", "ab"),
        ("three", "S = a b a", "aba"),
        ("nullable middle", "S = a N b; N = | c", "ab"),
        ("nested", "S = A b; A = a | a b", "aab"),
    ];
    for (name, text, w) in cases {
        let g = Gram::parse(name, text);
        let w: Vec<u16> = w.chars().map(|c| term_named(&g, c)).collect();
        let mut c = Chart::new(Box::leak(Box::new(Ana::new(g.clone()))));
        for &t in &w {
            c.push_tok(t);
        }
        if !c.finished() {
            // Only sentences carry a forest.
            continue;
        }
        for first in BOUNDARY {
            let (g, w) = (g.clone(), w.clone());
            units.push(unit(format!("{name}: first value {first}"), move |ctx| f06_values(ctx, &g, &w, first)));
        }
    }
    for (t, sec) in tier.pick(vec![(3, 3), (20, 20), (120, 3), (300, 2)], vec![(3, 3), (20, 20), (120, 3), (300, 2), (300, 230), (2000, 1), (700, 100)]) {
        units.push(unit(format!("wide grammar {t}x{sec}, simple forest"), move |ctx| f06_wide::<simple_bocage::Bocage>(ctx, t, sec)));
        units.push(unit(format!("wide grammar {t}x{sec}, compact forest"), move |ctx| f06_wide::<compact_bocage::Bocage>(ctx, t, sec)));
    }
    for around in tier.pick(vec![16usize, 128, 256, 32_768, 65_536], vec![16, 128, 256, 512, 1024, 4096, 8192, 16_384, 32_768, 65_536, 131_072, 262_144]) {
        for turn in 0..5 {
            units.push(unit(format!("rule numbers around {around}, turn {turn}, simple forest"), move |ctx| f06_numbers::<simple_bocage::Bocage>(ctx, around, turn)));
            units.push(unit(format!("rule numbers around {around}, turn {turn}, compact forest"), move |ctx| f06_numbers::<compact_bocage::Bocage>(ctx, around, turn)));
        }
    }
    for n in tier.pick(vec![1usize, 2, 3, 10, 20, 50, 100, 1000, 3000, 10000, 30000], vec![1, 2, 3, 10, 20, 50, 100, 1000, 3000, 5000, 10000, 30000, 100_000, 1_000_000]) {
        for right in [false, true] {
            if right && n > tier.pick(1000, 3000) {
                continue;
            }
            units.push(unit(format!("list of {n} tokens, right {right}, simple forest"), move |ctx| f06_long::<simple_bocage::Bocage>(ctx, n, right)));
            units.push(unit(format!("list of {n} tokens, right {right}, compact forest"), move |ctx| f06_long::<compact_bocage::Bocage>(ctx, n, right)));
        }
    }
    // Ambiguous tokens at the beginning, in the middle and at the end of long lists.
    for n in tier.pick(vec![3usize, 30, 300, 3000, 8000, 30_000, 750_000], vec![3, 30, 300, 3000, 8000, 30_000, 100_000, 200_000, 400_000, 750_000, 1_500_000]) {
        for at in [vec![0], vec![n / 2], vec![n - 1], vec![0, n - 1], vec![0, n / 2, n - 1]] {
            if n > 100_000 && at.len() > 1 {
                continue;
            }
            let at2 = at.clone();
            units.push(unit(format!("ambiguous list of {n} tokens, {at:?}, simple forest"), move |ctx| f06_long_ambiguous::<simple_bocage::Bocage>(ctx, n, &at)));
            units.push(unit(format!("ambiguous list of {n} tokens, {at2:?}, compact forest"), move |ctx| f06_long_ambiguous::<compact_bocage::Bocage>(ctx, n, &at2)));
        }
    }
    // Ambiguous tokens at every place around those where node numbers get a second and a third byte.
    for (from, to) in [(1usize, tier.pick(60usize, 300)), (tier.pick(2200, 1000), tier.pick(3200, 5000))] {
        for from in (from..to).step_by(20) {
            units.push(unit(format!("ambiguous lists of {from}.. tokens"), move |ctx| {
                for n in from..from + 20 {
                    f06_long_ambiguous::<compact_bocage::Bocage>(ctx, n + 2, &[n, n + 1])?;
                }
                Ok(())
            }));
        }
    }
    // All lengths around the places where node numbers need another byte.
    let all = tier.pick(400, 1200);
    for from in (1..all).step_by(50) {
        units.push(unit(format!("lists of {from}.. tokens"), move |ctx| {
            for n in from..from + 50 {
                f06_long::<compact_bocage::Bocage>(ctx, n, false)?;
                f06_long::<simple_bocage::Bocage>(ctx, n, false)?;
                if n <= 150 {
                    f06_long::<compact_bocage::Bocage>(ctx, n, true)?;
                }
            }
            Ok(())
        }));
    }
    units
}

// ------------------------------------------------------------------------------------------------ R09

/// A policy without lookahead.
struct NoLookahead;
impl PerfHint for NoLookahead {
    const LOOKAHEAD: bool = false;
    const LEO: bool = false;
    type Symbol = cfg::Symbol;
}
struct Tiny;
impl PerfHint for Tiny {
    const LOOKAHEAD: bool = true;
    const LEO: bool = false;
    type Symbol = cfg::Symbol;
    fn completion_capacity(&self) -> usize {
        0
    }
    fn medial_capacity(&self) -> gearley_vec2d_capacity::Vec2dCapacity {
        gearley_vec2d_capacity::Vec2dCapacity { chart_capacity: 0, indices_capacity: 0 }
    }
}
mod gearley_vec2d_capacity {
    pub use gearley_vec2d::Vec2dCapacity;
}

pub type Shown = Vec<(bool, bool, bool, Option<Obs>)>;

fn show_run<G: Grammar, F: Forest, P: PerfHint>(r: Recognizer<G, F, P>, real: &Real, w: &[u16], hints: u32) -> Shown {
    let mut r = Rec::new(r);
    // Before anything is read.
    let mut out = vec![(r.r.finished_node().is_some(), r.r.is_finished(), r.r.is_exhausted(), None)];
    let eof = real.dg.eof();
    for k in 0..=w.len() {
        r.begin();
        let o: &mut (bool, bool, bool, Option<Obs>) = out.last_mut().unwrap();
        o.3 = Some(r.obs());
        if hints >> k & 1 != 0 {
            let h = if k < w.len() { real.i(w[k]) } else { eof };
            r.hint(h);
        }
        if k == 0 {
            let sof = real.dg.sof();
            r.r.scan(sof, 0);
        } else {
            r.r.scan(real.i(w[k - 1]), k as u32);
        }
        let ok = r.end();
        out.push((ok, ok && r.r.is_finished(), r.r.is_exhausted(), None));
        if !ok {
            return out;
        }
    }
    r.begin();
    out.last_mut().unwrap().3 = Some(r.obs());
    out
}

pub fn show_plain(real: &Real, w: &[u16]) -> Shown {
    show_run(Recognizer::new(&real.dg), real, w, 0)
}

/// The set of evaluation results of an input: `None` if the implementation panics, `Some(None)` if there is no parse.
pub fn results<F: Bocage>(s: &Setup, w: &[u16], terms: &RefCell<Terms>) -> Option<Option<Vec<u32>>> {
    let r = eval_input::<F>(s.gr(), &locs_of(w, &val), Drive::Auto, terms, None, "").ok()?;
    Some(r.map(|v| {
        let mut v = sorted(v);
        v.dedup();
        v
    }))
}

pub fn r09(ctx: &mut Ctx, s: &Setup, len: usize) -> Res {
    let g = &s.a.g;
    let real = s.real;
    let dg = &real.dg;
    // What the grammar tells when it is owned, borrowed and borrowed twice.
    let tables = crate::diff::tables(dg, &real.ext);
    crate::diff::same_tables(&tables, &crate::diff::tables(&dg, &real.ext), ("the grammar", "the borrowed grammar"))?;
    crate::diff::same_tables(&tables, &crate::diff::tables(&&dg, &real.ext), ("the grammar", "the grammar borrowed twice"))?;
    let mut inputs: Vec<(Vec<u16>, bool)> = vec![];
    prefixes(s.a, len, &mut |c, w| {
        if maximal(c, w, len) {
            inputs.push((w.to_vec(), c.finished()));
        }
        for &t in &g.alpha {
            if s.a.occurs & bit(t) != 0 && c.next_terms() & bit(t) == 0 {
                let mut v = w.to_vec();
                v.push(t);
                inputs.push((v, false));
            }
        }
        Ok(())
    })?;
    for (w, sentence) in &inputs {
        ctx.states += 1;
        let base = no_panic(&format!("input {}", g.show_str(w)), || show_run(Recognizer::new(dg), real, w, 0))?;
        ctx.outcome(&base);
        let mut cmp = |name: &str, f: &mut dyn FnMut() -> Shown| -> Res {
            let got = no_panic(&format!("input {}, {name}", g.show_str(w)), f)?;
            ctx.traces += 1;
            ctx.transitions += got.len() as u64;
            if got != base {
                let k = got.iter().zip(&base).position(|(a, b)| a != b).unwrap_or(got.len().min(base.len()));
                return Err(format!("input {}, {name}: location {k} (0 is before the start of input) shows (success, finished, exhausted, progress) {:?}, but the default recognizer without forest shows {:?}", g.show_str(w), got.get(k), base.get(k)));
            }
            Ok(())
        };
        let df = || DefaultPerfHint::new(8192);
        cmp("owning the grammar", &mut || show_run(Recognizer::new(dg.clone()), real, w, 0))?;
        cmp("borrowing a borrowed grammar", &mut || show_run(Recognizer::new(&dg), real, w, 0))?;
        cmp("simple forest", &mut || show_run(Recognizer::with_forest(dg, simple_bocage::Bocage::new(dg)), real, w, 0))?;
        cmp("compact forest", &mut || show_run(Recognizer::with_forest(dg, compact_bocage::Bocage::new(dg)), real, w, 0))?;
        cmp("simple forest, owned grammar, no capacity", &mut || show_run(Recognizer::with_forest_and_policy(dg.clone(), simple_bocage::Bocage::with_capacity(dg, 0), df()), real, w, 0))?;
        cmp("compact forest, owned grammar, no capacity", &mut || show_run(Recognizer::with_forest_and_policy(dg.clone(), compact_bocage::Bocage::with_capacity(&dg, 0), df()), real, w, 0))?;
        cmp("no lookahead", &mut || show_run(Recognizer::with_forest_and_policy(dg, NullForest, NoLookahead), real, w, 0))?;
        cmp("no lookahead, simple forest", &mut || show_run(Recognizer::with_forest_and_policy(dg, simple_bocage::Bocage::new(dg), NoLookahead), real, w, 0))?;
        cmp("zero capacities", &mut || show_run(Recognizer::with_forest_and_policy(dg, NullForest, Tiny), real, w, 0))?;
        cmp("default hint", &mut || show_run(Recognizer::with_forest_and_policy(dg, NullForest, DefaultPerfHint::default()), real, w, 0))?;
        for m in [0usize, 1, 999, 1000, 4096, 499_999, 500_000, 2_000_001] {
            cmp(&format!("memory limit {m}"), &mut || show_run(Recognizer::with_forest_and_policy(dg, NullForest, DefaultPerfHint::new(m)), real, w, 0))?;
        }
        for (m, t, n) in [(0usize, 0usize, 0usize), (1024, 1, 1), (8192, 1 << 40, 3), (100_000, 10, 1 << 40), (100_000, 0, 31), (100_000, 3, 33)] {
            cmp(&format!("memory limit {m}, {t} tokens, {n} symbols"), &mut || show_run(Recognizer::with_forest_and_policy(dg, NullForest, DefaultPerfHint::with_token_count_and_num_syms(m, t, n)), real, w, 0))?;
        }
        // Hints that a policy without lookahead ignores, and the verdict with them under the default policy.
        for hints in 1..1u32 << (w.len() + 1).min(5) {
            if hints >> w.len() & 1 != 0 && !sentence {
                // Announcing the end of input would be wrong.
                continue;
            }
            cmp(&format!("no lookahead, announced {hints:#b}"), &mut || show_run(Recognizer::with_forest_and_policy(dg, NullForest, NoLookahead), real, w, hints))?;
            let last = |r: &Shown| r.len() == w.len() + 2 && r[w.len() + 1].1;
            let a = no_panic("with hints", || show_run(Recognizer::new(dg), real, w, hints))?;
            let b = no_panic("with hints", || show_run(Recognizer::with_forest(dg, simple_bocage::Bocage::new(dg)), real, w, hints))?;
            let c = no_panic("with hints", || show_run(Recognizer::with_forest(dg.clone(), compact_bocage::Bocage::new(dg)), real, w, hints))?;
            check!(a == b && b == c, "input {}, announced {hints:#b}: the recognizer shows different things with different forests", g.show_str(w));
            check!(last(&a) == last(&base), "input {}, announced {hints:#b}: accepted {} with the lookahead policy, {} without", g.show_str(w), last(&a), last(&base));
        }
        ctx.sample(|| format!("{} | input {}: the same with all policies and forests", g.show(), g.show_str(w)));
    }
    Ok(())
}

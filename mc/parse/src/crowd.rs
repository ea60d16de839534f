//! Locations with hundreds of items, completions or tokens, symbols with hundreds of alternatives, and rules with a
//! dozen parts that may be empty: grammars and inputs that grow with a number, for all numbers around the powers of two.
use crate::drive::{orders_of, Orders};
use crate::forest::{f01_one, f02_one, f03_one, f04_one, f05_one, locs_of, val};
use crate::gram::Gram;
use crate::real::*;
use crate::refr::Terms;
use crate::wide::{chain, input, nest, users, Derivations, Item, Plain};
use gearley_grammar::Grammar;
use gearley_recognizer::lookahead::Lookahead;
use mclib::{check, no_panic, unit, Ctx, Res, Tier, Unit};
use std::cell::RefCell;
use std::collections::HashMap;

/// S ::= X1 | .. | Xk | S b, Xi ::= a: a symbol with many alternatives.
fn alternatives(k: usize) -> Gram {
    let (a, b) = ((1 + k) as u16, (2 + k) as u16);
    let mut rules: Vec<(u16, Vec<u16>)> = (1..=k as u16).map(|i| (0, vec![i])).collect();
    rules.push((0, vec![0, b]));
    rules.extend((1..=k as u16).map(|i| (i, vec![a])));
    Gram::new("alternatives", 1 + k, 2, rules)
}

/// S ::= a X1 | .. | a Xk, Xi ::= b | b Xi | b b c: many items, and many completions of one origin.
fn fan(k: usize) -> Gram {
    let t = |i: usize| (1 + k + i) as u16;
    let mut rules: Vec<(u16, Vec<u16>)> = (1..=k as u16).map(|i| (0, vec![t(0), i])).collect();
    for i in 1..=k as u16 {
        rules.push((i, vec![t(1)]));
        rules.push((i, vec![t(1), i]));
        if i % 3 == 0 {
            rules.push((i, vec![t(1), t(1), t(2)]));
        }
    }
    Gram::new("fan", 1 + k, 3, rules)
}

/// S ::= A1 .. Ak, Ai ::= a | (empty): a rule of k parts, each of which may be empty.
fn optional(k: usize) -> Gram {
    let (a, t) = (1u16, 2u16);
    Gram::new("optional", 2, 1, vec![(0, vec![a; k]), (a, vec![t]), (a, vec![])])
}

/// S ::= A1 .. Ak, Ai ::= ti | (empty).
fn options(k: usize) -> Gram {
    let mut rules: Vec<(u16, Vec<u16>)> = vec![(0, (1..=k as u16).collect())];
    for i in 1..=k {
        rules.push((i as u16, vec![(i + k) as u16]));
        rules.push((i as u16, vec![]));
    }
    Gram::new("options", 1 + k, k, rules)
}

fn listed() -> Vec<Gram> {
    vec![
        Gram::parse("pairs", "S = S S | a"),
        Gram::parse("operators", "S = S + S | S * S | a"),
        Gram::parse("right", "S = a S | a | a S b"),
        Gram::parse("middle", "S = a S a | a"),
        Gram::parse("empty middle", "S = a S a | A A ; A = b | "),
        Gram::parse("list of lists", "S = S A | A ; A = A a | a"),
        Gram::parse("two right", "S = A | B ; A = a A | a ; B = a B | a b"),
    ]
}

/// An input of n tokens.
fn word(g: &Gram, n: usize) -> Vec<u16> {
    let t = |i: usize| (g.nts + i) as u16;
    (0..n)
        .map(|i| match g.name.as_str() {
            "operators" => t([2, 0, 2, 1][i % 4]),
            "fan" => if i == 0 { t(0) } else { t(1) },
            "alternatives" => if i == 0 { t(0) } else { t(1) },
            "nest" => t(g.ts - 1 - i),
            _ => t(0),
        })
        .collect()
}

fn skips() -> [fn(u16, usize, usize) -> bool; 4] {
    [
        |_, o, j| (o + j) % 3 == 1,
        |x, o, j| x % 2 == 1 && (j - o) % 2 == 1,
        |x, o, _| (x as usize + o) % 5 == 2,
        |_, o, j| o > 0 && j - o == 2,
    ]
}

/// All groups of all locations of an input.
fn groups(ctx: &mut Ctx, g: &Gram, real: &Real, w: &[u16], skip: Option<fn(u16, usize, usize) -> bool>) -> Res {
    let mut p = match skip {
        Some(f) => Plain::skipping(g, f),
        None => Plain::new(g),
    };
    ctx.states += 1;
    ctx.traces += 1;
    let mut r = null_rec(real);
    for k in 0..=w.len() {
        let at = || format!("location {k}");
        if k > 0 && !p.push(w[k - 1]) {
            return Ok(());
        }
        r.begin();
        r.r.scan(if k == 0 { real.dg.sof() } else { real.i(w[k - 1]) }, 0);
        let mut got: Vec<(u16, usize, Vec<usize>)> = vec![];
        let mut last = usize::MAX;
        while let Some(mut sum) = r.r.next_sum() {
            let (sym, origin) = (sum.symbol(), sum.origin() as usize);
            check!(origin <= last, "{}: a group that begins in row {origin} comes after one that begins in row {last}", at());
            last = origin;
            let x = real.desc(sym);
            let Some(o) = r.loc_of_chart.get(origin).map(|&l| l.max(0) as usize) else { return Err(format!("{}: a group with unknown origin row {origin}", at())) };
            let skipped = skip.is_some_and(|f| x.is_some_and(|x| f(x, o, k)));
            let mut rules = vec![];
            if skipped && k % 2 == 0 {
                sum.skip_entire_sum();
            } else {
                while let Some(item) = sum.next_summand() {
                    rules.push(real.rule(real.dg.external_origin(item.dot).id).unwrap_or(usize::MAX));
                    if !skipped {
                        sum.push_summand(item);
                    }
                }
                if !skipped {
                    sum.complete_sum();
                }
                rules.sort();
                rules.dedup();
            }
            if let Some(x) = x {
                got.push((x, o, rules));
            }
        }
        ctx.transitions += got.len() as u64;
        got.sort();
        let mut want = if k == 0 { vec![] } else { p.groups(k) };
        for x in &mut want {
            if skip.is_some_and(|f| f(x.0, x.1, k)) && k % 2 == 0 {
                x.2 = vec![];
            }
        }
        if got != want {
            let n = got.iter().zip(&want).take_while(|p| p.0 == p.1).count();
            return Err(format!("{}: {} groups instead of {}, beginning to differ (symbol, origin, rules) with {:?} instead of {:?}", at(), got.len(), want.len(), got.get(n), want.get(n)));
        }
        r.r.lookahead().clear_hint();
        let dead = k > 0 && p.dead();
        check!(r.r.is_exhausted() == dead, "{}: exhausted: {}", at(), r.r.is_exhausted());
        if dead {
            return Ok(());
        }
        r.r.advance_after_completion();
        r.ended();
        check!(r.r.is_finished() == p.finished(), "{}: finished: {}", at(), r.r.is_finished());
    }
    r.begin();
    let obs = r.obs();
    let got = users(real, &obs.predicted);
    check!(got == p.postdot(), "in the end, predicted are {got:?} instead of {:?}", p.postdot());
    let mut got: Vec<Item> = vec![];
    for &(dot, origin) in &obs.medial {
        let t = real.dg.trace()[1][dot as usize];
        if let (Some(rule), Some(l)) = (real.rule(t.id), r.loc(origin as usize)) {
            got.push((rule, t.pos as usize, l.max(0) as usize));
        }
    }
    got.sort();
    got.dedup();
    if !w.is_empty() {
        check!(got == p.medial(), "in the end, {} items are in progress instead of {}", got.len(), p.medial().len());
    }
    Ok(())
}

/// A recognizer that is reset after a long history, and a new one.
fn reset(ctx: &mut Ctx, real: &Real, history: &[u16], within: bool, then: &[u16]) -> Res {
    let mut r = null_rec(real);
    r.start();
    for &t in history {
        check!(r.read(real.i(t), 0), "reading fails");
    }
    if within {
        r.begin();
        if let Some(&t) = history.last() {
            r.r.scan(real.i(t), 0);
            r.hint(real.i(t));
        }
    }
    r.reset();
    let mut n = null_rec(real);
    check!(r.start() == n.start(), "after the reset, reading the start of input differs");
    for k in 0..=then.len() {
        ctx.transitions += 1;
        check!(r.r.is_finished() == n.r.is_finished(), "after the reset and {k} tokens, finished: {}, a new one: {}", r.r.is_finished(), n.r.is_finished());
        r.begin();
        n.begin();
        let (a, b) = (r.obs(), n.obs());
        check!(a == b, "after the reset and {k} tokens, {} predictions, {} items, location {}; a new one: {} predictions, {} items, location {}", a.predicted.len(), a.medial.len(), a.earleme, b.predicted.len(), b.medial.len(), b.earleme);
        if k < then.len() {
            r.r.scan(real.i(then[k]), 0);
            n.r.scan(real.i(then[k]), 0);
            let (a, b) = (r.end(), n.end());
            check!(a == b, "after the reset, reading token {k} succeeds: {a}, a new one: {b}");
            if !a {
                break;
            }
        }
    }
    ctx.states += 1;
    ctx.traces += 1;
    Ok(())
}

/// Rules in progress that begin at each of the first locations, as many as asked for: L0 = S, Li ::= a L(i+1) |
/// a .. a xij y for each j, where the number of tokens a is such that all of them are in progress after n of them.
fn beginnings(counts: &[usize]) -> Gram {
    let n = counts.len();
    let nts = n + 1;
    let mut rules: Vec<(u16, Vec<u16>)> = vec![];
    let (a, y) = (nts as u16, (nts + 1) as u16);
    let mut next = y + 1;
    for (i, &k) in counts.iter().enumerate() {
        rules.push((i as u16, vec![a, i as u16 + 1]));
        for _ in 0..k {
            let mut r = vec![a; n - i];
            r.extend([next, y]);
            rules.push((i as u16, r));
            next += 1;
        }
    }
    // So that the last level can end.
    rules.push((n as u16, vec![y]));
    Gram::new("beginnings", nts, next as usize - nts, rules)
}

/// Inputs of beginnings: one for each rule with a token of its own, but at most a few per level.
fn beginning_words(g: &Gram, counts: &[usize]) -> Vec<Vec<u16>> {
    let n = counts.len();
    let (a, y) = ((n + 1) as u16, (n + 2) as u16);
    let mut words = vec![];
    let mut next = y + 1;
    for &k in counts {
        for j in 0..k as u16 {
            if j < 2 || j as usize + 2 >= k || j % 16 == 0 {
                words.push([&vec![a; n][..], &[next + j, y]].concat());
            }
        }
        next += k as u16;
    }
    assert_eq!(next as usize, g.syms());
    words
}

/// The rows that are kept at each location of an input, and what is in progress.
fn rows(ctx: &mut Ctx, g: &Gram, real: &Real, w: &[u16]) -> Res {
    let mut p = Plain::new(g);
    let mut r = null_rec(real);
    check!(r.start(), "reading the start of input fails");
    for k in 0..=w.len() {
        let at = || format!("after {k} tokens");
        check!(r.r.is_finished() == p.finished(), "{}, finished: {}", at(), r.r.is_finished());
        r.begin();
        let obs = r.obs();
        let most = obs.medial.iter().map(|m| m.1 as usize).max().unwrap_or(0);
        check!(most == 0 || obs.earleme <= most + 1, "{}, the current location has number {}, but the latest beginning of an item in progress is row {most}", at(), obs.earleme);
        if k > 0 {
            let mut got: Vec<Item> = vec![];
            for &(dot, origin) in &obs.medial {
                let t = real.dg.trace()[1][dot as usize];
                if t.id == !0 {
                    continue;
                }
                let (Some(rule), Some(l)) = (real.rule(t.id), r.loc(origin as usize)) else { return Err(format!("{}, an item of rule {} with origin row {origin}", at(), t.id)) };
                got.push((rule, t.pos as usize, l.max(0) as usize));
            }
            got.sort();
            got.dedup();
            check!(got == p.medial(), "{}, {} items are in progress instead of {}", at(), got.len(), p.medial().len());
            // Their beginnings are different rows.
            let wanted: std::collections::BTreeSet<usize> = p.medial().iter().map(|m| m.2).collect();
            let kept: std::collections::BTreeSet<usize> = obs.medial.iter().filter(|m| real.rule(real.dg.trace()[1][m.0 as usize].id).is_some()).map(|m| m.1 as usize).collect();
            check!(wanted.len() == kept.len(), "{}, the items in progress begin at {} locations, but in {} rows", at(), wanted.len(), kept.len());
        }
        let got = users(real, &obs.predicted);
        check!(got == p.postdot(), "{}, predicted are {got:?} instead of {:?}", at(), p.postdot());
        ctx.transitions += 1;
        if k < w.len() {
            r.r.scan(real.i(w[k]), 0);
            let (ok, can) = (r.end(), p.push(w[k]));
            check!(ok == can, "{}, reading one more succeeds: {ok}", at());
            if !can {
                break;
            }
        }
    }
    ctx.states += 1;
    ctx.traces += 1;
    Ok(())
}

/// Several tokens at one location, up to all there are.
fn sets(ctx: &mut Ctx, g: &Gram, real: &Real, max: usize) -> Res {
    let all: Vec<u16> = (g.nts..g.syms()).map(|t| t as u16).collect();
    let pick = |f: &dyn Fn(usize) -> bool| -> Vec<u16> { all.iter().copied().enumerate().filter(|x| f(x.0)).map(|x| x.1).collect() };
    let n = all.len();
    let mut lists = vec![all.clone(), all.iter().rev().copied().collect(), pick(&|i| i % 2 == 1), pick(&|i| i < n / 2), pick(&|i| i + 1 == n), pick(&|i| i % 7 == 3 || i == 0)];
    lists.retain(|l| !l.is_empty());
    fn go(ctx: &mut Ctx, real: &Real, p: &mut Plain, w: &mut Vec<Vec<u16>>, lists: &[Vec<u16>], max: usize) -> Res {
        if w.len() == max {
            return Ok(());
        }
        for l in lists {
            w.push(l.clone());
            let mut r = null_rec(real);
            r.start();
            let mut ok = true;
            for set in w.iter() {
                r.begin();
                for &t in set {
                    r.r.scan(real.i(t), 0);
                }
                ok = r.end();
            }
            let can = p.push_any(l);
            let at = || format!("sets of {:?} tokens", w.iter().map(|l| l.len()).collect::<Vec<_>>());
            check!(ok == can, "{}: reading the last one succeeds: {ok}", at());
            ctx.states += 1;
            ctx.traces += 1;
            if can {
                check!(r.r.is_finished() == p.finished(), "{}: finished: {}", at(), r.r.is_finished());
                r.begin();
                let (got, want) = (users(real, &r.obs().predicted), p.postdot());
                check!(got == want, "{}: then predicted: {} symbols, instead of {}", at(), got.len(), want.len());
                go(ctx, real, p, w, lists, max)?;
                p.pop();
            }
            w.pop();
        }
        Ok(())
    }
    go(ctx, real, &mut Plain::new(g), &mut vec![], &lists, max)
}

/// One finished parse.
fn forest(ctx: &mut Ctx, g: &Gram, real: &Real, w: &[u16], prop: &str) -> Res {
    let mut p = Plain::new(g);
    let mut finished = vec![p.finished()];
    for &t in w {
        if !p.push(t) {
            return Ok(());
        }
        finished.push(p.finished());
    }
    if !p.finished() && !w.is_empty() {
        return Ok(());
    }
    let terms = RefCell::new(Terms::default());
    let trees = |k: usize| -> Option<Vec<u32>> {
        let mut q = Plain::new(g);
        w[..k].iter().for_each(|&t| { q.push(t); });
        if !finished[k] {
            return None;
        }
        let d = Derivations::with_values(&q, &w[..k], val);
        let n = d.count(&mut HashMap::new(), 0, 0, k);
        if n == 0 || n > 4500 {
            return None;
        }
        let mut t = d.sym(&mut HashMap::new(), &terms, 0, 0, k);
        t.sort();
        Some(t)
    };
    let Some(t) = trees(w.len()) else {
        ctx.count("sentences with more than 4500 derivations (left out)", 1);
        return Ok(());
    };
    ctx.states += 1;
    let gr = GR { g, real };
    let what = format!("input {}", g.show_str(w));
    match prop {
        "F01" if t.len() == 1 => {
            f01_one::<simple_bocage::Bocage>(ctx, gr, w, t[0], &terms)?;
            f01_one::<compact_bocage::Bocage>(ctx, gr, w, t[0], &terms)
        }
        "F02" if t.len() > 1 => {
            let input = locs_of(w, &val);
            f02_one::<simple_bocage::Bocage>(ctx, gr, &input, &what, &t, &terms, 300)?;
            f02_one::<compact_bocage::Bocage>(ctx, gr, &input, &what, &t, &terms, 300)
        }
        "F03" => f03_one(ctx, gr, w, &terms),
        "F04" => {
            f04_one::<simple_bocage::Bocage>(ctx, gr, w, &t, &terms)?;
            f04_one::<compact_bocage::Bocage>(ctx, gr, w, &t, &terms)
        }
        "F05" => {
            let all: Vec<Option<Vec<u32>>> = (0..=w.len()).map(trees).collect();
            if (0..=w.len()).any(|k| finished[k] && all[k].is_none()) {
                return Ok(());
            }
            f05_one::<simple_bocage::Bocage>(ctx, gr, w, &all, &terms)?;
            f05_one::<compact_bocage::Bocage>(ctx, gr, w, &all, &terms)
        }
        _ => Ok(()),
    }
}

pub fn extend(units: (Vec<Unit>, String), prop: &'static str, t: Tier) -> (Vec<Unit>, String) {
    let (mut u, mut b) = units;
    let sizes = t.pick(vec![15usize, 16, 17, 31, 32, 33, 63, 64, 65, 100], vec![7, 8, 9, 14, 15, 16, 17, 18, 30, 31, 32, 33, 34, 62, 63, 64, 65, 66, 126, 127, 128, 129, 130, 200]);
    let wide = t.pick(vec![15usize, 16, 17, 32, 64, 65, 127, 128, 129, 255, 256, 257, 300], vec![7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 700]);
    let events = prop == "R11";
    let forests = prop.starts_with('F');
    let orders = t.pick(2, 3);
    let with = move |ctx: &mut Ctx, g: &Gram, f: &mut dyn FnMut(&mut Ctx, &Real) -> Res| -> Res {
        for o in orders_of(g, Orders::Some(orders)) {
            let at = |e: String| format!("grammar {} {{ {} }} (first symbols declared: {:?}): {e}", g.name, g.show(), o.syms.iter().take(3).map(|&s| g.sym_name(s as u16)).collect::<Vec<_>>());
            let real = no_panic("compiling", || Real::new(g, &o, events)).map_err(at)?;
            no_panic("the recognizer", || f(ctx, &real)).and_then(|r| r).map_err(at)?;
        }
        Ok(())
    };
    let mut add = |name: String, f: Box<dyn Fn(&mut Ctx) -> Res + Send + Sync>| u.push(unit(name, f));
    let mut cases: Vec<(Gram, Vec<usize>)> = vec![];
    if forests {
        for &k in &wide {
            cases.push((alternatives(k), vec![1, 2, 3]));
            cases.push((fan(k), vec![2, 3, 4]));
        }
        for g in listed() {
            cases.push((g, (0..t.pick(9, 10)).chain(sizes.iter().copied()).collect()));
        }
        for k in 2..=t.pick(11, 13) {
            cases.push((optional(k), (0..=k).collect()));
        }
    } else {
        for &k in &wide {
            cases.push((alternatives(k), vec![1, 2, 5]));
            cases.push((fan(k), vec![2, 3, 6]));
            cases.push((nest(k), vec![k / 2, k]));
        }
        for g in listed() {
            cases.push((g, sizes.clone()));
        }
        for k in [5, 10, 16, 17] {
            cases.push((optional(k), vec![k / 2, k]));
        }
    }
    for (g, ns) in cases {
        let longest = ns.iter().copied().max().unwrap();
        let all: Vec<Vec<usize>> = if forests { ns.iter().map(|&n| vec![n]).collect() } else { vec![ns] };
        for ns in all {
            let g = g.clone();
            add(format!("{}, {} symbols, up to {} tokens", g.name, g.syms(), ns.iter().max().unwrap().min(&longest)), Box::new(move |ctx| {
                with(ctx, &g, &mut |ctx, real| {
                    let longest = word(&g, *ns.iter().max().unwrap());
                    let at = |w: &[u16]| { let s = format!("input of {} tokens {}", w.len(), g.show_str(&w[..w.len().min(40)])); move |e: String| format!("{s}: {e}") };
                    match prop {
                        "R08" => return groups(ctx, &g, real, &longest, None).map_err(at(&longest)),
                        "R10" => {
                            for f in skips() {
                                groups(ctx, &g, real, &longest, Some(f)).map_err(at(&longest))?;
                            }
                            return Ok(());
                        }
                        "R06" => {
                            for &n in &ns {
                                let w = word(&g, n);
                                rows(ctx, &g, real, &w).map_err(at(&w))?;
                            }
                            return Ok(());
                        }
                        "R04" => {
                            for &n in &ns {
                                for within in [false, true] {
                                    let w = word(&g, n);
                                    for then in [&[][..], &w[..n.min(3)], &w[..n.min(20)], &w[..]] {
                                        reset(ctx, real, &w, within, then).map_err(at(&w))?;
                                    }
                                }
                            }
                            return Ok(());
                        }
                        _ => {}
                    }
                    for &n in &ns {
                        let w = word(&g, n);
                        if forests {
                            forest(ctx, &g, real, &w, prop).map_err(at(&w))?;
                            continue;
                        }
                        let mut p = Plain::new(&g);
                        w.iter().for_each(|&t| { p.push(t); });
                        input(ctx, &g, real, &p, &w, prop, prop == "R02").map_err(at(&w))?;
                    }
                    Ok(())
                })
            }));
        }
    }
    // Subsets of parts.
    if forests {
        for k in [3, 5, t.pick(8, 10)] {
            let g = options(k);
            add(format!("{} of {k}", g.name), Box::new(move |ctx| {
                with(ctx, &g, &mut |ctx, real| {
                    for set in 0u32..1 << k {
                        let w: Vec<u16> = (0..k).filter(|i| set & 1 << i != 0).map(|i| (1 + k + i) as u16).collect();
                        forest(ctx, &g, real, &w, prop).map_err(|e| format!("input {}: {e}", g.show_str(&w)))?;
                    }
                    Ok(())
                })
            }));
        }
    }
    if prop == "R06" {
        let many = t.pick(vec![15usize, 16, 17, 31, 33, 63, 65, 127, 129, 256, 300], vec![7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 513]);
        let levels = 3u32;
        for &k in &many {
            add(format!("up to {k} rules in progress that begin at each of {levels} locations"), Box::new(move |ctx| {
                let numbers = [0, 1, k];
                for which in 0..numbers.len().pow(levels) {
                    let counts: Vec<usize> = (0..levels).map(|i| numbers[which / numbers.len().pow(i) % numbers.len()]).collect();
                    if counts.iter().sum::<usize>() < k {
                        continue;
                    }
                    let g = beginnings(&counts);
                    let words = beginning_words(&g, &counts);
                    with(ctx, &g, &mut |ctx, real| words.iter().try_for_each(|w| rows(ctx, &g, real, w).map_err(|e| format!("input {}: {e}", g.show_str(w)))))?;
                }
                Ok(())
            }));
        }
        b += &format!("; up to {} rules in progress that begin at each of {levels} locations", many.last().unwrap());
    }
    if prop == "R05" {
        for &k in &wide {
            for g in [chain(k), nest(k)] {
                add(format!("sets of tokens of {}, {k} terminals", g.name), Box::new(move |ctx| with(ctx, &g, &mut |ctx, real| sets(ctx, &g, real, 3))));
            }
        }
        b += &format!("; up to 3 locations with selected sets of up to {} tokens", wide.last().unwrap());
        return (u, b);
    }
    b += &format!("; symbols with up to {} alternatives{}, seven grammars with inputs of up to {} tokens, and rules of up to {} parts that may be empty", wide.last().unwrap(), if forests { "" } else { ", locations with as many items" }, sizes.last().unwrap(), if forests { t.pick(11, 13) } else { 17 });
    (u, b)
}

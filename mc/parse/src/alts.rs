//! F10: tokens read as alternatives at one location are alternatives in evaluation.
use crate::drive::*;
use crate::forest::*;
use crate::real::*;
use crate::refr::{bit, Ana, Chart, Terms};
use mclib::{check, no_panic, Ctx, Res};
use std::cell::RefCell;

/// Derivations of all choices of one token per location, sorted; `None` if there are too many.
fn union(a: &Ana, input: &Locs, terms: &RefCell<Terms>, cap: usize) -> Option<Vec<u32>> {
    fn go(c: &mut Chart, input: &Locs, vals: &mut Vec<u32>, terms: &RefCell<Terms>, cap: usize, out: &mut Vec<u32>) -> bool {
        let k = vals.len();
        if k == input.len() {
            if c.finished() {
                if c.sentence_count() > (cap - out.len()) as u64 {
                    return false;
                }
                out.extend(c.sentence_trees(&mut terms.borrow_mut(), &|k, _| vals[k]));
            }
            return true;
        }
        for &(t, v) in &input[k] {
            if c.next_terms() & bit(t) == 0 {
                continue;
            }
            c.push_tok(t);
            vals.push(v);
            let ok = go(c, input, vals, terms, cap, out);
            vals.pop();
            c.pop();
            if !ok {
                return false;
            }
        }
        true
    }
    let mut out = vec![];
    go(&mut Chart::new(a), input, &mut vec![], terms, cap, &mut out).then(|| sorted(out))
}

fn show(s: GR, input: &Locs) -> String {
    input.iter().map(|l| format!("{{{}}}", l.iter().map(|&(t, v)| format!("{}={v}", s.g.sym_name(t))).collect::<Vec<_>>().join(" "))).collect::<Vec<_>>().join(" ")
}

fn one<F: Bocage>(ctx: &mut Ctx, s: GR, input: &Locs, want: &[u32], terms: &RefCell<Terms>, picks: u64) -> Res {
    let what = format!("locations {}", show(s, input));
    for drive in [Drive::Auto, Drive::Items] {
        let got = eval_input::<F>(s, input, drive, terms, None, &what)?.map(sorted);
        ctx.traces += 1;
        ctx.transitions += input.len() as u64 + 1;
        let Some(got) = got else { return Err(format!("{}: {what}, {drive:?}: no finished parse", F::NAME)) };
        check!(got == want, "{}: {what}, {drive:?}: {}", F::NAME, differ(s.g, terms, &got, want));
    }
    let mut ch = Chooser::default();
    let mut seen = vec![];
    for _ in 0..picks {
        let got = no_panic(&format!("{}: {what}, alternatives picked {:?}", F::NAME, ch.decisions()), || {
            let (r, nodes) = run_forest::<F>(s, input, Drive::Pick, &mut ch);
            let node = nodes.get(input.len()).copied().flatten()?;
            Some(eval_with(s, &mut r.r.into_forest(), node, terms, None))
        })?;
        ctx.traces += 1;
        let Some(got) = got else { return Err(format!("{}: {what}, alternatives picked {:?}: no finished parse", F::NAME, ch.decisions())) };
        check!(got.len() == 1 && want.binary_search(&got[0]).is_ok(), "{}: {what}, one alternative of each group kept (choices {:?}): {}", F::NAME, ch.decisions(), differ(s.g, terms, &got, want));
        seen.push(got[0]);
        if !ch.next() {
            seen.sort();
            seen.dedup();
            check!(seen == want, "{}: {what}: picking one alternative of each group in all ways yields only {}", F::NAME, differ(s.g, terms, &seen, want));
            ctx.count("inputs with all ways of picking alternatives", 1);
            break;
        }
    }
    Ok(())
}

fn both(ctx: &mut Ctx, s: &Setup, input: &Locs, terms: &RefCell<Terms>) -> Res {
    const CAP: usize = 400;
    match union(s.a, input, terms, CAP) {
        None => ctx.count("inputs with more than 400 derivations (left out)", 1),
        Some(want) => {
            one::<simple_bocage::Bocage>(ctx, s.gr(), input, &want, terms, 12)?;
            one::<compact_bocage::Bocage>(ctx, s.gr(), input, &want, terms, 12)?;
            ctx.outcome(&want.len());
            ctx.sample(|| format!("{} | {} has {} derivations", s.a.g.show(), show(s.gr(), input), want.len()));
        }
    }
    Ok(())
}

pub fn f10(ctx: &mut Ctx, s: &Setup, len: usize) -> Res {
    let g = &s.a.g;
    let alpha: Vec<u16> = g.alpha.iter().copied().filter(|&t| s.a.occurs & bit(t) != 0).take(3).collect();
    let mut lists = token_lists(&alpha);
    if alpha.len() > 2 {
        lists.retain(|l| l.windows(2).all(|p| p[0] < p[1]) || l.windows(2).all(|p| p[0] > p[1]));
    }
    // The same token with two values, alone and around another one.
    for &t in &alpha {
        lists.push(vec![t, t]);
        if let Some(&u) = alpha.iter().find(|&&u| u != t) {
            lists.push(vec![t, u, t]);
        }
    }
    let terms = RefCell::new(Terms::default());
    let locs = |w: &[usize]| -> Locs { w.iter().enumerate().map(|(k, &l)| lists[l].iter().enumerate().map(|(p, &t)| (t, val(k, t) + 7 * p as u32)).collect()).collect() };
    fn go(ctx: &mut Ctx, s: &Setup, c: &mut Chart, w: &mut Vec<usize>, lists: &[Vec<u16>], max: usize, locs: &dyn Fn(&[usize]) -> Locs, terms: &RefCell<Terms>) -> Res {
        ctx.states += 1;
        if !w.is_empty() && c.finished() && w.iter().any(|&l| lists[l].len() > 1) {
            both(ctx, s, &locs(w), terms)?;
        }
        if w.len() == max {
            return Ok(());
        }
        for k in 0..lists.len() {
            let m = mask_of(&lists[k]);
            if c.next_terms() & m != 0 {
                c.push(m);
                w.push(k);
                go(ctx, s, c, w, lists, max, locs, terms)?;
                w.pop();
                c.pop();
            }
        }
        Ok(())
    }
    go(ctx, s, &mut Chart::new(s.a), &mut vec![], &lists, len, &locs, &terms)?;
    // Longer inputs: the same alternatives everywhere.
    for k in 0..lists.len() {
        let m = mask_of(&lists[k]);
        if lists[k].len() < 2 {
            continue;
        }
        let mut c = Chart::new(s.a);
        let mut w = vec![];
        while w.len() < len + 3 && c.next_terms() & m != 0 {
            c.push(m);
            w.push(k);
            if w.len() > len && c.finished() {
                both(ctx, s, &locs(&w), &terms)?;
            }
        }
    }
    Ok(())
}

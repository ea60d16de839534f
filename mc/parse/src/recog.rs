//! Recognition properties R01..R11.
use crate::drive::*;
use crate::real::*;
use crate::refr::{bit, Chart, Mask};
use cfg::Symbol;
use gearley_grammar::Grammar;
use gearley_recognizer::lookahead::Lookahead;
use mclib::{check, no_panic, Ctx, Res};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Step {
    ok: bool,
    finished: bool,
    exhausted: bool,
}

/// Reads the start of input and the tokens one by one, until something fails.
pub fn run_plain(s: &Setup, w: &[u16]) -> Vec<Step> {
    let mut r = null_rec(s.real);
    let mut out = vec![];
    let mut step = |r: &NullRec, ok: bool| {
        out.push(Step { ok, finished: r.r.is_finished(), exhausted: r.r.is_exhausted() });
        ok
    };
    let ok = r.start();
    if step(&r, ok) {
        for (k, &t) in w.iter().enumerate() {
            let ok = r.read(s.real.i(t), k as u32 + 1);
            if !step(&r, ok) {
                break;
            }
        }
    }
    out
}

pub fn extensions<'a>(c: &Chart<'a>) -> Vec<u16> {
    // Terminals that no sentence has next.
    c.a.g.alpha.iter().copied().filter(|&t| c.a.occurs & bit(t) != 0 && c.next_terms() & bit(t) == 0).collect()
}

pub fn r01(ctx: &mut Ctx, s: &Setup, len: usize) -> Res {
    let mut fin: Vec<bool> = vec![];
    prefixes(s.a, len, &mut |c, w| {
        fin.truncate(w.len());
        fin.push(c.finished());
        ctx.states += 1;
        let g = &s.a.g;
        if w.is_empty() {
            let got = no_panic("asking a new recognizer", || null_rec(s.real).r.is_finished())?;
            check!(got == c.finished(), "before the first location, a new recognizer {} a finished parse, but the empty input {} a sentence", if got { "reports" } else { "does not report" }, if c.finished() { "is" } else { "is not" });
        }
        let mut judge = |input: &[u16], ctx: &mut Ctx| -> Res {
            let steps = no_panic(&format!("input {}", g.show_str(input)), || run_plain(s, input))?;
            ctx.transitions += steps.len() as u64;
            ctx.traces += 1;
            for k in 0..=input.len() {
                let expect = fin.get(k).copied().unwrap_or(false);
                let got = steps.len() > k && steps[k].ok && steps[k].finished;
                check!(got == expect, "input {}: after {k} token(s) the recognizer {} a finished parse, but the tokens read so far {} a sentence", g.show_str(input), if got { "reports" } else { "does not report" }, if expect { "are" } else { "are not" });
            }
            ctx.outcome(&steps);
            ctx.sample(|| format!("{} | input {}: finished after each token: {:?}", s.a.g.show(), g.show_str(input), steps.iter().map(|s| s.ok && s.finished).collect::<Vec<_>>()));
            Ok(())
        };
        if maximal(c, w, len) {
            judge(w, ctx)?;
        }
        for t in extensions(c) {
            let mut v = w.to_vec();
            v.push(t);
            judge(&v, ctx)?;
        }
        Ok(())
    })
}

pub fn r03(ctx: &mut Ctx, s: &Setup, len: usize) -> Res {
    let g = &s.a.g;
    prefixes(s.a, len, &mut |c, w| {
        ctx.states += 1;
        let mut judge = |input: &[u16], viable: usize, ctx: &mut Ctx| -> Res {
            let steps = no_panic(&format!("input {}", g.show_str(input)), || run_plain(s, input))?;
            ctx.transitions += steps.len() as u64;
            ctx.traces += 1;
            for (k, st) in steps.iter().enumerate() {
                let expect = k <= viable;
                check!(st.ok == expect, "input {}: reading token {k} (0 is the start of input) {}, but a sentence {} begin with the tokens read", g.show_str(input), if st.ok { "succeeds" } else { "fails" }, if expect { "can" } else { "cannot" });
                check!(st.exhausted == !expect, "input {}: after token {k}, is_exhausted() is {}", g.show_str(input), st.exhausted);
            }
            ctx.outcome(&steps);
            ctx.sample(|| format!("{} | input {}: success of each location: {:?}", s.a.g.show(), g.show_str(input), steps.iter().map(|s| s.ok).collect::<Vec<_>>()));
            Ok(())
        };
        if maximal(c, w, len) {
            judge(w, w.len(), ctx)?;
        }
        for t in extensions(c) {
            let mut v = w.to_vec();
            v.push(t);
            judge(&v, w.len(), ctx)?;
        }
        // Nothing scanned.
        let (ok, ex) = no_panic(&format!("input {} and then a location with nothing scanned", g.show_str(w)), || {
            let mut r = null_rec(s.real);
            r.start();
            for (k, &t) in w.iter().enumerate() {
                r.read(s.real.i(t), k as u32);
            }
            r.begin();
            let ok = r.end();
            (ok, r.r.is_exhausted())
        })?;
        ctx.traces += 1;
        check!(!ok && ex, "input {}: ending a location at which nothing was scanned returns {ok}, is_exhausted() is {ex}", g.show_str(w));
        Ok(())
    })
}

/// Every subset of the tokens is announced one ahead.
pub fn r02(ctx: &mut Ctx, s: &Setup, len: usize) -> Res {
    let g = &s.a.g;
    let eof = s.real.dg.eof();
    let mut next: Vec<(Mask, bool)> = vec![];
    prefixes(s.a, len, &mut |c, w| {
        next.truncate(w.len());
        next.push((c.next_terms(), c.finished()));
        ctx.states += 1;
        // What follows w: nothing announced, end of input announced, or one more token (read or not).
        let mut tails: Vec<Option<Option<u16>>> = vec![None, Some(None)];
        tails.extend(g.alpha.iter().filter(|&&t| s.a.occurs & bit(t) != 0).map(|&t| Some(Some(t))));
        for tail in tails {
            let tok_at = |k: usize| -> Option<Option<u16>> { if k < w.len() { Some(Some(w[k])) } else { tail } };
            // Hints are given at locations 0..=|w|, location |w| only if there is a tail.
            let n = w.len() + tail.is_some() as usize;
            for hints in 0..1u32 << n {
                if tail.is_some() && hints >> (n - 1) & 1 == 0 {
                    // Then the tail plays no role except if it is read; the run without tail covers the rest.
                    if !matches!(tail, Some(Some(_))) {
                        continue;
                    }
                }
                let what = || format!("input {}{}, announced: {:?}", g.show_str(w), match tail { None => String::new(), Some(None) => " then end of input".into(), Some(Some(t)) => format!(" then {}", g.sym_name(t)) }, (0..n).filter(|k| hints >> k & 1 != 0).collect::<Vec<_>>());
                let (steps, fin) = no_panic(&what(), || {
                    let mut r = null_rec(s.real);
                    let mut steps = vec![];
                    for k in 0..=w.len() {
                        r.begin();
                        if k < n && hints >> k & 1 != 0 {
                            let h = match tok_at(k).unwrap() {
                                Some(t) => s.real.i(t),
                                None => eof,
                            };
                            r.hint(h);
                        }
                        if k == 0 {
                            let sof = s.real.dg.sof();
                            r.r.scan(sof, 0);
                        } else {
                            r.r.scan(s.real.i(w[k - 1]), k as u32);
                        }
                        let ok = r.end();
                        steps.push(ok);
                        if !ok {
                            break;
                        }
                    }
                    let mut fin = steps.len() == w.len() + 1 && steps[w.len()] && r.r.is_finished();
                    if let Some(Some(t)) = tail {
                        // Read the tail, without a hint.
                        fin = false;
                        if steps.len() == w.len() + 1 && steps[w.len()] {
                            let ok = r.read(s.real.i(t), 9);
                            steps.push(ok);
                            fin = ok && r.r.is_finished();
                        }
                    }
                    (steps, fin)
                })?;
                ctx.transitions += steps.len() as u64;
                ctx.traces += 1;
                // Expected.
                let mut sentence = next[w.len()].1;
                let mut last_viable = true;
                if let Some(Some(t)) = tail {
                    last_viable = next[w.len()].0 & bit(t) != 0;
                    sentence = false;
                    if last_viable {
                        c.push_tok(t);
                        sentence = c.finished();
                        c.pop();
                    }
                }
                check!(fin == sentence, "{}: accepted at the end: {fin}; is a sentence: {sentence}", what());
                for (k, &ok) in steps.iter().enumerate() {
                    if ok {
                        check!(k <= w.len() || last_viable, "{}: location {k} succeeds although no sentence begins with what was read", what());
                        continue;
                    }
                    // Rejected at location k: only if what was read plus the announced token is a dead end.
                    let justified = if k > w.len() {
                        !last_viable
                    } else if k < n && hints >> k & 1 != 0 {
                        match tok_at(k).unwrap() {
                            Some(t) => next[k].0 & bit(t) == 0,
                            None => !next[k].1,
                        }
                    } else {
                        false
                    };
                    check!(justified, "{}: rejected at location {k}, although some sentence begins with the tokens read and the announced one", what());
                }
                ctx.outcome(&(hints, n, &steps, fin));
                ctx.sample(|| format!("{} | {}: {steps:?}, accepted {fin}", s.a.g.show(), what()));
            }
        }
        Ok(())
    })
}

/// Reads all of `w` and asks for progress at every location.
fn run_obs<'a>(r: &mut NullRec<'a>, real: &Real, w: &[u16]) -> Vec<(bool, bool, Obs, Vec<i64>)> {
    let mut out = vec![];
    let mut ok = r.start();
    let mut k = 0;
    loop {
        let fin = ok && r.r.is_finished();
        let ex = r.r.is_exhausted();
        assert_eq!(ex, !ok);
        if !ok {
            out.push((ok, fin, Obs::default(), vec![]));
            return out;
        }
        let locs = r.loc_of_chart.clone();
        r.begin();
        out.push((ok, fin, r.obs(), locs));
        if k == w.len() {
            return out;
        }
        r.r.scan(real.i(w[k]), k as u32 + 1);
        ok = r.end();
        k += 1;
    }
}

#[derive(Clone)]
pub struct Info {
    pub pred: Mask,
    pub next: Mask,
    pub medial: Vec<(usize, usize, usize)>,
    pub finished: bool,
}

pub fn info(c: &Chart) -> Info {
    Info { pred: c.predicted(), next: c.next_terms(), medial: c.medial(), finished: c.finished() }
}

/// Compares one progress report with the reference. `what`: bit 0 predictions, bit 1 items in progress,
/// bit 2 trace/events/expected terminals.
fn compare(s: &Setup, obs: &Obs, locs: &[i64], inf: &Info, loc: usize, what: u32) -> Res {
    let g = &s.a.g;
    let dg = &s.real.dg;
    let names = |m: Mask| -> String { (0..g.syms() as u16).filter(|&x| m & bit(x) != 0).map(|x| g.sym_name(x)).collect::<Vec<_>>().join(" ") };
    if what & 1 != 0 {
        let got = desc_mask(s.real, &obs.predicted);
        check!(got == inf.pred, "location {loc}: predicted symbols are {{{}}}, but what can come next is {{{}}}", names(got), names(inf.pred));
        let eof = obs.predicted.contains(&dg.eof().usize());
        check!(eof == inf.finished, "location {loc}: end of input is {}predicted, but the tokens read {} a sentence", if eof { "" } else { "not " }, if inf.finished { "are" } else { "are not" });
        check!(!obs.predicted.contains(&dg.sof().usize()), "location {loc}: start of input is predicted");
    }
    if what & 2 != 0 {
        let mut got: BTreeMap<(usize, usize, usize), usize> = BTreeMap::new();
        for &(dot, origin) in &obs.medial {
            let t = dg.trace()[1][dot as usize];
            if t.id == !0 {
                check!(s.real.desc(dg.get_lhs(dot)).is_none(), "location {loc}: an item of a user's rule has no rule number");
                continue;
            }
            let Some(rule) = s.real.rule(t.id) else { return Err(format!("location {loc}: unknown rule number {}", t.id)) };
            let Some(l) = locs.get(origin as usize).copied() else { return Err(format!("location {loc}: item with unknown origin row {origin}")) };
            check!(l >= 0, "location {loc}: item of rule {rule} begins before the input");
            *got.entry((rule, t.pos as usize, l as usize)).or_insert(0) += 1;
        }
        let want: Vec<_> = inf.medial.clone();
        let have: Vec<_> = got.keys().copied().collect();
        let mut want_sorted = want;
        want_sorted.sort();
        check!(have == want_sorted, "location {loc}: items in progress (rule, dot, origin) are {have:?}, but the live ones are {want_sorted:?}");
        for (k, n) in &got {
            // Parts of rules of three or more symbols may be found in several ways.
            check!(*n == 1 || g.rules[k.0].1.len() > 2, "location {loc}: item {k:?} is reported {n} times");
        }
    }
    if what & 4 != 0 {
        let np = obs.predicted.len();
        check!(obs.trace.len() == np + obs.medial.len(), "location {loc}: the trace has {} entries for {np} predictions and {} items", obs.trace.len(), obs.medial.len());
        check!(obs.events.len() == obs.trace.len() && obs.distances.len() == obs.trace.len(), "location {loc}: {} events, {} distances, {} trace entries", obs.events.len(), obs.distances.len(), obs.trace.len());
        for k in 0..obs.trace.len() {
            check!(obs.events[k].1 == obs.distances[k], "location {loc}: minimal distance {} differs from that of the event, {}", obs.distances[k], obs.events[k].1);
        }
        let mut traced: Vec<(usize, usize, usize)> = vec![];
        for k in 0..obs.trace.len() {
            let (id, pos, origin) = obs.trace[k];
            let Some(l) = (if k < np { Some(locs.get(origin).copied().unwrap_or(-2)) } else { locs.get(origin).copied() }) else { return Err(format!("location {loc}: traced item with unknown origin row {origin}")) };
            let user = if k < np { s.real.back.get(obs.predicted[k]).copied().flatten() } else { None };
            if k < np {
                if let Some(x) = user {
                    if !g.is_term(x) {
                        let rule = s.real.rule(id);
                        check!(rule.is_some_and(|r| g.rules[r].0 == x) && pos == 0, "location {loc}: the trace entry of the prediction of {} is rule number {id}, dot {pos}", g.sym_name(x));
                        check!(l == loc as i64, "location {loc}: the trace entry of the prediction of {} has origin {l}", g.sym_name(x));
                        let e = event_of(rule.unwrap(), 0);
                        check!(obs.events[k] == e, "location {loc}: prediction of {}, traced as rule {}, has event {:?} instead of {:?}", g.sym_name(x), rule.unwrap(), obs.events[k], e);
                    } else {
                        check!(id == !0, "location {loc}: the prediction of the terminal {} is traced as rule number {id}", g.sym_name(x));
                        check!(obs.events[k].0 == !0, "location {loc}: the prediction of the terminal {} has event {}", g.sym_name(x), obs.events[k].0);
                    }
                }
            } else if id != !0 {
                let Some(rule) = s.real.rule(id) else { return Err(format!("location {loc}: unknown rule number {id} in the trace")) };
                traced.push((rule, pos as usize, l.max(0) as usize));
                let e = event_of(rule, pos as usize);
                check!(obs.events[k] == e, "location {loc}: item (rule {rule}, dot {pos}) has event {:?} instead of {:?}", obs.events[k], e);
            } else {
                check!(obs.events[k].0 == !0, "location {loc}: item without rule has event {}", obs.events[k].0);
            }
        }
        traced.sort();
        traced.dedup();
        let mut want = inf.medial.clone();
        want.sort();
        check!(traced == want, "location {loc}: the trace lists the items (rule, dot, origin) {traced:?}, but the live ones are {want:?}");
        let exp = desc_mask(s.real, &obs.expected);
        let eof = obs.expected.contains(&dg.eof().usize());
        check!(exp == inf.next, "location {loc}: expected terminals are {{{}}} instead of {{{}}}", names(exp), names(inf.next));
        check!(eof == inf.finished, "location {loc}: end of input is {}expected, but the tokens read {} a sentence", if eof { "" } else { "not " }, if inf.finished { "are" } else { "are not" });
        let known = exp.count_ones() as usize + eof as usize;
        check!(obs.expected.len() == known, "location {loc}: expected terminals list {} symbols, of which {known} are tokens", obs.expected.len());
    }
    Ok(())
}

fn progress(ctx: &mut Ctx, s: &Setup, len: usize, what: u32, rows: bool) -> Res {
    let g = &s.a.g;
    let mut infos: Vec<Info> = vec![];
    prefixes(s.a, len, &mut |c, w| {
        infos.truncate(w.len());
        infos.push(info(c));
        ctx.states += 1;
        ctx.outcome(&(infos[w.len()].pred, &infos[w.len()].medial, infos[w.len()].finished));
        if !maximal(c, w, len) {
            return Ok(());
        }
        let out = no_panic(&format!("input {}", g.show_str(w)), || run_obs(&mut null_rec(s.real), s.real, w))?;
        ctx.transitions += out.len() as u64;
        ctx.traces += 1;
        for k in 0..=w.len() {
            let at = |e: String| format!("input {}, after {k} token(s): {e}", g.show_str(&w[..k]));
            let Some((ok, fin, obs, locs)) = out.get(k) else { return Err(at("no such location".into())) };
            check!(*ok, "{}", at("reading fails although a sentence begins with it".into()));
            if rows {
                let max = obs.medial.iter().map(|m| m.1 as usize).max().unwrap_or(0);
                // `earleme` was moved on by one by `begin_earleme`.
                check!(max == 0 || obs.earleme <= max + 1, "{}", at(format!("the current location has number {}, but the latest beginning of an item in progress is row {max}", obs.earleme)));
                check!(*fin == infos[k].finished, "{}", at(format!("finished: {fin}, expected {}", infos[k].finished)));
            }
            compare(s, obs, locs, &infos[k], k, what).map_err(at)?;
        }
        ctx.sample(|| format!("{} | input {}: items in progress at the end {:?}, rows kept {}", g.show(), g.show_str(w), infos[w.len()].medial, out[w.len()].2.earleme));
        Ok(())
    })
}

pub fn r06(ctx: &mut Ctx, s: &Setup, len: usize) -> Res {
    progress(ctx, s, len, 3, true)?;
    // Failures after rows were dropped.
    let g = &s.a.g;
    prefixes(s.a, len, &mut |c, w| {
        for t in extensions(c) {
            let mut v = w.to_vec();
            v.push(t);
            let steps = no_panic(&format!("input {}", g.show_str(&v)), || run_plain(s, &v))?;
            ctx.traces += 1;
            check!(steps.len() == v.len() + 1 && !steps[v.len()].ok, "input {}: the last token is accepted although no sentence begins with this", g.show_str(&v));
        }
        Ok(())
    })
}

pub fn r07(ctx: &mut Ctx, s: &Setup, len: usize) -> Res {
    progress(ctx, s, len, 3, false)
}

pub fn r11(ctx: &mut Ctx, s: &Setup, len: usize) -> Res {
    progress(ctx, s, len, 4, false)
}

/// Reset from every kind of point.
pub fn r04(ctx: &mut Ctx, s: &Setup, len: usize) -> Res {
    let g = &s.a.g;
    let hlen = if len > 3 { len - 1 } else { 2.min(len) };
    // What a new recognizer shows on each input.
    let mut inputs: Vec<Vec<u16>> = vec![];
    prefixes(s.a, len, &mut |c, w| {
        if maximal(c, w, len) {
            inputs.push(w.to_vec());
        }
        for t in extensions(c) {
            let mut v = w.to_vec();
            v.push(t);
            inputs.push(v);
        }
        Ok(())
    })?;
    type Shown = Vec<(bool, bool, Obs, Vec<i64>)>;
    let mut fresh: Vec<Shown> = vec![];
    for w in &inputs {
        let f = no_panic(&format!("input {}", g.show_str(w)), || run_obs(&mut null_rec(s.real), s.real, w))?;
        fresh.push(f);
    }
    // What it shows at its first location, with the start of input or something else (or nothing) there.
    let mut firsts: Vec<Option<Symbol>> = vec![None, Some(s.real.dg.sof())];
    firsts.extend(g.alpha.iter().filter(|&&t| s.a.occurs & bit(t) != 0).map(|&t| Some(s.real.i(t))));
    let at_first = |r: &mut NullRec, x: Option<Symbol>| {
        let finished = r.r.is_finished();
        r.begin();
        let before = (finished, r.obs());
        if let Some(x) = x {
            r.r.scan(x, 1);
        }
        let ok = r.end();
        (before, ok, r.r.is_exhausted(), ok && r.r.is_finished())
    };
    let mut fresh_first = vec![];
    for &x in &firsts {
        fresh_first.push(no_panic("first location", || at_first(&mut null_rec(s.real), x))?);
    }
    // Histories.
    let mut hist: Vec<(Vec<u16>, usize, Vec<Symbol>)> = vec![];
    let int: Vec<Symbol> = g.alpha.iter().filter(|&&t| s.a.occurs & bit(t) != 0).map(|&t| s.real.i(t)).collect();
    let mut hints = int.clone();
    hints.push(s.real.dg.eof());
    for m in 0..5 {
        hist.push((vec![], 100 + m, vec![]));
    }
    for &h in &hints {
        hist.push((vec![], 105, vec![h]));
        hist.push((vec![], 106, vec![h]));
    }
    prefixes(s.a, hlen, &mut |c, w| {
        hist.push((w.to_vec(), 0, vec![]));
        hist.push((w.to_vec(), 1, vec![]));
        for &t in &int {
            hist.push((w.to_vec(), 2, vec![t]));
            hist.push((w.to_vec(), 3, vec![t]));
            hist.push((w.to_vec(), 4, vec![t]));
            hist.push((w.to_vec(), 5, vec![t]));
        }
        for &h in &hints {
            hist.push((w.to_vec(), 6, vec![h]));
            for &t in &int {
                hist.push((w.to_vec(), 7, vec![t, h]));
                hist.push((w.to_vec(), 8, vec![t, h]));
            }
        }
        let _ = c;
        Ok(())
    })?;
    let show = |h: &(Vec<u16>, usize, Vec<Symbol>)| -> String {
        let n = |k: usize| h.2.get(k).map_or(String::new(), |&x| s.real.desc(x).map_or("end of input".into(), |d| g.sym_name(d)));
        match h.1 {
            0 => format!("{} read", g.show_str(&h.0)),
            1 => format!("{} read, a location begun", g.show_str(&h.0)),
            2 => format!("{} read, a location begun, {} scanned", g.show_str(&h.0), n(0)),
            3 => format!("{} read, then {} (which may fail)", g.show_str(&h.0), n(0)),
            4 => format!("{} read, a location begun, {} scanned, the first completion group completed", g.show_str(&h.0), n(0)),
            5 => format!("{} read, a location begun, {} scanned, all groups completed", g.show_str(&h.0), n(0)),
            6 => format!("{} read, a location begun, {} announced", g.show_str(&h.0), n(0)),
            7 => format!("{} read, a location begun, {} announced, {} scanned", g.show_str(&h.0), n(1), n(0)),
            8 => format!("{} read, then {} with {} announced (which may fail)", g.show_str(&h.0), n(0), n(1)),
            100 => "nothing done".into(),
            101 => "first location begun".into(),
            102 => "first location begun and start of input scanned".into(),
            103 => "first location begun and ended with nothing scanned".into(),
            104 => "reset twice".into(),
            105 => format!("first location begun, {} announced", n(0)),
            _ => format!("{} announced before anything else", n(0)),
        }
    };
    for h in &hist {
        // The recognizer goes through this history, a reset, an input, a reset, the history again, ... so
        // that resets after resets are covered as well.
        let play = |r: &mut NullRec| {
            if h.1 >= 100 {
                match h.1 {
                    100 => {}
                    101 => r.begin(),
                    102 => {
                        r.begin();
                        let sof = s.real.dg.sof();
                        r.r.scan(sof, 0);
                    }
                    103 => {
                        r.begin();
                        r.end();
                    }
                    104 => r.reset(),
                    105 => {
                        r.begin();
                        r.hint(h.2[0]);
                    }
                    _ => r.hint(h.2[0]),
                }
                return;
            }
            r.start();
            for (k, &t) in h.0.iter().enumerate() {
                r.read(s.real.i(t), k as u32);
            }
            match h.1 {
                0 => {}
                1 => r.begin(),
                2 => {
                    r.begin();
                    r.r.scan(h.2[0], 5);
                }
                3 => {
                    r.read(h.2[0], 5);
                }
                4 => {
                    r.begin();
                    r.r.scan(h.2[0], 5);
                    if let Some(mut sum) = r.r.next_sum() {
                        sum.complete_entire_sum();
                    }
                }
                5 => {
                    r.begin();
                    r.r.scan(h.2[0], 5);
                    r.r.complete_all_sums_entirely();
                }
                6 => {
                    r.begin();
                    r.hint(h.2[0]);
                }
                7 => {
                    r.begin();
                    r.hint(h.2[1]);
                    r.r.scan(h.2[0], 5);
                }
                _ => {
                    r.begin();
                    r.hint(h.2[1]);
                    r.r.scan(h.2[0], 5);
                    r.end();
                }
            }
        };
        for (k, &x) in firsts.iter().enumerate() {
            let name = x.map_or("nothing".into(), |x| s.real.desc(x).map_or("the start of input".into(), |d| g.sym_name(d)));
            let got = no_panic(&format!("history: {}; reset; a first location with {name}", show(h)), || {
                let mut r = null_rec(s.real);
                play(&mut r);
                r.reset();
                at_first(&mut r, x)
            })?;
            ctx.traces += 1;
            ctx.transitions += 1 + h.0.len() as u64;
            check!(got == fresh_first[k], "history: {}; reset; a first location with {name} shows {got:?}, with a new recognizer {:?}", show(h), fresh_first[k]);
        }
        for (w, expect) in inputs.iter().zip(&fresh) {
            let got = no_panic(&format!("history: {}; reset; input {}", show(h), g.show_str(w)), || {
                let mut r = null_rec(s.real);
                play(&mut r);
                r.reset();
                run_obs(&mut r, s.real, w)
            })?;
            ctx.traces += 1;
            ctx.transitions += got.len() as u64 + h.0.len() as u64;
            if &got != expect {
                let k = got.iter().zip(expect).position(|(a, b)| a != b).unwrap_or(got.len().min(expect.len()));
                return Err(format!("history: {}; reset; input {}: location {k} shows {:?}, a new recognizer shows {:?}", show(h), g.show_str(w), got.get(k), expect.get(k)));
            }
        }
        ctx.states += 1;
        ctx.outcome(&show(h));
        ctx.sample(|| format!("{} | history: {}; reset; {} inputs agree with a new recognizer", g.show(), show(h), inputs.len()));
    }
    Ok(())
}

/// Sets of tokens at each location.
pub fn r05(ctx: &mut Ctx, s: &Setup, len: usize) -> Res {
    let g = &s.a.g;
    let alpha: Vec<u16> = g.alpha.iter().copied().filter(|&t| s.a.occurs & bit(t) != 0).take(4).collect();
    let mut lists = token_lists(&alpha);
    if alpha.len() > 2 {
        // All sets, in one ascending and one descending order.
        lists.retain(|l| l.windows(2).all(|p| p[0] < p[1]) || l.windows(2).all(|p| p[0] > p[1]));
    }
    fn go(ctx: &mut Ctx, s: &Setup, c: &mut Chart, w: &mut Vec<Vec<u16>>, fin: &mut Vec<bool>, lists: &[Vec<u16>], max: usize) -> Res {
        let g = &s.a.g;
        ctx.states += 1;
        fin.push(c.finished());
        let show = |w: &[Vec<u16>]| w.iter().map(|l| g.show_str(l)).collect::<Vec<_>>().join(" ");
        let judge = |w: &[Vec<u16>], viable: usize, fin: &[bool], ctx: &mut Ctx| -> Res {
            let steps = no_panic(&format!("token sets {}", show(w)), || {
                let mut r = null_rec(s.real);
                let mut out = vec![];
                let mut ok = r.start();
                out.push((ok, ok && r.r.is_finished()));
                for l in w {
                    if !ok {
                        break;
                    }
                    r.begin();
                    for (k, &t) in l.iter().enumerate() {
                        r.r.scan(s.real.i(t), k as u32);
                    }
                    ok = r.end();
                    out.push((ok, ok && r.r.is_finished()));
                }
                out
            })?;
            ctx.traces += 1;
            ctx.transitions += steps.len() as u64;
            for k in 0..=w.len() {
                let want = (k <= viable, k <= viable && fin[k]);
                let got = steps.get(k).copied().unwrap_or((false, false));
                check!(got == want, "token sets {}: after {k} location(s), (success, finished) is {got:?} but should be {want:?}", show(w));
            }
            ctx.outcome(&(show(w), &steps));
            ctx.sample(|| format!("{} | token sets {}: {steps:?}", g.show(), show(w)));
            Ok(())
        };
        let mut leaf = true;
        for l in lists {
            let m = mask_of(l);
            if c.next_terms() & m != 0 {
                if w.len() < max {
                    leaf = false;
                    c.push(m);
                    w.push(l.clone());
                    go(ctx, s, c, w, fin, lists, max)?;
                    w.pop();
                    c.pop();
                }
            } else {
                w.push(l.clone());
                judge(w, w.len() - 1, fin, ctx)?;
                w.pop();
            }
        }
        if leaf {
            judge(w, w.len(), fin, ctx)?;
        }
        fin.pop();
        Ok(())
    }
    go(ctx, s, &mut Chart::new(s.a), &mut vec![], &mut vec![], &lists, len)
}

/// Completion groups of a location, in order: (symbol of the description or none, origin row, rules of the items).
type Groups = Vec<(Option<u16>, i64, Vec<usize>)>;

pub fn r08(ctx: &mut Ctx, s: &Setup, len: usize) -> Res {
    let g = &s.a.g;
    let mut infos: Vec<Vec<(u16, usize, Vec<(usize, usize)>)>> = vec![];
    prefixes(s.a, len, &mut |c, w| {
        infos.truncate(w.len());
        let j = c.at();
        infos.push(c.groups().into_iter().map(|(x, i)| (x, i, c.splits(x, i, j))).collect());
        ctx.states += 1;
        ctx.outcome(&infos[w.len()]);
        if !maximal(c, w, len) {
            return Ok(());
        }
        let out: Result<Vec<Groups>, String> = no_panic(&format!("input {}", g.show_str(w)), || {
            let mut r = null_rec(s.real);
            let mut all = vec![];
            for k in 0..=w.len() {
                r.begin();
                if k == 0 {
                    let sof = s.real.dg.sof();
                    r.r.scan(sof, 0);
                } else {
                    r.r.scan(s.real.i(w[k - 1]), 1);
                }
                let mut groups: Groups = vec![];
                while let Some(mut sum) = r.r.next_sum() {
                    let (sym, origin) = (sum.symbol(), sum.origin());
                    let mut items = vec![];
                    while let Some(item) = sum.next_summand() {
                        items.push(item);
                        sum.push_summand(item);
                    }
                    sum.complete_sum();
                    let mut rules = vec![];
                    for it in items {
                        if it.origin != origin || s.real.dg.get_lhs(it.dot) != sym {
                            return Err(format!("a group of symbol {sym:?}, origin {origin} offers an item of another symbol or origin: {it:?}"));
                        }
                        let id = s.real.dg.external_origin(it.dot).id;
                        rules.push(s.real.rule(id).unwrap_or(usize::MAX));
                    }
                    rules.sort();
                    let Some(loc) = r.loc(origin as usize) else { return Err(format!("a group with unknown origin row {origin}")) };
                    groups.push((s.real.desc(sym), loc, rules));
                }
                if r.r.is_exhausted() {
                    return Err(format!("location {k}: nothing in progress after completion"));
                }
                r.r.advance_after_completion();
                r.ended();
                all.push(groups);
            }
            Ok(all)
        })?;
        let out = out.map_err(|e| format!("input {}: {e}", g.show_str(w)))?;
        ctx.traces += 1;
        for (k, groups) in out.iter().enumerate() {
            ctx.transitions += groups.len() as u64;
            let at = || format!("input {}, location {k}: groups (symbol, origin) in order: {:?}", g.show_str(&w[..k]), groups.iter().map(|x| (x.0.map(|d| g.sym_name(d)), x.1)).collect::<Vec<_>>());
            for p in groups.windows(2) {
                check!(p[0].1 >= p[1].1, "{}: origins increase", at());
            }
            let mut got: Vec<(u16, usize)> = groups.iter().filter_map(|x| x.0.map(|d| (d, x.1.max(0) as usize))).collect();
            got.sort();
            for p in got.windows(2) {
                check!(p[0] != p[1], "{}: {} from {} comes up more than once", at(), g.sym_name(p[0].0), p[0].1);
            }
            let mut want: Vec<(u16, usize)> = infos[k].iter().map(|x| (x.0, x.1)).collect();
            want.sort();
            check!(got == want, "{}; but the fragments that match and were predicted are {:?}", at(), want.iter().map(|x| (g.sym_name(x.0), x.1)).collect::<Vec<_>>());
            for (x, o, rules) in groups {
                let Some(x) = x else { continue };
                let (_, _, splits) = infos[k].iter().find(|f| f.0 == *x && f.1 as i64 == *o).unwrap();
                let mut have = rules.clone();
                have.dedup();
                let should: Vec<usize> = splits.iter().map(|p| p.0).collect();
                check!(have == should, "{}: the group of {} from {o} offers alternatives of the rules {have:?}, but the ones that match are {should:?}", at(), g.sym_name(*x));
                for &(ri, n) in splits {
                    let m = rules.iter().filter(|&&r| r == ri).count();
                    let long = g.rules[ri].1.len() > 2;
                    check!(if long { m >= n } else { m == n }, "{}: the group of {} from {o} has {m} alternatives of rule {ri}, but there are {n} ways to split it", at(), g.sym_name(*x));
                }
            }
        }
        ctx.sample(|| format!("{} | input {}: groups at the last location {:?}", g.show(), g.show_str(w), out.last().unwrap().iter().map(|x| (x.0.map(|d| g.sym_name(d)), x.1, x.2.len())).collect::<Vec<_>>()));
        Ok(())
    })
}

/// Skipping completion groups, in all combinations.
pub fn r10(ctx: &mut Ctx, s: &Setup, len: usize) -> Res {
    let g = &s.a.g;
    let mut inputs: Vec<Vec<u16>> = vec![];
    prefixes(s.a, len, &mut |c, w| {
        if maximal(c, w, len) {
            inputs.push(w.to_vec());
        }
        Ok(())
    })?;
    for w in &inputs {
        let mut ch = Chooser::default();
        let mut runs = 0u64;
        loop {
            // One execution: at each group of a user's symbol, complete or skip.
            type Loc = (Vec<(u16, usize, bool)>, bool, bool, Obs, Vec<i64>);
            let (out, back): (Vec<Loc>, Chooser) = {
                let mut c2 = ch.clone();
                let r = no_panic(&format!("input {}, decisions {:?}", g.show_str(w), ch.decisions()), || {
                    let mut r = null_rec(s.real);
                    let mut all: Vec<Loc> = vec![];
                    for k in 0..=w.len() {
                        r.begin();
                        if k == 0 {
                            let sof = s.real.dg.sof();
                            r.r.scan(sof, 0);
                        } else {
                            // Progress of the location before.
                            let obs = r.obs();
                            let locs = r.loc_of_chart.clone();
                            let l = all.last_mut().unwrap();
                            l.3 = obs;
                            l.4 = locs;
                            r.r.scan(s.real.i(w[k - 1]), 1);
                        }
                        let mut groups = vec![];
                        let locs = r.loc_of_chart.clone();
                        while let Some(mut sum) = r.r.next_sum() {
                            let d = s.real.desc(sum.symbol());
                            let o = locs.get(sum.origin() as usize).copied().unwrap_or(-9);
                            if let Some(d) = d {
                                let skip = c2.choose(2) == 1;
                                groups.push((d, o.max(0) as usize, skip));
                                if skip {
                                    sum.skip_entire_sum();
                                } else if all.len() % 2 == 0 {
                                    sum.complete_entire_sum();
                                } else {
                                    while let Some(item) = sum.next_summand() {
                                        sum.push_summand(item);
                                    }
                                    sum.complete_sum();
                                }
                            } else {
                                sum.complete_entire_sum();
                            }
                        }
                        r.r.lookahead().clear_hint();
                        if r.r.is_exhausted() {
                            all.push((groups, false, false, Obs::default(), vec![]));
                            return all;
                        }
                        r.r.advance_after_completion();
                        r.ended();
                        let fin = r.r.is_finished();
                        all.push((groups, true, fin, Obs::default(), vec![]));
                    }
                    r.begin();
                    let l = all.last_mut().unwrap();
                    l.3 = r.obs();
                    l.4 = r.loc_of_chart.clone();
                    all
                })?;
                (r, c2)
            };
            ch = back;
            ctx.traces += 1;
            runs += 1;
            // The restricted language.
            let mut c = Chart::new(s.a);
            let show = || out.iter().map(|l| format!("{:?}", l.0.iter().map(|x| format!("{}{}@{}", if x.2 { "skip " } else { "" }, g.sym_name(x.0), x.1)).collect::<Vec<_>>())).collect::<Vec<_>>().join(" ");
            for (k, l) in out.iter().enumerate() {
                ctx.transitions += l.0.len() as u64 + 1;
                if k > 0 {
                    for x in &l.0 {
                        if x.2 {
                            c.banned.push((x.0, x.1, k));
                        }
                    }
                    c.push_tok(w[k - 1]);
                }
                let mut got: Vec<(u16, usize)> = l.0.iter().map(|x| (x.0, x.1)).collect();
                got.sort();
                let want = c.groups();
                let mut want_sorted = want;
                want_sorted.sort();
                let at = || format!("input {}, location {k}, groups and decisions {}", g.show_str(w), show());
                check!(got == want_sorted, "{}: the groups offered should be {:?}", at(), want_sorted.iter().map(|x| (g.sym_name(x.0), x.1)).collect::<Vec<_>>());
                // Reading the token itself fails if it was not predicted; that is the same as an empty location.
                check!(l.1 == c.viable(), "{}: the parse {} go on, but in the restricted language it {}", at(), if l.1 { "can" } else { "cannot" }, if c.viable() { "can" } else { "cannot" });
                if !l.1 {
                    break;
                }
                check!(l.2 == c.finished(), "{}: finished is {}", at(), l.2);
                compare(s, &l.3, &l.4, &info(&c), k, 3).map_err(|e| format!("{}: {e}", at()))?;
                ctx.outcome(&(k, c.predicted(), c.finished(), &got));
            }
            ctx.sample(|| format!("{} | input {}: {}", g.show(), g.show_str(w), show()));
            if !ch.next() {
                break;
            }
            if runs >= 60_000 {
                ctx.count("inputs with more than 60000 decision sequences (cut off)", 1);
                break;
            }
        }
        ctx.states += 1;
    }
    Ok(())
}

/// Long inputs of grammars whose rules in progress always begin near the start: the table must not grow.
pub fn r06_long_units(n: usize) -> Vec<mclib::Unit> {
    let cases: Vec<(&str, &str, &str, usize)> = vec![
        ("left recursion", "S = S a | a", "a", 3),
        ("left recursion, two symbols", "S = S a b | a b", "ab", 3),
        ("list with separator", "S = S , L | L; L = L a | a", "a,aa,", 6),
        ("sums of products", "S = S + T | T; T = T * F | F; F = ( S ) | a", "a+a*a+(a)*a+", 8),
        ("left recursion with an empty part", "S = S E a | ; E = | b", "aba", 4),
    ];
    let mut units = vec![];
    for (name, text, period, most) in cases {
        let g = crate::gram::Gram::parse(name, text);
        let w: Vec<u16> = {
            let mut chars: Vec<char> = text.chars().filter(|c| c.is_ascii_lowercase() || "+*()-.,".contains(*c)).collect();
            chars.sort();
            chars.dedup();
            period.chars().map(|c| (g.nts + chars.iter().position(|&x| x == c).unwrap()) as u16).collect()
        };
        units.push(mclib::unit(format!("{name}: {n} tokens"), move |ctx| {
            let a = crate::refr::Ana::new(g.clone());
            let o = Order::identity(&g);
            let real = no_panic("compiling the grammar", || Real::new(&g, &o, false))?;
            let mut worst = 0;
            no_panic(&format!("grammar {{ {} }}, {} repeated to {n} tokens", g.show(), g.show_str(&w)), || {
                let mut r = null_rec(&real);
                r.start();
                let mut c = Chart::new(&a);
                for k in 0..n {
                    let t = w[k % w.len()];
                    if !r.read(real.i(t), k as u32) {
                        return Err(format!("reading token {k} fails"));
                    }
                    // The reference runs along as far as it can.
                    if k < 60 {
                        c.push_tok(t);
                        check!(c.viable(), "the input was meant to be viable");
                        check!(c.finished() == r.r.is_finished(), "after {} tokens, finished is {}", k + 1, r.r.is_finished());
                    }
                    worst = worst.max(r.r.earleme());
                    check!(r.r.earleme() <= most, "after {} tokens, the table has {} rows; rules in progress never need more than {most}", k + 1, r.r.earleme());
                }
                Ok(())
            })
            .and_then(|r| r)
            .map_err(|e| format!("grammar {{ {} }}, {} repeated: {e}", g.show(), g.show_str(&w)))?;
            ctx.states += n as u64;
            ctx.traces += 1;
            ctx.transitions += n as u64;
            ctx.sample(|| format!("{} | {n} tokens, at most {worst} rows", g.show()));
            Ok(())
        }));
    }
    units
}

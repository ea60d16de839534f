//! The same fragments, far down in the table: every sentence of a grammar, parsed inside of tens of thousands of open
//! brackets, looks exactly as inside of a few.
use crate::drive::{orders_of, prefixes, Orders};
use crate::gram::Gram;
use crate::plans::{curated, families};
use crate::real::*;
use crate::refr::Ana;
use gearley_grammar::Grammar;
use mclib::{check, no_panic, unit, Ctx, Res, Tier, Unit};

/// What a location shows, with rows counted from where the fragment begins.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct Seen {
    row: i64,
    predicted: Vec<usize>,
    medial: Vec<(u32, i64)>,
    trace: Vec<(u32, u32, i64)>,
    expected: Vec<usize>,
    groups: Vec<(usize, i64, Vec<u32>)>,
}

/// Z ::= open Y close; Y ::= (nothing) | Y S end | Y Z, around the grammar of S.
fn embed(g: &Gram) -> Gram {
    let old = |s: u16| if g.is_term(s) { s + 5 } else { s + 2 };
    let (open, close, end) = ((g.nts + 2) as u16, (g.nts + 3) as u16, (g.nts + 4) as u16);
    let mut rules = vec![(0, vec![open, 1, close]), (1, vec![]), (1, vec![1, 2, end]), (1, vec![1, 0])];
    rules.extend(g.rules.iter().map(|(l, r)| (old(*l), r.iter().map(|&s| old(s)).collect())));
    let mut e = Gram::new(&g.name, g.nts + 2, g.ts + 3, rules);
    e.names = ["Z", "Y"].iter().map(|s| s.to_string()).collect();
    e.names.extend((0..g.nts).map(|s| g.sym_name(s as u16)));
    e.names.extend(["<", ">", "!"].iter().map(|s| s.to_string()));
    e.names.extend((0..g.ts).map(|s| g.sym_name((g.nts + s) as u16)));
    e
}

struct Depth<'a> {
    real: &'a Real,
    r: NullRec<'a>,
    groups: bool,
}

impl<'a> Depth<'a> {
    /// Inside of that many brackets, at which nothing else has been read at the innermost but one level.
    fn new(real: &'a Real, open: u16, n: usize, groups: bool) -> Result<Self, String> {
        let mut d = Depth { real, r: null_rec(real), groups };
        check!(d.r.start(), "reading the start of input fails");
        for k in 0..n {
            check!(d.r.read(real.i(open), 0), "reading opening bracket {k} fails");
        }
        Ok(d)
    }
    fn read(&mut self, t: u16, base: usize) -> Result<Seen, String> {
        let mut seen = Seen::default();
        let rel = |o: usize| o as i64 - base as i64;
        self.r.begin();
        if !self.groups {
            let o = self.r.obs();
            seen.row = rel(o.earleme);
            seen.predicted = o.predicted;
            seen.medial = o.medial.iter().map(|&(d, o)| (d, rel(o as usize))).collect();
            seen.medial.sort();
            seen.trace = o.trace.iter().map(|&(a, b, o)| (a, b, rel(o))).collect();
            seen.trace.sort();
            seen.expected = o.expected;
            self.r.r.scan(self.real.i(t), 0);
            check!(self.r.end(), "reading fails although a sentence begins with the tokens");
            return Ok(seen);
        }
        self.r.r.scan(self.real.i(t), 0);
        let mut last = usize::MAX;
        while let Some(mut sum) = self.r.r.next_sum() {
            let (sym, origin) = (sum.symbol().usize(), sum.origin() as usize);
            check!(origin <= last, "the completions of a location begin at rows {last} and then {origin}, in that order");
            last = origin;
            let mut dots = vec![];
            while let Some(item) = sum.next_summand() {
                dots.push(item.dot);
                sum.push_summand(item);
            }
            sum.complete_sum();
            dots.sort();
            seen.groups.push((sym, rel(origin), dots));
        }
        check!(!self.r.r.is_exhausted(), "reading fails although a sentence begins with the tokens");
        self.r.r.advance_after_completion();
        self.r.ended();
        seen.row = rel(self.r.r.earleme());
        seen.groups.sort();
        Ok(seen)
    }
    /// Closes a level and then reads every sentence.
    fn level(&mut self, close: u16, end: u16, words: &[Vec<u16>]) -> Result<Vec<Vec<Seen>>, String> {
        check!(self.r.read(self.real.i(close), 0), "reading a closing bracket fails");
        let mut all = vec![];
        for w in words {
            let base = self.r.r.earleme();
            let mut v = vec![];
            for (k, &t) in w.iter().chain([&end]).enumerate() {
                v.push(self.read(t, base).map_err(|e| format!("fragment {w:?}, token {k}: {e}"))?);
            }
            all.push(v);
        }
        Ok(all)
    }
}

fn one(ctx: &mut Ctx, g: &Gram, o: &Order, e: &Gram, words: &[Vec<u16>], bounds: &[usize], prop: &str) -> Res {
    let (open, close, end) = ((g.nts + 2) as u16, (g.nts + 3) as u16, (g.nts + 4) as u16);
    let real = Real::new(e, o, false);
    let groups = prop == "R08" || prop == "R01";
    let keep = |s: Seen| match prop {
        "R01" => Seen::default(),
        "R06" => Seen { row: s.row, ..Seen::default() },
        "R07" => Seen { predicted: s.predicted, medial: s.medial, ..Seen::default() },
        "R08" => Seen { groups: s.groups, ..Seen::default() },
        "R11" => Seen { trace: s.trace, expected: s.expected, ..Seen::default() },
        _ => unreachable!(),
    };
    let near = Depth::new(&real, open, 7, groups)?.level(close, end, words)?;
    let longest = words.iter().map(|w| w.len()).max().unwrap_or(0);
    for &b in bounds {
        let top = b + 3;
        let mut d = Depth::new(&real, open, top, groups).map_err(|x| format!("inside of {top} brackets: {x}"))?;
        for level in (b - longest - 4..top).rev() {
            let far = d.level(close, end, words).map_err(|x| format!("inside of {level} brackets: {x}"))?;
            for (k, w) in words.iter().enumerate() {
                for i in 0..=w.len() {
                    let (x, y) = (keep(near[k][i].clone()), keep(far[k][i].clone()));
                    check!(x == y, "{} after {}, inside of {level} brackets: {y:?}; inside of 6 brackets: {x:?}", e.show_str(w), e.show_str(&w[..i]));
                    ctx.transitions += 1;
                }
                ctx.traces += 1;
            }
            ctx.states += 1;
        }
        // All the way out, for the verdict.
        if prop == "R01" {
            let mut level = b - longest - 4;
            while level > 0 {
                check!(!d.r.r.is_finished(), "finished inside of {level} brackets");
                level -= 1;
                check!(d.r.read(real.i(close), 0), "reading the closing bracket of level {level} fails");
            }
            check!(d.r.r.is_finished(), "not finished after all of {top} brackets are closed");
        }
    }
    ctx.outcome(&near);
    Ok(())
}

pub fn extend(units: (Vec<Unit>, String), prop: &'static str, t: Tier) -> (Vec<Unit>, String) {
    let (mut u, mut b) = units;
    let len = t.pick(5, 6);
    let mut add = |grams: Vec<Gram>, bounds: Vec<usize>, len: usize| {
        let bounds_text = bounds.clone();
        u.push(unit(format!("fragments of {} grammars near row numbers {bounds_text:?}, from {}", grams.len(), grams[0].show()), move |ctx| {
            for g in &grams {
                let e = embed(g);
                let a = Ana::new(g.clone());
                let mut words = vec![];
                prefixes(&a, len, &mut |c, w| {
                    if c.finished() && words.len() < 200 {
                        words.push(w.iter().map(|&t| t + 5).collect::<Vec<u16>>());
                    }
                    Ok(())
                })?;
                for o in orders_of(&e, Orders::Some(2)) {
                    no_panic("the recognizer", || one(ctx, g, &o, &e, &words, &bounds, prop)).and_then(|r| r).map_err(|x| format!("grammar {{ {} }} (symbols declared in the order {:?}): {x}", e.show(), o.syms))?;
                }
            }
            Ok(())
        }));
    };
    let usable = |g: &Gram| {
        let a = Ana::new(g.clone());
        a.usable() && a.all_useful()
    };
    let listed: Vec<Gram> = curated().into_iter().filter(|g| g.syms() < 20 && usable(g)).collect();
    let small: Vec<Gram> = families(t.pick(0, 1)).iter().flat_map(|f| (0..f.size()).map(|i| f.get(i)).filter(|g| g.canonical() && usable(g)).collect::<Vec<_>>()).collect();
    let n = (listed.len(), small.len());
    for g in &listed {
        add(vec![g.clone()], vec![128, 256, 32_768, 65_536], len);
    }
    for c in small.chunks(8) {
        add(c.to_vec(), if t == Tier::Quick { vec![256] } else { vec![128, 256, 65_536] }, len);
    }
    b += &format!("; the sentences of {} larger and {} small grammars inside of as many brackets as there are rows up to 128, 256, 32768 and 65536 (at every offset from these numbers)", n.0, n.1);
    (u, b)
}

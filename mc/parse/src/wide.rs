//! Grammars with hundreds of symbols and inputs with tens of thousands of tokens: the same properties on selected large
//! cases, against a plain textbook recognizer that has no limit on the number of symbols (no empty rules).
use crate::drive::Orders;
use crate::gram::Gram;
use crate::real::*;
use crate::refr::Terms;
use gearley_grammar::Grammar;
use mclib::{check, no_panic, unit, Ctx, Res, Tier, Unit};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap, HashSet};

pub type Item = (usize, usize, usize);

/// The textbook algorithm.
pub struct Plain<'a> {
    g: &'a Gram,
    by_lhs: Vec<Vec<usize>>,
    null: Vec<bool>,
    sets: Vec<Vec<Item>>,
    /// Matches (of a symbol, from, to) that are not used to continue.
    skip: Option<fn(u16, usize, usize) -> bool>,
}

/// Symbols that derive nothing but the empty string never match tokens.
fn nullables(g: &Gram) -> Vec<bool> {
    let mut null = vec![false; g.syms()];
    while let Some((l, _)) = g.rules.iter().find(|(l, r)| !null[*l as usize] && r.iter().all(|&x| null[x as usize])) {
        null[*l as usize] = true;
    }
    null
}

impl<'a> Plain<'a> {
    pub fn new(g: &'a Gram) -> Self {
        let mut by_lhs = vec![vec![]; g.nts];
        for (i, r) in g.rules.iter().enumerate() {
            by_lhs[r.0 as usize].push(i);
        }
        let mut p = Plain { g, by_lhs, null: nullables(g), sets: vec![], skip: None };
        let first = p.by_lhs[0].iter().map(|&r| (r, 0, 0)).collect();
        p.close(first);
        p
    }
    fn close(&mut self, kernel: Vec<Item>) {
        let k = self.sets.len();
        let mut seen: HashSet<Item> = kernel.iter().copied().collect();
        let mut v: Vec<Item> = seen.iter().copied().collect();
        let mut n = 0;
        while n < v.len() {
            let (r, d, o) = v[n];
            n += 1;
            let new: Vec<Item> = match self.g.rules[r].1.get(d) {
                Some(&x) if self.g.is_term(x) => vec![],
                Some(&x) => {
                    let mut v: Vec<Item> = self.by_lhs[x as usize].iter().map(|&r| (r, 0, k)).collect();
                    if self.null[x as usize] {
                        v.push((r, d + 1, o));
                    }
                    v
                }
                // Symbols that match nothing are stepped over at once.
                None if o == k => vec![],
                None if self.skip.is_some_and(|f| f(self.g.rules[r].0, o, k)) => vec![],
                None => {
                    let lhs = self.g.rules[r].0;
                    self.sets[o].iter().filter(|i| self.g.rules[i.0].1.get(i.1) == Some(&lhs)).map(|i| (i.0, i.1 + 1, i.2)).collect()
                }
            };
            for i in new {
                if seen.insert(i) {
                    v.push(i);
                }
            }
        }
        self.sets.push(v);
    }
    pub fn skipping(g: &'a Gram, skip: fn(u16, usize, usize) -> bool) -> Self {
        Plain { skip: Some(skip), ..Self::new(g) }
    }
    pub fn push(&mut self, t: u16) -> bool {
        self.push_any(&[t])
    }
    pub fn push_any(&mut self, ts: &[u16]) -> bool {
        let kernel: Vec<Item> = self.sets.last().unwrap().iter().filter(|i| self.g.rules[i.0].1.get(i.1).is_some_and(|t| ts.contains(t))).map(|i| (i.0, i.1 + 1, i.2)).collect();
        if kernel.is_empty() {
            return false;
        }
        self.close(kernel);
        true
    }
    pub fn pop(&mut self) {
        self.sets.pop();
    }
    pub fn postdot(&self) -> BTreeSet<u16> {
        self.sets.last().unwrap().iter().filter_map(|i| self.g.rules[i.0].1.get(i.1).copied()).chain((self.sets.len() == 1).then_some(0)).collect()
    }
    pub fn next(&self) -> Vec<u16> {
        self.postdot().into_iter().filter(|&x| self.g.is_term(x)).collect()
    }
    pub fn finished(&self) -> bool {
        !self.skip.is_some_and(|f| f(0, 0, self.sets.len() - 1)) && self.sets.last().unwrap().iter().any(|i| i.2 == 0 && self.g.rules[i.0].0 == 0 && self.g.rules[i.0].1.len() == i.1)
    }
    /// Items that have matched some tokens and can match more.
    pub fn medial(&self) -> Vec<Item> {
        let k = self.sets.len() - 1;
        let mut v: Vec<Item> = self.sets.last().unwrap().iter().copied().filter(|i| i.2 < k && i.1 < self.g.rules[i.0].1.len()).collect();
        v.sort();
        v
    }
    /// Groups of matches that end at a location: symbol, origin, rules.
    pub fn groups(&self, j: usize) -> Vec<(u16, usize, Vec<usize>)> {
        let mut m: std::collections::BTreeMap<(u16, usize), BTreeSet<usize>> = Default::default();
        for i in self.sets[j].iter().filter(|i| i.2 < j && i.1 == self.g.rules[i.0].1.len()) {
            m.entry((self.g.rules[i.0].0, i.2)).or_default().insert(i.0);
        }
        m.into_iter().map(|((x, o), r)| (x, o, r.into_iter().collect())).collect()
    }
    /// Whether nothing continues.
    pub fn dead(&self) -> bool {
        self.medial().is_empty() && !self.finished()
    }
    /// What matches the tokens from one location to another, in some derivation of the beginning.
    fn matches(&self) -> HashSet<(u16, usize, usize)> {
        let mut m = HashSet::new();
        for (j, s) in self.sets.iter().enumerate() {
            m.extend(s.iter().filter(|i| i.2 < j && i.1 == self.g.rules[i.0].1.len()).map(|i| (self.g.rules[i.0].0, i.2, j)));
        }
        m
    }
}

/// First symbols of everything, reflexive and transitive.
fn corners(g: &Gram) -> Vec<Vec<bool>> {
    let n = g.syms();
    let null = nullables(g);
    let mut m = vec![vec![false; n]; n];
    for s in 0..n {
        let mut todo = vec![s];
        m[s][s] = true;
        while let Some(x) = todo.pop() {
            for r in g.rules.iter().filter(|r| r.0 as usize == x) {
                for &y in &r.1 {
                    let y = y as usize;
                    if !m[s][y] {
                        m[s][y] = true;
                        todo.push(y);
                    }
                    if !null[y] {
                        break;
                    }
                }
            }
        }
    }
    m
}

/// Terminals that can follow each symbol; index `syms()` is the end of input.
fn follows(g: &Gram, corner: &[Vec<bool>]) -> Vec<Vec<bool>> {
    let n = g.syms();
    let mut f = vec![vec![false; n + 1]; n];
    f[0][n] = true;
    let null = nullables(g);
    loop {
        let mut changed = false;
        for (l, rhs) in &g.rules {
            for i in 0..rhs.len() {
                let x = rhs[i] as usize;
                let mut add = vec![false; n + 1];
                let mut through = true;
                for &y in &rhs[i + 1..] {
                    for t in g.nts..n {
                        add[t] |= corner[y as usize][t];
                    }
                    through = null[y as usize];
                    if !through {
                        break;
                    }
                }
                for t in 0..=n {
                    if (add[t] || through && f[*l as usize][t]) && !f[x][t] {
                        f[x][t] = true;
                        changed = true;
                    }
                }
            }
        }
        if !changed {
            return f;
        }
    }
}

/// Chains: S ::= N1 | .. | Nk, Ni ::= ti | N(i-1) ti.
pub fn chain(k: usize) -> Gram {
    let (n, t) = (|i: usize| (1 + i) as u16, |i: usize| (1 + k + i) as u16);
    let mut rules: Vec<(u16, Vec<u16>)> = (0..k).map(|i| (0, vec![n(i)])).collect();
    for i in 0..k {
        rules.push((n(i), vec![t(i)]));
        if i > 0 {
            rules.push((n(i), vec![n(i - 1), t(i)]));
        }
    }
    Gram::new("chain", 1 + k, k, rules)
}

/// Nests: S ::= N1 | .. | Nk, Ni ::= ti | ti N(i-1) ti.
pub fn nest(k: usize) -> Gram {
    let (n, t) = (|i: usize| (1 + i) as u16, |i: usize| (1 + k + i) as u16);
    let mut rules: Vec<(u16, Vec<u16>)> = (0..k).map(|i| (0, vec![n(i)])).collect();
    for i in 0..k {
        rules.push((n(i), vec![t(i)]));
        if i > 0 {
            rules.push((n(i), vec![t(i), n(i - 1), t(i)]));
        }
    }
    Gram::new("nest", 1 + k, k, rules)
}

/// One nonterminal with many rules of many lengths: S ::= ti t(i+1) .. (1 to 5 symbols), and a list of them.
pub fn many_rules(k: usize) -> Gram {
    let t = |i: usize| (2 + i % k) as u16;
    let mut rules: Vec<(u16, Vec<u16>)> = vec![(0, vec![1]), (0, vec![0, 1])];
    for i in 0..k {
        rules.push((1, (0..1 + i % 5).map(|j| t(i + j)).collect()));
    }
    Gram::new("many rules", 2, k, rules)
}

/// A long rule: S ::= t1 t2 .. tk | t1 S.
pub fn long_rule(k: usize) -> Gram {
    Gram::new("long rule", 1, k, vec![(0, (1..=k as u16).collect()), (0, vec![1, 0])])
}

pub fn grams(t: Tier) -> Vec<Gram> {
    let sizes = t.pick(vec![15usize, 16, 31, 32, 63, 64, 65, 128, 256], vec![7, 8, 15, 16, 17, 30, 31, 32, 33, 61, 62, 63, 64, 65, 95, 96, 126, 127, 128, 129, 254, 255, 256, 257, 400]);
    let mut v = vec![];
    for k in sizes {
        v.extend([chain(k), nest(k), many_rules(k), long_rule(k)]);
    }
    v
}

/// The tokens tried: those around the ends and around multiples of the sizes of words.
fn notable(g: &Gram) -> Vec<u16> {
    let n = g.ts;
    let mut v: BTreeSet<usize> = [0, 1, 2, n / 2, n / 2 + 1, n.saturating_sub(3), n.saturating_sub(2), n - 1].into_iter().collect();
    for w in [32usize, 64, 128, 256] {
        for d in [w - 2, w - 1, w, w + 1] {
            v.insert(d);
        }
    }
    v.into_iter().filter(|&i| i < n).map(|i| (g.nts + i) as u16).collect()
}

/// Visits every input of up to `len` tokens that begins with a notable token and that a sentence begins with.
pub fn inputs(g: &Gram, len: usize, f: &mut dyn FnMut(&mut Plain, &[u16]) -> Res) -> Res {
    fn go(p: &mut Plain, w: &mut Vec<u16>, len: usize, ok: &HashSet<u16>, f: &mut dyn FnMut(&mut Plain, &[u16]) -> Res) -> Res {
        f(p, w)?;
        if w.len() == len {
            return Ok(());
        }
        for t in p.next() {
            if w.len() < 1 && !ok.contains(&t) || w.len() > 1 && p.next().len() > 20 && !ok.contains(&t) {
                continue;
            }
            if w.len() == 1 && p.next().len() > 20 && !ok.contains(&t) && t % 7 != 0 {
                continue;
            }
            p.push(t);
            w.push(t);
            go(p, w, len, ok, f)?;
            w.pop();
            p.pop();
        }
        Ok(())
    }
    go(&mut Plain::new(g), &mut vec![], len, &notable(g).into_iter().collect(), f)
}

fn name(g: &Gram, real: &Real, i: usize) -> String {
    real.back.get(i).copied().flatten().map_or(format!("internal #{i}"), |d| g.sym_name(d))
}

pub fn users(real: &Real, v: &[usize]) -> BTreeSet<u16> {
    v.iter().filter_map(|&i| real.back.get(i).copied().flatten()).collect()
}

/// Compiled grammars.
pub fn tables(ctx: &mut Ctx, g: &Gram, real: &Real, prop: &str) -> Res {
    let dg = &real.dg;
    let corner = corners(g);
    let follow = follows(g, &corner);
    let n = dg.num_syms();
    ctx.states += 1;
    if prop == "G06" {
        let null = nullables(g);
        // A symbol that may be something: a token, or with a rule that has such a part.
        let mut some: Vec<bool> = (0..g.syms()).map(|x| g.is_term(x as u16)).collect();
        while let Some((l, _)) = g.rules.iter().find(|(l, r)| !some[*l as usize] && r.iter().any(|&x| some[x as usize])) {
            some[*l as usize] = true;
        }
        return crate::tables::rules_match(ctx, GR { g, real }, &vec![true; g.rules.len()], &|x| null[x as usize], &|x| some[x as usize]);
    }
    match prop {
        "G01" => {
            let mut seen: HashSet<usize> = [dg.sof(), dg.eof(), dg.start_sym()].iter().map(|s| s.usize()).collect();
            check!(seen.len() == 3, "the special symbols are not distinct");
            let info = dg.forest_info();
            check!((info.sof, info.eof, info.start) == (dg.sof(), dg.eof(), real.i(0)), "forests see other special symbols or another start symbol: {:?}", (info.sof, info.eof, info.start));
            for d in 0..g.syms() {
                let Some(i) = real.int[d] else { return Err(format!("{} has no internal number", g.sym_name(d as u16))) };
                check!(seen.insert(i.usize()), "{} shares its internal number {}", g.sym_name(d as u16), i.usize());
                check!(i.usize() < n, "{} has internal number {} of {n}", g.sym_name(d as u16), i.usize());
                check!(dg.to_external(i) == real.ext[d], "{} does not map back", g.sym_name(d as u16));
                ctx.transitions += 1;
            }
            let mut used = vec![false; g.rules.len()];
            for dot in 0..dg.num_rules() as u32 {
                let id = dg.external_origin(dot);
                if id.is_null() {
                    continue;
                }
                let Some(r) = real.rule(id.id) else { return Err(format!("internal rule {dot} carries the unknown rule number {}", id.id)) };
                let lhs = real.desc(dg.get_lhs(dot));
                check!(lhs == Some(g.rules[r].0), "internal rule {dot} carries the number of rule {r} of another symbol");
                used[r] = true;
                ctx.transitions += 1;
            }
            let missing = (0..used.len()).find(|&i| !used[i] && !g.rules[i].1.is_empty());
            check!(missing.is_none(), "no internal rule carries the number of rule {missing:?}");
        }
        "G02" => {
            for d in 0..g.syms() {
                let row = dg.prediction_row(real.i(d as u16));
                for e in 0..g.syms() {
                    let got = row.get(real.i(e as u16).usize());
                    check!(got == corner[d][e], "the prediction row of {} says {got} for {}", g.sym_name(d as u16), g.sym_name(e as u16));
                }
                for (x, w) in [(dg.sof(), "start of input"), (dg.eof(), "end of input"), (dg.start_sym(), "the wrapped start symbol")] {
                    check!(!row.get(x.usize()), "the prediction row of {} holds {w}", g.sym_name(d as u16));
                }
                ctx.transitions += g.syms() as u64;
            }
        }
        "G03" => {
            for d in 0..g.syms() {
                for t in (g.nts..g.syms()).filter(|&t| follow[d][t]) {
                    check!(dg.lhs_lr_set(real.i(d as u16)).get(real.i(t as u16).usize()), "{} can follow {} but is not in its follow set", g.sym_name(t as u16), g.sym_name(d as u16));
                }
                check!(!follow[d][g.syms()] || dg.lhs_lr_set(real.i(d as u16)).get(dg.eof().usize()), "the end of input can follow {} but is not in its follow set", g.sym_name(d as u16));
                ctx.transitions += g.ts as u64;
            }
            for dot in 0..dg.num_rules() as u32 {
                let at = dg.rhs1_or_lhs(dot);
                let Some(d) = real.desc(at) else { continue };
                let set = if dg.get_rhs1(dot).is_some() { &corner[d as usize] } else { &follow[d as usize] };
                for t in (g.nts..g.syms()).filter(|&t| set[t]) {
                    check!(dg.lookahead_set(dot).get(real.i(t as u16).usize()), "internal rule {dot}: {} can come after its first symbol but is not in the lookahead set", g.sym_name(t as u16));
                }
            }
        }
        _ => unreachable!(),
    }
    ctx.traces += 1;
    ctx.outcome(&(g.name.clone(), g.ts));
    Ok(())
}

/// Everything that can be seen of one input.
pub fn input(ctx: &mut Ctx, g: &Gram, real: &Real, p: &Plain, w: &[u16], prop: &str, hint: bool) -> Res {
    let dg = &real.dg;
    ctx.states += 1;
    ctx.traces += 1;
    ctx.transitions += w.len() as u64 + 1;
    let next: BTreeSet<u16> = p.next().into_iter().collect();
    let fin = p.finished();
    let mut r = null_rec(real);
    let ok = r.start();
    check!(ok, "reading the start of input fails");
    for (k, &t) in w.iter().enumerate() {
        r.begin();
        if hint {
            r.hint(w.get(k + 1).map_or(dg.eof(), |&t| real.i(t)));
        }
        r.r.scan(real.i(t), k as u32);
        // With the end of input announced wrongly, reading may fail.
        let ok = r.end();
        check!(ok || (hint && k + 1 == w.len() && !fin), "reading token {k} fails although a sentence begins with it");
        if !ok {
            return Ok(());
        }
    }
    if prop == "R01" || prop == "R02" {
        check!(r.r.is_finished() == fin, "finished: {}, but the tokens read {} a sentence", r.r.is_finished(), if fin { "are" } else { "are not" });
        return Ok(());
    }
    if prop == "R03" {
        // Every next token.
        for t in g.nts as u16..g.syms() as u16 {
            if g.ts > 40 && g.names.is_empty() && !next.contains(&t) && t % 11 != 0 && !notable(g).contains(&t) {
                continue;
            }
            let mut r = null_rec(real);
            r.start();
            for (k, &t) in w.iter().enumerate() {
                r.read(real.i(t), k as u32);
            }
            let ok = r.read(real.i(t), 0);
            ctx.transitions += 1;
            check!(ok == next.contains(&t), "then reading {} {}, but a sentence {} begin like this", g.sym_name(t), if ok { "succeeds" } else { "fails" }, if ok { "cannot" } else { "can" });
            check!(r.r.is_exhausted() != ok, "then reading {} and is_exhausted() is {}", g.sym_name(t), r.r.is_exhausted());
        }
        return Ok(());
    }
    r.begin();
    let obs = r.obs();
    ctx.outcome(&obs.predicted.len());
    if prop == "R07" {
        let want = p.postdot();
        let got = users(real, &obs.predicted);
        check!(got == want, "predicted but not possible: {:?}; possible but not predicted: {:?}", got.difference(&want).map(|&s| g.sym_name(s)).collect::<Vec<_>>(), want.difference(&got).map(|&s| g.sym_name(s)).collect::<Vec<_>>());
        check!(obs.predicted.contains(&dg.eof().usize()) == fin, "the end of input is wrongly (not) predicted");
        let mut got: Vec<Item> = vec![];
        for &(dot, origin) in &obs.medial {
            let t = dg.trace()[1][dot as usize];
            if t.id == !0 {
                continue;
            }
            let Some(rule) = real.rule(t.id) else { return Err(format!("unknown rule number {}", t.id)) };
            let Some(l) = r.loc(origin as usize) else { return Err(format!("item with unknown origin row {origin}")) };
            got.push((rule, t.pos as usize, l.max(0) as usize));
        }
        got.sort();
        got.dedup();
        check!(got == p.medial(), "items in progress (rule, dot, origin) are {got:?} instead of {:?}", p.medial());
    }
    if prop == "R11" {
        let got = users(real, &obs.expected);
        check!(got == next, "expected terminals {:?} instead of {:?}", got.iter().map(|&s| g.sym_name(s)).collect::<Vec<_>>(), next.iter().map(|&s| g.sym_name(s)).collect::<Vec<_>>());
        check!(obs.expected.len() == got.len() + obs.expected.contains(&dg.eof().usize()) as usize, "expected terminals are listed more than once: {:?}", obs.expected.iter().map(|&i| name(g, real, i)).collect::<Vec<_>>());
        check!(obs.expected.contains(&dg.eof().usize()) == fin, "the end of input is wrongly (not) expected");
        let np = obs.predicted.len();
        check!(obs.trace.len() == np + obs.medial.len() && obs.events.len() == obs.trace.len() && obs.distances.len() == obs.trace.len(), "{np} predictions, {} items, {} trace entries, {} events, {} distances", obs.medial.len(), obs.trace.len(), obs.events.len(), obs.distances.len());
        let mut traced: Vec<Item> = vec![];
        for k in 0..obs.trace.len() {
            let (id, pos, origin) = obs.trace[k];
            check!(obs.events[k].1 == obs.distances[k], "minimal distance {} differs from that of the event, {}", obs.distances[k], obs.events[k].1);
            if id == !0 {
                check!(obs.events[k].0 == !0, "an entry without rule has event {}", obs.events[k].0);
                if k < np {
                    check!(!users(real, &[obs.predicted[k]]).iter().any(|&x| !g.is_term(x)), "the prediction of {} is not traced", name(g, real, obs.predicted[k]));
                }
                continue;
            }
            let Some(rule) = real.rule(id) else { return Err(format!("unknown rule number {id} in the trace")) };
            check!(obs.events[k] == event_of(rule, pos as usize), "rule {rule}, dot {pos} has event {:?} instead of {:?}", obs.events[k], event_of(rule, pos as usize));
            if k < np {
                check!(pos == 0 && users(real, &[obs.predicted[k]]).contains(&g.rules[rule].0), "the prediction of {} is traced as rule {rule}, dot {pos}", name(g, real, obs.predicted[k]));
                check!(r.loc(origin) == Some(w.len() as i64), "the prediction of {} is traced to origin {:?}", name(g, real, obs.predicted[k]), r.loc(origin));
            } else {
                traced.push((rule, pos as usize, r.loc(origin).unwrap_or(-9).max(0) as usize));
            }
        }
        traced.sort();
        traced.dedup();
        check!(traced == p.medial(), "the trace lists (rule, dot, origin) {traced:?} instead of {:?}", p.medial());
    }
    Ok(())
}

/// Bracket nesting of any depth: S ::= ( S ) | [ S ] | a.
fn brackets() -> Gram {
    Gram::new("brackets", 1, 5, vec![(0, vec![1, 0, 2]), (0, vec![3, 0, 4]), (0, vec![5])])
}
fn opening(k: usize) -> (u16, u16) {
    if k % 3 == 0 { (3, 4) } else { (1, 2) }
}

fn deep(ctx: &mut Ctx, g: &Gram, real: &Real, n: usize, prop: &str) -> Res {
    ctx.states += 1;
    let read_to = |r: &mut NullRec, depth: usize| -> Res {
        check!(r.start(), "reading the start of input fails");
        for k in 0..depth {
            check!(r.read(real.i(opening(k).0), k as u32), "reading opening bracket {k} fails");
            check!(!r.r.is_finished(), "finished after {k} opening brackets");
        }
        check!(r.read(real.i(5), depth as u32), "reading the innermost token fails");
        Ok(())
    };
    let mut r = null_rec(real);
    read_to(&mut r, n)?;
    for k in (0..n).rev() {
        check!(!r.r.is_finished(), "finished while bracket {k} is open");
        if k % 997 == 0 || k < 3 || k + 3 > n || (k > 65_530 && k < 65_540) || (k > 250 && k < 260) {
            match prop {
                // A wrong bracket, tried on the side: the recognizer cannot be copied, so run it anew.
                "R03" if n <= 300 => {
                    let mut q = null_rec(real);
                    read_to(&mut q, n)?;
                    for j in (k + 1..n).rev() {
                        check!(q.read(real.i(opening(j).1), j as u32), "closing bracket {j} fails");
                    }
                    let (good, bad) = if k % 3 == 0 { (4, 2) } else { (2, 4) };
                    let _ = good;
                    check!(!q.read(real.i(bad), 0), "a wrong closing bracket for bracket {k} is accepted");
                    check!(q.r.is_exhausted(), "not exhausted after a wrong closing bracket for bracket {k}");
                }
                "R07" | "R11" => {
                    r.begin();
                    let o = r.obs();
                    let want: BTreeSet<u16> = [opening(k).1].into_iter().collect();
                    if prop == "R07" {
                        check!(users(real, &o.predicted) == want, "inside bracket {k}, predicted are {:?}", o.predicted.iter().map(|&i| name(g, real, i)).collect::<Vec<_>>());
                        check!(o.medial.len() == 1 && r.loc(o.medial[0].1 as usize) == Some(k as i64), "inside bracket {k}, items in progress (dot, origin row) are {:?}", o.medial);
                    } else {
                        check!(users(real, &o.expected) == want && o.expected.len() == 1, "inside bracket {k}, expected are {:?}", o.expected.iter().map(|&i| name(g, real, i)).collect::<Vec<_>>());
                        let m = o.trace.last().copied();
                        let ok = m.is_some_and(|m| real.rule(m.0) == Some((k % 3 == 0) as usize) && m.1 == 2 && r.loc(m.2) == Some(k as i64));
                        check!(ok, "inside bracket {k}, the trace ends in {m:?}");
                    }
                    // Continue in the location that was begun.
                    r.r.scan(real.i(opening(k).1), 0);
                    check!(r.end(), "closing bracket {k} fails");
                    ctx.transitions += 1;
                    continue;
                }
                _ => {}
            }
        }
        check!(r.read(real.i(opening(k).1), k as u32), "closing bracket {k} fails");
        ctx.transitions += 1;
    }
    check!(r.r.is_finished(), "not finished after all brackets are closed");
    check!(!r.read(real.i(2), 0), "one more closing bracket is accepted");
    ctx.traces += 1;
    ctx.outcome(&n);
    Ok(())
}

/// A tree of any depth.
fn deep_tree<F: Bocage>(ctx: &mut Ctx, real: &Real, n: usize) -> Res {
    let terms = RefCell::new(Terms::default());
    let mut r = forest_rec::<F>(real);
    r.start();
    for k in 0..n {
        check!(r.read(real.i(opening(k).0), k as u32), "reading fails");
    }
    r.read(real.i(5), n as u32);
    let mut want = {
        let mut t = terms.borrow_mut();
        let l = t.leaf(5, n as u32);
        t.product(2, &[l])
    };
    for k in (0..n).rev() {
        check!(r.read(real.i(opening(k).1), (2 * n - k) as u32), "reading fails");
        let mut t = terms.borrow_mut();
        let (a, b) = (t.leaf(opening(k).0, k as u32), t.leaf(opening(k).1, (2 * n - k) as u32));
        want = t.product((k % 3 == 0) as u32, &[a, want, b]);
    }
    let Some(node) = r.r.finished_node() else { return Err(format!("{}: no finished parse", F::NAME)) };
    let got = r.r.into_forest().eval(TermEval { real, terms: &terms, log: None }, node);
    check!(got == [T(want)], "{}: the tree is not the one of {n} nested brackets ({} results)", F::NAME, got.len());
    ctx.states += 1;
    ctx.traces += 1;
    ctx.transitions += 2 * n as u64;
    Ok(())
}

/// Derivations of parts of an input.
pub struct Derivations<'a> {
    g: &'a Gram,
    w: &'a [u16],
    null: Vec<bool>,
    matches: HashSet<(u16, usize, usize)>,
    /// Values of tokens.
    val: fn(usize, u16) -> u32,
}
type Memo = HashMap<(u16, usize, usize), Vec<u32>>;

impl<'a> Derivations<'a> {
    const LIMIT: usize = 1 << 20;
    pub fn new(p: &Plain<'a>, w: &'a [u16]) -> Self {
        Derivations { g: p.g, w, null: p.null.clone(), matches: p.matches(), val: |k, _| k as u32 }
    }
    pub fn with_values(p: &Plain<'a>, w: &'a [u16], val: fn(usize, u16) -> u32) -> Self {
        Derivations { val, ..Self::new(p, w) }
    }
    fn is(&self, x: u16, i: usize, j: usize) -> bool {
        if i == j {
            self.null[x as usize]
        } else if self.g.is_term(x) {
            j == i + 1 && self.w[i] == x
        } else {
            self.matches.contains(&(x, i, j))
        }
    }
    /// The number of derivations, counted up to a limit.
    pub fn count(&self, memo: &mut HashMap<(u16, usize, usize), usize>, x: u16, i: usize, j: usize) -> usize {
        if !self.is(x, i, j) {
            return 0;
        }
        if i == j || self.g.is_term(x) {
            return 1;
        }
        if let Some(&n) = memo.get(&(x, i, j)) {
            return n;
        }
        let mut n = 0;
        for (_, rhs) in self.g.rules.iter().filter(|r| r.0 == x) {
            n = Self::LIMIT.min(n + self.count_seq(memo, rhs, i, j));
        }
        memo.insert((x, i, j), n);
        n
    }
    fn count_seq(&self, memo: &mut HashMap<(u16, usize, usize), usize>, rhs: &[u16], i: usize, j: usize) -> usize {
        let Some((&x, rest)) = rhs.split_first() else { return (i == j) as usize };
        let mut n = 0;
        for m in i..=j {
            if self.is(x, i, m) && (!rest.is_empty() || m == j) {
                // The rest first: if it matches nothing, the symbol may be the one being counted.
                let tails = self.count_seq(memo, rest, m, j);
                if tails > 0 {
                    n = Self::LIMIT.min(n + tails * self.count(memo, x, i, m));
                }
            }
        }
        n
    }
    pub fn sym(&self, memo: &mut Memo, t: &RefCell<Terms>, x: u16, i: usize, j: usize) -> Vec<u32> {
        if !self.is(x, i, j) {
            return vec![];
        }
        if i == j {
            return vec![t.borrow_mut().null(x)];
        }
        if self.g.is_term(x) {
            return vec![t.borrow_mut().leaf(x, (self.val)(i, x))];
        }
        if let Some(v) = memo.get(&(x, i, j)) {
            return v.clone();
        }
        let mut out = vec![];
        for (r, (_, rhs)) in self.g.rules.iter().enumerate().filter(|r| r.1.0 == x) {
            for kids in self.seq(memo, t, rhs, i, j) {
                out.push(t.borrow_mut().product(r as u32, &kids));
            }
        }
        memo.insert((x, i, j), out.clone());
        out
    }
    fn seq(&self, memo: &mut Memo, t: &RefCell<Terms>, rhs: &[u16], i: usize, j: usize) -> Vec<Vec<u32>> {
        let Some((&x, rest)) = rhs.split_first() else { return if i == j { vec![vec![]] } else { vec![] } };
        let mut out = vec![];
        for m in i..=j {
            if !self.is(x, i, m) || rest.is_empty() && m != j {
                continue;
            }
            let tails = self.seq(memo, t, rest, m, j);
            if tails.is_empty() {
                continue;
            }
            for h in self.sym(memo, t, x, i, m) {
                for tail in &tails {
                    out.push([&[h], &tail[..]].concat());
                }
            }
        }
        out
    }
}

/// The trees of the inputs of wide grammars.
pub fn trees<F: Bocage>(ctx: &mut Ctx, g: &Gram, real: &Real, w: &[u16], d: &Derivations) -> Res {
    let terms = RefCell::new(Terms::default());
    let mut r = forest_rec::<F>(real);
    r.start();
    for (k, &t) in w.iter().enumerate() {
        check!(r.read(real.i(t), k as u32), "{}: reading fails", F::NAME);
    }
    let Some(node) = r.r.finished_node() else { return Err(format!("{}: no finished parse", F::NAME)) };
    let mut got: Vec<u32> = r.r.into_forest().eval(TermEval { real, terms: &terms, log: None }, node).into_iter().map(|t| t.0).collect();
    let mut want = d.sym(&mut HashMap::new(), &terms, 0, 0, w.len());
    got.sort();
    want.sort();
    let show = |v: &[u32]| v.iter().take(5).map(|&x| terms.borrow().show(g, x)).collect::<Vec<_>>();
    check!(got == want, "{}: {} trees {:?} instead of {} trees {:?}", F::NAME, got.len(), show(&got), want.len(), show(&want));
    ctx.traces += 1;
    ctx.transitions += w.len() as u64;
    Ok(())
}

/// Further units and how they extend the bounds.
pub fn extend(units: (Vec<Unit>, String), prop: &'static str, t: Tier) -> (Vec<Unit>, String) {
    let (mut u, mut b) = units;
    let orders = t.pick(2, 3);
    let len = t.pick(4, 6);
    let is_table = prop.starts_with('G');
    let events = prop == "R11";
    let mut largest = 0;
    for g in grams(t) {
        largest = largest.max(g.ts);
        u.push(unit(format!("wide grammar {}, {} terminals, {} rules", g.name, g.ts, g.rules.len()), move |ctx| {
            for o in crate::drive::orders_of(&g, Orders::Some(orders)) {
                let at = |e: String| format!("grammar {} with {} terminals {{ {} }} (first symbols declared: {:?}): {e}", g.name, g.ts, g.show(), o.syms.iter().take(3).map(|&s| g.sym_name(s as u16)).collect::<Vec<_>>());
                let real = no_panic("compiling", || Real::new(&g, &o, events)).map_err(at)?;
                if is_table {
                    no_panic("tables", || tables(ctx, &g, &real, prop)).and_then(|r| r).map_err(at)?;
                    continue;
                }
                inputs(&g, len, &mut |p, w| {
                    let at = |e: String| at(format!("input {}: {e}", g.show_str(w)));
                    if prop == "F01" {
                        if p.finished() {
                            let d = Derivations::new(p, w);
                            no_panic("evaluation", || trees::<simple_bocage::Bocage>(ctx, &g, &real, w, &d)).and_then(|r| r).map_err(at)?;
                            no_panic("evaluation", || trees::<compact_bocage::Bocage>(ctx, &g, &real, w, &d)).and_then(|r| r).map_err(at)?;
                        }
                        return Ok(());
                    }
                    for hint in if prop == "R02" { vec![true] } else { vec![false] } {
                        no_panic("the recognizer", || input(ctx, &g, &real, p, w, prop, hint)).and_then(|r| r).map_err(at)?;
                    }
                    Ok(())
                })?;
            }
            Ok(())
        }));
    }
    b += &format!("; four kinds of grammars with up to {largest} terminals and as many nonterminals and rules, in {orders} orders");
    if is_table {
        return (u, b);
    }
    b += &format!(", with inputs of up to {len} tokens that begin with selected tokens");
    if prop == "R02" {
        return (u, b);
    }
    let mut depths: Vec<usize> = (0..t.pick(60, 200)).collect();
    depths.extend([126, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 4095, 4096, 32_767, 32_768]);
    depths.extend([65_534, 65_535, 65_536, 65_537, 70_000]);
    if prop == "F01" {
        // Their evaluation costs memory.
        depths.retain(|&d| d <= t.pick(35_000, 70_000));
    }
    if t == Tier::Thorough {
        depths.extend([131_072, 300_000]);
    }
    for chunk in depths.chunks(if prop == "F01" { 1 } else { 8 }) {
        let chunk = chunk.to_vec();
        u.push(unit(format!("brackets nested {:?} deep", chunk), move |ctx| {
            let g = brackets();
            let real = no_panic("compiling", || Real::new(&g, &Order::identity(&g), events))?;
            for &n in &chunk {
                let at = |e: String| format!("grammar {{ {} }}, {n} nested brackets: {e}", g.show());
                if prop == "F01" {
                    no_panic("evaluation", || deep_tree::<simple_bocage::Bocage>(ctx, &real, n)).and_then(|r| r).map_err(at)?;
                    no_panic("evaluation", || deep_tree::<compact_bocage::Bocage>(ctx, &real, n)).and_then(|r| r).map_err(at)?;
                } else {
                    no_panic("the recognizer", || deep(ctx, &g, &real, n, prop)).and_then(|r| r).map_err(at)?;
                }
            }
            Ok(())
        }));
    }
    b += &format!("; brackets nested up to {} deep at selected depths", depths.iter().max().unwrap());
    (u, b)
}

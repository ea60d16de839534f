//! Enumerating grammars, inputs and decisions.
use crate::gram::{Family, Gram};
use crate::real::{Order, Real, Setup};
use crate::refr::{bit, Ana, Chart, Mask};
use mclib::{no_panic, unit, Ctx, Res, Unit};
use std::sync::Arc;

/// Which declaration orders a grammar is compiled in.
#[derive(Clone, Copy)]
pub enum Orders {
    Some(usize),
    /// Every permutation of the symbols and (if there are few enough) of the rules.
    All,
}

#[derive(Clone)]
pub struct Plan {
    pub fams: Vec<Family>,
    pub list: Vec<Gram>,
    pub orders: Orders,
    pub events: bool,
    /// Extra filter on grammars.
    pub keep: fn(&Ana) -> bool,
    /// Lengths of inputs for family grammars and for listed grammars.
    pub len: usize,
    pub list_len: usize,
    /// Length of periodic inputs for listed grammars; 0 for none.
    pub periodic: usize,
    /// Number of family indices handled by one unit.
    pub chunk: u64,
}

pub type Check = dyn Fn(&mut Ctx, &Setup, usize) -> Res + Send + Sync;

pub fn orders_of(g: &Gram, o: Orders) -> Vec<Order> {
    match o {
        Orders::Some(n) => Order::some(g, n),
        Orders::All => {
            let mut v = vec![];
            let id = Order::identity(g);
            for s in crate::gram::perms(g.syms()) {
                v.push(Order { syms: s, rules: id.rules.clone() });
            }
            if g.rules.len() <= 4 {
                for r in crate::gram::perms(g.rules.len()) {
                    v.push(Order { syms: id.syms.clone(), rules: r });
                }
            } else {
                for k in 1..g.rules.len() {
                    let mut r = id.rules.clone();
                    r.rotate_left(k);
                    v.push(Order { syms: id.syms.clone(), rules: r.clone() });
                    r.reverse();
                    v.push(Order { syms: id.syms.clone(), rules: r });
                }
            }
            v
        }
    }
}

fn one(ctx: &mut Ctx, a: &Ana, p: &Plan, len: usize, check: &Check) -> Res {
    for o in orders_of(&a.g, p.orders) {
        let describe = || {
            let syms: Vec<_> = o.syms.iter().take(30).map(|&s| a.g.sym_name(s as u16)).collect();
            format!("grammar {{ {} }} (symbols declared in the order {}; rules in the order {:?})", a.g.show(), syms.join(" "), &o.rules[..o.rules.len().min(30)])
        };
        let real = no_panic("compiling the grammar", || Real::new(&a.g, &o, p.events)).map_err(|e| format!("{}\n{e}", describe()))?;
        ctx.count("compiled grammars", 1);
        let s = Setup { a, real: &real, order: &o };
        check(ctx, &s, len).map_err(|e| format!("{}\n{e}", describe()))?;
    }
    Ok(())
}

pub fn plan_units(p: Plan, check: Arc<Check>) -> Vec<Unit> {
    let mut units = vec![];
    for g in p.list.clone() {
        let (p, check) = (p.clone(), check.clone());
        units.push(unit(format!("grammar {}: {}", g.name, g.show()), move |ctx| {
            let a = Ana::new(g.clone());
            if !(p.keep)(&a) {
                return Ok(());
            }
            ctx.count("listed grammars", 1);
            one(ctx, &a, &p, p.list_len, &*check)?;
            if p.periodic > 0 {
                one(ctx, &a, &p, p.periodic + PERIODIC, &*check)?;
            }
            Ok(())
        }));
    }
    for f in p.fams.clone() {
        let size = f.size();
        let mut from = 0;
        while from < size {
            let to = (from + p.chunk).min(size);
            let (p, check, f) = (p.clone(), check.clone(), f.clone());
            units.push(unit(format!("{}, grammars {from}..{to} of {size}", f.name), move |ctx| {
                for i in from..to {
                    let g = f.get(i);
                    if f.canonical && !g.canonical() {
                        continue;
                    }
                    let a = Ana::new(g);
                    if (f.reduced && !a.all_useful()) || !(p.keep)(&a) {
                        continue;
                    }
                    ctx.count("enumerated grammars", 1);
                    one(ctx, &a, &p, p.len, &*check)?;
                }
                Ok(())
            }));
            from = to;
        }
    }
    units
}

/// Added to a length, selects periodic inputs: see `prefixes`.
pub const PERIODIC: usize = 1000;

/// Visits every input that some sentence begins with, up to a length. If `max` is `PERIODIC` or more, visits instead
/// the inputs of up to `max - PERIODIC` tokens that consist of up to 2 tokens and then up to 3 tokens repeated.
pub fn prefixes(a: &Ana, max: usize, f: &mut dyn FnMut(&mut Chart, &[u16]) -> Res) -> Res {
    fn go(c: &mut Chart, w: &mut Vec<u16>, max: usize, f: &mut dyn FnMut(&mut Chart, &[u16]) -> Res) -> Res {
        c.last = w.len() == max || c.a.g.alpha.iter().all(|&t| c.next_terms() & bit(t) == 0);
        f(c, w)?;
        if w.len() == max {
            return Ok(());
        }
        for k in 0..c.a.g.alpha.len() {
            let t = c.a.g.alpha[k];
            if c.next_terms() & bit(t) != 0 {
                c.push_tok(t);
                w.push(t);
                go(c, w, max, f)?;
                w.pop();
                c.pop();
            }
        }
        Ok(())
    }
    if max < PERIODIC {
        return go(&mut Chart::new(a), &mut vec![], max, f);
    }
    let max = max - PERIODIC;
    let alpha: Vec<u16> = a.g.alpha.iter().copied().filter(|&t| a.occurs & bit(t) != 0).collect();
    let mut words: Vec<Vec<u16>> = vec![vec![]];
    let mut layer = words.clone();
    for _ in 0..3 {
        layer = layer.iter().flat_map(|w: &Vec<u16>| alpha.iter().map(move |&t| [&w[..], &[t]].concat())).collect();
        words.extend(layer.iter().cloned());
    }
    let mut done = std::collections::HashSet::new();
    for u in words.iter().filter(|u| u.len() <= 2) {
        for v in words.iter().filter(|v| !v.is_empty()) {
            let w: Vec<u16> = u.iter().chain(v.iter().cycle()).take(max).copied().collect();
            if !done.insert(w.clone()) {
                continue;
            }
            let mut c = Chart::new(a);
            for k in 0..=max {
                c.last = k == max || c.next_terms() & bit(w[k]) == 0;
                f(&mut c, &w[..k])?;
                if c.last {
                    break;
                }
                c.push_tok(w[k]);
            }
        }
    }
    Ok(())
}

/// Whether an input has no extension among those explored.
pub fn maximal(c: &Chart, _w: &[u16], _max: usize) -> bool {
    c.last
}

/// Token sets: every nonempty set of terminals in every order.
pub fn token_lists(alpha: &[u16]) -> Vec<Vec<u16>> {
    let mut out = vec![];
    fn go(alpha: &[u16], cur: &mut Vec<u16>, out: &mut Vec<Vec<u16>>) {
        if !cur.is_empty() {
            out.push(cur.clone());
        }
        for &t in alpha {
            if !cur.contains(&t) {
                cur.push(t);
                go(alpha, cur, out);
                cur.pop();
            }
        }
    }
    go(alpha, &mut vec![], &mut out);
    out
}

pub fn mask_of(v: &[u16]) -> Mask {
    v.iter().fold(0, |m, &t| m | bit(t))
}

/// Enumerates all sequences of decisions by re-execution.
#[derive(Default, Clone, Debug)]
pub struct Chooser {
    path: Vec<(usize, usize)>,
    pos: usize,
    /// Chooses the last alternative where nothing else is said.
    last: bool,
}

impl Chooser {
    /// Chooses one of `n` alternatives.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0);
        if self.pos == self.path.len() {
            self.path.push((if self.last { n - 1 } else { 0 }, n));
        }
        let (k, m) = self.path[self.pos];
        assert_eq!(m, n, "the execution is not repeatable");
        self.pos += 1;
        k
    }
    /// Moves on to the next sequence of decisions; false if there is none.
    pub fn next(&mut self) -> bool {
        self.path.truncate(self.pos);
        self.pos = 0;
        while let Some((k, n)) = self.path.pop() {
            if k + 1 < n {
                self.path.push((k + 1, n));
                return true;
            }
        }
        false
    }
    /// Everywhere the first (or last) alternative.
    pub fn fixed(last: bool) -> Self {
        Chooser { last, ..Default::default() }
    }
    /// After an execution: all ways to decide differently in one place, and as before in the ones before it.
    pub fn deviations(&self) -> Vec<Chooser> {
        self.deviations_from(0).into_iter().map(|x| x.1).collect()
    }
    /// The same, but with the place at or after a given one; together with the next place.
    pub fn deviations_from(&self, from: usize) -> Vec<(usize, Chooser)> {
        let mut out = vec![];
        for (i, &(k, n)) in self.path[..self.pos].iter().enumerate().skip(from) {
            for other in (0..n).filter(|&o| o != k) {
                let mut path = self.path[..i].to_vec();
                path.push((other, n));
                out.push((i + 1, Chooser { path, pos: 0, last: self.last }));
            }
        }
        out
    }
    pub fn decisions(&self) -> Vec<usize> {
        self.path.iter().map(|p| p.0).collect()
    }
}

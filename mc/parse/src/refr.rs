//! The reference: what a grammar means, computed directly from its definition by fixpoint over spans.
use crate::gram::Gram;
use std::collections::HashMap;

pub type Mask = u128;

#[inline]
pub fn bit(s: u16) -> Mask {
    1 << s
}

pub struct Ana {
    pub g: Gram,
    /// Whether each rule can be used in a derivation of a sentence.
    pub useful: Vec<bool>,
    /// Useful rules of each nonterminal.
    pub rules_of: Vec<Vec<usize>>,
    /// Symbols that occur in some sentence's derivation.
    pub occurs: Mask,
    pub nullable: Mask,
    /// Symbols that can derive something nonempty (in useful rules).
    pub nonempty: Mask,
    /// Left-corner closure over symbols that can be nonempty; reflexive.
    pub corner: Vec<Mask>,
    /// Terminals that can follow a symbol; bit `syms()` is end of input.
    pub follow: Vec<Mask>,
    pub cyclic: bool,
    pub empty_language: bool,
    /// Offset of each rule's dots in a column of the chart.
    offs: Vec<usize>,
    ndots: usize,
}

impl Ana {
    pub fn new(g: Gram) -> Ana {
        let n = g.syms();
        assert!(n < 127);
        let terms: Mask = (g.nts..n).fold(0, |m, s| m | bit(s as u16));
        let mut productive = terms;
        loop {
            let old = productive;
            for (l, r) in &g.rules {
                if r.iter().all(|&s| productive & bit(s) != 0) {
                    productive |= bit(*l);
                }
            }
            if old == productive {
                break;
            }
        }
        let ok1: Vec<bool> = g.rules.iter().map(|(_, r)| r.iter().all(|&s| productive & bit(s) != 0)).collect();
        let empty_language = productive & 1 == 0;
        let mut reach: Mask = if empty_language { 0 } else { 1 };
        loop {
            let old = reach;
            for (i, (l, r)) in g.rules.iter().enumerate() {
                if ok1[i] && reach & bit(*l) != 0 {
                    r.iter().for_each(|&s| reach |= bit(s));
                }
            }
            if old == reach {
                break;
            }
        }
        let useful: Vec<bool> = g.rules.iter().enumerate().map(|(i, (l, _))| ok1[i] && reach & bit(*l) != 0).collect();
        let mut rules_of = vec![vec![]; g.nts];
        for (i, (l, _)) in g.rules.iter().enumerate() {
            if useful[i] {
                rules_of[*l as usize].push(i);
            }
        }
        let mut nullable: Mask = 0;
        let mut nonempty: Mask = terms;
        loop {
            let old = (nullable, nonempty);
            for (i, (l, r)) in g.rules.iter().enumerate() {
                if useful[i] {
                    if r.iter().all(|&s| nullable & bit(s) != 0) {
                        nullable |= bit(*l);
                    }
                    if r.iter().any(|&s| nonempty & bit(s) != 0) {
                        nonempty |= bit(*l);
                    }
                }
            }
            if old == (nullable, nonempty) {
                break;
            }
        }
        // Left corners.
        let mut corner: Vec<Mask> = (0..n).map(|s| bit(s as u16)).collect();
        loop {
            let old = corner.clone();
            for (i, (l, r)) in g.rules.iter().enumerate() {
                if !useful[i] {
                    continue;
                }
                for &s in r {
                    if nonempty & bit(s) != 0 {
                        corner[*l as usize] |= corner[s as usize];
                    }
                    if nullable & bit(s) == 0 {
                        break;
                    }
                }
            }
            if old == corner {
                break;
            }
        }
        // Follow.
        let mut follow: Vec<Mask> = vec![0; n];
        follow[0] |= bit(n as u16);
        loop {
            let old = follow.clone();
            for (i, (l, r)) in g.rules.iter().enumerate() {
                if !useful[i] {
                    continue;
                }
                for p in 0..r.len() {
                    let mut rest_null = true;
                    for &s in &r[p + 1..] {
                        follow[r[p] as usize] |= corner[s as usize] & terms & if nonempty & bit(s) != 0 { !0 } else { 0 };
                        if nullable & bit(s) == 0 {
                            rest_null = false;
                            break;
                        }
                    }
                    if rest_null {
                        follow[r[p] as usize] |= follow[*l as usize];
                    }
                }
            }
            if old == follow {
                break;
            }
        }
        // Cycles A =>+ A.
        let mut unit: Vec<Mask> = vec![0; n];
        for (i, (l, r)) in g.rules.iter().enumerate() {
            if !useful[i] {
                continue;
            }
            for p in 0..r.len() {
                if (0..r.len()).all(|q| q == p || nullable & bit(r[q]) != 0) {
                    unit[*l as usize] |= bit(r[p]);
                }
            }
        }
        for k in 0..g.nts {
            for a in 0..g.nts {
                if unit[a] & bit(k as u16) != 0 {
                    unit[a] |= unit[k];
                }
            }
        }
        let cyclic = (0..g.nts).any(|a| unit[a] & bit(a as u16) != 0);
        let mut offs = vec![];
        let mut ndots = 0;
        for (_, r) in &g.rules {
            offs.push(ndots);
            ndots += r.len() + 1;
        }
        let mut occurs = if empty_language { 0 } else { bit(0) };
        for (i, (l, r)) in g.rules.iter().enumerate() {
            if useful[i] {
                occurs |= bit(*l);
                r.iter().for_each(|&s| occurs |= bit(s));
            }
        }
        Ana { g, useful, rules_of, occurs, nullable, nonempty, corner, follow, cyclic, empty_language, offs, ndots }
    }
    pub fn terms(&self) -> Mask {
        (self.g.nts..self.g.syms()).fold(0, |m, s| m | bit(s as u16))
    }
    pub fn all_useful(&self) -> bool {
        self.useful.iter().all(|&u| u)
    }
    /// The grammars that properties about parsing speak of.
    pub fn usable(&self) -> bool {
        !self.empty_language && !self.cyclic
    }
}

#[derive(Clone)]
struct Col {
    toks: Mask,
    /// For each symbol, the set of origins from which it matches up to here.
    d: Vec<u64>,
    /// Like `d` for nonterminals, but before removing banned fragments.
    alt: Vec<u64>,
    /// For each rule and dot, the origins from which the part before the dot matches up to here.
    seq: Vec<u64>,
    pred: Mask,
}

/// Everything that matches anywhere in the input read so far.
pub struct Chart<'a> {
    pub a: &'a Ana,
    cols: Vec<Col>,
    /// Fragments (symbol, origin, end) that are declared not to match.
    pub banned: Vec<(u16, usize, usize)>,
    /// Set by `prefixes`: no longer input is explored that begins with this one.
    pub last: bool,
}

impl<'a> Chart<'a> {
    pub fn new(a: &'a Ana) -> Self {
        let mut c = Chart { a, cols: vec![], banned: vec![], last: false };
        c.push(0);
        c
    }
    /// Location number.
    pub fn at(&self) -> usize {
        self.cols.len() - 1
    }
    pub fn push_tok(&mut self, t: u16) {
        self.push(bit(t));
    }
    pub fn pop(&mut self) {
        self.cols.pop();
    }
    pub fn push(&mut self, toks: Mask) {
        let col = self.compute(toks, self.cols.len());
        self.cols.push(col);
    }
    /// Computes the last location again, after a change of `banned`.
    fn compute(&self, toks: Mask, j: usize) -> Col {
        let a = self.a;
        let g = &a.g;
        let n = g.syms();
        let mut col = Col { toks, d: vec![0; n], alt: vec![0; g.nts], seq: vec![0; a.ndots], pred: 0 };
        for s in 0..n {
            if a.nullable & bit(s as u16) != 0 {
                col.d[s] |= 1 << j;
            }
            if s >= g.nts && toks & bit(s as u16) != 0 {
                col.d[s] |= 1 << (j - 1);
            }
        }
        for o in 0..g.rules.len() {
            if a.useful[o] {
                col.seq[a.offs[o]] |= 1 << j;
            }
        }
        let mut banmask: Vec<u64> = vec![];
        if !self.banned.is_empty() {
            banmask = vec![0; n];
            for &(s, i, e) in &self.banned {
                if e == j {
                    banmask[s as usize] |= 1 << i;
                }
            }
        }
        loop {
            let mut changed = false;
            for (ri, (l, r)) in g.rules.iter().enumerate() {
                if !a.useful[ri] {
                    continue;
                }
                let off = a.offs[ri];
                for p in 1..=r.len() {
                    let x = r[p - 1] as usize;
                    let mut add = 0;
                    let mut ks = col.d[x];
                    while ks != 0 {
                        let k = ks.trailing_zeros() as usize;
                        ks &= ks - 1;
                        add |= if k == j { col.seq[off + p - 1] } else { self.cols[k].seq[off + p - 1] };
                    }
                    if add & !col.seq[off + p] != 0 {
                        col.seq[off + p] |= add;
                        changed = true;
                    }
                }
                let full = col.seq[off + r.len()];
                if full & !col.alt[*l as usize] != 0 {
                    col.alt[*l as usize] |= full;
                    let keep = if banmask.is_empty() { full } else { full & !banmask[*l as usize] };
                    col.d[*l as usize] |= keep;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        // Predictions.
        if j == 0 {
            if a.nonempty & 1 != 0 {
                col.pred = a.corner[0];
            }
        } else {
            for (ri, (l, r)) in g.rules.iter().enumerate() {
                if !a.useful[ri] {
                    continue;
                }
                for p in 1..r.len() {
                    if a.nonempty & bit(r[p]) != 0 && self.live(&col, ri, p, j, *l) != 0 {
                        col.pred |= a.corner[r[p] as usize];
                    }
                }
            }
        }
        col
    }
    /// Origins before `j` of a rule and dot in progress at `j`.
    fn live(&self, col: &Col, ri: usize, p: usize, j: usize, lhs: u16) -> u64 {
        let mut out = 0;
        let mut is = col.seq[self.a.offs[ri] + p] & ((1u64 << j) - 1);
        while is != 0 {
            let i = is.trailing_zeros() as usize;
            is &= is - 1;
            if self.cols[i].pred & bit(lhs) != 0 {
                out |= 1 << i;
            }
        }
        out
    }
    /// Symbols that can come next.
    pub fn predicted(&self) -> Mask {
        self.cols.last().unwrap().pred
    }
    pub fn finished(&self) -> bool {
        self.cols.last().unwrap().d[0] & 1 != 0
    }
    pub fn viable(&self) -> bool {
        self.finished() || self.predicted() != 0
    }
    pub fn next_terms(&self) -> Mask {
        self.predicted() & self.a.terms()
    }
    /// Rules in progress: (rule, dot, origin).
    pub fn medial(&self) -> Vec<(usize, usize, usize)> {
        let j = self.at();
        let mut v = vec![];
        for (ri, (l, r)) in self.a.g.rules.iter().enumerate() {
            if !self.a.useful[ri] {
                continue;
            }
            for p in 1..r.len() {
                if self.a.nonempty & bit(r[p]) == 0 {
                    continue;
                }
                let mut is = self.live(&self.cols[j], ri, p, j, *l);
                while is != 0 {
                    v.push((ri, p, is.trailing_zeros() as usize));
                    is &= is - 1;
                }
            }
        }
        v
    }
    /// Nonempty fragments that end here and were predicted where they begin: (symbol, origin), banned ones included.
    pub fn groups(&self) -> Vec<(u16, usize)> {
        let j = self.at();
        let mut v = vec![];
        for x in 0..self.a.g.nts {
            for i in 0..j {
                if self.cols[j].alt[x] & (1 << i) != 0 && self.cols[i].pred & bit(x as u16) != 0 {
                    v.push((x as u16, i));
                }
            }
        }
        v
    }
    pub fn matches(&self, x: u16, i: usize, j: usize) -> bool {
        self.cols[j].d[x as usize] & (1 << i) != 0
    }
    /// For each rule of `x`, in how many ways its two halves (all but the last symbol, the last symbol) split the span.
    pub fn splits(&self, x: u16, i: usize, j: usize) -> Vec<(usize, usize)> {
        let mut v = vec![];
        for &ri in &self.a.rules_of[x as usize] {
            let r = &self.a.g.rules[ri].1;
            if r.is_empty() {
                continue;
            }
            let last = r[r.len() - 1] as usize;
            let off = self.a.offs[ri];
            let n = (i..=j).filter(|&k| self.cols[j].d[last] & (1 << k) != 0 && self.cols[k].seq[off + r.len() - 1] & (1 << i) != 0).count();
            if n > 0 {
                v.push((ri, n));
            }
        }
        v
    }
    /// Number of derivations of the span.
    pub fn count(&self, x: u16, i: usize, j: usize, memo: &mut HashMap<(u16, usize, usize), u64>) -> u64 {
        if self.a.g.is_term(x) {
            return (i + 1 == j && self.cols[j].toks & bit(x) != 0) as u64;
        }
        if i == j {
            return (self.a.nullable & bit(x) != 0) as u64;
        }
        if !self.matches(x, i, j) {
            return 0;
        }
        if let Some(&c) = memo.get(&(x, i, j)) {
            return c;
        }
        let mut total: u64 = 0;
        for &ri in &self.a.rules_of[x as usize] {
            total = total.saturating_add(self.count_seq(ri, self.a.g.rules[ri].1.len(), i, j, memo));
        }
        memo.insert((x, i, j), total);
        total
    }
    fn count_seq(&self, ri: usize, p: usize, i: usize, j: usize, memo: &mut HashMap<(u16, usize, usize), u64>) -> u64 {
        if p == 0 {
            return (i == j) as u64;
        }
        let off = self.a.offs[ri];
        let x = self.a.g.rules[ri].1[p - 1];
        let mut total: u64 = 0;
        for k in i..=j {
            if self.cols[j].d[x as usize] & (1 << k) != 0 && self.cols[k].seq[off + p - 1] & (1 << i) != 0 {
                let c = self.count(x, k, j, memo);
                total = total.saturating_add(c.saturating_mul(self.count_seq(ri, p - 1, i, k, memo)));
            }
        }
        total
    }
    /// Every derivation of the span, as terms. `val(location, token)` is the value of a token.
    pub fn trees(&self, x: u16, i: usize, j: usize, t: &mut Terms, val: &dyn Fn(usize, u16) -> u32, memo: &mut HashMap<(u16, usize, usize), Vec<u32>>) -> Vec<u32> {
        if self.a.g.is_term(x) {
            return if i + 1 == j && self.cols[j].toks & bit(x) != 0 { vec![t.leaf(x, val(i, x))] } else { vec![] };
        }
        if i == j {
            return if self.a.nullable & bit(x) != 0 { vec![t.null(x)] } else { vec![] };
        }
        if !self.matches(x, i, j) {
            return vec![];
        }
        if let Some(v) = memo.get(&(x, i, j)) {
            return v.clone();
        }
        let mut out = vec![];
        for &ri in &self.a.rules_of[x as usize] {
            for kids in self.tree_seqs(ri, self.a.g.rules[ri].1.len(), i, j, t, val, memo) {
                out.push(t.product(ri as u32, &kids));
            }
        }
        memo.insert((x, i, j), out.clone());
        out
    }
    #[allow(clippy::too_many_arguments)]
    fn tree_seqs(&self, ri: usize, p: usize, i: usize, j: usize, t: &mut Terms, val: &dyn Fn(usize, u16) -> u32, memo: &mut HashMap<(u16, usize, usize), Vec<u32>>) -> Vec<Vec<u32>> {
        if p == 0 {
            return if i == j { vec![vec![]] } else { vec![] };
        }
        let off = self.a.offs[ri];
        let x = self.a.g.rules[ri].1[p - 1];
        let mut out = vec![];
        for k in i..=j {
            if self.cols[j].d[x as usize] & (1 << k) != 0 && self.cols[k].seq[off + p - 1] & (1 << i) != 0 {
                let last = self.trees(x, k, j, t, val, memo);
                for left in self.tree_seqs(ri, p - 1, i, k, t, val, memo) {
                    for &l in &last {
                        let mut v = left.clone();
                        v.push(l);
                        out.push(v);
                    }
                }
            }
        }
        out
    }
    /// All derivations of the input read so far, sorted.
    pub fn sentence_trees(&self, t: &mut Terms, val: &dyn Fn(usize, u16) -> u32) -> Vec<u32> {
        let mut v = self.trees(0, 0, self.at(), t, val, &mut HashMap::new());
        v.sort();
        v
    }
    pub fn sentence_count(&self) -> u64 {
        self.count(0, 0, self.at(), &mut HashMap::new())
    }
}

/// Hash-consed derivation trees.
#[derive(Default)]
pub struct Terms {
    map: HashMap<Vec<u32>, u32>,
    all: Vec<Vec<u32>>,
}

impl Terms {
    fn get(&mut self, key: &[u32]) -> u32 {
        if let Some(&n) = self.map.get(key) {
            return n;
        }
        let n = self.all.len() as u32;
        self.map.insert(key.to_vec(), n);
        self.all.push(key.to_vec());
        n
    }
    pub fn leaf(&mut self, s: u16, val: u32) -> u32 {
        self.get(&[0, s as u32, val])
    }
    pub fn null(&mut self, s: u16) -> u32 {
        self.get(&[1, s as u32])
    }
    pub fn product(&mut self, rule: u32, kids: &[u32]) -> u32 {
        let mut k = vec![2, rule];
        k.extend_from_slice(kids);
        self.get(&k)
    }
    pub fn show(&self, g: &Gram, n: u32) -> String {
        let Some(k) = self.all.get(n as usize) else { return "(no value)".into() };
        let name = |s: u32| if (s as usize) < g.syms() { g.sym_name(s as u16) } else { format!("?{s}") };
        match k[0] {
            0 => format!("{}={}", name(k[1]), k[2]),
            1 => format!("nulling({})", name(k[1])),
            _ => {
                let kids: Vec<_> = k[2..].iter().map(|&c| self.show(g, c)).collect();
                format!("rule{}({})", k[1], kids.join(" "))
            }
        }
    }
    pub fn show_all(&self, g: &Gram, v: &[u32]) -> String {
        let s: Vec<_> = v.iter().take(6).map(|&n| self.show(g, n)).collect();
        format!("{} result(s): {}{}", v.len(), s.join(" | "), if v.len() > 6 { " | ..." } else { "" })
    }
    /// Counts the (leaves, nullings, products) of a tree and lists its leaves' and nullings' symbols in order.
    pub fn walk(&self, n: u32, f: &mut dyn FnMut(&[u32])) {
        let k = &self.all[n as usize];
        if k[0] == 2 {
            for &c in &k[2..] {
                self.walk(c, f);
            }
        }
        f(k);
    }
}

//! Grammars as plain data, and exhaustively enumerated families of them.
use std::fmt::Write;
use std::sync::Arc;

/// Symbols `0..nts` are nonterminals (0 is the start symbol), the next `ts` are terminals.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Gram {
    pub name: String,
    pub nts: usize,
    pub ts: usize,
    /// The index of a rule is its external number.
    pub rules: Vec<(u16, Vec<u16>)>,
    /// The terminals that input is made of.
    pub alpha: Vec<u16>,
    /// Names of symbols, if they have names of their own.
    pub names: Vec<String>,
}

impl Gram {
    pub fn new(name: &str, nts: usize, ts: usize, rules: Vec<(u16, Vec<u16>)>) -> Gram {
        let alpha = (nts as u16..(nts + ts) as u16).collect();
        Gram { name: name.to_string(), nts, ts, rules, alpha, names: vec![] }
    }
    pub fn syms(&self) -> usize {
        self.nts + self.ts
    }
    pub fn is_term(&self, s: u16) -> bool {
        s as usize >= self.nts
    }
    pub fn sym_name(&self, s: u16) -> String {
        let s = s as usize;
        if let Some(n) = self.names.get(s) {
            return n.clone();
        }
        if s < self.nts {
            if s < 10 { ["S", "A", "B", "C", "D", "E", "F", "G", "H", "I"][s].to_string() } else { format!("N{s}") }
        } else {
            let t = s - self.nts;
            if t < 10 { ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j"][t].to_string() } else { format!("t{t}") }
        }
    }
    pub fn show(&self) -> String {
        let mut o = String::new();
        for (i, (l, r)) in self.rules.iter().enumerate() {
            if i >= 40 {
                o.push_str(" ...");
                break;
            }
            let rhs: Vec<_> = r.iter().map(|&s| self.sym_name(s)).collect();
            let rhs = if rhs.is_empty() { "(empty)".to_string() } else { rhs.join(" ") };
            let _ = write!(o, "{}{}: {} ::= {}", if i > 0 { "; " } else { "" }, i, self.sym_name(*l), rhs);
        }
        o
    }
    pub fn show_str(&self, w: &[u16]) -> String {
        let v: Vec<_> = w.iter().map(|&s| self.sym_name(s)).collect();
        format!("[{}]", v.join(" "))
    }
    /// Parses a compact notation: rules separated by `;`, uppercase = nonterminals (`S` is the start), lowercase =
    /// terminals; alternatives with `|`.
    pub fn parse(name: &str, text: &str) -> Gram {
        let mut nt: Vec<char> = vec!['S'];
        let mut t: Vec<char> = vec![];
        for c in text.chars() {
            if c.is_ascii_uppercase() && !nt.contains(&c) {
                nt.push(c);
            } else if (c.is_ascii_lowercase() || "+*()-.,".contains(c)) && !t.contains(&c) {
                t.push(c);
            }
        }
        t.sort();
        let num = |c: char| -> u16 {
            if let Some(i) = nt.iter().position(|&x| x == c) { i as u16 } else { (nt.len() + t.iter().position(|&x| x == c).unwrap()) as u16 }
        };
        let mut rules = vec![];
        for r in text.split(';').filter(|r| !r.trim().is_empty()) {
            let (l, r) = r.split_once('=').unwrap();
            let lhs = num(l.trim().chars().next().unwrap());
            for alt in r.split('|') {
                rules.push((lhs, alt.chars().filter(|c| !c.is_whitespace()).map(num).collect()));
            }
        }
        Gram::new(name, nt.len(), t.len(), rules)
    }
    /// Renames symbols: nonterminal/terminal `s` becomes `map[s]`.
    pub fn renamed(&self, map: &[u16]) -> Vec<(u16, Vec<u16>)> {
        let mut v: Vec<(u16, Vec<u16>)> = self.rules.iter().map(|(l, r)| (map[*l as usize], r.iter().map(|&s| map[s as usize]).collect())).collect();
        v.sort();
        v
    }
    /// Whether no renaming of the other nonterminals and of the terminals gives a smaller rule list.
    pub fn canonical(&self) -> bool {
        let mut own = self.rules.clone();
        own.sort();
        let mut ok = true;
        let n = self.nts;
        for_perms(n.saturating_sub(1), &mut |np| {
            if !ok {
                return;
            }
            for_perms(self.ts, &mut |tp| {
                if !ok {
                    return;
                }
                let mut map: Vec<u16> = vec![0];
                map.extend(np.iter().map(|&x| x as u16 + 1));
                map.extend(tp.iter().map(|&x| (x + n) as u16));
                if self.renamed(&map) < own {
                    ok = false;
                }
            });
        });
        ok
    }
}

pub fn for_perms(n: usize, f: &mut dyn FnMut(&[usize])) {
    let mut p: Vec<usize> = (0..n).collect();
    fn go(p: &mut Vec<usize>, k: usize, f: &mut dyn FnMut(&[usize])) {
        if k == p.len() {
            f(p);
            return;
        }
        for i in k..p.len() {
            p.swap(k, i);
            go(p, k + 1, f);
            p.swap(k, i);
        }
    }
    go(&mut p, 0, f);
}

pub fn perms(n: usize) -> Vec<Vec<usize>> {
    let mut v = vec![];
    for_perms(n, &mut |p| v.push(p.to_vec()));
    v.sort();
    v
}

/// A product of lists of alternatives, one list for each nonterminal.
#[derive(Clone)]
pub struct Family {
    pub name: String,
    pub nts: usize,
    pub ts: usize,
    /// For each nonterminal, its possible sets of right-hand sides.
    pub choices: Arc<Vec<Vec<Vec<Vec<u16>>>>>,
    /// Keep only one of the grammars that differ by a renaming of symbols.
    pub canonical: bool,
    /// Keep only grammars of which every rule is of use.
    pub reduced: bool,
}

impl Family {
    pub fn size(&self) -> u64 {
        self.choices.iter().map(|c| c.len() as u64).product()
    }
    pub fn get(&self, mut index: u64) -> Gram {
        let mut rules = vec![];
        for (nt, c) in self.choices.iter().enumerate() {
            let k = (index % c.len() as u64) as usize;
            index /= c.len() as u64;
            rules.extend(c[k].iter().map(|r| (nt as u16, r.clone())));
        }
        Gram::new(&self.name, self.nts, self.ts, rules)
    }
}

/// All right-hand sides with `min..=max` symbols.
pub fn rhss(syms: &[u16], min: usize, max: usize) -> Vec<Vec<u16>> {
    let mut all: Vec<Vec<u16>> = vec![];
    let mut layer: Vec<Vec<u16>> = vec![vec![]];
    for len in 0..=max {
        if len >= min {
            all.extend(layer.iter().cloned());
        }
        layer = layer.iter().flat_map(|r| syms.iter().map(move |&s| { let mut r = r.clone(); r.push(s); r })).collect();
    }
    all
}

/// All sets of `min..=max` of the given alternatives.
pub fn subsets(of: &[Vec<u16>], min: usize, max: usize) -> Vec<Vec<Vec<u16>>> {
    let mut out = vec![];
    fn go(of: &[Vec<u16>], from: usize, cur: &mut Vec<Vec<u16>>, min: usize, max: usize, out: &mut Vec<Vec<Vec<u16>>>) {
        if cur.len() >= min {
            out.push(cur.clone());
        }
        if cur.len() == max {
            return;
        }
        for i in from..of.len() {
            cur.push(of[i].clone());
            go(of, i + 1, cur, min, max, out);
            cur.pop();
        }
    }
    go(of, 0, &mut vec![], min, max, &mut out);
    out
}

/// All grammars with the given numbers of rules per nonterminal and right-hand sides of up to `len` symbols.
pub fn family(nts: usize, ts: usize, len: usize, per_nt: &[(usize, usize)]) -> Family {
    let syms: Vec<u16> = (0..(nts + ts) as u16).collect();
    let r = rhss(&syms, 0, len);
    Family {
        name: format!("N={nts} T={ts} rhs<={len} rules per nonterminal {per_nt:?}"),
        nts,
        ts,
        choices: Arc::new(per_nt.iter().map(|&(a, b)| subsets(&r, a, b)).collect()),
        canonical: true,
        reduced: true,
    }
}

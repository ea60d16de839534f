//! The grammars and bounds that the explorations share.
use crate::drive::{plan_units, Check, Orders, Plan};
use crate::forest;
use crate::gram::{family, Family, Gram};
use crate::real;
use crate::refr::Ana;
use mclib::Unit;
use std::sync::Arc;

/// Families of small grammars; `k` selects how far they reach.
pub fn families(k: u32) -> Vec<Family> {
    let mut v = vec![
        family(1, 2, 2, &[(1, 3)]),
        family(1, 1, 3, &[(1, 3)]),
        family(2, 1, 2, &[(1, 2), (1, 2)]),
        family(3, 1, 1, &[(1, 2), (1, 1), (1, 1)]),
    ];
    if k >= 1 {
        v.push(family(1, 2, 3, &[(1, 2)]));
        v.push(family(2, 2, 2, &[(1, 2), (1, 1)]));
        v.push(family(2, 2, 2, &[(1, 1), (1, 2)]));
    }
    if k >= 2 {
        v.push(family(2, 2, 2, &[(2, 2), (2, 2)]));
        v.push(family(1, 2, 3, &[(3, 3)]));
        v.push(family(2, 1, 3, &[(1, 2), (1, 1)]));
        v.push(family(2, 1, 3, &[(1, 1), (2, 2)]));
        v.push(family(3, 1, 2, &[(1, 1), (1, 2), (1, 1)]));
        v.push(family(3, 1, 2, &[(1, 1), (1, 1), (2, 2)]));
        v.push(family(3, 1, 2, &[(2, 2), (1, 1), (1, 1)]));
    }
    if k >= 3 {
        v.push(family(2, 1, 2, &[(1, 3), (3, 3)]));
        v.push(family(2, 1, 2, &[(3, 3), (1, 2)]));
        v.push(family(2, 1, 3, &[(2, 2), (2, 2)]));
        v.push(family(4, 1, 2, &[(1, 1), (1, 1), (1, 1), (1, 1)]));
        v.push(family(2, 1, 4, &[(1, 1), (1, 2)]));
        v.push(family(1, 2, 4, &[(1, 2)]));
    }
    if k >= 4 {
        v.push(family(2, 2, 2, &[(1, 3), (3, 3)]));
        v.push(family(2, 2, 2, &[(3, 3), (1, 2)]));
        v.push(family(3, 1, 2, &[(2, 2), (2, 2), (1, 1)]));
        v.push(family(3, 1, 2, &[(2, 2), (1, 1), (2, 2)]));
        v.push(family(3, 1, 2, &[(1, 1), (2, 2), (2, 2)]));
        v.push(family(3, 2, 2, &[(1, 2), (1, 1), (1, 1)]));
        v.push(family(2, 1, 4, &[(2, 2), (1, 1)]));
    }
    if k >= 5 {
        v.push(family(2, 2, 3, &[(1, 1), (2, 2)]));
        v.push(family(2, 2, 3, &[(2, 2), (1, 1)]));
        v.push(family(1, 3, 3, &[(1, 3)]));
        v.push(family(3, 2, 2, &[(1, 1), (2, 2), (1, 1)]));
        v.push(family(1, 2, 5, &[(1, 2)]));
        v.push(family(1, 1, 6, &[(1, 3)]));
        v.push(family(4, 1, 2, &[(1, 2), (1, 1), (1, 1), (1, 1)]));
    }
    v
}

/// Grammars that are too large for the families.
pub fn curated() -> Vec<Gram> {
    let mut v = vec![
        Gram::parse("arithmetic", "S = S + T | T; T = T * F | F; F = ( S ) | a"),
        Gram::parse("ambiguous operators", "S = S + S | S * S | a"),
        Gram::parse("palindromes", "S = a S a | b S b | a | b | "),
        Gram::parse("balanced", "S = S ( S ) | "),
        Gram::parse("nullable chain", "S = A B C D; A = a | ; B = b | ; C = c | ; D = d | "),
        Gram::parse("nullable middle", "S = a N b; N = | c"),
        Gram::parse("hidden left recursion", "S = A S b | a; A = | c"),
        Gram::parse("hidden right recursion", "S = b S A | a; A = | c"),
        Gram::parse("right recursion", "S = a S | "),
        Gram::parse("left recursion", "S = S a | a"),
        Gram::parse("nested alternatives", "S = A b; A = a | B; B = a | C; C = a a | a"),
        Gram::parse("unit chains", "S = A; A = B; B = C; C = D; D = a | b"),
        Gram::parse("unit diamond", "S = A | B; A = C; B = C; C = a | C a"),
        Gram::parse("long rule", "S = a B c D e F g; B = b | ; D = d | ; F = f | F f | "),
        Gram::parse("long ambiguous", "S = A A A A; A = a | a a"),
        Gram::parse("ambiguity inside a long rule", "S = a A B b; A = a | a a; B = a | a a"),
        Gram::parse("all empty", "S = A B A; A = ; B = A A"),
        Gram::parse("empty or not", "S = A A A; A = | a"),
        Gram::parse("shared prefix", "S = a b c | a b d | a B; B = b c | b d"),
        Gram::parse("mutual recursion", "S = A a | b; A = S b | a"),
        Gram::parse("two lists", "S = A B; A = A a | a; B = a B | a"),
        Gram::parse("lists of lists", "S = S ; A = a".split(';').next().map(|_| "S = S . L | L; L = L , a | a").unwrap()),
        Gram::parse("many rules of one symbol", "S = a | b | a a | a b | b a | b b | a a a | b S b"),
        Gram::parse("middle recursion", "S = a S b | a S c | a b"),
        Gram::parse("dangling", "S = a S | a S b S | c"),
        Gram::parse("empty prefix", "S = N N a N; N = | b"),
    ];
    v.push(padded("padded to 40 symbols", 40, 3));
    v.push(padded("padded to 75 symbols", 75, 3));
    v
}

/// A grammar with many symbols: a list of one of `n` terminals, each through a nonterminal of its own; only a few of the
/// terminals are used in inputs.
pub fn padded(name: &str, n: usize, used: usize) -> Gram {
    // 0: S, 1..=k: Ni, then terminals.
    let k = n / 2;
    let mut rules = vec![];
    for i in 0..k {
        let (ni, t) = ((1 + i) as u16, (1 + k + i) as u16);
        rules.push((0, if i % 3 == 0 { vec![ni] } else if i % 3 == 1 { vec![ni, 0] } else { vec![0, ni] }));
        rules.push((ni, vec![t]));
        if i % 5 == 4 {
            rules.push((ni, vec![ni - 1, t]));
        }
    }
    let mut g = Gram::new(name, 1 + k, k, rules);
    // The first, one in the middle, and the last.
    let pick = [0, k / 2, k - 1, 1, k - 2];
    g.alpha = pick[..used].iter().map(|&i| (1 + k + i) as u16).collect();
    g
}

pub fn usable(a: &Ana) -> bool {
    a.usable()
}
pub fn usable_null(a: &Ana) -> bool {
    a.usable() && forest::has_nullable(a)
}

pub fn plan(fams: Vec<Family>, orders: usize, len: usize, list_len: usize) -> Plan {
    Plan { fams, list: curated(), orders: Orders::Some(orders), events: false, keep: usable, len, list_len, periodic: 0, chunk: 2000 }
}
impl Plan {
    pub fn periodic(mut self, n: usize) -> Plan {
        self.periodic = n;
        self
    }
}

pub fn bounds(p: &Plan) -> String {
    let fams: Vec<String> = p.fams.iter().map(|f| format!("{} ({} grammars before removing renamings{})", f.name, f.size(), if f.reduced { " and useless rules" } else { "" })).collect();
    format!(
        "all grammars of the families [{}] with inputs of up to {} tokens, and {} larger grammars with inputs of up to {} tokens (all inputs that a sentence begins with, where the property speaks of failures each also with every wrong next token){}; {}",
        fams.join("; "),
        p.len,
        p.list.len(),
        p.list_len,
        if p.periodic > 0 { format!(", and also with all inputs of up to {} tokens that consist of up to 2 tokens and then up to 3 tokens repeated", p.periodic) } else { String::new() },
        match p.orders {
            Orders::Some(n) => format!("{n} declaration orders of symbols and rules"),
            Orders::All => "every declaration order of the symbols, and of the rules (all permutations up to 4 rules, all rotations of both directions beyond)".into(),
        }
    )
}

pub fn go(p: Plan, check: impl Fn(&mut mclib::Ctx, &real::Setup, usize) -> mclib::Res + Send + Sync + 'static) -> (Vec<Unit>, String) {
    let b = bounds(&p);
    let check: Arc<Check> = Arc::new(check);
    (plan_units(p, check), b)
}

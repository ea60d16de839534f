//! Properties of compiled grammars: G01, G02, G03, G05.
use crate::real::*;
use crate::refr::bit;
use cfg::{Cfg, Symbol};
use gearley_grammar::Grammar;
use mclib::{check, no_panic, Ctx, Res};

/// A symbol with any number.
pub fn symbol_numbered(n: usize) -> Symbol {
    let mut c = Cfg::new();
    let mut s = c.next_sym(None);
    for _ in 0..n {
        s = c.next_sym(None);
    }
    s
}

fn internal_name(s: &Setup, i: Symbol) -> String {
    internal_name_of(s.gr(), i)
}

fn internal_name_of(s: GR, i: Symbol) -> String {
    let dg = &s.real.dg;
    if i == dg.sof() {
        "start of input".into()
    } else if i == dg.eof() {
        "end of input".into()
    } else if i == dg.start_sym() {
        "wrapped start".into()
    } else {
        s.real.desc(i).map_or(format!("internal #{}", i.usize()), |d| s.g.sym_name(d))
    }
}

pub fn g01(ctx: &mut Ctx, s: &Setup, _len: usize) -> Res {
    let (g, a, dg) = (&s.a.g, s.a, &s.real.dg);
    ctx.states += 1;
    let extra: Vec<Symbol> = [g.syms() + 40, g.syms() + 1000].iter().map(|&n| symbol_numbered(n)).collect();
    no_panic("asking for the internal numbers of symbols that the grammar does not declare", || extra.iter().map(|&x| dg.to_internal(x)).collect::<Vec<_>>()).and_then(|v| {
        check!(v.iter().all(|x| x.is_none()), "a symbol that the grammar does not declare has an internal number: {v:?}");
        Ok(())
    })?;
    let mut seen = std::collections::BTreeMap::new();
    let special = [(dg.sof(), "the start of input"), (dg.eof(), "the end of input"), (dg.start_sym(), "the wrapped start symbol")];
    for (i, name) in special {
        check!(i.usize() < dg.num_syms(), "{name} has internal number {} of {}", i.usize(), dg.num_syms());
        if let Some(other) = seen.insert(i.usize(), name.to_string()) {
            return Err(format!("{name} and {other} have the same internal number {}", i.usize()));
        }
    }
    for d in 0..g.syms() as u16 {
        let i = s.real.int[d as usize];
        ctx.transitions += 1;
        let occurs = a.occurs & bit(d) != 0;
        check!(i.is_some() == occurs, "{} {} in derivations of sentences, but its internal number is {i:?}", g.sym_name(d), if occurs { "occurs" } else { "does not occur" });
        let Some(i) = i else { continue };
        let back = no_panic("mapping back to an external symbol", || dg.to_external(i))?;
        check!(back == s.real.ext[d as usize], "{} has internal number {}, which maps back to {back:?}", g.sym_name(d), i.usize());
        if let Some(other) = seen.insert(i.usize(), g.sym_name(d)) {
            return Err(format!("{} and {other} have the same internal number {}", g.sym_name(d), i.usize()));
        }
    }
    let start = dg.externalized_start_sym();
    check!(start == s.real.ext[0], "the start symbol is {start:?} rather than {:?}", s.real.ext[0]);
    let info = dg.forest_info();
    check!(info.sof == dg.sof() && info.eof == dg.eof(), "forests see {:?} and {:?} as start and end of input, which are {:?} and {:?}", info.sof, info.eof, dg.sof(), dg.eof());
    check!(s.real.int[0].map_or(true, |i| i == info.start), "forests see {:?} as the start symbol, which is {:?}", info.start, s.real.int[0]);
    let mut used = vec![false; g.rules.len()];
    for dot in 0..dg.num_rules() as u32 {
        ctx.transitions += 1;
        let (id, lhs) = (dg.external_origin(dot), dg.get_lhs(dot));
        let fi = info.external_origin(dot);
        check!(fi == Some(id), "rule {dot}: the number that forests see is {fi:?} rather than {id:?}");
        let user = s.real.desc(lhs);
        if id.is_null() {
            check!(user.is_none(), "internal rule {dot} of {} carries no rule number", internal_name(s, lhs));
            continue;
        }
        let Some(r) = s.real.rule(id.id) else { return Err(format!("internal rule {dot} carries the rule number {}, which does not exist", id.id)) };
        check!(a.useful[r], "internal rule {dot} comes from rule {r}, which is in no derivation");
        check!(user == Some(g.rules[r].0), "internal rule {dot} of {} carries the number of rule {r}", internal_name(s, lhs));
        used[r] = true;
    }
    for r in 0..g.rules.len() {
        let needed = a.useful[r] && g.rules[r].1.iter().any(|&x| a.nonempty & bit(x) != 0);
        check!(!needed || used[r], "no internal rule carries the number of rule {r}");
    }
    ctx.traces += 1;
    ctx.outcome(&s.real.int.iter().map(|i| i.map(|x| x.usize())).collect::<Vec<_>>());
    ctx.sample(|| format!("{} | internal numbers: {:?}", g.show(), s.real.int.iter().enumerate().map(|(d, i)| (g.sym_name(d as u16), i.map(|x| x.usize()))).collect::<Vec<_>>()));
    Ok(())
}

pub fn g02(ctx: &mut Ctx, s: &Setup, _len: usize) -> Res {
    let (g, a, dg) = (&s.a.g, s.a, &s.real.dg);
    ctx.states += 1;
    let n = dg.num_syms();
    let row = |i: Symbol| -> Vec<usize> { (0..n).filter(|&c| dg.prediction_row(i).get(c)).collect() };
    let name = |v: &[usize]| -> Vec<String> { v.iter().map(|&c| internal_name(s, symbol_numbered(c))).collect() };
    let judge = |what: String, i: Symbol, mut want: Vec<usize>| -> Res {
        let got = no_panic(&format!("the prediction row of {what}"), || row(i))?;
        want.sort();
        // Symbols of neither the user nor the wrapping are of no consequence.
        let got: Vec<usize> = got.into_iter().filter(|&c| s.real.back.get(c).copied().flatten().is_some() || [dg.sof(), dg.eof(), dg.start_sym()].iter().any(|x| x.usize() == c)).collect();
        check!(got == want, "the prediction row of {what} is {:?} but what can come first is {:?}", name(&got), name(&want));
        Ok(())
    };
    for d in 0..g.syms() as u16 {
        let Some(i) = s.real.int[d as usize] else { continue };
        ctx.transitions += 1;
        let want = (0..g.syms() as u16).filter(|&c| a.corner[d as usize] & bit(c) != 0).map(|c| s.real.i(c).usize()).collect();
        judge(g.sym_name(d), i, want)?;
    }
    let st = dg.start_sym();
    judge("the wrapped start symbol".into(), st, vec![st.usize(), dg.sof().usize()])?;
    for (i, w) in [(dg.sof(), "start of input"), (dg.eof(), "end of input")] {
        judge(w.into(), i, vec![i.usize()])?;
    }
    ctx.traces += 1;
    ctx.outcome(&a.corner);
    ctx.sample(|| format!("{} | row of S: {:?}", g.show(), s.real.int[0].map(|i| name(&row(i)))));
    Ok(())
}

pub fn g03(ctx: &mut Ctx, s: &Setup, _len: usize) -> Res {
    let (g, a, dg) = (&s.a.g, s.a, &s.real.dg);
    ctx.states += 1;
    let eof = 1u128 << g.syms();
    // Internal numbers of a set of terminals and possibly the end of input.
    let nums = |m: u128| -> Vec<(usize, String)> {
        let mut v: Vec<(usize, String)> = (g.nts as u16..g.syms() as u16).filter(|&t| m & bit(t) != 0).map(|t| (s.real.i(t).usize(), g.sym_name(t))).collect();
        if m & eof != 0 {
            v.push((dg.eof().usize(), "end of input".into()));
        }
        v
    };
    for d in 0..g.syms() as u16 {
        if a.occurs & a.nonempty & bit(d) == 0 {
            continue;
        }
        ctx.transitions += 1;
        let i = s.real.i(d);
        for (n, t) in nums(a.follow[d as usize]) {
            let got = no_panic("the follow table", || dg.lhs_lr_set(i).get(n))?;
            check!(got, "{t} can follow {} but is not in its follow set", g.sym_name(d));
        }
    }
    for dot in 0..dg.num_rules() as u32 {
        let at = dg.rhs1_or_lhs(dot);
        if at.usize() >= dg.num_syms() {
            continue;
        }
        ctx.transitions += 1;
        let want = match (dg.get_rhs1(dot), s.real.desc(at)) {
            (Some(_), Some(d)) => a.corner[d as usize] & a.terms(),
            (None, Some(d)) => a.follow[d as usize],
            (Some(x), None) if x == dg.eof() => eof,
            _ => continue,
        };
        for (n, t) in nums(want) {
            let got = no_panic("the lookahead table", || dg.lookahead_set(dot).get(n))?;
            check!(got, "internal rule {dot} of {}: {t} can come after its first symbol, but is not in the lookahead set", internal_name(s, dg.get_lhs(dot)));
        }
    }
    ctx.traces += 1;
    ctx.outcome(&a.follow);
    ctx.sample(|| format!("{} | follow sets {:?}", g.show(), (0..g.syms() as u16).map(|d| (g.sym_name(d), nums(a.follow[d as usize]).into_iter().map(|x| x.1).collect::<Vec<_>>())).collect::<Vec<_>>()));
    Ok(())
}

/// The parts of compiled rules: symbol and whether it is left out as empty.
type Parts = Vec<(u16, bool)>;

pub fn g06(ctx: &mut Ctx, s: &Setup, _len: usize) -> Res {
    let a = s.a;
    rules_match(ctx, s.gr(), &a.useful, &|x| a.nullable & bit(x) != 0, &|x| a.nonempty & bit(x) != 0)
}

/// The compiled rules are the useful rules, given which symbols may be empty and which may be something else.
pub fn rules_match(ctx: &mut Ctx, s: GR, useful: &[bool], nullable: &dyn Fn(u16) -> bool, nonempty: &dyn Fn(u16) -> bool) -> Res {
    let (g, dg) = (s.g, &s.real.dg);
    ctx.states += 1;
    let (n, gen) = (dg.num_syms(), dg.num_gensyms());
    // (first part, second part, left-hand side, dot, symbol whose prediction is asked for)
    let mut rules = no_panic("reading the completion tables", || {
        let mut v = vec![];
        for x in 0..n + gen {
            let sym = symbol_numbered(x);
            let ts: Vec<_> = if x < n { dg.completions(sym).to_vec() } else { dg.gen_completion(sym).into_iter().flatten().collect() };
            let mut unary = false;
            for t in ts {
                if x < n && unary && !t.is_unary {
                    return Err(format!("rules of two parts that begin with {} are after those of one", internal_name_of(s, sym)));
                }
                unary |= t.is_unary;
                let rhs1 = dg.get_rhs1(t.dot);
                if rhs1.is_none() != t.is_unary {
                    return Err(format!("dot {} is listed with is_unary = {} but its second part is {rhs1:?}", t.dot, t.is_unary));
                }
                if dg.rhs1_or_lhs(t.dot) != rhs1.unwrap_or(dg.get_lhs(t.dot)) || dg.rhs1().get(t.dot as usize) != Some(&rhs1) {
                    return Err(format!("tables disagree about the second part of dot {}", t.dot));
                }
                v.push((sym, rhs1, dg.get_lhs(t.dot), t.dot, t.symbol));
            }
        }
        Ok(v)
    })??;
    let mut dots: Vec<u32> = rules.iter().map(|r| r.3).collect();
    dots.sort();
    check!(dots == (0..dg.num_rules() as u32).collect::<Vec<_>>(), "the completion tables list the dots {dots:?}; there are {} rules", dg.num_rules());
    rules.sort_by_key(|r| r.3);
    let info = dg.forest_info();
    let null: std::collections::HashMap<usize, [Symbol; 2]> = dg.eliminated_nulling_intermediate().iter().map(|&[l, x, y]| (l.usize(), [x, y])).collect();
    check!(null.len() == dg.eliminated_nulling_intermediate().len(), "two entries for one generated empty symbol");
    fn nulled(s: GR, null: &std::collections::HashMap<usize, [Symbol; 2]>, x: Symbol, out: &mut Parts, depth: usize) -> Res {
        check!(depth < 10_000, "generated empty symbols contain each other");
        match null.get(&x.usize()) {
            Some(&[l, r]) => {
                nulled(s, null, l, out, depth + 1)?;
                nulled(s, null, r, out, depth + 1)
            }
            None => {
                let Some(d) = s.real.desc(x) else { return Err(format!("an empty part is {x:?}, which is no symbol of the grammar")) };
                out.push((d, true));
                Ok(())
            }
        }
    }
    // What the rules of a generated symbol stand for.
    type Rule = (Symbol, Option<Symbol>, Symbol, u32, Symbol);
    fn parts(s: GR, rules: &[Rule], null: &std::collections::HashMap<usize, [Symbol; 2]>, r: &Rule, depth: usize) -> Result<Vec<Parts>, String> {
        check!(depth <= rules.len(), "generated symbols contain each other");
        let dg = &s.real.dg;
        let of = |x: Symbol| -> Result<Vec<Parts>, String> {
            if let Some(d) = s.real.desc(x) {
                return Ok(vec![vec![(d, false)]]);
            }
            if x == dg.sof() {
                return Ok(vec![vec![(u16::MAX, false)]]);
            }
            if x == dg.eof() {
                return Ok(vec![vec![(u16::MAX - 1, false)]]);
            }
            check!(rules.iter().any(|q| q.2 == x), "a part is {x:?}, which is no symbol of the grammar and has no rules");
            let mut all = vec![];
            for q in rules.iter().filter(|q| q.2 == x) {
                all.extend(parts(s, rules, null, q, depth + 1)?);
            }
            Ok(all)
        };
        let mut v = of(r.0)?;
        if let Some(x) = r.1 {
            let right = of(x)?;
            v = v.iter().flat_map(|l| right.iter().map(move |r| l.iter().chain(r).copied().collect())).collect();
        }
        if let Some((x, right)) = dg.nulling(r.3) {
            let mut e = vec![];
            nulled(s, null, x, &mut e, 0)?;
            for p in &mut v {
                if right {
                    p.extend(&e);
                } else {
                    p.splice(0..0, e.iter().copied());
                }
            }
        }
        Ok(v)
    }
    let mut got: Vec<(u16, u32, Parts)> = vec![];
    let st = dg.start_sym();
    for r in &rules {
        ctx.transitions += 1;
        check!(info.nulling_eliminated.get(r.3 as usize).copied() == Some(dg.nulling(r.3)), "the forest information has another empty part for dot {}", r.3);
        check!(info.external_origin(r.3).map_or(!0, |o| o.id) == dg.external_origin(r.3).id, "the forest information has another rule for dot {}", r.3);
        let origin = dg.external_origin(r.3).id;
        if r.2.usize() >= n {
            check!(origin == !0, "dot {} is in the middle of a rule but reported as the end of rule {origin}", r.3);
            // The rule that it is a part of.
            let mut top = r;
            for _ in 0..rules.len() {
                if top.2.usize() < n {
                    break;
                }
                match rules.iter().find(|q| q.0 == top.2) {
                    Some(q) => top = q,
                    None => return Err(format!("the generated symbol {:?} begins no rule", top.2)),
                }
            }
            check!(top.4 == r.4, "dot {} asks for the prediction of {} but is a part of a rule of {}", r.3, internal_name_of(s, r.4), internal_name_of(s, top.2));
            continue;
        }
        check!(r.2 == r.4, "dot {} asks for the prediction of {} but is a rule of {}", r.3, internal_name_of(s, r.4), internal_name_of(s, r.2));
        if r.2 != st && s.real.desc(r.2).is_none() {
            check!(origin == !0, "dot {} is in the middle of a rule but reported as the end of rule {origin}", r.3);
            continue;
        }
        let (lhs, rule) = if r.2 == st {
            check!(origin == !0, "the wrapping rule is reported as rule {origin}");
            (u16::MAX, u32::MAX)
        } else {
            let Some(lhs) = s.real.desc(r.2) else { return Err(format!("a rule of {:?}, which is no symbol of the grammar", r.2)) };
            let Some(rule) = s.real.rule(origin) else { return Err(format!("dot {} is reported as the end of rule {origin}, which does not exist", r.3)) };
            (lhs, rule as u32)
        };
        for p in parts(s, &rules, &null, r, 0)? {
            got.push((lhs, rule, p));
        }
    }
    got.sort();
    // The same from the grammar.
    let mut want: Vec<(u16, u32, Parts)> = vec![];
    for (ri, (l, r)) in g.rules.iter().enumerate() {
        if !useful[ri] {
            continue;
        }
        let mut all: Vec<Parts> = vec![vec![]];
        for &x in r {
            let mut next = vec![];
            for p in &all {
                for (possible, e) in [(nonempty(x), false), (nullable(x), true)] {
                    if possible {
                        let mut q = p.clone();
                        q.push((x, e));
                        next.push(q);
                    }
                }
            }
            all = next;
        }
        want.extend(all.into_iter().filter(|p| p.iter().any(|x| !x.1)).map(|p| (*l, ri as u32, p)));
    }
    for (possible, e) in [(nonempty(0), false), (nullable(0), true)] {
        if possible {
            want.push((u16::MAX, u32::MAX, vec![(u16::MAX, false), (0, e), (u16::MAX - 1, false)]));
        }
    }
    want.sort();
    let name = |x: u16| match x {
        u16::MAX => "start of input".to_string(),
        0xfffe => "end of input".to_string(),
        x => g.sym_name(x),
    };
    let show = |(l, ri, p): &(u16, u32, Parts)| format!("{} ::= {} [rule {}]", if *l == u16::MAX { "wrapped start".into() } else { g.sym_name(*l) }, p.iter().map(|&(x, e)| if e { format!("({} empty)", name(x)) } else { name(x) }).collect::<Vec<_>>().join(" "), *ri as i32);
    if got != want {
        let extra = got.iter().find(|x| got.iter().filter(|y| y == x).count() > want.iter().filter(|y| y == x).count());
        let missing = want.iter().find(|x| want.iter().filter(|y| y == x).count() > got.iter().filter(|y| y == x).count());
        return Err(format!("the compiled rules have too much: {}; too little: {}", extra.map_or("nothing".into(), show), missing.map_or("nothing".into(), show)));
    }
    ctx.traces += 1;
    ctx.outcome(&got);
    ctx.sample(|| format!("{} | {} compiled rules stand for {}", g.show(), rules.len(), got.iter().map(show).collect::<Vec<_>>().join("; ")));
    Ok(())
}

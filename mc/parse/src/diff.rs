//! Comparing two compiled grammars: by their tables, and by everything a caller can observe of parses with them.
use crate::drive::*;
use crate::forest::{self, Shown};
use crate::real::*;
use crate::recog::{self, Step};
use crate::refr::Terms;
use cfg::Symbol;
use gearley_default_grammar::DefaultGrammar;
use gearley_grammar::Grammar;
use mclib::{check, guarded, no_panic, unit, Ctx, Res, Tier, Unit};
use std::cell::RefCell;
use std::collections::HashMap;

/// Everything that the public interface of a compiled grammar tells, by name.
pub fn tables<G: Grammar>(dg: &G, ext_syms: &[Symbol]) -> Vec<(&'static str, String)> {
    let n = dg.num_syms();
    let num = |s: Symbol| s.usize();
    let internal: Vec<Symbol> = (0..n).map(symbol).collect();
    let (e0, e1) = dg.events();
    let dots: Vec<u32> = (0..dg.num_rules() as u32).collect();
    let real_lhs = |d: u32| num(dg.get_lhs(d));
    let mut v: Vec<(&'static str, String)> = vec![
        ("sizes", format!("{:?}", (n, dg.num_gensyms(), dg.num_rules()))),
        ("start and boundary symbols", format!("{:?}", (num(dg.sof()), num(dg.eof()), num(dg.start_sym()), num(dg.externalized_start_sym())))),
        ("trivial derivation", format!("{}", dg.has_trivial_derivation())),
        ("dot before the end of input", format!("{}", dg.dot_before_eof())),
        ("events", format!("{e0:?} {e1:?}")),
        ("trace", format!("{:?}", dg.trace())),
        ("second symbols", format!("{:?}", dg.rhs1())),
        ("left-hand sides", format!("{:?}", dots.iter().map(|&d| real_lhs(d)).collect::<Vec<_>>())),
        ("rule numbers", format!("{:?}", dots.iter().map(|&d| dg.external_origin(d)).collect::<Vec<_>>())),
        ("eliminated empty symbols", format!("{:?}", dots.iter().map(|&d| dg.nulling(d)).collect::<Vec<_>>())),
        ("eliminated empty rules", format!("{:?}", dg.eliminated_nulling_intermediate())),
        ("forest tables", format!("{:?}", dg.forest_info())),
        ("external numbers", format!("{:?}", internal.iter().map(|&s| guarded(|| dg.to_external(s)).ok()).collect::<Vec<_>>())),
        ("internal numbers", format!("{:?}", ext_syms.iter().map(|&s| dg.to_internal(s)).collect::<Vec<_>>())),
    ];
    let row = |r: &bit_matrix::row::BitSlice| (0..n).filter(|&c| r.get(c)).collect::<Vec<_>>();
    v.push(("prediction rows", format!("{:?}", internal.iter().map(|&s| row(dg.prediction_row(s))).collect::<Vec<_>>())));
    v.push(("follow sets", format!("{:?}", internal.iter().map(|&s| row(dg.lhs_lr_set(s))).collect::<Vec<_>>())));
    v.push(("lookahead sets", format!("{:?}", dots.iter().filter(|&&d| dg.rhs1_or_lhs(d).usize() < n).map(|&d| row(dg.lookahead_set(d))).collect::<Vec<_>>())));
    v.push(("completions", format!("{:?}", internal.iter().map(|&s| guarded(|| dg.completions(s).to_vec()).ok()).collect::<Vec<_>>())));
    let gens: Vec<Symbol> = (n..n + dg.num_gensyms()).map(symbol).collect();
    v.push(("completions of inner symbols", format!("{:?}", gens.iter().map(|&s| guarded(|| dg.gen_completion(s)).ok()).collect::<Vec<_>>())));
    v
}

pub fn same_tables(a: &[(&'static str, String)], b: &[(&'static str, String)], who: (&str, &str)) -> Res {
    for (x, y) in a.iter().zip(b) {
        check!(x == y, "{}: {} gives\n{}\nand {} gives\n{}", x.0, who.0, x.1, who.1, y.1);
    }
    Ok(())
}

/// What was observed for one input; `None` where the implementation panicked.
#[derive(PartialEq, Eq, Debug, Clone, Hash)]
pub enum Row {
    Verdicts(Option<Vec<Step>>),
    Progress(Option<Shown>),
    /// Set of evaluation results.
    Results(&'static str, Option<Option<Vec<u32>>>),
}

pub type Rows = Vec<(Vec<u16>, Row)>;

/// Observes a grammar on all inputs up to a length: verdicts and failures, progress if asked for, evaluation results.
pub fn observe(ctx: &mut Ctx, s: &Setup, len: usize, terms: &RefCell<Terms>, progress: bool) -> Result<Rows, String> {
    let g = &s.a.g;
    let mut rows = vec![];
    prefixes(s.a, len, &mut |c, w| {
        let mut inputs = vec![];
        if maximal(c, w, len) {
            inputs.push(w.to_vec());
        }
        for t in recog::extensions(c) {
            inputs.push([w, &[t]].concat());
        }
        for v in inputs {
            ctx.traces += 1;
            ctx.transitions += v.len() as u64;
            let row = if progress {
                Row::Progress(guarded(|| forest::show_plain(s.real, &v)).ok())
            } else {
                Row::Verdicts(guarded(|| recog::run_plain(s, &v)).ok())
            };
            ctx.outcome(&row);
            rows.push((v, row));
        }
        if c.finished() && c.sentence_count() <= 2000 {
            ctx.states += 1;
            ctx.traces += 2;
            rows.push((w.to_vec(), Row::Results("simple forest", forest::results::<simple_bocage::Bocage>(s, w, terms))));
            rows.push((w.to_vec(), Row::Results("compact forest", forest::results::<compact_bocage::Bocage>(s, w, terms))));
        }
        ctx.sample(|| format!("{} | input {}", g.show(), g.show_str(w)));
        Ok(())
    })?;
    Ok(rows)
}

pub fn same_rows(s: &Setup, terms: &RefCell<Terms>, a: &Rows, b: &Rows, who: (&str, &str)) -> Res {
    let g = &s.a.g;
    for (x, y) in a.iter().zip(b) {
        if x != y {
            let show = |r: &Row| match r {
                Row::Results(n, Some(Some(v))) => format!("({n}) {}", terms.borrow().show_all(g, v)),
                r => format!("{r:?}"),
            };
            return Err(format!("input {}: {} shows {}\nbut {} shows {}", g.show_str(&x.0), who.0, show(&x.1), who.1, show(&y.1)));
        }
    }
    assert_eq!(a.len(), b.len());
    Ok(())
}

thread_local! {
    /// The grammar, what it shows in the order in which it is written, and the terms of its results.
    static BASE: RefCell<Option<(String, usize, std::rc::Rc<(Rows, RefCell<Terms>)>)>> = const { RefCell::new(None) };
    static SYMS: RefCell<HashMap<usize, Symbol>> = RefCell::new(HashMap::new());
}

/// Every declaration order compiles the same each time, and shows what the order in which the grammar is written shows.
pub fn g05(ctx: &mut Ctx, s: &Setup, len: usize) -> Res {
    let again = guarded(|| {
        let (c, _) = build_cfg(&s.a.g, s.order, false);
        DefaultGrammar::from_grammar(c)
    })
    .map_err(|p| format!("compiling again panics: {p:?}"))?;
    same_tables(&tables(&s.real.dg, &s.real.ext), &tables(&again, &s.real.ext), ("compiling", "compiling the same grammar again"))?;
    let base = BASE.with(|b| {
        let mut b = b.borrow_mut();
        let key = s.a.g.show();
        match &*b {
            Some((k, l, r)) if *k == key && *l == len => Ok(r.clone()),
            _ => {
                let o = Order::identity(&s.a.g);
                let real = Real::new(&s.a.g, &o, false);
                let s0 = Setup { a: s.a, real: &real, order: &o };
                let terms = RefCell::new(Terms::default());
                let rows = observe(ctx, &s0, len, &terms, false)?;
                let r = std::rc::Rc::new((rows, terms));
                *b = Some((key, len, r.clone()));
                Ok::<_, String>(r)
            }
        }
    })?;
    let rows = observe(ctx, s, len, &base.1, false)?;
    same_rows(s, &base.1, &base.0, &rows, ("the order in which the grammar is written", "this order"))
}

pub fn symbol(n: usize) -> Symbol {
    SYMS.with(|m| *m.borrow_mut().entry(n).or_insert_with(|| crate::tables::symbol_numbered(n)))
}

/// Large grammars: compiling is repeatable in every order.
pub fn extend(units: (Vec<Unit>, String), t: Tier) -> (Vec<Unit>, String) {
    let (mut u, mut b) = units;
    let mut grams = crate::wide::grams(t);
    grams.extend(crate::c::roots().iter().map(|r| crate::c::load(r)));
    b += &format!("; the tables of {} large grammars (wide ones, and the grammar of C with {} start symbols), compiled three times in each of six orders", grams.len(), crate::c::roots().len());
    for g in grams {
        u.push(unit(format!("grammar {} with {} symbols", g.name, g.syms()), move |ctx| {
            for o in Order::some(&g, 6) {
                let at = |e: String| format!("grammar {} with {} symbols (first symbols declared: {:?}): {e}", g.name, g.syms(), o.syms.iter().take(3).map(|&s| g.sym_name(s as u16)).collect::<Vec<_>>());
                let first = no_panic("compiling", || Real::new(&g, &o, true)).map_err(at)?;
                let want = tables(&first.dg, &first.ext);
                for _ in 0..2 {
                    let again = no_panic("compiling", || Real::new(&g, &o, true)).map_err(at)?;
                    same_tables(&tables(&again.dg, &again.ext), &want, ("compiling again", "the first time")).map_err(at)?;
                }
                ctx.states += 1;
                ctx.traces += 3;
                ctx.transitions += g.rules.len() as u64;
            }
            Ok(())
        }));
    }
    (u, b)
}

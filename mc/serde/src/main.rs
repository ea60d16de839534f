//! Saves and reloads compiled grammars exhaustively within bounds (G04). Apart from mc-parse, so that a serialization
//! that does not build leaves the other checks alone.
#![allow(dead_code)]
#[path = "../../parse/src/c.rs"]
mod c;
#[path = "../../parse/src/diff.rs"]
mod diff;
#[path = "../../parse/src/drive.rs"]
mod drive;
#[path = "../../parse/src/forest.rs"]
mod forest;
#[path = "../../parse/src/gram.rs"]
mod gram;
#[path = "../../parse/src/plans.rs"]
mod plans;
#[path = "../../parse/src/real.rs"]
mod real;
#[path = "../../parse/src/recog.rs"]
mod recog;
#[path = "../../parse/src/refr.rs"]
mod refr;
#[path = "../../parse/src/tables.rs"]
mod tables;
#[path = "../../parse/src/wide.rs"]
mod wide;

use drive::Orders;
use gram::Gram;
use gearley_default_grammar::DefaultGrammar;
use mclib::{check, guarded, no_panic, unit, Ctx, Res, Unit};
use real::{Real, Setup};
use std::cell::RefCell;

fn serde_json(dg: &DefaultGrammar) -> Result<DefaultGrammar, String> {
    let text = serde_json::to_string(dg).map_err(|e| format!("serde cannot save: {e}"))?;
    serde_json::from_str(&text).map_err(|e| format!("serde cannot reload {text}: {e}"))
}

/// A self-describing tree instead of text.
fn serde_value(dg: &DefaultGrammar) -> Result<DefaultGrammar, String> {
    let v = serde_json::to_value(dg).map_err(|e| format!("serde cannot save: {e}"))?;
    serde_json::from_value(v.clone()).map_err(|e| format!("serde cannot reload {v}: {e}"))
}

/// A binary format.
fn serde_cbor(dg: &DefaultGrammar) -> Result<DefaultGrammar, String> {
    let mut bytes = vec![];
    ciborium::into_writer(dg, &mut bytes).map_err(|e| format!("serde (CBOR) cannot save: {e}"))?;
    ciborium::from_reader(&bytes[..]).map_err(|e| format!("serde (CBOR) cannot reload {bytes:?}: {e}"))
}

/// A binary format without names or types.
fn serde_bincode(dg: &DefaultGrammar) -> Result<DefaultGrammar, String> {
    let bytes = bincode::serialize(dg).map_err(|e| format!("serde (bincode) cannot save: {e}"))?;
    bincode::deserialize(&bytes).map_err(|e| format!("serde (bincode) cannot reload {bytes:?}: {e}"))
}

fn miniserde(dg: &DefaultGrammar) -> Result<DefaultGrammar, String> {
    let text = miniserde::json::to_string(dg);
    miniserde::json::from_str(&text).map_err(|e| format!("miniserde cannot reload {text}: {e}"))
}

type Way = (&'static str, fn(&DefaultGrammar) -> Result<DefaultGrammar, String>);
const WAYS: [Way; 7] = [
    ("serde", serde_json),
    ("serde, as a value", serde_value),
    ("miniserde", miniserde),
    ("serde and then miniserde", |d| miniserde(&serde_json(d)?)),
    ("serde, as CBOR", serde_cbor),
    ("serde, as bincode", serde_bincode),
    ("miniserde twice", |d| miniserde(&miniserde(d)?)),
];

fn g04(ctx: &mut Ctx, s: &Setup, len: usize) -> Res {
    let want = diff::tables(&s.real.dg, &s.real.ext);
    let terms = RefCell::new(refr::Terms::default());
    let base = diff::observe(ctx, s, len, &terms, true)?;
    for (k, (name, way)) in WAYS.iter().enumerate() {
        let dg = no_panic(&format!("saving and reloading by {name}"), || way(&s.real.dg))??;
        ctx.states += 1;
        let who = ("the original", *name);
        let got = no_panic(&format!("the tables of the grammar reloaded by {name}"), || diff::tables(&dg, &s.real.ext))?;
        diff::same_tables(&want, &got, who)?;
        if k == 1 || k == 3 || k == 4 || k == 5 {
            // As the way before.
            continue;
        }
        let real = no_panic(&format!("the symbol maps of the grammar reloaded by {name}"), || Real::with(dg, s.real.ext.clone(), s.order))?;
        let s2 = Setup { a: s.a, real: &real, order: s.order };
        let rows = diff::observe(ctx, &s2, len, &terms, true)?;
        diff::same_rows(s, &terms, &base, &rows, who)?;
    }
    Ok(())
}

/// A large grammar: the tables after each way, and selected inputs.
fn large(ctx: &mut Ctx, g: &Gram, orders: usize, len: usize) -> Res {
    for o in drive::orders_of(g, Orders::Some(orders)) {
        let at = |e: String| format!("grammar {} with {} terminals and {} rules (first symbols declared: {:?}): {e}", g.name, g.ts, g.rules.len(), o.syms.iter().take(3).map(|&s| g.sym_name(s as u16)).collect::<Vec<_>>());
        let real = no_panic("compiling", || Real::new(g, &o, true)).map_err(at)?;
        let want = diff::tables(&real.dg, &real.ext);
        for (name, way) in WAYS {
            let dg = no_panic(&format!("saving and reloading by {name}"), || way(&real.dg)).and_then(|r| r).map_err(at)?;
            ctx.states += 1;
            let got = no_panic(&format!("the tables of the grammar reloaded by {name}"), || diff::tables(&dg, &real.ext)).map_err(at)?;
            diff::same_tables(&want, &got, ("the original", name)).map_err(|e| at(e.chars().take(3000).collect()))?;
            if len == 0 {
                continue;
            }
            let again = no_panic(&format!("the symbol maps of the grammar reloaded by {name}"), || Real::with(dg, real.ext.clone(), &o)).map_err(at)?;
            wide::inputs(g, len, &mut |p, w| {
                let at = |e: String| at(format!("input {}: {e}", g.show_str(w)));
                ctx.traces += 1;
                ctx.transitions += w.len() as u64;
                let run = |real: &Real| guarded(|| forest::show_plain(real, w)).ok();
                let (a, b) = (run(&real), run(&again));
                check!(a == b, "{}", at(format!("reloaded by {name}, the recognizer shows something else: {}", format!("{b:?} instead of {a:?}").chars().take(2000).collect::<String>())));
                if p.finished() {
                    let terms = RefCell::new(refr::Terms::default());
                    let run = |real: &Real| (trees::<simple_bocage::Bocage>(real, w, &terms), trees::<compact_bocage::Bocage>(real, w, &terms));
                    let (a, b) = (run(&real), run(&again));
                    check!(a == b, "{}", at(format!("reloaded by {name}, evaluating (with the simple and the compact forest) gives {b:?} instead of {a:?}")));
                }
                Ok(())
            })?;
        }
    }
    Ok(())
}

fn trees<F: real::Bocage>(real: &Real, w: &[u16], terms: &RefCell<refr::Terms>) -> Option<Option<Vec<u32>>> {
    guarded(|| {
        let mut r = real::forest_rec::<F>(real);
        r.start();
        for (k, &t) in w.iter().enumerate() {
            r.read(real.i(t), k as u32);
        }
        let node = r.r.finished_node()?;
        let mut v: Vec<u32> = r.r.into_forest().eval(real::TermEval { real, terms, log: None }, node).into_iter().map(|t| t.0).collect();
        v.sort();
        Some(v)
    })
    .ok()
}

fn extend(units: (Vec<Unit>, String), t: mclib::Tier) -> (Vec<Unit>, String) {
    let (mut u, b) = units;
    for g in wide::grams(t) {
        let g = g.clone();
        u.push(unit(format!("wide grammar {}, {} terminals, {} rules", g.name, g.ts, g.rules.len()), move |ctx| large(ctx, &g, t.pick(2, 4), t.pick(2, 3))));
    }
    let most = t.pick(300usize, 600);
    for k in (1..=most).step_by(10) {
        u.push(unit(format!("tables of grammars of size {k} and more"), move |ctx| {
            for k in k..k + 10 {
                for g in [wide::chain(k), wide::nest(k), wide::many_rules(k), wide::long_rule(k)] {
                    large(ctx, &g, 1, 0)?;
                }
            }
            Ok(())
        }));
    }
    for root in ["translation_unit", "declaration", "statement", "expression", "initializer", "type_name", "declarator"] {
        u.push(unit(format!("C, {root}"), move |ctx| large(ctx, &c::load(root), t.pick(2, 4), t.pick(1, 2))));
    }
    (u, format!("{b}; four kinds of grammars with up to {most} terminals and as many nonterminals and rules (tables; with inputs for selected sizes), and the grammar of C that comes with the library, from seven start symbols"))
}

fn main() {
    let a = mclib::args();
    let t = a.tier;
    let (units, bounds) = match a.property.as_str() {
        "G04" => {
            let mut p = plans::plan(plans::families(t.pick(2, 4)), t.pick(2, 3), t.pick(3, 4), t.pick(4, 5));
            p.events = true;
            extend(plans::go(p, g04), t)
        }
        p => panic!("unknown property {p}"),
    };
    mclib::main(a, units, &bounds)
}

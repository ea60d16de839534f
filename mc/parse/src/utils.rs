//! The convenience functions of gearley-utils: U01..U05.
use crate::drive::*;
use crate::forest::differ;
use crate::gram::Gram;
use crate::keep::{Without, Zero};
use crate::real::*;
use crate::refr::{bit, Chart, Mask, Terms};
use crate::tables::symbol_numbered;
use cfg::Symbol;
use cfg_load::advanced::{AdvancedGrammar, LexerMap};
use gearley_forest::node_handle::NodeHandle;
use gearley_forest::{Forest, NullForest};
use gearley_grammar::Grammar;
use gearley_recognizer::perf_hint::{DefaultPerfHint, PerfHint};
use gearley_recognizer::Recognizer;
use gearley_utils::{parse_terminal_list, parse_tokenizing, RecognizerParseExt};
use mclib::{check, no_panic, unit, Ctx, Res, Tier, Unit};
use std::cell::RefCell;

/// The result of a parsing function; its error type cannot be named outside its crate.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Yes,
    No,
    /// Position and the whole text.
    At(usize, String),
    Other(String),
}

fn out<E: std::fmt::Debug>(r: Result<bool, E>) -> Out {
    match r {
        Ok(true) => Out::Yes,
        Ok(false) => Out::No,
        Err(e) => {
            let t = format!("{e:?}");
            match t.rsplit_once(" i: ").and_then(|(_, n)| n.trim_end_matches(|c: char| !c.is_ascii_digit()).parse().ok()) {
                Some(n) if t.starts_with("Parse") => Out::At(n, t),
                _ => Out::Other(t),
            }
        }
    }
}

fn parse_null(s: &Setup, toks: &[Symbol]) -> Out {
    out(Recognizer::new(&s.real.dg).parse(toks))
}

fn parse_forest(s: &Setup, toks: &[Symbol]) -> Out {
    out(Recognizer::with_forest(&s.real.dg, simple_bocage::Bocage::new(&s.real.dg)).parse(toks))
}

/// Calls `f` with inputs: all that some sentence begins with, each of them with one wrong token and up to `more`
/// arbitrary ones after it. The second argument is the length of the longest viable beginning, the third says whether
/// that beginning is a sentence.
fn inputs(s: &Setup, len: usize, more: usize, f: &mut dyn FnMut(&[u16], usize, bool) -> Res) -> Res {
    let alpha: Vec<u16> = s.a.g.alpha.iter().copied().filter(|&t| s.a.occurs & bit(t) != 0).collect();
    prefixes(s.a, len, &mut |c, w| {
        let fin = c.finished();
        f(w, w.len(), fin)?;
        for &t in &alpha {
            if c.next_terms() & bit(t) == 0 {
                let mut v = w.to_vec();
                v.push(t);
                tails(&mut v, &alpha, more, &mut |v| f(v, w.len(), fin))?;
            }
        }
        Ok(())
    })
}

fn tails(v: &mut Vec<u16>, alpha: &[u16], more: usize, f: &mut dyn FnMut(&[u16]) -> Res) -> Res {
    f(v)?;
    if more > 0 {
        for &t in alpha {
            v.push(t);
            tails(v, alpha, more - 1, f)?;
            v.pop();
        }
    }
    Ok(())
}

pub fn u01(ctx: &mut Ctx, s: &Setup, len: usize) -> Res {
    let g = &s.a.g;
    let more = if g.alpha.len() > 3 { 1 } else { 2 };
    inputs(s, len, more, &mut |w, viable, fin| {
        ctx.states += 1;
        let toks: Vec<Symbol> = w.iter().map(|&t| s.real.ext[t as usize]).collect();
        for forest in [false, true] {
            let got = no_panic(&format!("parse({})", g.show_str(w)), || if forest { parse_forest(s, &toks) } else { parse_null(s, &toks) })?;
            ctx.traces += 1;
            ctx.transitions += w.len() as u64;
            let ok = match &got {
                Out::Yes => viable == w.len() && fin,
                Out::No => viable == w.len() && !fin,
                Out::At(i, text) => viable < w.len() && (*i == viable || *i + 1 == viable) && text.contains(&format!("tokens: {:?}", vec![toks[*i]])),
                Out::Other(_) => false,
            };
            check!(ok, "parse({}) gives {got:?}; sentences can begin with {viable} of the {} tokens (token 0 is {:?}){}", g.show_str(w), w.len(), toks.first(), if viable == w.len() { format!(", and it {} a sentence", if fin { "is" } else { "is not" }) } else { String::new() });
            ctx.outcome(&(w.len(), viable, fin, matches!(got, Out::At(i, _) if i == viable)));
            ctx.sample(|| format!("{} | parse({}) = {got:?}", g.show(), g.show_str(w)));
        }
        Ok(())
    })
}

/// Words that are not that name, but nearly.
fn near_misses(name: &str) -> Vec<String> {
    let mut v = vec![format!(" {name}"), format!("{name} "), format!("{name}\n"), format!("\t{name}"), format!("{name}{name}"), format!("'{name}'"), format!("\"{name}\""), format!("{name}\0"), format!("\u{feff}{name}"), format!("{name}_"), name.to_uppercase(), name.to_lowercase(), name.trim().to_string()];
    let mut c = name.chars();
    c.next();
    v.push(c.as_str().to_string());
    let mut c = name.chars();
    c.next_back();
    v.push(c.as_str().to_string());
    v.retain(|x| x != name);
    v
}

pub fn u02(ctx: &mut Ctx, s: &Setup, len: usize) -> Res {
    let g = &s.a.g;
    let cfg = build_cfg(g, s.order, false).0;
    // Words: names of terminals, and ones that name nothing.
    let known: Vec<String> = (0..g.syms() as u16).map(|x| g.sym_name(x)).collect();
    inputs(s, len, 1, &mut |w, viable, fin| {
        ctx.states += 1;
        let mut words: Vec<Vec<String>> = vec![w.iter().map(|&t| g.sym_name(t)).collect()];
        // Words that are nearly names.
        for k in 0..w.len() {
            for near in near_misses(&words[0][k]) {
                if !known.contains(&near) {
                    let mut v = words[0].clone();
                    v[k] = near;
                    words.push(v);
                }
            }
        }
        for k in 0..=w.len() {
            for bad in ["zz", "", "A B"] {
                let mut v = words[0].clone();
                v.insert(k, bad.to_string());
                words.push(v.clone());
                v.push("yy".into());
                words.push(v);
            }
        }
        for v in &words {
            let unknown = v.iter().find(|x| !known.contains(x));
            let got = no_panic(&format!("parse_terminal_list({v:?})"), || out(parse_terminal_list(cfg.clone(), s.real.dg.clone(), v.iter().map(|x| x.as_str()))))?;
            ctx.traces += 1;
            ctx.transitions += v.len() as u64;
            let ok = match unknown {
                Some(x) => matches!(&got, Out::Other(t) if t.starts_with("Tokenize") && t.contains(&format!("word: {x:?}"))),
                None if viable == w.len() && fin => got == Out::Yes,
                None => matches!(got, Out::At(..) | Out::Other(_)),
            };
            check!(ok, "parse_terminal_list({v:?}) gives {got:?}; first unknown word: {unknown:?}; is a sentence: {}", unknown.is_none() && viable == w.len() && fin);
            ctx.outcome(&format!("{got:?}"));
            ctx.sample(|| format!("{} | parse_terminal_list({v:?}) = {got:?}", g.show()));
        }
        Ok(())
    })
}

/// Characters stand for every set of terminals.
pub fn u03(ctx: &mut Ctx, s: &Setup, len: usize) -> Res {
    let g = &s.a.g;
    let alpha: Vec<u16> = g.alpha.iter().copied().filter(|&t| s.a.occurs & bit(t) != 0).take(3).collect();
    let all = ['x', 'é', '→', '0', '+', '\u{10348}', 'q', ' '];
    // Character k is in the class of terminal j if bit j of k is set; the character for 0 is in no class.
    let chars: Vec<(char, Mask)> = (0..1usize << alpha.len()).map(|k| (all[k], (0..alpha.len()).filter(|j| k >> j & 1 != 0).fold(0, |m, j| m | bit(alpha[j])))).collect();
    let classes: Vec<(Symbol, Vec<char>)> = alpha.iter().map(|&t| (s.real.ext[t as usize], chars.iter().filter(|c| c.1 & bit(t) != 0).map(|c| c.0).collect())).collect();
    let cfg = build_cfg(g, s.order, false).0;
    fn go(ctx: &mut Ctx, c: &mut Chart, text: &mut String, n: usize, max: usize, chars: &[(char, Mask)], judge: &dyn Fn(&mut Ctx, &str, Option<usize>, bool) -> Res) -> Res {
        ctx.states += 1;
        judge(ctx, text, None, c.finished())?;
        for &(ch, m) in chars {
            let len = text.len();
            text.push(ch);
            if c.next_terms() & m != 0 {
                if n < max {
                    c.push(m);
                    go(ctx, c, text, n + 1, max, chars, judge)?;
                    c.pop();
                }
            } else {
                judge(ctx, text, Some(n), false)?;
                for &(after, _) in chars {
                    let l = text.len();
                    text.push(after);
                    judge(ctx, text, Some(n), false)?;
                    text.truncate(l);
                }
            }
            text.truncate(len);
        }
        Ok(())
    }
    let judge = |ctx: &mut Ctx, text: &str, bad: Option<usize>, fin: bool| -> Res {
        let loaded = AdvancedGrammar { cfg: cfg.clone(), lexer_map: LexerMap::from_classes(classes.clone()) };
        let got = no_panic(&format!("parse_tokenizing({text:?})"), || out(parse_tokenizing(loaded, s.real.dg.clone(), text)))?;
        ctx.traces += 1;
        ctx.transitions += text.chars().count() as u64;
        let ok = match bad {
            Some(k) => matches!(got, Out::At(i, _) if i == k),
            None if fin => got == Out::Yes,
            None => matches!(got, Out::At(..) | Out::Other(_)),
        };
        check!(ok, "parse_tokenizing({text:?}) gives {got:?}, but {}; classes of characters: {:?}", match bad { Some(k) => format!("no sentence begins with the characters up to and including number {k}"), None => format!("the text can be read as a sentence: {fin}") }, chars.iter().map(|c| (c.0, alpha.iter().filter(|&&t| c.1 & bit(t) != 0).map(|&t| g.sym_name(t)).collect::<Vec<_>>())).collect::<Vec<_>>());
        ctx.outcome(&format!("{text} {got:?}"));
        ctx.sample(|| format!("{} | parse_tokenizing({text:?}) = {got:?}", g.show()));
        Ok(())
    };
    go(ctx, &mut Chart::new(s.a), &mut String::new(), 0, len, &chars, &judge)
}

/// Token lists with one or two tokens that the grammar has no use for.
pub fn u04(ctx: &mut Ctx, s: &Setup, len: usize) -> Res {
    let g = &s.a.g;
    let mut bad: Vec<(Symbol, String)> = (g.nts as u16..g.syms() as u16).filter(|&t| s.a.occurs & bit(t) == 0).map(|t| (s.real.ext[t as usize], format!("useless {}", g.sym_name(t)))).collect();
    for n in [g.syms() + 8, g.syms() + 9, 1000] {
        bad.push((symbol_numbered(n), format!("undeclared #{n}")));
    }
    let cfg = build_cfg(g, s.order, false).0;
    inputs(s, len, 1, &mut |w, viable, _| {
        ctx.states += 1;
        for at in 0..=w.len() {
            for (sym, name) in &bad {
                for second in [false, true] {
                    let mut toks: Vec<Symbol> = w.iter().map(|&t| s.real.ext[t as usize]).collect();
                    toks.insert(at, *sym);
                    if second {
                        toks.push(bad[0].0);
                    }
                    let what = || format!("{} with {name} before token {at}{}", g.show_str(w), if second { format!(" and {} at the end", bad[0].1) } else { String::new() });
                    for forest in [false, true] {
                        let got = no_panic(&format!("parse of {}", what()), || if forest { parse_forest(s, &toks) } else { parse_null(s, &toks) })?;
                        ctx.traces += 1;
                        ctx.transitions += toks.len() as u64;
                        let limit = at.min(viable);
                        check!(matches!(got, Out::At(i, _) if i <= limit), "parse of {} gives {got:?}, not an error at or before token {limit}", what());
                        ctx.outcome(&format!("{got:?}"));
                        ctx.sample(|| format!("{} | {}: {got:?}", g.show(), what()));
                    }
                }
            }
        }
        // The same for characters and words that stand for such tokens.
        for (sym, name) in bad.iter().filter(|b| b.1.starts_with("useless")) {
            for at in 0..=w.len() {
                let letters = ['p', 'q', 'r', 's', 't', 'u', 'v', 'w'];
                let mut text: String = w.iter().map(|&t| letters[t as usize % 8]).collect();
                let pos = text.char_indices().nth(at).map_or(text.len(), |x| x.0);
                text.insert(pos, 'Z');
                let classes = g.alpha.iter().map(|&t| (s.real.ext[t as usize], vec![letters[t as usize % 8]])).chain([(*sym, vec!['Z'])]).collect();
                let loaded = AdvancedGrammar { cfg: cfg.clone(), lexer_map: LexerMap::from_classes(classes) };
                let got = no_panic(&format!("parse_tokenizing of {text:?} (Z is {name})"), || out(parse_tokenizing(loaded, s.real.dg.clone(), &text)))?;
                ctx.traces += 1;
                check!(matches!(got, Out::At(i, _) if i <= at), "parse_tokenizing of {text:?}, where Z is only {name}, gives {got:?}");
                let mut words: Vec<String> = w.iter().map(|&t| g.sym_name(t)).collect();
                words.insert(at, name.trim_start_matches("useless ").to_string());
                let got = no_panic(&format!("parse_terminal_list of {words:?} ({name})"), || out(parse_terminal_list(cfg.clone(), s.real.dg.clone(), words.iter().map(|x| x.as_str()))))?;
                ctx.traces += 1;
                check!(matches!(got, Out::At(..) | Out::Other(_)), "parse_terminal_list of {words:?} ({name}) gives {got:?}");
            }
        }
        Ok(())
    })
}

// ------------------------------------------------------------------------------------------------ U05

/// Sentences with more derivations are not evaluated.
const DERIVATIONS: u64 = 60;

type Rz<G, F, P> = Recognizer<G, F, P>;

/// What `parse` gives, and what the finished node evaluates to.
type Seen = (Out, Option<Vec<u32>>);

fn rest<G: Grammar, F: Bocage, P: PerfHint>(r: Rz<G, F, P>, s: GR, terms: &RefCell<Terms>) -> Option<Vec<u32>> {
    let n = r.finished_node()?;
    let mut f = r.into_forest();
    let mut v: Vec<u32> = f.eval(TermEval { real: s.real, terms, log: None }, n).into_iter().map(|t| t.0).collect();
    v.sort();
    Some(v)
}

/// The derivations of what the table has read, values being positions.
fn derivations(c: &Chart, terms: &RefCell<Terms>) -> Option<Vec<u32>> {
    (c.finished() && c.sentence_count() <= DERIVATIONS).then(|| c.sentence_trees(&mut terms.borrow_mut(), &|k, _| k as u32))
}

/// Token by token, after `parse`.
fn go_on<G: Grammar, F: Forest, P: PerfHint>(r: &mut Rz<G, F, P>, t: Symbol, k: usize) -> bool {
    r.begin_earleme();
    r.scan(t, k as u32);
    r.end_earleme()
}

fn u05_forest<F: Bocage>(ctx: &mut Ctx, s: &Setup, len: usize, pairs: usize, more: usize) -> Res {
    let g = &s.a.g;
    let alpha: Vec<u16> = g.alpha.iter().copied().filter(|&t| s.a.occurs & bit(t) != 0).collect();
    let terms = RefCell::new(Terms::default());
    let sym = |w: &[u16]| w.iter().map(|&t| s.real.ext[t as usize]).collect::<Vec<Symbol>>();
    let rec = || Recognizer::with_forest(&s.real.dg, F::make(&s.real.dg));
    // What is left after `parse`, and reading on.
    prefixes(s.a, len, &mut |c, w| {
        ctx.states += 1;
        let toks = sym(w);
        let want = if c.finished() { Out::Yes } else { Out::No };
        let got: Seen = no_panic(&format!("{}: parse({})", F::NAME, g.show_str(w)), || {
            let mut r = rec();
            let o = out(r.parse(&toks));
            (o, (c.sentence_count() <= DERIVATIONS).then(|| rest(r, s.gr(), &terms)).flatten())
        })?;
        ctx.traces += 1;
        ctx.transitions += w.len() as u64 + 1;
        let trees = derivations(c, &terms);
        check!(got.0 == want, "{}: parse({}) gives {:?}", F::NAME, g.show_str(w), got.0);
        match (&got.1, &trees) {
            (Some(a), Some(b)) => check!(a == b, "{}: after parse({}): {}", F::NAME, g.show_str(w), differ(g, &terms, a, b)),
            (None, None) => {}
            (a, b) => check!(a.is_some() == b.is_some(), "{}: after parse({}) there is {} finished node", F::NAME, g.show_str(w), if a.is_some() { "a" } else { "no" }),
        }
        // Every way of going on with up to `more` tokens.
        let mut v: Vec<u16> = vec![];
        fn tail(c: &mut Chart, v: &mut Vec<u16>, more: usize, alpha: &[u16], f: &mut dyn FnMut(&Chart, &[u16], bool) -> Res) -> Res {
            if v.len() == more {
                return Ok(());
            }
            for &t in alpha {
                let ok = c.next_terms() & bit(t) != 0;
                v.push(t);
                c.push_tok(t);
                f(c, v, ok)?;
                if ok {
                    tail(c, v, more, alpha, f)?;
                }
                c.pop();
                v.pop();
            }
            Ok(())
        }
        tail(c, &mut v, more, &alpha, &mut |c, v, ok| {
            let what = || format!("{}: parse({}) and then {} one by one", F::NAME, g.show_str(w), g.show_str(v));
            let (oks, fin, got) = no_panic(&what(), || {
                let mut r = rec();
                let _ = r.parse(&toks);
                let oks: Vec<bool> = v.iter().enumerate().map(|(k, &t)| go_on(&mut r, s.real.i(t), w.len() + k)).collect();
                let fin = *oks.last().unwrap() && r.is_finished();
                let got = if fin && c.sentence_count() <= DERIVATIONS { rest(r, s.gr(), &terms) } else { None };
                (oks, fin, got)
            })?;
            ctx.traces += 1;
            ctx.transitions += (w.len() + v.len()) as u64 + 1;
            check!(oks.iter().enumerate().all(|(k, &o)| o == (ok || k + 1 < v.len())), "{} gives {oks:?}; a sentence can begin with all of it: {ok}", what());
            check!(fin == (ok && c.finished()), "{}: finished is {fin}", what());
            if fin {
                if let (Some(a), Some(b)) = (&got, &derivations(c, &terms)) {
                    check!(a == b, "{}: {}", what(), differ(g, &terms, a, b));
                }
            }
            Ok(())
        })?;
        ctx.outcome(&(w.len(), got.0 == Out::Yes, got.1.map(|v| v.len())));
        Ok(())
    })?;
    // One after another on the same recognizer: every pair of inputs.
    let mut all: Vec<(Vec<Symbol>, String, bool)> = vec![];
    let useless = symbol_numbered(g.syms() + 8);
    inputs(s, pairs, 1, &mut |w, _, fin| {
        all.push((sym(w), g.show_str(w), fin));
        if w.len() < 2 {
            let mut v = sym(w);
            v.push(useless);
            all.push((v, format!("{} and an undeclared symbol", g.show_str(w)), false));
        }
        Ok(())
    })?;
    let fresh: Vec<Seen> = all
        .iter()
        .map(|(t, n, _)| {
            no_panic(&format!("parse({n})"), || {
                let mut r = rec();
                let o = out(r.parse(t));
                let v = if o == Out::Yes { rest(r, s.gr(), &terms) } else { None };
                (o, v)
            })
        })
        .collect::<Result<_, String>>()?;
    for (i, (first, n1, _)) in all.iter().enumerate() {
        let got = no_panic(&format!("{}: parse({n1}), and after each reset all others", F::NAME), || {
            let mut r = rec();
            let mut v: Vec<(Out, Option<NodeHandle>, Out)> = vec![];
            for (second, _, _) in &all {
                let a = out(r.parse(first));
                r.reset();
                let b = out(r.parse(second));
                let n = if b == Out::Yes { r.finished_node() } else { None };
                r.reset();
                v.push((b, n, a));
            }
            let mut f = r.into_forest();
            v.into_iter()
                .map(|(o, n, a)| {
                    let e = n.map(|n| {
                        let mut e: Vec<u32> = f.eval(TermEval { real: s.real, terms: &terms, log: None }, n).into_iter().map(|t| t.0).collect();
                        e.sort();
                        e
                    });
                    (o, e, a)
                })
                .collect::<Vec<_>>()
        })?;
        ctx.traces += got.len() as u64;
        ctx.transitions += got.len() as u64;
        for (j, (o, e, a)) in got.iter().enumerate() {
            let what = || format!("{}: parse({}) after parse({n1}), with a reset in between, and the same with all lists before it in {:?}", F::NAME, all[j].1, all[..j].iter().map(|x| &x.1).collect::<Vec<_>>());
            check!(*a == fresh[i].0, "{}: parse({n1}) for the {}th time after a reset gives {a:?}, not {:?}", F::NAME, j + 1, fresh[i].0);
            check!(*o == fresh[j].0, "{} gives {o:?}; a new recognizer gives {:?}", what(), fresh[j].0);
            match (e, &fresh[j].1) {
                (Some(a), Some(b)) => check!(a == b, "{}: evaluation gives {}, with a new recognizer {}", what(), terms.borrow().show_all(g, a), terms.borrow().show_all(g, b)),
                (a, b) => check!(a.is_some() == b.is_some(), "{}: there is a finished node: {}; with a new recognizer: {}", what(), a.is_some(), b.is_some()),
            }
        }
    }
    Ok(())
}

pub fn u05(ctx: &mut Ctx, s: &Setup, len: usize) -> Res {
    let g = &s.a.g;
    let pairs = len - 2;
    let more = if len > 3 { 2 } else { 1 };
    u05_forest::<simple_bocage::Bocage>(ctx, s, len, pairs, more)?;
    u05_forest::<compact_bocage::Bocage>(ctx, s, len, pairs, more)?;
    // Whatever the recognizer consists of, the result is the same.
    let dg = &s.real.dg;
    inputs(s, len, 1, &mut |w, _, _| {
        let toks: Vec<Symbol> = w.iter().map(|&t| s.real.ext[t as usize]).collect();
        let want = no_panic(&format!("parse({})", g.show_str(w)), || parse_null(s, &toks))?;
        let all = no_panic(&format!("parse({}) with various recognizers", g.show_str(w)), || {
            vec![
                ("the grammar owned", out(Recognizer::new(dg.clone()).parse(&toks))),
                ("a reference to a reference", out(Recognizer::new(&dg).parse(&toks))),
                ("simple forest, grammar owned", out(Recognizer::with_forest(dg.clone(), simple_bocage::Bocage::new(dg)).parse(&toks))),
                ("simple forest", parse_forest(s, &toks)),
                ("compact forest", out(Recognizer::with_forest(dg, compact_bocage::Bocage::new(dg)).parse(&toks))),
                ("no capacities", out(Recognizer::with_forest_and_policy(dg, NullForest, Zero).parse(&toks))),
                ("no capacities, compact forest", out(Recognizer::with_forest_and_policy(dg, compact_bocage::Bocage::new(dg), Zero).parse(&toks))),
                ("capacity 0", out(Recognizer::with_forest_and_policy(dg, NullForest, DefaultPerfHint::new(0)).parse(&toks))),
                ("capacity 1, simple forest", out(Recognizer::with_forest_and_policy(dg, simple_bocage::Bocage::new(dg), DefaultPerfHint::new(1)).parse(&toks))),
            ]
        })?;
        ctx.traces += all.len() as u64 + 1;
        for (name, got) in all {
            check!(got == want, "parse({}) gives {want:?}, but with {name} {got:?}", g.show_str(w));
        }
        // Without lookahead, a wrong token is found where it is.
        let got = no_panic(&format!("parse({}) without lookahead", g.show_str(w)), || out(Recognizer::with_forest_and_policy(dg, NullForest, Without).parse(&toks)))?;
        let same = match (&got, &want) {
            (Out::At(i, _), Out::At(j, _)) => *i == *j || *i == *j + 1,
            (a, b) => a == b,
        };
        check!(same, "parse({}) gives {want:?}, but without lookahead {got:?}", g.show_str(w));
        Ok(())
    })
}

/// S ::= t t for every terminal, and S ::= t1 .. tk: a pair of words is a sentence if it is the same twice.
fn twice(names: &[&str]) -> Gram {
    let k = names.len();
    let mut rules: Vec<(u16, Vec<u16>)> = (1..=k as u16).map(|t| (0, vec![t, t])).collect();
    rules.push((0, (1..=k as u16).collect()));
    let mut g = Gram::new("twice", 1, k, rules);
    g.names = std::iter::once("Start").chain(names.iter().copied()).map(String::from).collect();
    g
}

/// S ::= a S b | c d: long inputs.
fn nested() -> Gram {
    Gram::parse("nested", "S = a S b | c d")
}

/// An input of some length: 0 for what a sentence begins with, and the place of a wrong token.
fn long(n: usize, wrong: Option<usize>) -> (Vec<u16>, bool) {
    let depth = (n + n % 2).saturating_sub(2) / 2;
    let mut w: Vec<u16> = (0..n).map(|i| if i < depth { 1 } else if i == depth { 3 } else if i == depth + 1 { 4 } else { 2 }).collect();
    if let Some(k) = wrong {
        w[k] = match w[k] { 1 | 3 => 2, _ => 3 };
    }
    (w, n >= 2 && n % 2 == 0)
}

pub fn extend(units: (Vec<Unit>, String), prop: &'static str, t: Tier) -> (Vec<Unit>, String) {
    let (mut u, mut b) = units;
    if prop == "U02" {
        let sets: Vec<Vec<&'static str>> = vec![
            vec!["a", "A", "aa", "a a", " a", "a ", "a\n", "ä", "a\u{308}", "\u{1F600}"],
            vec!["+", "-", "'+'", "\"+\"", "++", "\t", " ", "  ", "0", "00"],
            vec!["if", "If", "IF", "i", "f", "iff", "if_", "_if", "\u{130}f", "\u{131}f"],
        ];
        b += &format!("; {} grammars with ten similar names each, all pairs of names and of words that are nearly names", sets.len());
        for names in sets {
            u.push(unit(format!("names {names:?}"), move |ctx| {
                let g = twice(&names);
                let o = Order::identity(&g);
                let real = no_panic("compiling", || Real::new(&g, &o, false))?;
                let cfg = build_cfg(&g, &o, false).0;
                let mut words: Vec<String> = names.iter().map(|n| n.to_string()).collect();
                for n in &names {
                    words.extend(near_misses(n));
                }
                words.retain(|w| w != "Start");
                words.sort();
                words.dedup();
                for x in &words {
                    for y in &words {
                        let v = [x.as_str(), y.as_str()];
                        let got = no_panic(&format!("parse_terminal_list({v:?})"), || out(parse_terminal_list(cfg.clone(), real.dg.clone(), v.into_iter())))?;
                        ctx.states += 1;
                        ctx.traces += 1;
                        ctx.transitions += 2;
                        let unknown = v.iter().find(|w| !names.contains(w));
                        let first_two = v == [names[0], names[1]];
                        let ok = match unknown {
                            Some(w) => matches!(&got, Out::Other(t) if t.starts_with("Tokenize") && t.contains(&format!("word: {w:?}"))),
                            None if x == y => got == Out::Yes,
                            None => matches!(got, Out::At(..) | Out::Other(_)),
                        };
                        check!(ok, "grammar {}: parse_terminal_list({v:?}) gives {got:?}; first unknown word: {unknown:?}; is a sentence: {}", g.show(), unknown.is_none() && x == y && !first_two);
                        ctx.outcome(&format!("{got:?}"));
                    }
                }
                Ok(())
            }));
        }
    }
    let lens: Vec<usize> = t.pick(vec![14, 15, 16, 17, 18, 32, 64, 126, 128, 130, 254, 255, 256, 257, 258, 300, 1000, 32_768, 65_534, 65_536, 65_538], vec![14, 15, 16, 17, 18, 32, 64, 126, 128, 130, 254, 255, 256, 257, 258, 300, 1000, 4096, 32_768, 65_534, 65_535, 65_536, 65_537, 65_538, 131_072, 400_000]);
    b += &format!("; nested brackets of up to {} tokens, right and with a wrong token at selected places", lens.last().unwrap());
    for n in lens {
        u.push(unit(format!("an input of {n} tokens"), move |ctx| {
            let g = nested();
            let o = Order::identity(&g);
            let real = no_panic("compiling", || Real::new(&g, &o, false))?;
            let cfg = build_cfg(&g, &o, false).0;
            let mut places: Vec<Option<usize>> = vec![None];
            let mut near: Vec<usize> = vec![0, 1, n / 2 - 2, n / 2 - 1, n / 2, n / 2 + 1, n - 2, n - 1];
            for p in [16usize, 128, 256, 65_536] {
                near.extend([p - 1, p, p + 1]);
            }
            near.retain(|&k| k < n);
            near.sort();
            near.dedup();
            places.extend(near.into_iter().map(Some));
            for wrong in places {
                let (w, fin) = long(n, wrong);
                let chars: Vec<char> = vec!['x', 'é', '→', '\u{10348}'];
                let (what, got, exact) = match prop {
                    "U01" => {
                        let toks: Vec<Symbol> = w.iter().map(|&t| real.ext[t as usize]).collect();
                        ("parse", no_panic("parse", || out(Recognizer::with_forest(&real.dg, simple_bocage::Bocage::new(&real.dg)).parse(&toks))), true)
                    }
                    "U02" => ("parse_terminal_list", no_panic("parse_terminal_list", || out(parse_terminal_list(cfg.clone(), real.dg.clone(), w.iter().map(|&t| ["S", "a", "b", "c", "d"][t as usize])))), false),
                    _ => {
                        let text: String = w.iter().map(|&t| chars[t as usize - 1]).collect();
                        let classes = (1..5usize).map(|t| (real.ext[t], vec![chars[t - 1]])).collect();
                        let loaded = AdvancedGrammar { cfg: cfg.clone(), lexer_map: LexerMap::from_classes(classes) };
                        ("parse_tokenizing", no_panic("parse_tokenizing", || out(parse_tokenizing(loaded, real.dg.clone(), &text))), true)
                    }
                };
                let got = got?;
                ctx.states += 1;
                ctx.traces += 1;
                ctx.transitions += n as u64;
                let ok = match wrong {
                    None if fin => got == Out::Yes,
                    None if prop == "U01" => got == Out::No,
                    None => matches!(got, Out::Other(_)),
                    Some(k) if exact => matches!(got, Out::At(i, _) if i == k || prop == "U01" && i + 1 == k),
                    Some(_) => matches!(got, Out::At(..) | Out::Other(_)),
                };
                check!(ok, "grammar {}: {what}() of {n} tokens of nested brackets, wrong token: {wrong:?}, gives {}", g.show(), format!("{got:?}").chars().take(200).collect::<String>());
                ctx.outcome(&(n, wrong));
            }
            Ok(())
        }));
    }
    (u, b)
}

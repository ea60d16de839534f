//! The grammar of C that comes with the library, and parts of it with other start symbols: the same properties on a
//! large grammar of practical shape (170 symbols, empty rules, ambiguities), on all short inputs and on C programs.
use crate::drive::Orders;
use crate::gram::Gram;
use crate::real::*;
use crate::wide::{input, tables, trees, Derivations, Plain};
use mclib::{check, no_panic, unit, Res, Tier, Unit};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

/// A copy, so that an edit of the grammar in the repository is no matter of these checks.
const TEXT: &str = include_str!("../data/c.panini");
const PROGRAM: &str = include_str!("../data/c.txt");

/// The rules that a start symbol needs. Names that are not defined are terminals.
pub fn load(root: &str) -> Gram {
    let mut defs: BTreeMap<&str, Vec<Vec<&str>>> = BTreeMap::new();
    for d in TEXT.split(';').filter(|d| !d.trim().is_empty()) {
        let (l, r) = d.split_once("::=").unwrap();
        let alts = r.split('|').map(|a| a.split_whitespace().filter(|w| *w != "()").collect()).collect();
        assert!(defs.insert(l.trim(), alts).is_none());
    }
    let mut nts = vec![root];
    let mut ts: Vec<&str> = vec![];
    let mut n = 0;
    while n < nts.len() {
        for x in defs[nts[n]].iter().flatten() {
            if defs.contains_key(x) {
                if !nts.contains(x) {
                    nts.push(x);
                }
            } else if !ts.contains(x) {
                ts.push(x);
            }
        }
        n += 1;
    }
    let all: Vec<&str> = nts.iter().chain(&ts).copied().collect();
    let num = |x: &str| all.iter().position(|y| *y == x).unwrap() as u16;
    let mut rules = vec![];
    for &l in &nts {
        for alt in &defs[l] {
            rules.push((num(l), alt.iter().map(|x| num(x)).collect()));
        }
    }
    let mut g = Gram::new(&format!("C from {root}"), nts.len(), ts.len(), rules);
    g.names = all.iter().map(|s| s.to_string()).collect();
    g
}

/// For each terminal the first one that can take its place in every rule.
fn classes(g: &Gram) -> Vec<u16> {
    let uses = |t: u16| -> Vec<(u16, Vec<u16>)> {
        let mut v: Vec<(u16, Vec<u16>)> = g.rules.iter().filter(|r| r.1.contains(&t)).map(|(l, r)| (*l, r.iter().map(|&x| if x == t { u16::MAX } else { x }).collect())).collect();
        v.sort();
        v
    };
    let mut seen: HashMap<Vec<(u16, Vec<u16>)>, u16> = HashMap::new();
    (0..g.syms() as u16).map(|s| if g.is_term(s) { *seen.entry(uses(s)).or_insert(s) } else { s }).collect()
}

/// Visits every input of up to `len` tokens that a sentence begins with, beginning with `first`; all tokens but the last
/// one are the first of their class.
fn visit(g: &Gram, len: usize, first: u16, f: &mut dyn FnMut(&Plain, &[u16]) -> Res) -> Res {
    fn go(p: &mut Plain, w: &mut Vec<u16>, len: usize, class: &[u16], f: &mut dyn FnMut(&Plain, &[u16]) -> Res) -> Res {
        f(p, w)?;
        if w.len() == len || w.last().is_some_and(|&t| class[t as usize] != t) {
            return Ok(());
        }
        for t in p.next() {
            p.push(t);
            w.push(t);
            go(p, w, len, class, f)?;
            w.pop();
            p.pop();
        }
        Ok(())
    }
    let mut p = Plain::new(g);
    if p.push(first) {
        go(&mut p, &mut vec![first], len, &classes(g), f)?;
    }
    Ok(())
}

/// Splits C text into the names of its tokens.
fn lex(text: &str) -> Vec<&'static str> {
    const WORDS: &[(&str, &str)] = &[
        ("signed", "signed"), ("const", "const_"), ("inline", "inline"), ("auto", "auto"), ("break", "break_"), ("case", "case"), ("char", "char_"),
        ("continue", "continue_"), ("default", "default"), ("do", "do_"), ("double", "double"), ("else", "else_"), ("enum", "enum_"), ("extern", "extern_"),
        ("float", "float"), ("for", "for_"), ("goto", "goto"), ("if", "if_"), ("int", "int"), ("long", "long"), ("register", "register"), ("return", "return_"),
        ("short", "short"), ("sizeof", "sizeof_"), ("static", "static_"), ("struct", "struct_"), ("switch", "switch"), ("typedef", "typedef"), ("union", "union"),
        ("unsigned", "unsigned"), ("void", "void"), ("volatile", "volatile"), ("while", "while_"),
    ];
    const SIGNS: &[(&str, &str)] = &[
        (">>=", "right_assign"), ("<<=", "left_assign"), ("...", "elipsis"), ("+=", "add_assign"), ("-=", "sub_assign"), ("*=", "mul_assign"), ("/=", "div_assign"),
        ("%=", "mod_assign"), ("&=", "and_assign"), ("^=", "xor_assign"), ("|=", "or_assign"), (">>", "right_op"), ("<<", "left_op"), ("++", "inc_op"), ("--", "dec_op"),
        ("->", "ptr_op"), ("&&", "and_op"), ("||", "or_op"), ("<=", "le_op"), (">=", "ge_op"), ("==", "eq_op"), ("!=", "ne_op"), ("(", "lparen"), (")", "rparen"),
        ("[", "lbracket"), ("]", "rbracket"), ("{", "lbrace"), ("}", "rbrace"), (".", "dot"), (":", "colon"), (";", "semicolon"), (",", "comma"), ("&", "ampersand"),
        ("*", "star"), ("+", "plus"), ("-", "minus"), ("~", "tilde"), ("!", "exclamation"), ("/", "slash"), ("%", "percent"), ("<", "langle"), (">", "rangle"),
        ("^", "xor"), ("|", "pipe"), ("?", "question"), ("=", "equal"),
    ];
    let mut out = vec![];
    let mut s = text.trim_start();
    while let Some(c) = s.chars().next() {
        let n = if c.is_ascii_alphanumeric() || c == '_' {
            let n = s.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).unwrap_or(s.len());
            let word = WORDS.iter().find(|w| w.0 == &s[..n]).map(|w| w.1);
            out.push(if c.is_ascii_digit() { "constant" } else { word.unwrap_or("identifier") });
            n
        } else if c == '"' || c == '\'' {
            let mut n = 1;
            while s.as_bytes()[n] != c as u8 {
                n += 1 + (s.as_bytes()[n] == b'\\') as usize;
            }
            out.push(if c == '"' { "string_literal" } else { "constant" });
            n + 1
        } else {
            let &(sign, name) = SIGNS.iter().find(|x| s.starts_with(x.0)).unwrap_or_else(|| panic!("not C: {:?}", &s[..20.min(s.len())]));
            out.push(name);
            sign.len()
        };
        s = s[n..].trim_start();
    }
    out
}

/// Pieces of C by the symbol that they are of.
const PIECES: &[(&str, &str)] = &[
    ("expression", "a + b * c - d / e % f << g >> h"),
    ("expression", "a = b += c ? d || e && f : ! g , h == i != j < k >= l"),
    ("expression", "f(a, b(c, d)[e], (g), h.i->j++, --k)"),
    ("expression", "sizeof a + sizeof (int) * (char) b"),
    ("expression", "(struct s { int a : 3, * b; }) { .c = d, .e = 2 }"),
    ("expression", "((((((((a))))))))"),
    ("expression", "- - ~ ! * & ++ a"),
    ("expression", "a ^ b | c & d ^ e | f & g"),
    ("expression", "\"x\" [ 'c' ] ? ( x ) ( y ) : ( x ) * y"),
    ("declaration", "int a;"),
    ("declaration", "static const unsigned long int * const a [ 3 ] [ b ], ( * c ) ( int, ... ), d = { 1, { 2 }, };"),
    ("declaration", "typedef struct { int a; char * b : 3; } c;"),
    ("declaration", "enum e { f, g = 3, h, } i;"),
    ("declaration", "a b;"),
    ("declaration", "a ( b ) ;"),
    ("statement", "if (a) if (b) c; else d;"),
    ("statement", "for (int i = 0; i < n; i++) { a * b; c (d); e; }"),
    ("statement", "switch (a) { case 1: b; break; default: c: d; }"),
    ("statement", "do while (a) ; while (b) ;"),
    ("statement", "{ int a; ; goto b; return c; { } }"),
    ("translation_unit", "int main ( int argc , char * * argv ) { return 0 ; }"),
    ("translation_unit", "int f ( a , b ) int a ; char b ; { } static g ( void ) { g ( ) ; }"),
    ("translation_unit", "int a ; int b = 3 , c ( ) ; extern d ; int ;"),
    ("type_name", "const int * ( * ) ( int a , ... ) [ 3 ]"),
    ("initializer", "{ a , { . b = c , } , . d . e = f }"),
];

pub fn roots() -> [&'static str; 7] {
    ["translation_unit", "declaration", "statement", "expression", "initializer", "type_name", "declarator"]
}

pub fn extend(units: (Vec<Unit>, String), prop: &'static str, t: Tier) -> (Vec<Unit>, String) {
    let (mut u, mut b) = units;
    let orders = t.pick(2, 3);
    let events = prop == "R11";
    let roots = roots();
    let forests = prop.starts_with('F');
    let (len, limit) = (t.pick(3, 4), t.pick(300, 3000));
    for root in roots {
        let g = Arc::new(load(root));
        let all = crate::drive::orders_of(&g, Orders::Some(orders));
        let whole = move |g: &Gram, o: &Order, f: &mut dyn FnMut(&Real) -> Res| -> Res {
            let at = |e: String| format!("grammar {} (first symbols declared: {:?}): {e}", g.name, o.syms.iter().take(3).map(|&s| g.sym_name(s as u16)).collect::<Vec<_>>());
            let real = no_panic("compiling", || Real::new(g, o, events)).map_err(at)?;
            f(&real).map_err(at)
        };
        if prop.starts_with('G') {
            let g = g.clone();
            u.push(unit(g.name.clone(), move |ctx| {
                for o in crate::drive::orders_of(&g, Orders::Some(4)) {
                    whole(&g, &o, &mut |real| no_panic("tables", || tables(ctx, &g, real, prop)).and_then(|r| r))?;
                }
                Ok(())
            }));
            continue;
        }
        // One input: all that the property says about it.
        let one = move |ctx: &mut mclib::Ctx, g: &Gram, real: &Real, p: &Plain, w: &[u16]| -> Res {
            let at = |e: String| format!("input {}: {e}", g.show_str(w));
            if !forests {
                return no_panic("the recognizer", || input(ctx, g, real, p, w, prop, prop == "R02")).and_then(|r| r).map_err(at);
            }
            if !p.finished() {
                return Ok(());
            }
            let d = Derivations::new(p, w);
            let n = d.count(&mut HashMap::new(), 0, 0, w.len());
            check!(n > 0, "input {}: the reference finds no derivation of a sentence", g.show_str(w));
            if (n == 1) != (prop == "F01") || n > limit {
                ctx.count("sentences of C left to the other property or out", 1);
                return Ok(());
            }
            no_panic("evaluation", || trees::<simple_bocage::Bocage>(ctx, g, real, w, &d)).and_then(|r| r).map_err(at)?;
            no_panic("evaluation", || trees::<compact_bocage::Bocage>(ctx, g, real, w, &d)).and_then(|r| r).map_err(at)
        };
        for first in (g.nts as u16..g.syms() as u16).filter(|&t| { let mut p = Plain::new(&g); p.push(t) }) {
            let (g, all) = (g.clone(), all.clone());
            u.push(unit(format!("{}, inputs that begin with {}", g.name, g.sym_name(first)), move |ctx| {
                for o in &all {
                    whole(&g, o, &mut |real| visit(&g, len, first, &mut |p, w| one(ctx, &g, real, p, w)))?;
                }
                Ok(())
            }));
        }
        for &(_, text) in PIECES.iter().filter(|p| p.0 == root) {
            let (g, all) = (g.clone(), all.clone());
            u.push(unit(format!("{}: {text}", g.name), move |ctx| {
                let w: Vec<u16> = lex(text).iter().map(|x| g.names.iter().position(|n| n == x).unwrap() as u16).collect();
                for o in &all {
                    whole(&g, o, &mut |real| {
                        let mut p = Plain::new(&g);
                        for k in 0..=w.len() {
                            one(ctx, &g, real, &p, &w[..k])?;
                            if k < w.len() {
                                check!(p.push(w[k]), "the reference rejects {} at {k}", g.show_str(&w));
                            }
                        }
                        check!(p.finished(), "the reference does not accept {}", g.show_str(&w));
                        Ok(())
                    })?;
                }
                Ok(())
            }));
        }
    }
    b += &format!("; the grammar of C that comes with the library, from {} start symbols, with ", roots.len());
    if prop.starts_with('G') {
        b += "four declaration orders";
        return (u, b);
    }
    b += &format!("all inputs of up to {len} tokens that a sentence begins with (one of each class of interchangeable tokens, any in the end), and all beginnings of {} pieces of C", PIECES.len());
    if !forests {
        let n = t.pick(400, 4000);
        let n = if prop == "R03" { t.pick(60, 200) } else { n };
        let toks = lex(PROGRAM).len().min(n);
        b += &format!(", and all beginnings of a C program of up to {toks} tokens");
        u.push(unit("a C program", move |ctx| {
            let g = load("translation_unit");
            let w: Vec<u16> = lex(PROGRAM).iter().take(toks).map(|x| g.names.iter().position(|n| n == x).unwrap() as u16).collect();
            let o = Order::identity(&g);
            let real = no_panic("compiling", || Real::new(&g, &o, events))?;
            let mut p = Plain::new(&g);
            for k in 0..=w.len() {
                no_panic("the recognizer", || input(ctx, &g, &real, &p, &w[..k], prop, prop == "R02")).and_then(|r| r).map_err(|e| format!("after {k} tokens of the program {}: {e}", g.show_str(&w[..k.min(200)])))?;
                if k < w.len() {
                    check!(p.push(w[k]), "the reference rejects the program at token {k}: {}", g.show_str(&w[k.saturating_sub(10)..=k]));
                }
            }
            Ok(())
        }));
    }
    (u, b)
}

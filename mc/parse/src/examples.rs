//! E01: the bundled arithmetic grammars.
use cfg::Symbol;
use gearley_default_grammar::DefaultGrammar;
use gearley_example_grammars::{ambiguous_math, precedenced_math};
use gearley_forest::Evaluate;
use gearley_grammar::Grammar;
use gearley_recognizer::Recognizer;
use mclib::{check, no_panic, unit, Ctx, Res, Tier, Unit};

/// Rebuilds the text with brackets around every rule of three parts.
struct Brackets;
impl Evaluate for Brackets {
    type Elem = String;
    fn leaf(&self, _: Symbol, value: u32) -> String {
        char::from_u32(value).unwrap_or('?').to_string()
    }
    fn product<'a>(&self, _: u32, args: impl Iterator<Item = &'a String>) -> String {
        let v: Vec<&String> = args.collect();
        match &v[..] {
            [l, x, r] if *l == "(" && *r == ")" => format!("<{x}>"),
            [l, o, r] => format!("[{l}{o}{r}]"),
            _ => v.into_iter().cloned().collect(),
        }
    }
    fn nulling(&self, _: Symbol, _: &mut Vec<String>) {
        panic!("nothing in these grammars is empty");
    }
}

/// Reads a text; for each number of characters read, the results in order, or none if it is not a sentence. Shorter
/// than the text if reading fails.
fn run(dg: &DefaultGrammar, toks: &[Symbol], text: &str) -> Vec<Option<Vec<String>>> {
    let mut r = Recognizer::with_forest(dg, simple_bocage::Bocage::new(dg));
    let mut nodes = vec![];
    r.begin_earleme();
    r.scan(dg.sof(), 0);
    let mut ok = r.end_earleme();
    let mut chars = text.chars().zip(toks);
    while ok {
        nodes.push(if r.is_finished() { Some(r.finished_node().expect("finished, but without a node")) } else { None });
        let Some((ch, &t)) = chars.next() else { break };
        r.begin_earleme();
        r.scan(dg.to_internal(t).expect("a token of the example's own tokenizer has no internal number"), ch as u32);
        ok = r.end_earleme();
    }
    let mut f = r.into_forest();
    nodes
        .into_iter()
        .map(|n| {
            n.map(|n| {
                let mut v = f.evaluate(Brackets, n);
                v.sort();
                v
            })
        })
        .collect()
}

// ---- reference

/// Whether the text can be continued to an expression, and whether it is one.
fn status(text: &str, parens: bool) -> (bool, bool) {
    let (mut depth, mut operand) = (0usize, false);
    for (k, c) in text.char_indices() {
        match c {
            '0'..='9' => {
                let after_digit = k > 0 && text.as_bytes()[k - 1].is_ascii_digit();
                if operand && !after_digit {
                    return (false, false);
                }
                operand = true;
            }
            '+' | '-' | '*' | '/' if operand => operand = false,
            '(' if parens && !operand => depth += 1,
            ')' if parens && operand && depth > 0 => depth -= 1,
            _ => return (false, false),
        }
    }
    (true, operand && depth == 0)
}

fn usual(text: &str) -> String {
    fn level(t: &[char], p: &mut usize, l: usize) -> String {
        if l == 2 {
            if t[*p] == '(' {
                *p += 1;
                let x = level(t, p, 0);
                *p += 1;
                return format!("<{x}>");
            }
            let from = *p;
            while *p < t.len() && t[*p].is_ascii_digit() {
                *p += 1;
            }
            return t[from..*p].iter().collect();
        }
        let ops = if l == 0 { ['+', '-'] } else { ['*', '/'] };
        let mut x = level(t, p, l + 1);
        while *p < t.len() && ops.contains(&t[*p]) {
            let o = t[*p];
            *p += 1;
            x = format!("[{x}{o}{}]", level(t, p, l + 1));
        }
        x
    }
    let t: Vec<char> = text.chars().collect();
    level(&t, &mut 0, 0)
}

fn all_bracketings(text: &str) -> Vec<String> {
    let mut v = vec![];
    for (k, c) in text.char_indices() {
        if "+-*/".contains(c) {
            for l in all_bracketings(&text[..k]) {
                for r in all_bracketings(&text[k + 1..]) {
                    v.push(format!("[{l}{c}{r}]"));
                }
            }
        }
    }
    if v.is_empty() {
        v.push(text.to_string());
    }
    v
}

fn explore(ctx: &mut Ctx, dg: &DefaultGrammar, parens: bool, alphabet: &str, text: &mut String, max: usize) -> Res {
    let maximal = text.len() == max;
    let judge = |text: &str, ctx: &mut Ctx| -> Res {
        let out = no_panic(&format!("tokenizing and reading {text:?}"), || {
            let toks = if parens { precedenced_math::tokenize(text) } else { ambiguous_math::tokenize(text) };
            (toks.len(), run(dg, &toks, text))
        })?;
        ctx.traces += 1;
        ctx.transitions += out.1.len() as u64;
        check!(out.0 == text.len(), "{text:?} is made into {} tokens", out.0);
        for k in 0..=text.len() {
            let (viable, sentence) = status(&text[..k], parens);
            check!(viable == (out.1.len() > k), "{text:?}: reading the first {k} characters {}", if viable { "fails" } else { "succeeds" });
            if !viable {
                break;
            }
            let mut want = sentence.then(|| if parens { vec![usual(&text[..k])] } else { all_bracketings(&text[..k]) });
            if let Some(w) = &mut want {
                w.sort();
            }
            check!(out.1[k] == want, "{:?}: the derivations are {:?} rather than {want:?}", &text[..k], out.1[k]);
        }
        ctx.outcome(&out.1.last());
        ctx.sample(|| format!("{text:?}: {:?}", out.1.last()));
        Ok(())
    };
    ctx.states += 1;
    let mut extended = false;
    if !maximal {
        for c in alphabet.chars() {
            text.push(c);
            if status(text, parens).0 {
                extended = true;
                explore(ctx, dg, parens, alphabet, text, max)?;
            } else {
                judge(text, ctx)?;
            }
            text.pop();
        }
    }
    if !extended {
        judge(text, ctx)?;
    }
    Ok(())
}

/// (with parentheses, alphabet, length)
fn e01_cases(t: Tier) -> Vec<(bool, &'static str, usize)> {
    vec![
        (true, "+-*/()0123456789", t.pick(4, 5)),
        (true, "+-*/()07", t.pick(6, 7)),
        (true, "+*()1", t.pick(9, 11)),
        (false, "+-*/0123456789", t.pick(4, 5)),
        (false, "+-*/09", t.pick(6, 7)),
        (false, "+/1", t.pick(11, 13)),
    ]
}

pub fn e01_bounds(t: Tier) -> String {
    let v: Vec<String> = e01_cases(t).iter().map(|(p, a, n)| format!("{} grammar: alphabet {a:?}, up to {n} characters", if *p { "precedenced" } else { "ambiguous" })).collect();
    format!("all texts that some expression begins with, each also with every wrong next character; {}; numbers of, parentheses of depth, and chains of operators of up to {} places", v.join("; "), t.pick(40, 300))
}

pub fn e01_units(t: Tier) -> Vec<Unit> {
    let mut u = vec![];
    let mut add = |parens: bool, alphabet: &'static str, max: usize| {
        for c in alphabet.chars() {
            u.push(unit(format!("{} grammar, texts over {alphabet:?} of up to {max} characters beginning with {c:?}", if parens { "precedenced" } else { "ambiguous" }), move |ctx| {
                let dg = no_panic("compiling", || DefaultGrammar::from_grammar(if parens { precedenced_math::grammar() } else { ambiguous_math::grammar() }))?;
                let mut text = c.to_string();
                if !status(&text, parens).0 {
                    // A wrong first character.
                    return explore(ctx, &dg, parens, &alphabet[..0], &mut text, 1);
                }
                explore(ctx, &dg, parens, alphabet, &mut text, max)
            }));
        }
    };
    for (p, alphabet, n) in e01_cases(t) {
        add(p, alphabet, n);
    }
    for (parens, text) in long_texts(t) {
        u.push(unit(format!("{} grammar, {} characters beginning with {:?}", if parens { "precedenced" } else { "ambiguous" }, text.len(), text.chars().take(40).collect::<String>()), move |ctx| {
            let dg = no_panic("compiling", || DefaultGrammar::from_grammar(if parens { precedenced_math::grammar() } else { ambiguous_math::grammar() }))?;
            let out = no_panic("tokenizing and reading", || run(&dg, &if parens { precedenced_math::tokenize(&text) } else { ambiguous_math::tokenize(&text) }, &text))?;
            ctx.states += 1;
            ctx.traces += 1;
            ctx.transitions += out.len() as u64;
            for k in 0..=text.len() {
                let (viable, sentence) = status(&text[..k], parens);
                check!(viable == (out.len() > k), "{text:?}: reading the first {k} characters {}", if viable { "fails" } else { "succeeds" });
                if !viable {
                    break;
                }
                let mut want = sentence.then(|| if parens { vec![usual(&text[..k])] } else { all_bracketings(&text[..k]) });
                if let Some(w) = &mut want {
                    w.sort();
                }
                check!(out[k] == want, "{:?}: the derivations are {:?} rather than {want:?}", &text[..k], out[k]);
            }
            ctx.outcome(&out.last());
            Ok(())
        }));
    }
    u
}

/// Long numbers, deep parentheses and long chains of operators; also with a wrong end.
fn long_texts(t: Tier) -> Vec<(bool, String)> {
    let n = t.pick(40, 300);
    let mut v = vec![];
    for m in [7, 8, 9, 10, 11, 20, n] {
        let digits: String = (0..m).map(|i| char::from(b'0' + ((i * 7 + 1) % 10) as u8)).collect();
        v.push((false, digits.clone()));
        v.push((true, digits.clone()));
        v.push((true, format!("{0}1{1}", "(".repeat(m), ")".repeat(m))));
        v.push((true, format!("{0}1{1}", "(".repeat(m), ")".repeat(m + 1))));
        v.push((true, format!("{0}1{1}", "(2-".repeat(m), ")*3".repeat(m))));
        v.push((true, format!("{0}1{1}", "(2*".repeat(m), ")-3".repeat(m))));
        let chain: String = (0..m).map(|i| format!("{}{}", (i * 3 + 1) % 10, ["+", "*", "-", "/", "-"][i % 5])).collect();
        v.push((true, format!("{chain}5")));
        v.push((true, chain.clone()));
        let flat: String = (0..m).map(|i| format!("({}{}{})-", i, ["+", "*", "-", "/"][i % 4], i + 1)).collect();
        v.push((true, format!("{flat}5")));
        v.push((true, format!("{flat})")));
    }
    v
}

// ------------------------------------------------------------------------------------------------ E02

/// An example's evaluator, which is given the symbols of the example's grammar.
struct Own<'a, E>(E, &'a dyn Fn(Symbol) -> Symbol);
impl<E: Evaluate<Elem = i32>> Evaluate for Own<'_, E> {
    type Elem = i32;
    fn leaf(&self, s: Symbol, value: u32) -> i32 {
        self.0.leaf((self.1)(s), value)
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a i32>) -> i32 {
        self.0.product(action, args)
    }
    fn nulling(&self, s: Symbol, results: &mut Vec<i32>) {
        self.0.nulling(s, results)
    }
}

fn apply(l: i32, o: char, r: i32) -> Option<i32> {
    match o {
        '+' => l.checked_add(r),
        '-' => l.checked_sub(r),
        '*' => l.checked_mul(r),
        _ => l.checked_div(r),
    }
}

/// The value by the usual rules; `None` if there is none.
fn value(text: &str) -> Option<i32> {
    fn level(t: &[char], p: &mut usize, l: usize) -> Option<i32> {
        if l == 2 {
            if t[*p] == '(' {
                *p += 1;
                let x = level(t, p, 0)?;
                *p += 1;
                return Some(x);
            }
            let from = *p;
            while *p < t.len() && t[*p].is_ascii_digit() {
                *p += 1;
            }
            return t[from..*p].iter().collect::<String>().parse().ok();
        }
        let ops = if l == 0 { ['+', '-'] } else { ['*', '/'] };
        let mut x = level(t, p, l + 1)?;
        while *p < t.len() && ops.contains(&t[*p]) {
            let o = t[*p];
            *p += 1;
            x = apply(x, o, level(t, p, l + 1)?)?;
        }
        Some(x)
    }
    let t: Vec<char> = text.chars().collect();
    level(&t, &mut 0, 0)
}

/// The values of all bracketings; `None` if one has no value.
fn values(text: &str) -> Option<Vec<i32>> {
    let mut v = vec![];
    for (k, c) in text.char_indices() {
        if "+-*/".contains(c) {
            let right = values(&text[k + 1..])?;
            for l in values(&text[..k])? {
                for &r in &right {
                    v.push(apply(l, c, r)?);
                }
            }
        }
    }
    if v.is_empty() {
        v.push(text.parse().ok()?);
    }
    Some(v)
}

fn e02_explore(ctx: &mut Ctx, dg: &DefaultGrammar, parens: bool, alphabet: &str, text: &mut String, max: usize) -> Res {
    let (viable, sentence) = status(text, parens);
    if !viable {
        return Ok(());
    }
    let want = if !sentence { None } else if parens { value(text).map(|v| vec![v]) } else { values(text) };
    if let Some(mut want) = want {
        want.sort();
        ctx.states += 1;
        let external = |s: Symbol| dg.to_external(s);
        for compact in [false, true] {
            let mut got = no_panic(&format!("evaluating {text:?}"), || {
                let toks = if parens { precedenced_math::tokenize(text) } else { ambiguous_math::tokenize(text) };
                fn go<F: crate::real::Bocage>(dg: &DefaultGrammar, toks: &[Symbol]) -> Option<(F, gearley_forest::node_handle::NodeHandle)> {
                    let mut r = Recognizer::with_forest(dg, F::make(dg));
                    r.begin_earleme();
                    r.scan(dg.sof(), 0);
                    if !r.end_earleme() {
                        return None;
                    }
                    for (k, &t) in toks.iter().enumerate() {
                        r.begin_earleme();
                        r.scan(dg.to_internal(t)?, k as u32);
                        if !r.end_earleme() {
                            return None;
                        }
                    }
                    let n = r.finished_node()?;
                    Some((r.into_forest(), n))
                }
                if compact {
                    let (mut f, n) = go::<compact_bocage::Bocage>(dg, &toks)?;
                    Some(if parens { f.evaluate(Own(precedenced_math::Evaluator, &external), n) } else { f.evaluate(Own(ambiguous_math::Evaluator, &external), n) })
                } else {
                    let (mut f, n) = go::<simple_bocage::Bocage>(dg, &toks)?;
                    Some(if parens { f.evaluate(Own(precedenced_math::Evaluator, &external), n) } else { f.evaluate(Own(ambiguous_math::Evaluator, &external), n) })
                }
            })?;
            if let Some(g) = &mut got {
                g.sort();
            }
            ctx.traces += 1;
            ctx.transitions += text.len() as u64;
            check!(got.as_ref() == Some(&want), "{} grammar, {} forest: {text:?} is evaluated to {got:?} instead of {want:?}", if parens { "precedenced" } else { "ambiguous" }, if compact { "compact" } else { "simple" });
        }
        ctx.outcome(&want);
        ctx.sample(|| format!("{text:?}: {want:?}"));
    }
    if text.len() < max {
        for c in alphabet.chars() {
            text.push(c);
            e02_explore(ctx, dg, parens, alphabet, text, max)?;
            text.pop();
        }
    }
    Ok(())
}

/// Numbers of every length in every place of a few expressions, and long expressions.
fn long_expressions(parens: bool, t: Tier) -> Vec<String> {
    let mut numbers: Vec<String> = vec!["2147483647".into(), "2147483646".into(), "2000000000".into(), "1999999999".into(), "1000000000".into(), "0000000000".into(), "00000000000000000000000000000000000000007".into()];
    for m in 1..=9usize {
        for d in 0..10u8 {
            // A digit in every place of a number.
            for k in 0..m {
                numbers.push((0..m).map(|i| if i == k { char::from(b'0' + d) } else { '1' }).collect());
            }
        }
        numbers.push("9".repeat(m));
        numbers.push(format!("{}{}", "0".repeat(m), "1234567890"));
    }
    let mut v = numbers.clone();
    for n in &numbers {
        if n.len() > t.pick(8, 0) {
            v.extend(["{}-1", "1-{}", "{}/7", "0*{}", "0+{}", "{}-{}", "{}/1-{}/1"].iter().map(|f| f.replace("{}", n)));
            if parens {
                v.extend(["({})", "({}-{})*{}", "({}/{})*{}"].iter().map(|f| f.replace("{}", n)));
            }
        }
    }
    if parens {
        for m in [5, 20, t.pick(60, 400)] {
            v.push(format!("{0}1{1}", "(".repeat(m), ")".repeat(m)));
            v.push(format!("{0}1{1}", "(2-".repeat(m), ")".repeat(m)));
            v.push(format!("{0}7{1}", "(2*".repeat(m), "/3)-1".repeat(m)));
            v.push((0..m).map(|i| format!("{}{}", (i * 3 + 1) % 10, ["+", "*", "-", "/", "-"][i % 5])).collect::<String>() + "5");
            v.push((0..m).map(|i| format!("({}{}{})-", i, ["+", "*", "-", "/"][i % 4], i + 1)).collect::<String>() + "5");
        }
    }
    v
}

fn e02_cases(t: Tier) -> Vec<(bool, &'static str, usize)> {
    vec![
        (true, "+-*/()0123456789", t.pick(4, 5)),
        (true, "0123456789", t.pick(5, 6)),
        (true, "+-*/()37", t.pick(6, 7)),
        (true, "-/()2", t.pick(9, 11)),
        (true, "-12", t.pick(9, 11)),
        (false, "+-*/0123456789", t.pick(4, 5)),
        (false, "0123456789", t.pick(5, 6)),
        (false, "+-*/39", t.pick(6, 7)),
        (false, "-/2", t.pick(11, 13)),
    ]
}

pub fn e02_bounds(t: Tier) -> String {
    let v: Vec<String> = e02_cases(t).iter().map(|(p, a, n)| format!("{} grammar: alphabet {a:?}, up to {n} characters", if *p { "precedenced" } else { "ambiguous" })).collect();
    format!("all expressions in which nothing is divided by zero and no value is too large; {}; both forests", v.join("; ")) + "; numbers of up to 41 digits with every digit in every place; parentheses and chains of up to 60 (thorough: 400) levels"
}

pub fn e02_units(t: Tier) -> Vec<Unit> {
    let mut u = vec![];
    for (parens, alphabet, max) in e02_cases(t) {
        for c in alphabet.chars() {
            u.push(unit(format!("{} grammar, expressions over {alphabet:?} of up to {max} characters beginning with {c:?}", if parens { "precedenced" } else { "ambiguous" }), move |ctx| {
                let dg = no_panic("compiling", || DefaultGrammar::from_grammar(if parens { precedenced_math::grammar() } else { ambiguous_math::grammar() }))?;
                e02_explore(ctx, &dg, parens, alphabet, &mut c.to_string(), max)
            }));
        }
    }
    for parens in [true, false] {
        let texts = long_expressions(parens, t);
        u.push(unit(format!("{} grammar, {} expressions with long numbers, deep parentheses and long chains", if parens { "precedenced" } else { "ambiguous" }, texts.len()), move |ctx| {
            let dg = no_panic("compiling", || DefaultGrammar::from_grammar(if parens { precedenced_math::grammar() } else { ambiguous_math::grammar() }))?;
            for text in &texts {
                let max = text.len();
                e02_explore(ctx, &dg, parens, "", &mut text.clone(), max)?;
            }
            Ok(())
        }));
    }
    u
}

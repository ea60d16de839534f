//! Exhaustive exploration of the real `CartesianProduct`: all factor lists and all operation sequences within bounds,
//! in lockstep with an odometer model. Built natively for C01, C02 and C03, and once more under Miri for C03, where
//! the interpreter checks every memory access and every reference of every explored history.
use cartesian_product::CartesianProduct;
use mclib::*;
use std::fmt::Debug;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Op {
    Push(usize),
    Extend(Vec<usize>),
    /// The same through an iterator that knows nothing about its length.
    ExtendUnsized(Vec<usize>),
    Clear,
    Advance,
    /// Advance until it returns false.
    Run,
}

/// The reference: which slice each factor is, and the current position in it.
#[derive(Clone, Default, Debug, PartialEq, Eq, Hash)]
struct Model {
    factors: Vec<(usize, usize)>,
    pos: Vec<usize>,
}

impl Model {
    fn advance(&mut self) -> bool {
        for (p, f) in self.pos.iter_mut().zip(&self.factors) {
            *p += 1;
            if *p < f.1 {
                return true;
            }
            *p = 0;
        }
        false
    }
}

/// Slices of given lengths which are parts of one larger array, with other elements before and after each of them.
struct Pool<T> {
    all: Vec<T>,
    /// (begin, length) of every slice
    at: Vec<(usize, usize)>,
    own: Vec<Box<[T]>>,
}

/// How the slices lie in the larger array.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Layout {
    /// Apart from each other.
    Apart,
    /// Each begins where the one before ends.
    Adjacent,
    /// Each ends where the one before begins.
    Backwards,
    /// All begin at the same element.
    SameBegin,
    /// All end at the same element.
    SameEnd,
    /// Each is an array of its own.
    Own,
}
use Layout::*;

impl<T> Pool<T> {
    fn laid_out(lens: &[usize], layout: Layout, mut make: impl FnMut(u32) -> T) -> Self {
        if layout == Apart {
            return Pool::new(lens, make);
        }
        let (sum, max) = (lens.iter().sum::<usize>(), lens.iter().copied().max().unwrap_or(0));
        let mut at = vec![];
        let mut from = 0;
        for &n in lens {
            from += n;
            at.push((
                match layout {
                    Backwards => 1 + sum - from,
                    SameBegin => 1,
                    SameEnd => 1 + max - n,
                    _ => 1 + from - n,
                },
                n,
            ));
        }
        if layout == Own {
            let own = lens.iter().map(|&n| (0..n).map(|_| { from += 1; make(from as u32) }).collect()).collect();
            return Pool { all: vec![], at, own };
        }
        Pool { all: (0..sum as u32 + 2).map(make).collect(), at, own: vec![] }
    }
    fn new(lens: &[usize], mut make: impl FnMut(u32) -> T) -> Self {
        let mut all = vec![make(0)];
        let mut at = vec![];
        for &n in lens {
            at.push((all.len(), n));
            for _ in 0..n {
                all.push(make(all.len() as u32));
            }
            all.push(make(all.len() as u32));
        }
        Pool { all, at, own: vec![] }
    }
    fn slice(&self, k: usize) -> &[T] {
        if let Some(s) = self.own.get(k) {
            return s;
        }
        let (b, n) = self.at[k];
        &self.all[b..b + n]
    }
}

fn observe<T: PartialEq + Debug>(p: &CartesianProduct<T>, m: &Model, pool: &Pool<T>, by_address: bool) -> Res {
    let got = p.as_slice();
    check!(got.len() == m.factors.len(), "{} current elements for {} factors", got.len(), m.factors.len());
    for (i, (&(k, _), &pos)) in m.factors.iter().zip(&m.pos).enumerate() {
        let want = &pool.slice(k)[pos];
        if by_address {
            check!(std::ptr::eq(got[i], want), "factor {i}: the current element is not element {pos} of its slice (off by {} bytes)", (got[i] as *const T as isize).wrapping_sub(want as *const T as isize));
        }
        check!(got[i] == want, "factor {i}: the current element is {:?} instead of {:?}", got[i], want);
    }
    Ok(())
}

/// Replays a history on a new product (the real object cannot be cloned) and compares after every step.
fn replay<'a, T: PartialEq + Debug>(ops: &[Op], pool: &'a Pool<T>, c: &mut Ctx) -> Result<Model, String> {
    let mut m = Model::default();
    let r = no_panic("operation", || -> Result<(), String> {
        let mut p: CartesianProduct<'a, T> = CartesianProduct::new();
        observe(&p, &m, pool, true)?;
        for (i, op) in ops.iter().enumerate() {
            let last = i + 1 == ops.len();
            c.transitions += 1;
            match op {
                Op::Push(k) => {
                    p.push(pool.slice(*k));
                    m.factors.push((*k, pool.at[*k].1));
                    m.pos.push(0);
                }
                Op::Extend(ks) => {
                    p.extend(ks.iter().map(|&k| pool.slice(k)));
                    for &k in ks {
                        m.factors.push((k, pool.at[k].1));
                        m.pos.push(0);
                    }
                }
                Op::ExtendUnsized(ks) => {
                    p.extend(ks.iter().filter(|_| true).map(|&k| pool.slice(k)));
                    for &k in ks {
                        m.factors.push((k, pool.at[k].1));
                        m.pos.push(0);
                    }
                }
                Op::Clear => {
                    p.clear();
                    m = Model::default();
                }
                Op::Advance => {
                    let want = m.advance();
                    let got = p.advance();
                    check!(got == want, "advance returned {got} instead of {want}");
                }
                Op::Run => loop {
                    let want = m.advance();
                    let got = p.advance();
                    c.transitions += 1;
                    check!(got == want, "advance returned {got} instead of {want}");
                    observe(&p, &m, pool, true)?;
                    if !want {
                        break;
                    }
                },
            }
            // Earlier steps were compared when the shorter history was explored.
            if last || matches!(op, Op::Run) {
                observe(&p, &m, pool, true)?;
            }
        }
        Ok(())
    })
    .and_then(|r| r);
    c.traces += 1;
    c.sample(|| format!("{:?} -> {m:?}", &ops[..ops.len().min(20)]));
    let few: Vec<_> = if ops.len() > 60 { ops[..10].iter().chain(&ops[ops.len() - 10..]).collect() } else { ops.iter().collect() };
    r.map(|()| m.clone()).map_err(|e| format!("slices of lengths {:?}, {} operations {few:?}\n{e}", pool.at.iter().map(|x| x.1).collect::<Vec<_>>(), ops.len()))
}

fn dfs<T: PartialEq + Debug>(ops: &[Op], depth: usize, path: &mut Vec<Op>, pool: &Pool<T>, c: &mut Ctx) -> Res {
    if cfg!(miri) && std::env::var("MC_VERBOSE").is_ok() {
        eprintln!("HISTORY {path:?}");
    }
    let m = replay(path, pool, c)?;
    c.outcome(&m);
    if depth == 0 {
        return Ok(());
    }
    for op in ops {
        path.push(op.clone());
        dfs(ops, depth - 1, path, pool, c)?;
        path.pop();
    }
    Ok(())
}

/// Enumerates all combinations of one factor list twice, against the odometer, plus set equality.
fn full_run<T: PartialEq + Debug>(lens: &[usize], shared: bool, layout: Layout, tag: &str, make: impl FnMut(u32) -> T, by_address: bool, c: &mut Ctx) -> Res {
    let mut kinds: Vec<usize> = lens.to_vec();
    let mut which: Vec<usize> = (0..lens.len()).collect();
    if shared {
        // Factors of equal length are the same slice.
        kinds.sort();
        kinds.dedup();
        which = lens.iter().map(|n| kinds.iter().position(|k| k == n).unwrap()).collect();
    }
    let pool = Pool::laid_out(&kinds, layout, make);
    let total: usize = lens.iter().product();
    for pushed in [false, true] {
    let r = no_panic("enumeration", || -> Res {
        let mut p = CartesianProduct::new();
        if pushed {
            which.iter().for_each(|&k| p.push(pool.slice(k)));
        } else {
            p.extend(which.iter().map(|&k| pool.slice(k)));
        }
        let mut m = Model { factors: which.iter().zip(lens).map(|(&k, &n)| (k, n)).collect(), pos: vec![0; lens.len()] };
        for round in 0..2 {
            let mut seen = 0;
            loop {
                observe(&p, &m, &pool, by_address)?;
                seen += 1;
                c.transitions += 1;
                let got = p.advance();
                let want = m.advance();
                check!(got == want, "round {round}: after {seen} combinations out of {total}, advance returned {got}");
                if !got {
                    break;
                }
            }
            check!(seen == total, "round {round}: {seen} combinations instead of {total}");
        }
        observe(&p, &m, &pool, by_address)
    });
    c.traces += 1;
    c.sample(|| format!("{tag}, factor lengths {lens:?}, shared {shared}: {total} combinations, twice"));
    c.outcome(&lens);
    r.and_then(|r| r).map_err(|e| format!("{tag}, factor lengths {lens:?}{}, added by {}, slices {layout:?}\n{e}", if shared { ", equal lengths share one slice" } else { "" }, if pushed { "push" } else { "extend" }))?;
    }
    Ok(())
}

fn lists(max_factors: usize, max_len: usize, cap: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut layer: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..max_factors {
        let mut next = vec![];
        for l in &layer {
            for n in 1..=max_len {
                let mut x = l.clone();
                x.push(n);
                if x.iter().product::<usize>() <= cap {
                    next.push(x);
                }
            }
        }
        out.extend(next.iter().cloned());
        layer = next;
    }
    out
}

#[derive(Debug, PartialEq, Clone, Copy)]
struct Zst;

fn c01_one(l: &[usize], shared: bool, c: &mut Ctx) -> Res {
    full_run(l, shared, Apart, "u32 elements", |x| x, true, c)?;
    full_run(l, shared, Apart, "u8 elements", |x| x as u8, true, c)?;
    full_run(l, shared, Apart, "one-byte-aligned 3-byte elements", |x| [x as u8, 1, 2], true, c)?;
    full_run(l, shared, Apart, "large elements", |x| [x as u64; 40], true, c)?;
    full_run(l, shared, Apart, "String elements", |x| format!("e{x}"), true, c)?;
    full_run(l, shared, Apart, "zero-sized elements", |_| Zst, false, c)
}

/// The other ways in which slices can lie in memory.
fn c01_layouts(l: &[usize], c: &mut Ctx) -> Res {
    for shared in [false, true] {
        for layout in [Adjacent, Backwards, SameBegin, SameEnd, Own] {
            full_run(l, shared, layout, "u32 elements", |x| x, true, c)?;
            full_run(l, shared, layout, "equal elements", |_| 7u8, true, c)?;
        }
    }
    Ok(())
}

fn c02_ops(wide: bool) -> Vec<Op> {
    let mut v = vec![Op::Push(0), Op::Push(1), Op::Extend(vec![]), Op::Extend(vec![1]), Op::Extend(vec![1, 2]), Op::Clear, Op::Advance];
    if wide {
        v.extend([Op::Push(2), Op::Extend(vec![0, 1, 2]), Op::ExtendUnsized(vec![2, 0]), Op::Run]);
    }
    v
}

fn wide_ops() -> Vec<Op> {
    c02_ops(true)
}

fn main() {
    if cfg!(miri) {
        // Everything runs inside the interpreter, which aborts at the first invalid reference or access.
        let deep = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
        let mut c = Ctx::default();
        let r = (|| -> Res {
            for l in lists(3, if deep { 3 } else { 2 }, if deep { 27 } else { 4 }) {
                if std::env::var("MC_VERBOSE").is_ok() {
                    eprintln!("HISTORY factor lengths {l:?}");
                }
                for shared in [false, true] {
                    c01_one(&l, shared, &mut c)?;
                }
            }
            let pool = Pool::new(&[1, 2, 3], |x| x);
            dfs(&c02_ops(false), if deep { 4 } else { 3 }, &mut vec![], &pool, &mut c)?;
            // Slices that end where their allocation ends.
            for n in 1..=3usize {
                for m in 1..=3usize {
                    let (a, b): (Box<[u64]>, Box<[u64]>) = ((0..n as u64).collect(), (0..m as u64).collect());
                    for mode in 0..3 {
                        let mut p = CartesianProduct::new();
                        match mode {
                            0 => p.extend([&a[..], &b[..]].into_iter()),
                            1 => {
                                p.push(&a);
                                p.push(&b)
                            }
                            _ => {
                                p.push(&a);
                                p.extend([&b[..], &a[..]].into_iter())
                            }
                        }
                        let mut k = 0;
                        for _ in 0..2 {
                            loop {
                                k += p.as_slice().iter().copied().sum::<u64>();
                                c.states += 1;
                                c.transitions += 1;
                                if !p.advance() {
                                    break;
                                }
                            }
                        }
                        c.outcome(&k);
                        c.traces += 1;
                    }
                }
            }
            Ok(())
        })();
        match r {
            Ok(()) => println!("MIRI-OK states={} transitions={} traces={}", c.distinct(), c.transitions, c.traces),
            Err(e) => println!("MIRI-VIOLATION {e}"),
        }
        return;
    }
    let a = args();
    let t = a.tier;
    let mut u: Vec<Unit> = vec![];
    let bounds;
    match a.property.as_str() {
        "C01" => {
            let (nf, ml, cap) = t.pick((7, 5, 2500), (8, 7, 6000));
            for chunk in lists(nf, ml, cap).chunks(64) {
                let chunk = chunk.to_vec();
                u.push(unit(format!("factor lists from {:?}", chunk[0]), move |c| {
                    for l in &chunk {
                        for shared in [false, true] {
                            c01_one(l, shared, c)?;
                        }
                        if l.iter().product::<usize>() <= 200 {
                            c01_layouts(l, c)?;
                        }
                    }
                    Ok(())
                }));
            }
            // Longer factors and more factors than any initial capacity; factors with several elements at any place among many.
            let mut long: Vec<Vec<usize>> = vec![];
            for n in [7usize, 8, 9, 15, 16, 17, 31, 32, 33, 34, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 258, 1000] {
                for k in [0, 1, n / 2, n - 2, n - 1] {
                    let mut l = vec![1; n];
                    l[k] = 2;
                    l[n - 1] += 1;
                    long.push(l);
                }
                long.push(vec![1; n]);
            }
            for l in long {
                u.push(unit(format!("{} factors", l.len()), move |c| {
                    for shared in [false, true] {
                        c01_one(&l, shared, c)?;
                    }
                    c01_layouts(&l, c)
                }));
            }
            for n in [4096usize, 32_769, 65_535, 65_536, 65_537, 70_000] {
                u.push(unit(format!("{n} factors"), move |c| {
                    for k in [0, 255, n / 2, n - 1] {
                        let mut l = vec![1; n];
                        l[k] = 3;
                        full_run(&l, true, Apart, "u32 elements", |x| x, true, c)?;
                    }
                    Ok(())
                }));
            }
            for l in [vec![300], vec![256, 2], vec![2, 257], vec![70_000], vec![65_536, 2], vec![1; 8], vec![1; 9], vec![1; 40], vec![2; 10], [vec![1; 20], vec![3], vec![1; 20], vec![2]].concat(), vec![2; t.pick(12, 18)]] {
                u.push(unit(format!("factor list {l:?}"), move |c| {
                    for shared in [false, true] {
                        c01_one(&l, shared, c)?;
                    }
                    Ok(())
                }));
            }
            bounds = format!("all lists of up to {nf} factors with 1..{ml} elements and at most {cap} combinations, with distinct and with shared slices, each enumerated completely twice, for six element types (incl. zero-sized), added by push and by extend; up to 200 combinations also with slices that touch, overlap or lie apart in 5 ways; selected factors of up to 70000 elements and up to 70000 factors");
        }
        "C02" | "C03" => {
            let ops = c02_ops(false);
            let wide = c02_ops(true);
            let (d, dw) = t.pick((9, 7), (10, 8));
            for (o, d, tag) in [(ops, d, "narrow"), (wide, dw, "wide")] {
                for x in o.clone() {
                    for y in o.clone() {
                        let (x, o) = (x.clone(), o.clone());
                        u.push(unit(format!("{tag}: all sequences of {d} operations beginning with {x:?}, {y:?}"), move |c| {
                            let pool = Pool::new(&[1, 2, 3], |x| x);
                            dfs(&o, d - 2, &mut vec![x.clone(), y.clone()], &pool, c)
                        }));
                    }
                }
            }
            for lens in [[2usize, 2, 2], [4, 1, 2], [2, 3, 5], [16, 1, 17]] {
                for x in wide_ops() {
                    u.push(unit(format!("slices of {lens:?} elements: all sequences beginning with {x:?}"), move |c| {
                        let pool = Pool::new(&lens, |x| x as u8);
                        dfs(&c02_ops(true), 2, &mut vec![x.clone()], &pool, c)?;
                        dfs(&c02_ops(false), t.pick(6, 7), &mut vec![x.clone()], &pool, c)
                    }));
                }
            }
            for layout in [Adjacent, Backwards, SameBegin, SameEnd, Own] {
                for x in wide_ops() {
                    u.push(unit(format!("slices {layout:?}: all sequences beginning with {x:?}"), move |c| {
                        let pool = Pool::laid_out(&[1, 2, 3], layout, |x| x);
                        dfs(&c02_ops(true), t.pick(4, 5), &mut vec![x.clone()], &pool, c)
                    }));
                }
            }
            // One product used over and over.
            for k in 0..4usize {
                u.push(unit(format!("one product used again and again, {k}"), move |c| {
                    let pool = Pool::new(&[1, 2, 3], |x| x);
                    let round = [
                        vec![Op::Push(1), Op::Run, Op::Clear],
                        vec![Op::Extend(vec![1, 2]), Op::Advance, Op::Push(2), Op::Run, Op::Clear],
                        vec![Op::Push(2), Op::Extend(vec![0, 1]), Op::Run, Op::Advance, Op::Clear],
                        vec![Op::Extend(vec![2; 5]), Op::Advance, Op::Clear, Op::Push(1), Op::Advance, Op::Clear],
                    ];
                    let mut ops = vec![];
                    for _ in 0..t.pick(1000, 20_000) {
                        ops.extend(round[k].clone());
                    }
                    ops.extend([Op::Push(1), Op::Extend(vec![2, 1]), Op::Run]);
                    replay(&ops, &pool, c).map(|_| ())
                }));
            }
            u.push(unit("all sequences of up to one operation", |c| {
                let pool = Pool::new(&[1, 2, 3], |x| x);
                dfs(&c02_ops(true), 1, &mut vec![], &pool, c)
            }));
            // More factors than the initial capacity, added in every mixture of two steps, then enumerated.
            for n in 0..=20usize {
                u.push(unit(format!("{n} factors added in two steps"), move |c| {
                    let pool = Pool::new(&[1, 2, 3], |x| format!("{x}"));
                    for k in 0..=n {
                        let seq = |a: usize, b: usize| (a..b).map(|i| [0, 0, 1, 0, 0, 2, 0][i % 7]).collect::<Vec<_>>();
                        let pushes = |a: usize, b: usize| seq(a, b).into_iter().map(Op::Push).collect::<Vec<_>>();
                        for mid in [vec![], vec![Op::Advance], vec![Op::Advance, Op::Advance], vec![Op::Run], vec![Op::Clear]] {
                            for (f, s) in [
                                (pushes(0, k), pushes(k, n)),
                                (pushes(0, k), vec![Op::Extend(seq(k, n))]),
                                (vec![Op::Extend(seq(0, k))], pushes(k, n)),
                                (vec![Op::Extend(seq(0, k))], vec![Op::Extend(seq(k, n))]),
                            ] {
                                let ops = [f, mid.clone(), s, vec![Op::Run, Op::Run]].concat();
                                for i in 0..=ops.len() {
                                    replay(&ops[..i], &pool, c)?;
                                }
                            }
                        }
                    }
                    Ok(())
                }));
            }
            bounds = format!("all sequences of {d} operations (push, extend by 0/1/2 factors, clear, advance) and of {dw} operations with complete enumerations in between, over slices of 1, 2 and 3 elements inside a larger array, and of {} operations over other lengths; up to 20 factors added in every mixture of two steps; slices that touch, overlap or lie apart with all sequences of {} operations; one product used {} times; elements compared by address", t.pick(7, 8), t.pick(5, 6), t.pick(1000, 20_000));
        }
        p => panic!("unknown property {p}"),
    }
    mclib::main(a, u, &bounds)
}

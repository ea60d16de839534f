//! Exhaustive exploration of operation sequences on the real `Vec2d`, in lockstep with a list-of-lists model.
//!
//! The store is generic over its items and never looks at them, so every pushed item is a fresh number: this is the
//! most general choice of items (any other run is a renaming of it).
use gearley_vec2d::{Vec2d, Vec2dCapacity};
use mclib::*;
use std::collections::HashSet;
use std::fmt::Debug;
use std::sync::atomic::{AtomicU8, Ordering::Relaxed};

/// An item type. Every pushed item is made from a fresh number.
trait Item: Clone + PartialEq + Debug + serde::Serialize + serde::de::DeserializeOwned + miniserde::Serialize + miniserde::Deserialize + 'static {
    fn make(n: u32) -> Self;
    /// Only for item types that can be copied, as the store requires it.
    fn truncate(v: &mut Vec2d<Self>, n: usize);
    const COPY: bool = true;
}
impl Item for u32 {
    fn make(n: u32) -> u32 {
        n
    }
    fn truncate(v: &mut Vec2d<u32>, n: usize) {
        v.truncate(n)
    }
}
/// Zero-sized.
impl Item for () {
    fn make(_: u32) {}
    fn truncate(v: &mut Vec2d<()>, n: usize) {
        v.truncate(n)
    }
}
impl Item for u8 {
    fn make(n: u32) -> u8 {
        n as u8
    }
    fn truncate(v: &mut Vec2d<u8>, n: usize) {
        v.truncate(n)
    }
}
impl Item for (u64, u32) {
    fn make(n: u32) -> (u64, u32) {
        ((n as u64) << 32 | n as u64, !n)
    }
    fn truncate(v: &mut Vec2d<(u64, u32)>, n: usize) {
        v.truncate(n)
    }
}
impl Item for u16 {
    fn make(n: u32) -> u16 {
        n as u16
    }
    fn truncate(v: &mut Vec2d<u16>, n: usize) {
        v.truncate(n)
    }
}
impl Item for u64 {
    fn make(n: u32) -> u64 {
        (n as u64) << 32 | !n as u64
    }
    fn truncate(v: &mut Vec2d<u64>, n: usize) {
        v.truncate(n)
    }
}
type P4 = ((u64, u64), (u64, u64));
type P16 = ((P4, P4), (P4, P4));
/// Large.
type Large = (P16, P16);
impl Item for Large {
    fn make(n: u32) -> Large {
        let p = |k: u64| ((n as u64 + k, k), (!(n as u64), k * n as u64));
        let q = |k: u64| ((p(k), p(k + 1)), (p(k + 2), p(k + 3)));
        (q(0), q(9))
    }
    fn truncate(v: &mut Vec2d<Large>, n: usize) {
        v.truncate(n)
    }
}
/// Owning memory.
impl Item for String {
    fn make(n: u32) -> String {
        format!("item {n} with a text that is kept on the heap")
    }
    fn truncate(_: &mut Vec2d<String>, _: usize) {
        unreachable!()
    }
    const COPY: bool = false;
}

/// The reference: finished sets, and the unfinished set.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct Model {
    sets: Vec<Vec<u32>>,
    cur: Vec<u32>,
    fresh: u32,
}

impl Model {
    fn fresh(&mut self) -> u32 {
        self.fresh += 1;
        self.fresh
    }
    fn finished_items(&self) -> usize {
        self.sets.iter().map(Vec::len).sum()
    }
    fn items(&self) -> usize {
        self.finished_items() + self.cur.len()
    }
}

use Op::*;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    /// Push that many items one by one.
    Push(usize),
    Pop,
    NextSet,
    /// Append a whole set with that many items (joined to what the unfinished set already holds).
    ExtendWithSet(usize),
    /// The same through an iterator that knows nothing about its length.
    ExtendWithSetUnsized(usize),
    /// The same through an iterator without any upper bound on its length.
    ExtendWithSetOpen(usize),
    /// Truncate to that many finished sets.
    Truncate(usize),
    /// Shorten by absolute item count: drop that many trailing items of the unfinished set.
    TruncateChart(usize),
    /// Shorten to more items than there are: nothing to do.
    TruncateChartBeyond,
    /// Write through the mutable view, at that position of the unfinished set.
    Write(usize),
    Clear,
    /// Continue on a clone; the original is kept and must not change.
    CloneAndKeep,
    /// The same, cloned into a store that already exists: the kept one if there is any.
    CloneFromAndKeep,
    /// Continue on the kept one.
    Swap,
    Serde,
    Miniserde,
    /// A binary format of serde's.
    Cbor,
    /// A binary format without names or types, of serde's.
    Bincode,
    /// `Extend` with that shape.
    Extend(usize),
    /// Rebuild with `FromIterator` of the finished sets, then push the unfinished items.
    Collect,
}

const SHAPES: &[&[usize]] = &[&[], &[0], &[2], &[0, 0], &[1, 0], &[0, 2], &[2, 1, 0], &[1, 0, 3, 0]];

struct St<T> {
    v: Vec2d<T>,
    m: Model,
    other: Option<(Vec2d<T>, Model)>,
}

impl<T: Item> Clone for St<T> {
    fn clone(&self) -> Self {
        St { v: self.v.clone(), m: self.m.clone(), other: self.other.clone() }
    }
}

fn new_state<T: Item>(start: &Start) -> St<T> {
    let v = match start {
        Start::New => Vec2d::new(),
        Start::Default => Vec2d::default(),
        Start::Cap(a, b) => Vec2d::with_capacity(Vec2dCapacity { chart_capacity: *a, indices_capacity: *b }),
        Start::Collected => std::iter::empty::<Vec<T>>().collect(),
    };
    St { v, m: Model::default(), other: None }
}

#[derive(Clone, Debug)]
enum Start {
    New,
    Default,
    Cap(usize, usize),
    Collected,
}

fn enabled<T: Item>(op: Op, s: &St<T>) -> bool {
    match op {
        // Also on a store without any item.
        Op::Pop => !s.m.cur.is_empty() || s.m.items() == 0,
        Op::Truncate(n) => T::COPY && n <= s.m.sets.len(),
        Op::TruncateChart(d) => d <= s.m.cur.len(),
        Op::Write(i) => i < s.m.cur.len(),
        Op::Swap => s.other.is_some(),
        _ => true,
    }
}

fn apply<T: Item>(op: Op, s: &mut St<T>) -> Res {
    let St { v, m, other } = s;
    match op {
        Op::Push(n) => {
            for _ in 0..n {
                let x = m.fresh();
                m.cur.push(x);
                v.push_item(T::make(x));
            }
        }
        Op::Pop => {
            let want = m.cur.pop();
            let got = v.pop_item();
            check!(got == want.map(T::make), "pop_item returned {got:?} instead of {:?}", want.map(T::make));
        }
        Op::NextSet => {
            m.sets.push(std::mem::take(&mut m.cur));
            v.next_set();
        }
        Op::ExtendWithSet(n) | Op::ExtendWithSetUnsized(n) | Op::ExtendWithSetOpen(n) => {
            let new: Vec<u32> = (0..n).map(|_| m.fresh()).collect();
            m.cur.extend(&new);
            m.sets.push(std::mem::take(&mut m.cur));
            if let Op::ExtendWithSet(_) = op {
                v.extend_with_set(new.into_iter().map(T::make));
            } else if let Op::ExtendWithSetOpen(_) = op {
                let mut i = new.into_iter();
                v.extend_with_set(std::iter::from_fn(|| i.next()).map(T::make));
            } else {
                v.extend_with_set(new.into_iter().filter(|_| true).map(T::make));
            }
        }
        Op::Truncate(n) => {
            m.sets.truncate(n);
            T::truncate(v, n);
        }
        Op::TruncateChart(d) => {
            let keep = m.cur.len() - d;
            m.cur.truncate(keep);
            v.truncate_chart(m.items());
        }
        Op::TruncateChartBeyond => v.truncate_chart(m.items() + 3),
        Op::Write(i) => {
            let x = m.fresh();
            m.cur[i] = x;
            v.last_mut()[i] = T::make(x);
        }
        Op::Clear => {
            m.sets.clear();
            m.cur.clear();
            v.clear();
        }
        Op::CloneAndKeep => {
            let c = v.clone();
            let old = std::mem::replace(v, c);
            *other = Some((old, m.clone()));
        }
        Op::CloneFromAndKeep => {
            let mut c = match other.take() {
                Some((v, _)) => v,
                None => {
                    let mut c = Vec2d::new();
                    c.push_item(T::make(m.fresh + 1_000));
                    c.next_set();
                    c.push_item(T::make(m.fresh + 1_001));
                    c.push_item(T::make(m.fresh + 1_002));
                    c
                }
            };
            c.clone_from(v);
            let old = std::mem::replace(v, c);
            *other = Some((old, m.clone()));
        }
        Op::Swap => {
            if let Some((ov, om)) = other {
                std::mem::swap(v, ov);
                std::mem::swap(m, om);
                // Keep item numbers unique across both.
                m.fresh = m.fresh.max(om.fresh);
            }
        }
        Op::Serde => {
            let text = serde_json::to_string(v).map_err(|e| format!("serde: {e}"))?;
            *v = serde_json::from_str(&text).map_err(|e| format!("serde cannot read back {text}: {e}"))?;
        }
        Op::Bincode => {
            let bytes = bincode::serialize(&*v).map_err(|e| format!("serde (bincode): {e}"))?;
            *v = bincode::deserialize(&bytes).map_err(|e| format!("serde (bincode) cannot read back {bytes:?}: {e}"))?;
        }
        Op::Cbor => {
            let mut bytes = vec![];
            ciborium::into_writer(&*v, &mut bytes).map_err(|e| format!("serde (CBOR): {e}"))?;
            *v = ciborium::from_reader(&bytes[..]).map_err(|e| format!("serde (CBOR) cannot read back {bytes:?}: {e}"))?;
        }
        Op::Miniserde => {
            let text = miniserde::json::to_string(v);
            *v = miniserde::json::from_str(&text).map_err(|e| format!("miniserde cannot read back {text}: {e}"))?;
        }
        Op::Extend(k) => {
            let mut new: Vec<Vec<u32>> = vec![];
            for &n in SHAPES[k] {
                new.push((0..n).map(|_| m.fresh()).collect());
            }
            for set in &new {
                m.cur.extend(set);
                m.sets.push(std::mem::take(&mut m.cur));
            }
            v.extend(new.into_iter().map(|s| s.into_iter().map(T::make)));
        }
        Op::Collect => {
            let mut w: Vec2d<T> = m.sets.iter().map(|s| s.iter().copied().map(T::make)).collect();
            for &x in &m.cur {
                w.push_item(T::make(x));
            }
            *v = w;
        }
    }
    Ok(())
}

fn same<T: Item>(got: &[T], want: &[u32]) -> bool {
    got.len() == want.len() && got.iter().zip(want).all(|(g, &w)| *g == T::make(w))
}

fn made<T: Item>(v: &[u32]) -> Vec<T> {
    v.iter().map(|&x| T::make(x)).collect()
}

fn observe<T: Item>(v: &mut Vec2d<T>, m: &Model, what: &str) -> Res {
    check!(v.len() == m.sets.len() + 1, "{what}: len() is {} instead of {} finished sets + 1", v.len(), m.sets.len());
    check!(v.item_count() == m.items(), "{what}: item_count() is {} instead of {}", v.item_count(), m.items());
    let mut begin = 0;
    for (i, set) in m.sets.iter().enumerate() {
        check!(v.index_at(i) == begin, "{what}: index_at({i}) is {} instead of {begin}", v.index_at(i));
        check!(same(&v[i], set), "{what}: finished set {i} is {:?} instead of {:?}", &v[i], made::<T>(set));
        begin += set.len();
    }
    let n = m.sets.len();
    check!(v.index_at(n) == begin, "{what}: index_at({n}) is {} instead of {begin}", v.index_at(n));
    check!(same(v.last(), &m.cur), "{what}: last() is {:?} instead of {:?}", v.last(), made::<T>(&m.cur));
    check!(same(v.last_mut(), &m.cur), "{what}: last_mut() is {:?} instead of {:?}", v.last(), made::<T>(&m.cur));
    let mut last = None;
    let mut i = 0;
    for &x in m.sets.iter().flatten().chain(&m.cur) {
        let x = T::make(x);
        check!(v.get_item(i) == Some(&x), "{what}: get_item({i}) is {:?} instead of {x:?}", v.get_item(i));
        last = Some(x);
        i += 1;
    }
    for i in [i, i + 1] {
        check!(v.get_item(i).is_none(), "{what}: get_item({i}) is {:?} but there are only {} items", v.get_item(i), m.items());
    }
    check!(v.last_item() == last.as_ref(), "{what}: last_item() is {:?} instead of {last:?}", v.last_item());
    Ok(())
}

/// Which property is being decided (1 to 5).
static PROPERTY: AtomicU8 = AtomicU8::new(0);

/// The history (or with clones, that of either store) without what the property is about, to the same effect as far as
/// the model goes; `None` if the property is not involved.
fn without(path: &[Op], start: &Start) -> Option<Vec<Vec<Op>>> {
    // Builds what the model holds, step by step.
    fn build(m: &Model) -> Vec<Op> {
        let mut v = vec![];
        for s in &m.sets {
            v.extend([Op::Push(s.len()), Op::NextSet]);
        }
        v.push(Op::Push(m.cur.len()));
        v
    }
    // The model after a history.
    fn model(path: &[Op]) -> Model {
        let mut s: St<()> = new_state(&Start::New);
        for &op in path {
            // The model does not depend on what the store does.
            let _ = guarded(|| apply_model_only(op, &mut s));
        }
        s.m
    }
    match PROPERTY.load(Relaxed) {
        2 => {
            let k = path.iter().rposition(|o| matches!(o, Op::Truncate(_) | Op::TruncateChart(_) | Op::TruncateChartBeyond))?;
            let mut v = build(&model(&path[..=k]));
            v.extend(&path[k + 1..]);
            Some(vec![v])
        }
        3 => {
            let k = path.iter().rposition(|o| matches!(o, Op::Clear))?;
            Some(vec![path[k + 1..].to_vec()])
        }
        4 => {
            let special = |o: &Op| matches!(o, Op::Extend(_) | Op::Collect | Op::ExtendWithSet(_) | Op::ExtendWithSetUnsized(_) | Op::ExtendWithSetOpen(_) | Op::CloneAndKeep | Op::CloneFromAndKeep | Op::Swap);
            if !path.iter().any(special) && matches!(start, Start::New) {
                return None;
            }
            let (mut v, mut kept) = (vec![], None);
            for o in path {
                match *o {
                    Op::Extend(k) => SHAPES[k].iter().for_each(|&n| v.extend([Op::Push(n), Op::NextSet])),
                    Op::ExtendWithSet(n) | Op::ExtendWithSetUnsized(n) | Op::ExtendWithSetOpen(n) => v.extend([Op::Push(n), Op::NextSet]),
                    Op::Collect => {}
                    Op::CloneAndKeep | Op::CloneFromAndKeep => kept = Some(v.clone()),
                    Op::Swap => std::mem::swap(&mut v, kept.as_mut().unwrap()),
                    o => v.push(o),
                }
            }
            Some(std::iter::once(v).chain(kept).collect())
        }
        5 => {
            if !path.iter().any(|o| matches!(o, Op::Serde | Op::Miniserde | Op::Cbor | Op::Bincode)) {
                return None;
            }
            Some(vec![path.iter().copied().filter(|o| !matches!(o, Op::Serde | Op::Miniserde | Op::Cbor | Op::Bincode)).collect()])
        }
        _ => Some(vec![vec![]]),
    }
}

/// Only the model's part of an operation (on a store that is made anew from the model).
fn apply_model_only(op: Op, s: &mut St<()>) -> Res {
    match op {
        Op::Serde | Op::Miniserde | Op::Cbor | Op::Bincode | Op::Collect | Op::TruncateChartBeyond => Ok(()),
        Op::Pop => {
            s.m.cur.pop();
            Ok(())
        }
        Op::Truncate(n) => {
            s.m.sets.truncate(n);
            Ok(())
        }
        Op::TruncateChart(d) => {
            let keep = s.m.cur.len() - d;
            s.m.cur.truncate(keep);
            Ok(())
        }
        Op::Write(i) => {
            s.m.cur[i] = s.m.fresh();
            Ok(())
        }
        Op::Push(n) => {
            for _ in 0..n {
                let x = s.m.fresh();
                s.m.cur.push(x);
            }
            Ok(())
        }
        Op::NextSet => {
            let c = std::mem::take(&mut s.m.cur);
            s.m.sets.push(c);
            Ok(())
        }
        Op::ExtendWithSet(n) | Op::ExtendWithSetUnsized(n) | Op::ExtendWithSetOpen(n) => {
            apply_model_only(Op::Push(n), s)?;
            apply_model_only(Op::NextSet, s)
        }
        Op::Extend(k) => SHAPES[k].iter().try_for_each(|&n| apply_model_only(Op::ExtendWithSet(n), s)),
        Op::Clear => {
            s.m.sets.clear();
            s.m.cur.clear();
            Ok(())
        }
        Op::CloneAndKeep | Op::CloneFromAndKeep => {
            s.other = Some((Vec2d::new(), s.m.clone()));
            Ok(())
        }
        Op::Swap => {
            if let Some((_, om)) = &mut s.other {
                std::mem::swap(&mut s.m, om);
            }
            Ok(())
        }
    }
}

/// Whether the difference that a history shows is this property's: not if the history without what the property is
/// about shows a difference as well.
fn ours<T: Item>(path: &[Op], start: &Start) -> bool {
    let Some(ps) = without(path, start) else { return false };
    ps.iter().all(|p| {
        let r = no_panic("operation", || -> Res {
            let mut s: St<T> = new_state(&Start::New);
            observe(&mut s.v, &s.m, "store")?;
            for &op in p {
                apply(op, &mut s)?;
                observe(&mut s.v, &s.m, "store")?;
            }
            Ok(())
        })
        .and_then(|r| r);
        r.is_ok()
    })
}

fn brief(x: &impl Debug) -> String {
    let s = format!("{x:?}");
    if s.len() > 1500 {
        format!("{} ... {}", s.chars().take(900).collect::<String>(), s.chars().rev().take(400).collect::<Vec<_>>().into_iter().rev().collect::<String>())
    } else {
        s
    }
}

/// Applies an operation and compares. `Ok(false)`: a difference that is another property's; to be explored no further.
fn step<T: Item>(op: Op, s: &mut St<T>, path: &[Op], start: &Start) -> Result<bool, String> {
    let r = no_panic("operation", || {
        apply(op, s)?;
        observe(&mut s.v, &s.m, "store")?;
        if let Some((ov, om)) = &mut s.other {
            observe(ov, om, "the kept original of the clone")?;
        }
        Ok(())
    })
    .and_then(|r| r);
    match r {
        Ok(()) => Ok(true),
        Err(_) if !ours::<T>(path, start) => Ok(false),
        Err(e) => Err(format!("start {start:?}, items {}, operations {}\n{e}\nmodel: {}", std::any::type_name::<T>(), brief(&path), brief(&s.m))),
    }
}

const PRUNED: &str = "histories whose differences are another property's (explored no further)";

/// All sequences of exactly up to `depth` further operations, without any merging of states.
fn dfs<T: Item>(s: &St<T>, ops: &[Op], depth: usize, path: &mut Vec<Op>, start: &Start, c: &mut Ctx) -> Res {
    if depth == 0 {
        c.traces += 1;
        c.sample(|| format!("{start:?} {path:?} -> finished {:?}, unfinished {:?}", s.m.sets, s.m.cur));
        return Ok(());
    }
    let mut leaf = true;
    for &op in ops {
        if !enabled(op, s) {
            continue;
        }
        leaf = false;
        let mut t = s.clone();
        path.push(op);
        c.transitions += 1;
        c.states += 1;
        if step(op, &mut t, path, start)? {
            dfs(&t, ops, depth - 1, path, start, c)?;
        } else {
            c.count(PRUNED, 1);
        }
        path.pop();
    }
    if leaf {
        c.traces += 1;
    }
    Ok(())
}

/// Renames items in order of first appearance, in the model and in the debug text of the store. The store cannot
/// inspect its items, so stores that are equal up to renaming have the same futures.
fn canon(s: &St<u32>) -> (String, String, String) {
    fn ren(text: &str, map: &mut Vec<u32>, base: u32) -> String {
        // Items are numbers >= base so that they cannot be mistaken for indices.
        let mut out = String::new();
        let mut num = String::new();
        for ch in text.chars().chain(" ".chars()) {
            if ch.is_ascii_digit() {
                num.push(ch);
                continue;
            }
            if !num.is_empty() {
                let x: u64 = num.parse().unwrap();
                if x >= base as u64 {
                    let k = map.iter().position(|&y| y as u64 == x).unwrap_or_else(|| {
                        map.push(x as u32);
                        map.len() - 1
                    });
                    out.push_str(&format!("i{k}"));
                } else {
                    out.push_str(&num);
                }
                num.clear();
            }
            out.push(ch);
        }
        out
    }
    let mut map = vec![];
    let model = ren(&format!("{:?} {:?}", s.m.sets, s.m.cur), &mut map, BASE);
    let v = ren(&format!("{:?}", s.v), &mut map, BASE);
    let other = ren(&format!("{:?}", s.other.as_ref().map(|(v, m)| (v, &m.sets, &m.cur))), &mut map, BASE);
    (model, v, other)
}

const BASE: u32 = 1_000_000;

/// Breadth-first search over all stores within the size caps, merging equal states; calls `visit` on every state.
fn bfs(start: &Start, ops: &[Op], max_sets: usize, max_items: usize, c: &mut Ctx, mut visit: impl FnMut(&St<u32>, &[Op], &mut Ctx) -> Res) -> Res {
    let mut init = new_state(start);
    init.m.fresh = BASE;
    if !step_check(&mut init, start)? {
        return Ok(());
    }
    let mut seen = HashSet::new();
    seen.insert(canon(&init));
    c.states += 1;
    visit(&init, &[], c)?;
    let mut frontier = vec![(init, vec![])];
    let mut depth = 0;
    while !frontier.is_empty() {
        let mut next = vec![];
        for (s, path) in &frontier {
            for &op in ops {
                if !enabled(op, s) {
                    continue;
                }
                let mut t = s.clone();
                let mut p: Vec<Op> = path.clone();
                p.push(op);
                c.transitions += 1;
                if !step(op, &mut t, &p, start)? {
                    c.count(PRUNED, 1);
                    continue;
                }
                if t.m.sets.len() > max_sets || t.m.items() > max_items {
                    continue;
                }
                if seen.insert(canon(&t)) {
                    c.states += 1;
                    c.outcome(&canon(&t));
                    visit(&t, &p, c)?;
                    next.push((t, p));
                }
            }
        }
        depth += 1;
        frontier = next;
    }
    c.count("bfs_longest_shortest_history", depth);
    Ok(())
}

fn step_check<T: Item>(s: &mut St<T>, start: &Start) -> Result<bool, String> {
    match no_panic("new store", || observe(&mut s.v, &s.m, "new store")).and_then(|r| r) {
        Ok(()) => Ok(true),
        Err(_) if PROPERTY.load(Relaxed) != 1 && !ours::<T>(&[], start) => Ok(false),
        Err(e) => Err(format!("start {start:?}: {e}")),
    }
}

/// Applies a history, comparing only at its end; false if there is a difference that is another property's.
fn run<T: Item>(ops: &[Op], s: &mut St<T>, path: &mut Vec<Op>, start: &Start, c: &mut Ctx) -> Result<bool, String> {
    for (i, &op) in ops.iter().enumerate() {
        path.push(op);
        c.transitions += 1;
        let ok = if i + 1 == ops.len() {
            step(op, s, path, start)?
        } else {
            match no_panic("operation", || apply(op, s)).and_then(|r| r) {
                Ok(()) => true,
                Err(_) if !ours::<T>(path, start) => false,
                Err(e) => return Err(format!("start {start:?}, operations {}\n{e}", brief(&path))),
            }
        };
        if !ok {
            c.count(PRUNED, 1);
            return Ok(false);
        }
    }
    Ok(true)
}

/// Units for an undeduplicated search, split by the first two operations.
fn dfs_units<T: Item>(units: &mut Vec<Unit>, tag: &str, starts: &[Start], ops: &[Op], depth: usize) {
    let tag = format!("{tag} ({})", std::any::type_name::<T>());
    for start in starts {
        let (st, o) = (start.clone(), ops.to_vec());
        units.push(unit(format!("{tag} {start:?}: all sequences of one operation"), move |c| {
            let mut s = new_state::<T>(&st);
            if step_check(&mut s, &st)? {
                dfs(&s, &o, 1, &mut vec![], &st, c)?;
            }
            Ok(())
        }));
        for &a in ops {
            for &b in ops {
                let (st, o) = (start.clone(), ops.to_vec());
                units.push(unit(format!("{tag} {start:?}: all sequences of {depth} operations beginning with {a:?}, {b:?}"), move |c| {
                    let mut s = new_state::<T>(&st);
                    let mut path = vec![];
                    for op in [a, b] {
                        if !enabled(op, &s) {
                            return Ok(());
                        }
                        if !run(&[op], &mut s, &mut path, &st, c)? {
                            return Ok(());
                        }
                    }
                    c.states += 1;
                    dfs(&s, &o, depth - 2, &mut path, &st, c)
                }));
            }
        }
    }
}

/// The same for the other item types.
fn dfs_types(units: &mut Vec<Unit>, tag: &str, ops: &[Op], depth: usize) {
    let starts = [Start::New];
    dfs_units::<()>(units, tag, &starts, ops, depth);
    dfs_units::<u8>(units, tag, &starts, ops, depth);
    dfs_units::<(u64, u32)>(units, tag, &starts, ops, depth);
    dfs_units::<String>(units, tag, &starts, ops, depth - 1);
    dfs_units::<u16>(units, tag, &starts, ops, depth - 1);
    dfs_units::<u64>(units, tag, &starts, ops, depth - 1);
    dfs_units::<Large>(units, tag, &starts, ops, depth - 2);
}

/// Stores with many sets or items: a prepared history, then all sequences of the operations.
fn prepared<T: Item>(units: &mut Vec<Unit>, name: String, history: Vec<Op>, ops: Vec<Op>, depth: usize) {
    units.push(unit(format!("{name} ({})", std::any::type_name::<T>()), move |c| {
        let mut s = new_state::<T>(&Start::New);
        let mut path = vec![];
        if run(&history, &mut s, &mut path, &Start::New, c)? {
            dfs(&s, &ops, depth, &mut path, &Start::New, c)?;
        }
        Ok(())
    }));
}

/// A history that builds finished sets with these numbers of items, and an unfinished one.
fn building(sizes: &[usize], unfinished: usize) -> Vec<Op> {
    let mut v = vec![];
    for &n in sizes {
        v.extend([Op::Push(n), Op::NextSet]);
    }
    v.push(Op::Push(unfinished));
    v
}

/// Numbers of sets around the places where storage grows.
const COUNTS: [usize; 20] = [1, 2, 4, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000];

/// Calls `f` with set sizes: many sets of few items, few sets of many items.
fn many(t: Tier, mut f: impl FnMut(String, Vec<usize>, usize)) {
    for n in COUNTS {
        for per in 0..4usize {
            let sizes: Vec<usize> = (0..n).map(|i| if per == 3 { i * 7 % 5 } else { i % (per + 1) }).collect();
            for unf in [0, 3] {
                f(format!("{n} sets of 0..={per} items and {unf} more"), sizes.clone(), unf);
            }
        }
    }
    let mut big = vec![vec![300, 2, 0, 40], vec![1000, 1, 1000], vec![65_535], vec![65_536, 1], vec![65_537, 0, 2], vec![70_000, 70_000, 1]];
    big.push(vec![1; 65_535]);
    big.push(vec![0; 65_537]);
    big.push((0..66_000).map(|i| (i % 37 == 0) as usize * 3).collect());
    if t == Tier::Thorough {
        big.push(vec![1; 140_000]);
        big.push(vec![1_000_000, 3, 1_000_000]);
    }
    for b in big {
        for unf in [2, 66_000] {
            let n = b.len();
            f(format!("{n} sets with {} items, and {unf} more", b.iter().sum::<usize>()), b.clone(), unf);
        }
    }
}

fn caps() -> Vec<Start> {
    let mut r = vec![Start::New, Start::Default, Start::Collected];
    for a in [0, 1, 2, 3, 8, 1000] {
        for b in [0, 1, 2, 3, 8, 1000] {
            r.push(Start::Cap(a, b));
        }
    }
    r
}

/// Larger capacities, around the powers of two.
fn large_caps() -> Vec<Start> {
    let sizes = [16usize, 255, 256, 257, 4095, 4096, 65_535, 65_536, 65_537, 200_000];
    sizes.iter().flat_map(|&n| [Start::Cap(n, 0), Start::Cap(0, n), Start::Cap(n, n)]).collect()
}

fn main() {
    let a = args();
    let t = a.tier;
    PROPERTY.store(a.property[1..].parse().unwrap(), Relaxed);
    let mut u: Vec<Unit> = vec![];
    let news = [Start::New];
    let bounds;
    match a.property.as_str() {
        "V01" => {
            let ops = [Push(1), Pop, NextSet, ExtendWithSet(0), ExtendWithSet(2), Write(0), Write(1), ExtendWithSetUnsized(1)];
            let d = t.pick(10, 11);
            dfs_units::<u32>(&mut u, "small", &news, &ops, d);
            let dt = t.pick(8, 9);
            dfs_types(&mut u, "small", &ops, dt);
            // The same with histories that cross allocation and block sizes.
            let big = [Push(1), Push(40), Push(300), Pop, NextSet, ExtendWithSet(70), Write(39)];
            dfs_units::<u32>(&mut u, "large sets", &[Start::New, Start::Cap(16, 4)], &big, t.pick(6, 8));
            dfs_units::<u32>(&mut u, "huge sets", &news, &[Push(1), Push(70_000), NextSet, ExtendWithSet(65_536)], t.pick(3, 5));
            many(t, |name, sizes, unf| {
                let d = if sizes.len() > 1000 || sizes.iter().sum::<usize>() + unf > 5000 { 1 } else { t.pick(2, 3) };
                let ops = vec![Push(1), Pop, NextSet, ExtendWithSet(2), Write(0), ExtendWithSetUnsized(9), ExtendWithSetOpen(3)];
                prepared::<u32>(&mut u, name, building(&sizes, unf), ops, d);
            });
            let (ms, mi) = t.pick((6, 9), (8, 11));
            u.push(unit("all reachable stores within size caps", move |c| {
                bfs(&Start::New, &[Push(1), Pop, NextSet, ExtendWithSet(0), ExtendWithSet(1), ExtendWithSet(3), Write(0), Write(1), Write(2)], ms, mi, c, |s, p, _| {
                    let n = s.m.sets.len();
                    check!(guarded(|| s.v[n].len()).is_err(), "operations {p:?}: there are {n} finished sets, but the set with index {n} can be read");
                    Ok(())
                })
            }));
            bounds = format!("all sequences of {d} operations over 8 operations without merging states ({dt} for items of no size, one byte, 16 bytes, and {} for strings and items of 2, 8 and (one less still) 256 bytes); all sequences of {} operations with sets of up to 300 items, and of {} with sets of up to 70000 items; every store with at most {ms} finished sets and {mi} items reached by any history; selected stores of up to 70000 sets or items; all accessors compared after every step", dt - 1, t.pick(6, 8), t.pick(3, 5));
        }
        "V02" => {
            let ops = [Push(1), Pop, NextSet, ExtendWithSet(2), Truncate(0), Truncate(1), Truncate(2), Truncate(3), TruncateChart(1), TruncateChart(2)];
            let d = t.pick(10, 11);
            dfs_units::<u32>(&mut u, "small", &news, &ops, d);
            let dt = t.pick(8, 9);
            dfs_types(&mut u, "small", &ops, dt);
            dfs_units::<u32>(&mut u, "large sets", &news, &[Push(3), Push(300), NextSet, ExtendWithSet(70), Truncate(0), Truncate(1), Truncate(2), TruncateChart(200)], t.pick(7, 8));
            let all = [Push(1), Pop, NextSet, Truncate(0), Truncate(1), Truncate(2), TruncateChart(1), TruncateChartBeyond, Clear, Write(0), Extend(6), Collect, CloneAndKeep, Swap, Serde, Miniserde];
            dfs_units::<u32>(&mut u, "with every other operation", &[Start::New, Start::Cap(0, 0), Start::Cap(1000, 1000)], &all, t.pick(6, 7));
            many(t, |name, sizes, unf| {
                let n = sizes.len();
                let items: usize = sizes.iter().sum::<usize>() + unf;
                let mut at: Vec<usize> = if n <= 300 { (0..=n).collect() } else { vec![0, 1, 2, n / 2, n - 2, n - 1, n] };
                at.extend([255, 256, 257, 65_534, 65_535, 65_536].iter().filter(|&&k| k <= n));
                for chunk in at.chunks(40) {
                    let (name, sizes, chunk) = (name.clone(), sizes.clone(), chunk.to_vec());
                    u.push(unit(format!("{name}, truncated to {chunk:?}"), move |c| {
                        let mut s = new_state::<u32>(&Start::New);
                        let mut path = vec![];
                        if !run(&building(&sizes, unf), &mut s, &mut path, &Start::New, c)? {
                            return Ok(());
                        }
                        for &n in &chunk {
                            let mut s = s.clone();
                            let mut path = path.clone();
                            if run(&[Truncate(n)], &mut s, &mut path, &Start::New, c)? {
                                let d = if items > 5000 || sizes.len() > 5000 { 0 } else { 2 };
                                dfs(&s, &[Push(1), Pop, NextSet, ExtendWithSet(2), Truncate(0), Truncate(n / 2), TruncateChart(1)], d, &mut path, &Start::New, c)?;
                            }
                        }
                        Ok(())
                    }));
                }
            });
            // Every shape of store, truncated to every n, then all short continuations.
            let (ms, ml) = t.pick((4usize, 4usize), (5, 4));
            let shapes = all_shapes(ms + 1, ml);
            for shape in shapes {
                u.push(unit(format!("store with set sizes {shape:?}, every truncation, all continuations"), move |c| {
                    let k = shape.len() - 1;
                    let mut s = new_state::<u32>(&Start::New);
                    let mut path = vec![];
                    if !run(&building(&shape[..k], shape[k]), &mut s, &mut path, &Start::New, c)? {
                        return Ok(());
                    }
                    for n in 0..=k {
                        let (mut t2, mut path) = (s.clone(), path.clone());
                        if !run(&[Truncate(n)], &mut t2, &mut path, &Start::New, c)? {
                            continue;
                        }
                        c.outcome(&(t2.m.sets.iter().map(Vec::len).collect::<Vec<_>>(), t2.m.cur.len()));
                        dfs(&t2, &[Push(1), Pop, NextSet, ExtendWithSet(1), Truncate(0), Truncate(1), TruncateChart(1), Clear], 2, &mut path, &Start::New, c)?;
                    }
                    Ok(())
                }));
            }
            let (bs, bi) = t.pick((6, 9), (7, 10));
            u.push(unit("all reachable stores within size caps", move |c| bfs(&Start::New, &[Push(1), Push(2), Pop, NextSet, ExtendWithSet(0), ExtendWithSet(2), Truncate(0), Truncate(1), Truncate(2), Truncate(3), Truncate(4), Truncate(5), TruncateChart(0), TruncateChart(1), TruncateChart(2), TruncateChartBeyond], bs, bi, c, |_, _, _| Ok(()))));
            bounds = format!("all sequences of {d} operations over 10 operations without merging states ({dt} for items of no size, one byte and 16 bytes, one less for 2 and 8 bytes), of {} operations with sets of up to 300 items, of {} operations over all 16 kinds of operations; every store with up to {} sets of up to {ml} items each, truncated to every n, with all continuations of 2 operations; the same for stores of up to 300 sets, and selected truncations of stores of up to 70000 sets or items; every store with at most {bs} finished sets and {bi} items reached by any history", t.pick(7, 8), t.pick(6, 7), ms + 1);
        }
        "V03" => {
            let all = [Push(1), Pop, NextSet, ExtendWithSet(2), Truncate(0), Truncate(1), TruncateChart(1), Write(0), Clear];
            let d = t.pick(9, 10);
            dfs_units::<u32>(&mut u, "histories with clear anywhere", &news, &all, d);
            let dt = t.pick(7, 8);
            dfs_types(&mut u, "histories with clear anywhere", &all, dt);
            let more = [Push(1), NextSet, ExtendWithSet(3), Truncate(1), Clear, Extend(6), Collect, CloneAndKeep, Swap, Serde, Miniserde];
            dfs_units::<u32>(&mut u, "with every other operation", &[Start::New, Start::Cap(0, 0), Start::Cap(1000, 1000)], &more, t.pick(7, 8));
            let (ms, mi, cd) = t.pick((5, 7, 4), (6, 8, 5));
            u.push(unit("every reachable store, cleared, all continuations", move |c| {
                bfs(&Start::New, &[Push(1), Pop, NextSet, ExtendWithSet(2), Truncate(0), Truncate(1), Write(0)], ms, mi, c, |s, path, c| {
                    let mut p = path.to_vec();
                    let mut s = s.clone();
                    if run(&[Clear], &mut s, &mut p, &Start::New, c)? {
                        dfs(&s, &[Push(1), Pop, NextSet, ExtendWithSet(1), Truncate(0), Truncate(1), Clear], cd, &mut p, &Start::New, c)?;
                    }
                    Ok(())
                })
            }));
            many(t, |name, sizes, unf| {
                let small = sizes.len() <= 1000 && sizes.iter().sum::<usize>() <= 5000 && unf < 5000;
                let mut h = building(&sizes, unf);
                h.push(Clear);
                prepared::<u32>(&mut u, format!("{name}, cleared"), h.clone(), vec![Push(1), Push(9), Pop, NextSet, ExtendWithSet(3), Truncate(0), Truncate(1), Clear, Extend(7)], t.pick(3, 4));
                // Rebuilt after the clear, other sizes.
                h.extend(building(&sizes.iter().map(|n| n + 1).collect::<Vec<_>>(), unf + 1));
                prepared::<u32>(&mut u, format!("{name}, cleared and built up again"), h, vec![Push(1), NextSet, Truncate(0), Truncate(sizes.len() / 2), Clear], if small { 2 } else { 1 });
            });
            bounds = format!("all sequences of {d} operations including clear, without merging states ({dt} for items of no size, one byte and 16 bytes, {} for strings and items of 2, 8 and (one less still) 256 bytes), of {} operations over all kinds of operations; every store with at most {ms} finished sets and {mi} items reached by any history, cleared, with all continuations of {cd} operations; selected stores of up to 70000 sets or items, cleared, with all continuations of {} operations, and built up again", dt - 1, t.pick(7, 8), t.pick(3, 4));
        }
        "V04" => {
            let ops = [Push(1), Pop, NextSet, Extend(0), Extend(1), Extend(2), Extend(5), Extend(6), Collect, Truncate(1), Clear];
            let d = t.pick(8, 9);
            dfs_units::<u32>(&mut u, "bulk construction", &news, &ops, d);
            let dt = t.pick(6, 7);
            dfs_types(&mut u, "bulk construction", &ops, dt);
            let cl = [Push(1), Pop, NextSet, ExtendWithSet(1), Write(0), Truncate(0), Clear, CloneAndKeep, Swap];
            dfs_units::<u32>(&mut u, "clones", &news, &cl, t.pick(9, 10));
            let into = [Push(1), Pop, NextSet, ExtendWithSetOpen(2), Write(0), Truncate(0), Clear, CloneFromAndKeep, CloneAndKeep, Swap];
            dfs_units::<u32>(&mut u, "clones into other stores", &news, &into, t.pick(7, 8));
            dfs_types(&mut u, "clones into other stores", &into, t.pick(5, 6));
            dfs_types(&mut u, "clones", &cl, t.pick(5, 7));
            dfs_units::<u32>(&mut u, "large capacities", &large_caps(), &[Push(1), NextSet, ExtendWithSet(2), Extend(6), Truncate(0), Clear], t.pick(3, 4));
            dfs_units::<u32>(&mut u, "constructors", &caps(), &[Push(1), NextSet, ExtendWithSet(2), Extend(6), Truncate(0), Truncate(1), Collect, Clear, CloneAndKeep, Swap], t.pick(4, 5));
            for (k, shape) in SHAPES.iter().enumerate() {
                u.push(unit(format!("extend by {shape:?} on every reachable store"), move |c| {
                    bfs(&Start::New, &[Push(1), NextSet, ExtendWithSet(2), Truncate(1), Pop], t.pick(4, 5), t.pick(6, 7), c, |s, path, c| {
                        let mut p = path.to_vec();
                        let mut s = s.clone();
                        if run(&[Extend(k)], &mut s, &mut p, &Start::New, c)? {
                            dfs(&s, &[Push(1), NextSet, ExtendWithSet(0), Truncate(1), Collect, Serde], 2, &mut p, &Start::New, c)?;
                        }
                        Ok(())
                    })
                }));
            }
            for shape in all_shapes(t.pick(5, 6), t.pick(3, 4)) {
                u.push(unit(format!("constructions of {shape:?}"), move |c| constructions::<u32>(&shape, 0, 2, c)));
            }
            for shape in all_shapes(3, 3) {
                u.push(unit(format!("constructions of {shape:?} on a store with an unfinished set, and of other types"), move |c| {
                    for before in [1, 2, 5] {
                        constructions::<u32>(&shape, before, 2, c)?;
                    }
                    for before in [0, 2] {
                        constructions::<()>(&shape, before, 2, c)?;
                        constructions::<u8>(&shape, before, 2, c)?;
                        constructions::<String>(&shape, before, 2, c)?;
                    }
                    Ok(())
                }));
            }
            many(t, |name, sizes, unf| {
                u.push(unit(format!("constructions of {name}"), move |c| constructions::<u32>(&sizes, unf, 1, c)));
            });
            bounds = format!("all sequences of {d} operations with bulk operations ({dt} for items of no size, one byte and 16 bytes, {} for strings and items of 2, 8 and (one less still) 256 bytes); all sequences of {} operations with clones, of {} with clones into existing stores; all 39 ways to create an empty store with all continuations of {} operations (one less for 30 larger capacities up to 200000); all nested shapes with up to {} sets of up to {} items, and selected ones with up to 70000 sets or items, built in 11 ways, on empty stores and on stores with an unfinished set", dt - 1, t.pick(9, 10), t.pick(7, 8), t.pick(4, 5), t.pick(5, 6), t.pick(3, 4));
        }
        "V05" => {
            let ops = [Push(1), Pop, NextSet, ExtendWithSet(2), Truncate(0), Truncate(1), Clear, Serde, Miniserde];
            let d = t.pick(9, 10);
            dfs_units::<u32>(&mut u, "histories with serialization anywhere", &news, &ops, d);
            let dt = t.pick(7, 8);
            dfs_types(&mut u, "histories with serialization anywhere", &ops, dt);
            let more = [Push(1), NextSet, Write(0), TruncateChart(1), Extend(6), Collect, CloneAndKeep, Swap, Serde, Miniserde, Cbor, Bincode];
            dfs_units::<u32>(&mut u, "with every other operation", &[Start::New, Start::Cap(0, 0), Start::Cap(1000, 1000)], &more, t.pick(6, 7));
            let (ms, mi) = t.pick((5, 7), (6, 9));
            for ser in [Serde, Miniserde, Cbor, Bincode] {
                u.push(unit(format!("every reachable store, {ser:?}, all continuations"), move |c| {
                    bfs(&Start::New, &[Push(1), Pop, NextSet, ExtendWithSet(2), Truncate(0), Truncate(1)], ms, mi, c, |s, path, c| {
                        let mut p = path.to_vec();
                        let mut s = s.clone();
                        if run(&[ser], &mut s, &mut p, &Start::New, c)? {
                            dfs(&s, &[Push(1), Pop, NextSet, Truncate(0), Truncate(1), Clear, Serde, Miniserde, Cbor, Bincode], 2, &mut p, &Start::New, c)?;
                        }
                        Ok(())
                    })
                }));
                many(t, |name, sizes, unf| {
                    let mut h = building(&sizes, unf);
                    h.push(ser);
                    let small = sizes.len() <= 1000 && sizes.iter().sum::<usize>() <= 5000 && unf < 5000;
                    prepared::<u32>(&mut u, format!("{name}, {ser:?}"), h, vec![Push(1), Pop, NextSet, ExtendWithSet(2), Truncate(0), Truncate(sizes.len() / 2), Clear, ser], if small { 2 } else { 1 });
                });
            }
            bounds = format!("all sequences of {d} operations including round trips through serde_json and miniserde ({dt} for items of no size, one byte and 16 bytes, {} for strings and items of 2, 8 and (one less still) 256 bytes), of {} operations over all kinds of operations, among them round trips through CBOR and bincode; every store with at most {ms} finished sets and {mi} items reached by any history, after each of the four round trips, with all continuations of 2 operations; selected stores of up to 70000 sets or items", dt - 1, t.pick(6, 7));
        }
        p => panic!("unknown property {p}"),
    }
    mclib::main(a, u, &bounds)
}

/// Builds a store with these sets in every way, on a store whose unfinished set already holds `before` items.
fn constructions<T: Item>(sizes: &[usize], before: usize, depth: usize, c: &mut Ctx) -> Res {
    let depth = if sizes.len() > 1000 || sizes.iter().sum::<usize>() + before > 5000 { 0 } else { depth };
    let mut k = before as u32;
    let first: Vec<u32> = (1..=k).collect();
    let mut sets: Vec<Vec<u32>> = sizes.iter().map(|&n| (0..n).map(|_| { k += 1; k }).collect()).collect();
    let new: Vec<Vec<T>> = sets.iter().map(|s| made(s)).collect();
    let mut m = Model { sets: vec![], cur: vec![], fresh: k };
    if sets.is_empty() {
        m.cur = first.clone();
    } else {
        sets[0].splice(0..0, first.iter().copied());
        m.sets = sets;
    }
    let start = |v: Vec2d<T>| -> Vec2d<T> {
        let mut v = v;
        first.iter().for_each(|&x| v.push_item(T::make(x)));
        v
    };
    let r = no_panic("construction", || -> Res {
        let mut vs: Vec<(&str, Vec2d<T>)> = vec![];
        // First the reference way: if that fails, it is another property that does not hold.
        let mut v = start(Vec2d::new());
        for s in &new {
            s.iter().for_each(|x| v.push_item(x.clone()));
            v.next_set();
        }
        if observe(&mut v, &m, "step by step").is_err() {
            c.count(PRUNED, 1);
            return Ok(());
        }
        if before == 0 {
            vs.push(("collect of vectors", new.clone().into_iter().collect()));
            vs.push(("collect of slices", new.iter().map(|s| s.iter().cloned()).collect()));
            vs.push(("collect of iterators of unknown length", new.iter().filter(|_| true).map(|s| s.iter().cloned().filter(|_| true)).collect()));
        }
        let mut v = start(Vec2d::new());
        v.extend(new.clone());
        vs.push(("extend", v));
        let mut v = start(Vec2d::new());
        let mut i = new.iter();
        v.extend(std::iter::from_fn(|| i.next()).map(|s| {
            let mut j = s.iter();
            std::iter::from_fn(move || j.next().cloned())
        }));
        vs.push(("extend by iterators without any bound on the length", v));
        let mut v = start(Vec2d::new());
        // A lower bound that is too low, and iterators that go on after they ended.
        let half = new.len() / 2;
        v.extend(resumed(new[..half].iter().chain(new[half..].iter().filter(|_| true))).map(|s| {
            let half = s.len() / 2;
            resumed(s[..half].iter().cloned().chain(s[half..].iter().cloned().filter(|_| true)))
        }));
        vs.push(("extend by iterators with too low a lower bound on the length, which go on after they ended", v));
        let mut v = start(Vec2d::default());
        v.extend(new.iter().filter(|_| true).map(|s| s.iter().cloned().filter(|_| true)));
        vs.push(("extend by iterators of unknown length", v));
        let mut v = start(Vec2d::with_capacity(Vec2dCapacity { chart_capacity: k as usize, indices_capacity: new.len() }));
        v.extend(new.iter().map(|s| s.iter().cloned()));
        vs.push(("extend after with_capacity", v));
        for cut in [0, 1, new.len() / 2, new.len()] {
            let cut = cut.min(new.len());
            let mut v = start(Vec2d::new());
            v.extend(new[..cut].iter().cloned());
            v.extend(new[cut..].iter().cloned());
            vs.push(("two extends", v));
        }
        let mut v = start(Vec2d::new());
        for s in &new {
            v.extend_with_set(s.iter().cloned());
        }
        vs.push(("extend_with_set", v));
        let mut v = start(Vec2d::new());
        for (i, s) in new.iter().enumerate() {
            match i % 3 {
                0 => v.extend(std::iter::once(s.clone())),
                1 => v.extend_with_set(s.iter().cloned().filter(|_| true)),
                _ => {
                    s.iter().for_each(|x| v.push_item(x.clone()));
                    v.next_set();
                }
            }
        }
        vs.push(("a mixture", v));
        for (how, v) in &mut vs {
            observe(v, &m, how)?;
            c.states += 1;
            c.traces += 1;
        }
        if depth > 0 {
            for (how, v) in vs {
                let s = St { v, m: m.clone(), other: None };
                // The path that is shown and that decides whose difference it is.
                let mut path = vec![];
                let mut sizes = sizes.to_vec();
                if let Some(f) = sizes.first_mut() {
                    *f += before;
                }
                path.extend(building(&sizes, if sizes.is_empty() { before } else { 0 }));
                dfs(&s, &[Push(1), NextSet, ExtendWithSet(1), Truncate(0), Clear], depth, &mut path, &Start::Collected, c).map_err(|e| format!("built by {how}: {e}"))?;
            }
        }
        Ok(())
    });
    r.and_then(|r| r).map_err(|e| format!("sets of {} items on an unfinished set of {before} items: {e}", brief(&sizes)))
}

/// Begins anew after it ended: only what comes before the first end counts.
struct Resumed<I>(I, I);
fn resumed<I: Clone>(i: I) -> Resumed<I> {
    Resumed(i.clone(), i)
}
impl<I: Iterator + Clone> Iterator for Resumed<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let x = self.0.next();
        if x.is_none() {
            self.0 = self.1.clone();
        }
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}

/// All sequences of 1..=n numbers in 0..=max.
fn all_shapes(n: usize, max: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![];
    let mut layer: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for s in &layer {
            for k in 0..=max {
                let mut t = s.clone();
                t.push(k);
                next.push(t);
            }
        }
        out.extend(next.iter().cloned());
        layer = next;
    }
    out
}

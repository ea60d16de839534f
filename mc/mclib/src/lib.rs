//! Common driver of the model-checking binaries: runs the exploration units of one property on all cores, catches
//! panics of the code under test, watches for hangs, and writes a machine-readable result file for /verif/bin/check.
//!
//! Exit codes: 0 = explored everything, no violation; 1 = violation(s) in the result file; 3 = a unit hung;
//! anything else = the engine failed.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Outcome of one unit: `Err` is a violation with everything needed to understand it.
pub type Res = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    /// Chooses between the bound of the quick and the thorough tier.
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

pub struct Unit {
    pub name: String,
    pub run: Box<dyn Fn(&mut Ctx) -> Res + Send + Sync>,
}

pub fn unit(name: impl Into<String>, run: impl Fn(&mut Ctx) -> Res + Send + Sync + 'static) -> Unit {
    Unit { name: name.into(), run: Box::new(run) }
}

/// What a worker has explored so far.
#[derive(Default)]
pub struct Ctx {
    /// Distinct states (or distinct situations) on which the property was evaluated.
    pub states: u64,
    /// Steps of the real implementation taken while exploring.
    pub transitions: u64,
    /// Complete executions whose observations were compared with the reference.
    pub traces: u64,
    pub counters: BTreeMap<String, u64>,
    outcomes: HashSet<u64>,
    pub known: Vec<String>,
    samples: Vec<String>,
    sample_calls: u64,
}

impl Ctx {
    /// Offers one explored case as a sample; the 1st, 10th, 100th, ... of each worker is kept.
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        self.sample_calls += 1;
        let mut n = self.sample_calls;
        while n % 10 == 0 {
            n /= 10;
        }
        if n == 1 {
            let mut s = f();
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str(" ...");
            }
            self.samples.push(s);
        }
    }
    pub fn count(&mut self, name: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(name) {
            *c += n;
        } else {
            self.counters.insert(name.to_string(), n);
        }
    }
    /// Remembers an observed outcome, so that the number of distinct ones can be reported.
    pub fn outcome<T: Hash>(&mut self, t: &T) {
        if self.outcomes.len() < 2_000_000 {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            t.hash(&mut h);
            self.outcomes.insert(h.finish());
        }
    }
    pub fn distinct(&self) -> usize {
        self.outcomes.len()
    }
    fn merge(&mut self, o: Ctx) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        self.outcomes.extend(o.outcomes);
        self.known.extend(o.known);
        self.samples.extend(o.samples);
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static CAPTURE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Runs code under test; a panic becomes `Err((location, message))`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    let old = CAPTURE.replace(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    CAPTURE.set(old);
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())
}

/// Runs code under test; a panic becomes a violation text.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    guarded(f).map_err(|(loc, msg)| format!("{what}: the implementation panicked at {loc}: {msg}"))
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Args {
    pub property: String,
    pub tier: Tier,
    out: String,
    slots: Option<String>,
    only: Option<usize>,
    unit_secs: u64,
    threads: usize,
}

pub fn args() -> Args {
    let mut a = Args {
        property: String::new(),
        tier: Tier::Quick,
        out: "/dev/stderr".into(),
        slots: None,
        only: None,
        unit_secs: 60,
        threads: std::thread::available_parallelism().map_or(8, |n| n.get()).min(16),
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut val = || it.next().expect("missing argument");
        match x.as_str() {
            "--tier" => a.tier = if val() == "thorough" { Tier::Thorough } else { Tier::Quick },
            "--out" => a.out = val(),
            "--slots" => a.slots = Some(val()),
            "--unit" => a.only = Some(val().parse().unwrap()),
            "--unit-secs" => a.unit_secs = val().parse().unwrap(),
            "--threads" => a.threads = val().parse().unwrap(),
            _ => a.property = x,
        }
    }
    a
}

/// Explores all units and ends the process.
pub fn main(a: Args, units: Vec<Unit>, bounds: &str) -> ! {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        if !CAPTURE.get() {
            eprintln!("panic outside guarded code at {loc}: {msg}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
    let t0 = Instant::now();
    let n = units.len();
    let next = AtomicUsize::new(a.only.unwrap_or(0));
    let end = a.only.map_or(n, |u| (u + 1).min(n));
    let threads = a.threads.min(end.saturating_sub(next.load(SeqCst))).max(1);
    let stop = AtomicBool::new(false);
    let done = AtomicUsize::new(0);
    let total = Mutex::new(Ctx::default());
    let violations: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
    let engine_failed = AtomicBool::new(false);
    // (unit + 1, start in ms) of every worker; unit + 1 == 0 means idle.
    let slots: Vec<(AtomicUsize, AtomicU64)> = (0..threads).map(|_| (AtomicUsize::new(0), AtomicU64::new(0))).collect();
    let slot_file = a.slots.as_ref().map(|p| std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(p).expect("slot file"));
    let ended = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for w in 0..threads {
            let (next, stop, total, violations, units, slots, slot_file, ended, engine_failed, done) =
                (&next, &stop, &total, &violations, &units, &slots, &slot_file, &ended, &engine_failed, &done);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || {
                    let mut ctx = Ctx::default();
                    loop {
                        if stop.load(SeqCst) {
                            break;
                        }
                        let u = next.fetch_add(1, SeqCst);
                        if u >= end {
                            break;
                        }
                        slots[w].1.store(t0.elapsed().as_millis() as u64, SeqCst);
                        slots[w].0.store(u + 1, SeqCst);
                        if let Some(f) = slot_file {
                            use std::os::unix::fs::FileExt;
                            let _ = f.write_at(format!("{:>15}\n", u + 1).as_bytes(), w as u64 * 16);
                        }
                        match catch_unwind(AssertUnwindSafe(|| (units[u].run)(&mut ctx))) {
                            Ok(Ok(())) => {}
                            Ok(Err(text)) => {
                                violations.lock().unwrap().push((u, text));
                                stop.store(true, SeqCst);
                            }
                            Err(_) => {
                                eprintln!("engine panic in unit {u} {}", units[u].name);
                                engine_failed.store(true, SeqCst);
                                stop.store(true, SeqCst);
                            }
                        }
                        done.fetch_add(1, SeqCst);
                        slots[w].0.store(0, SeqCst);
                    }
                    if let Some(f) = slot_file {
                        use std::os::unix::fs::FileExt;
                        let _ = f.write_at(format!("{:>15}\n", 0).as_bytes(), w as u64 * 16);
                    }
                    total.lock().unwrap().merge(ctx);
                    ended.fetch_add(1, SeqCst);
                })
                .unwrap();
        }
        // Watchdog.
        while ended.load(SeqCst) < threads {
            std::thread::sleep(Duration::from_millis(10));
            let now = t0.elapsed().as_millis() as u64;
            for (u, start) in &slots {
                let (u, start) = (u.load(SeqCst), start.load(SeqCst));
                if u > 0 && now.saturating_sub(start) > a.unit_secs * 1000 {
                    let found = violations.lock().unwrap();
                    if !found.is_empty() {
                        // What is found already is enough.
                        let list: Vec<String> = found.iter().map(|(u, t)| format!("{{\"unit\": {u}, \"name\": {}, \"text\": {}}}", json_str(&units[*u].name), json_str(t))).collect();
                        let _ = std::fs::write(&a.out, format!("{{\"property\": {}, \"bounds\": {}, \"violations\": [{}]}}\n", json_str(&a.property), json_str(bounds), list.join(", ")));
                        std::process::exit(1);
                    }
                    let _ = std::fs::write(&a.out, format!("{{\"hang\": {}, \"name\": {}}}\n", u - 1, json_str(&units[u - 1].name)));
                    std::process::exit(3);
                }
            }
        }
    });
    let mut ctx = total.into_inner().unwrap();
    let mut violations = violations.into_inner().unwrap();
    violations.sort();
    if ctx.states == 0 {
        // Engines that do not count states themselves: distinct observed situations.
        ctx.states = ctx.outcomes.len() as u64;
    }
    ctx.known.sort();
    ctx.known.dedup();
    let j = |items: Vec<String>| items.join(", ");
    let out = format!(
        "{{\"property\": {}, \"units\": {}, \"units_done\": {}, \"states\": {}, \"transitions\": {}, \"traces\": {}, \"outcomes\": {}, \"wall_ms\": {}, \"bounds\": {}, \"counters\": {{{}}}, \"known\": [{}], \"samples\": [{}], \"violations\": [{}]}}\n",
        json_str(&a.property), n, done.load(SeqCst), ctx.states, ctx.transitions, ctx.traces, ctx.outcomes.len(), t0.elapsed().as_millis(), json_str(bounds),
        j(ctx.counters.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect()),
        j(ctx.known.iter().map(|k| json_str(k)).collect()),
        j(pick_samples(ctx.samples).iter().map(|k| json_str(k)).collect()),
        j(violations.iter().map(|(u, t)| format!("{{\"unit\": {u}, \"name\": {}, \"text\": {}}}", json_str(&units[*u].name), json_str(t))).collect()),
    );
    std::fs::write(&a.out, out).expect("result file");
    if engine_failed.load(SeqCst) && violations.is_empty() {
        std::process::exit(2);
    }
    std::process::exit(if violations.is_empty() { 0 } else { 1 });
}

/// Small error-building helper: `check!(cond, "text {}", x)` returns a violation.
#[macro_export]
macro_rules! check {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

fn pick_samples(mut all: Vec<String>) -> Vec<String> {
    all.sort();
    all.dedup();
    let n = all.len();
    let step = n.div_ceil(12).max(1);
    all.into_iter().step_by(step).collect()
}

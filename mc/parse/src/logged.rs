//! D01: logging changes nothing. Only in mc/log, where the crates are built with their `log` features.
use crate::drive::*;
use crate::plans::*;
use crate::{forest, keep, recog, utils};
use mclib::{Tier, Unit};
use std::fmt::Write;

/// Formats every record, as any logger would, and throws it away.
struct Logger;

struct Nowhere;

impl Write for Nowhere {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        std::hint::black_box(s);
        Ok(())
    }
}

impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let _ = write!(Nowhere, "{}", r.args());
    }
    fn flush(&self) {}
}

pub fn units(t: Tier) -> (Vec<Unit>, String) {
    log::set_logger(&Logger).expect("no logger is set");
    log::set_max_level(log::LevelFilter::Trace);
    let f = || families(t.pick(1, 3));
    let p = |len: [usize; 2], list: [usize; 2]| plan(f(), t.pick(2, 2), len[t.pick(0, 1)], list[t.pick(0, 1)]);
    let mut units = vec![];
    let mut bounds = String::new();
    let mut add = |name: &str, (u, b): (Vec<Unit>, String)| {
        units.extend(u);
        bounds = format!("{bounds}{name}: {b}. ");
    };
    add("verdicts", go(p([4, 5], [5, 6]), recog::r01));
    add("hints", go(p([3, 4], [4, 5]), recog::r02));
    add("failures", go(p([4, 5], [5, 6]), recog::r03));
    add("resets", go(p([2, 3], [3, 4]), recog::r04));
    add("token sets", go(p([3, 4], [3, 3]), recog::r05));
    add("forgetting", go(p([4, 5], [5, 6]).periodic(t.pick(20, 40)), recog::r06));
    add("progress", go(p([4, 5], [5, 6]), recog::r07));
    add("groups", go(p([4, 5], [5, 6]), recog::r08));
    add("skipping", go(p([3, 4], [3, 4]), recog::r10));
    add("evaluation", go(p([4, 5], [5, 6]), forest::f02));
    add("histories", go(p([2, 3], [3, 4]), keep::f08));
    add("parse()", go(p([4, 5], [5, 6]), utils::u01));
    add("words", go(p([3, 3], [3, 3]), utils::u02));
    add("texts", go(p([3, 4], [3, 4]), utils::u03));
    (units, format!("with every log record formatted: {bounds}"))
}

//! Explores compiled grammars, the recognizer, the forests and the helper functions exhaustively within bounds.
mod alts;
mod c;
mod crowd;
mod diff;
mod drive;
mod examples;
mod forest;
mod keep;
#[cfg(feature = "logging")]
mod logged;
mod own;
mod gram;
mod plans;
mod real;
mod recog;
mod refr;
mod share;
mod shift;
mod tables;
mod utils;
mod wide;

use drive::Orders;
use gram::Family;
use plans::*;

fn main() {
    if cfg!(miri) {
        // Everything runs inside the interpreter, which places local values at varying addresses, as real stacks do.
        let mut c = mclib::Ctx::default();
        match forest::f06_miri(&mut c) {
            Ok(()) => println!("MIRI-OK states={} transitions={} traces={}", c.states, c.transitions, c.traces),
            Err(e) => println!("MIRI-VIOLATION {e}"),
        }
        return;
    }
    let a = mclib::args();
    let t = a.tier;
    let all_reduced = |mut v: Vec<Family>| {
        v.iter_mut().for_each(|f| f.reduced = false);
        v
    };
    let fams = |q: u32, th: u32| families(t.pick(q, th));
    let (units, bounds) = match a.property.as_str() {
        "R01" => go(plan(fams(4, 5), t.pick(2, 4), t.pick(5, 7), t.pick(7, 9)).periodic(t.pick(60, 60)), recog::r01),
        "R02" => go(plan(fams(3, 4), t.pick(2, 3), t.pick(3, 5), t.pick(5, 7)), recog::r02),
        "R03" => go(plan(fams(4, 5), t.pick(2, 4), t.pick(5, 7), t.pick(7, 9)).periodic(t.pick(60, 60)), recog::r03),
        "R04" => go(plan(fams(2, 4), t.pick(1, 2), t.pick(3, 4), t.pick(4, 5)), recog::r04),
        "R05" => go(plan(fams(3, 4), t.pick(2, 2), t.pick(4, 5), t.pick(3, 4)), recog::r05),
        "R06" => {
            let n = t.pick(20_000, 2_000_000);
            let (mut u, b) = go(plan(fams(4, 5), t.pick(2, 3), t.pick(5, 7), t.pick(7, 8)).periodic(t.pick(60, 60)), recog::r06);
            u.extend(recog::r06_long_units(n));
            (u, format!("{b}; five grammars with rules in progress that begin near the start, one input of {n} tokens each"))
        }
        "R07" => go(plan(fams(4, 5), t.pick(2, 4), t.pick(5, 7), t.pick(7, 8)).periodic(t.pick(60, 60)), recog::r07),
        "R08" => go(plan(fams(4, 5), t.pick(2, 4), t.pick(5, 7), t.pick(7, 8)).periodic(t.pick(60, 60)), recog::r08),
        "R09" => go(plan(fams(2, 3), t.pick(1, 2), t.pick(4, 5), t.pick(5, 6)), forest::r09),
        "R10" => go(plan(fams(3, 4), t.pick(1, 2), t.pick(3, 4), t.pick(4, 4)), recog::r10),
        "R11" => {
            let mut p = plan(fams(4, 5), t.pick(2, 3), t.pick(5, 6), t.pick(6, 7)).periodic(t.pick(60, 60));
            p.events = true;
            go(p, recog::r11)
        }
        // Tens: the number of switches between recognizers, hundreds: inputs.
        "R12" => {
            let mut p = plan(fams(1, 2), 1, t.pick(322, 423), t.pick(422, 423));
            p.chunk = 100;
            go(p, share::r12)
        }
        "F01" => go(plan(fams(4, 5), t.pick(1, 3), t.pick(5, 6), t.pick(6, 7)).periodic(t.pick(30, 60)), forest::f01),
        "F02" => go(plan(fams(2, 3), t.pick(2, 3), t.pick(4, 6), t.pick(6, 7)).periodic(t.pick(8, 16)), forest::f02),
        "F03" => go(plan(fams(2, 3), t.pick(3, 3), t.pick(5, 5), t.pick(6, 6)).periodic(t.pick(8, 12)), forest::f03),
        "F04" => {
            let mut p = plan(fams(4, 5), t.pick(1, 3), t.pick(4, 5), t.pick(5, 6)).periodic(t.pick(12, 20));
            p.keep = usable_null;
            go(p, forest::f04)
        }
        "F05" => go(plan(fams(3, 3), t.pick(1, 2), t.pick(5, 6), t.pick(6, 7)).periodic(t.pick(12, 16)), forest::f05),
        "F06" => (forest::f06_units(t), forest::f06_bounds(t)),
        "F07" => go(plan(fams(2, 3), t.pick(1, 2), t.pick(4, 5), t.pick(4, 5)), keep::f07),
        "F08" => go(plan(fams(2, 3), t.pick(1, 2), t.pick(3, 4), t.pick(4, 5)), keep::f08),
        "F09" => go(plan(fams(3, 4), t.pick(2, 2), t.pick(4, 5), t.pick(6, 7)).periodic(t.pick(12, 20)), own::f09),
        "F10" => go(plan(fams(2, 3), t.pick(1, 2), t.pick(3, 3), t.pick(2, 3)), alts::f10),
        "G01" => go(plan(all_reduced(fams(3, 4)), t.pick(4, 6), 0, 0), tables::g01),
        "G02" => go(plan(fams(4, 5), t.pick(3, 6), 0, 0), tables::g02),
        "G03" => go(plan(fams(4, 5), t.pick(3, 6), 0, 0), tables::g03),
        "G06" => go(plan(fams(4, 5), t.pick(3, 6), 0, 0), tables::g06),
        "G05" => {
            let mut p = plan(fams(2, 3), 0, t.pick(4, 4), t.pick(4, 4));
            p.orders = Orders::All;
            p.list.retain(|g| g.syms() <= t.pick(5, 6));
            diff::extend(go(p, diff::g05), t)
        }
        "U01" => go(plan(fams(4, 5), t.pick(1, 2), t.pick(4, 5), t.pick(5, 6)).periodic(t.pick(10, 16)), utils::u01),
        "U02" => go(plan(fams(2, 3), t.pick(1, 2), t.pick(3, 3), t.pick(3, 4)), utils::u02),
        "U03" => go(plan(fams(3, 3), t.pick(1, 2), t.pick(3, 4), 4), utils::u03),
        "U04" => go(plan(all_reduced(fams(2, 2)), t.pick(1, 2), t.pick(2, 3), t.pick(3, 3)), utils::u04),
        "U05" => go(plan(fams(3, 4), t.pick(1, 2), t.pick(4, 5), t.pick(5, 6)), utils::u05),
        "E01" => (examples::e01_units(t), examples::e01_bounds(t)),
        "E02" => (examples::e02_units(t), examples::e02_bounds(t)),
        #[cfg(feature = "logging")]
        "D01" => logged::units(t),
        p => panic!("unknown property {p}"),
    };
    let (units, bounds) = match a.property.as_str() {
        p @ ("R01" | "R02" | "R03" | "R07" | "R11" | "F01" | "G01" | "G02" | "G03" | "G06") => c::extend(wide::extend((units, bounds), p.to_string().leak(), t), p.to_string().leak(), t),
        "F02" => c::extend((units, bounds), "F02", t),
        _ => (units, bounds),
    };
    let (units, bounds) = match a.property.as_str() {
        p @ ("R01" | "R06" | "R07" | "R08" | "R11") => shift::extend((units, bounds), p.to_string().leak(), t),
        _ => (units, bounds),
    };
    let (units, bounds) = match a.property.as_str() {
        p @ ("R01" | "R02" | "R03" | "R04" | "R05" | "R06" | "R07" | "R08" | "R10" | "R11" | "F01" | "F02" | "F03" | "F04" | "F05") => crowd::extend((units, bounds), p.to_string().leak(), t),
        _ => (units, bounds),
    };
    let (units, bounds) = match a.property.as_str() {
        p @ ("U01" | "U02" | "U03") => utils::extend((units, bounds), p.to_string().leak(), t),
        _ => (units, bounds),
    };
    mclib::main(a, units, &bounds)
}

//! C01 to C05: the verdicts
use crate::intr::*;
use big_o_test::low_level_analysis::space_analysis::*;
use big_o_test::low_level_analysis::time_analysis::*;
use big_o_test::low_level_analysis::types::*;
use big_o_test::BigOAlgorithmComplexity as C;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Duration;

pub const TOL: f64 = 0.10;
/// far more than any rounding, far less than any tolerance
pub const EPS: f64 = 1e-9;

/// one measurement of the resource under test
#[derive(Clone, Copy)]
pub struct M { before: usize, after: usize, min: usize, max: usize, time: Duration, u: f64 }

/// any usage of the resource; time or memory
fn usage(space: bool) -> M {
    if space {
        let before = range(0, 1 << 62) as usize;
        let used = range(0, 1 << 62) as usize;
        // the rest is beside the point: memory released, or kept
        let min = range(0, 1 << 62) as usize;
        let after = range(0, 1 << 63) as usize;
        let max = before + used;
        assume(min <= before && min <= after && after <= max);
        M { before, after, min, max, time: Duration::ZERO, u: used as f64 }
    } else {
        let secs = range(0, 1 << 40);
        let nanos = range(0, 999_999_999) as u32;
        let time = Duration::new(secs, nanos);
        M { before: 0, after: 0, min: 0, max: 0, time, u: secs as f64 + nanos as f64 / 1e9 }
    }
}

fn space(m1: M, m2: M) -> BigOSpaceMeasurements {
    let p = |m: M| BigOSpacePassMeasurements { used_memory_before: m.before, used_memory_after: m.after, max_used_memory: m.max, min_used_memory: m.min };
    BigOSpaceMeasurements { pass_1_measurements: p(m1), pass_2_measurements: p(m2) }
}
fn time(m1: M, m2: M) -> BigOTimeMeasurements {
    BigOTimeMeasurements { pass_1_measurements: m1.time, pass_2_measurements: m2.time }
}

static REPETITIONS: AtomicU64 = AtomicU64::new(0);
/// how many times an operation was repeated, which is no resource
fn repetitions() -> u32 {
    if REPETITIONS.load(SeqCst) == 0 { REPETITIONS.store(1 << 32 | u32_() as u64, SeqCst); }
    REPETITIONS.load(SeqCst) as u32
}

/// the analysis under test; which: 0 regular time, 1 regular space, 2 constant set time, 3 constant set space, 4 set resizing time, 5 set resizing space
fn verdict(which: u64, m1: M, m2: M, n1: u32, n2: u32) -> C {
    match which {
        0 => analyse_time_complexity(&AlgorithmPassesInfo { pass1_n: n1, pass2_n: n2 }, &time(m1, m2)),
        1 => analyse_space_complexity(&AlgorithmPassesInfo { pass1_n: n1, pass2_n: n2 }, &space(m1, m2)),
        2 => analyse_time_complexity_for_constant_set_iterator_algorithm(&ConstantSetIteratorAlgorithmPassesInfo { pass_1_set_size: n1, pass_2_set_size: n2, repetitions: repetitions() }, &time(m1, m2)),
        3 => analyse_space_complexity_for_constant_set_iterator_algorithm(&ConstantSetIteratorAlgorithmPassesInfo { pass_1_set_size: n1, pass_2_set_size: n2, repetitions: repetitions() }, &space(m1, m2)),
        4 => analyse_time_complexity_for_set_resizing_iterator_algorithm(&SetResizingIteratorAlgorithmPassesInfo { delta_set_size: n1 }, &time(m1, m2)),
        _ => analyse_space_complexity_for_set_resizing_iterator_algorithm(&SetResizingIteratorAlgorithmPassesInfo { delta_set_size: n1 }, &space(m1, m2)),
    }
}
fn is_space(which: u64) -> bool { which % 2 == 1 }

/// position in the published order
pub fn rank(c: C) -> u64 {
    match c {
        C::BetterThanO1 => 0,
        C::O1 => 1,
        C::BetweenO1AndOLogN => 2,
        C::OLogN => 3,
        C::BetweenOLogNAndON => 4,
        C::ON => 5,
        C::BetweenONAndONLogN => 6,
        C::ONLogN => 7,
        C::BetweenONLogNAndON2 => 8,
        C::ON2 => 9,
        C::BetweenON2AndON3 => 10,
        C::ON3 => 11,
        C::BetweenON3AndON4 => 12,
        C::ON4 => 13,
        C::BetweenON4AndOkN => 14,
        C::OkN => 15,
        C::WorseThanExponential => 16,
    }
}

fn lg(n: u32) -> f64 { if n < 2 { 1.0 } else { (n as f64).log2() } }

/// what the class of odd rank `r` predicts for pass 2
pub fn prediction(r: u64, u1: f64, n1: u32, n2: u32) -> f64 {
    let q = n2 as f64 / n1 as f64;
    match r {
        1 => u1,
        3 => u1 * (lg(n2) / lg(n1)),
        5 => u1 * q,
        7 => u1 * (q * (lg(n2) / lg(n1))),
        9 => u1 * (q * q),
        11 => u1 * (q * q * q),
        13 => u1 * (q * q * q * q),
        _ => u1.powf(q),
    }
}

/// leaves out usages that are within rounding of where a class starts: u2 = (1 - tolerance) x prediction, on which the rounding
/// of two mathematically equal tests may disagree
pub fn off_borders(top: u64, u1: f64, u2: f64, n1: u32, n2: u32) {
    let mut r = 1;
    while r <= top {
        let p = prediction(r, u1, n1, n2) * (1.0 - TOL);
        let p2 = prediction(r, u1, n1, n2) * (1.0 + TOL);
        assume(u2 < p * (1.0 - EPS) || u2 > p * (1.0 + EPS));
        assume(u2 < p2 * (1.0 - EPS) || u2 > p2 * (1.0 + EPS));
        r += 2;
    }
}

/// the same for set resizing algorithms
fn off_borders_resizing(u1: f64, u2: f64, n: u32) {
    for p in [u1, u1 * ((n as f64 * 3.0).log2() / lg(n)), u1 * 3.0] {
        for b in [p * (1.0 - TOL), p / (1.0 + TOL), p, p * (1.0 + TOL)] {
            assume(u2 < b * (1.0 - EPS) || u2 > b * (1.0 + EPS));
        }
    }
}

fn sizes() -> (u32, u32) {
    let n1 = range(1, u32::MAX as u64 - 1) as u32;
    let n2 = range(2, u32::MAX as u64) as u32;
    assume(n1 < n2);
    (n1, n2)
}

/// C01: params: which analysis
#[no_mangle]
pub extern "C-unwind" fn h_c01() {
    let which = param(0);
    let (n1, n2) = sizes();
    let m1 = usage(is_space(which));
    let m2 = usage(is_space(which));
    assume(m1.u > 0.0);
    assume(m2.u > 0.0);
    let v = rank(verdict(which, m1, m2, n1, n2));
    log(v);
    reach(v);
    if v < 16 {
        let covered = if v % 2 == 1 {
            m2.u <= prediction(v, m1.u, n1, n2) * ((1.0 + TOL) * (1.0 + EPS))
        } else {
            m2.u <= prediction(v + 1, m1.u, n1, n2) * ((1.0 - TOL) * (1.0 + EPS))
        };
        if !covered {
            off_borders(15, m1.u, m2.u, n1, n2);
        }
        check(covered, 100 + v);
    }
}

/// C02: params: which analysis, class
#[no_mangle]
pub extern "C-unwind" fn h_c02() {
    let which = param(0);
    let r = param(1);
    let (n1, n2) = sizes();
    let m1 = usage(is_space(which));
    let m2 = usage(is_space(which));
    assume(m1.u > 0.0);
    assume(m2.u > 0.0);
    // the measurement is explained by the class
    let p = prediction(r | 1, m1.u, n1, n2);
    assume(if r % 2 == 1 { m2.u <= p * ((1.0 + TOL) * (1.0 - EPS)) } else { m2.u <= p * ((1.0 - TOL) * (1.0 - EPS)) });
    let v = rank(verdict(which, m1, m2, n1, n2));
    log(v);
    reach(v);
    if v > r {
        off_borders(15, m1.u, m2.u, n1, n2);
    }
    check(v <= r, 200 + r);
}

/// C03: params: which analysis (4 or 5), side
#[no_mangle]
pub extern "C-unwind" fn h_c03() {
    let which = param(0);
    let n = range(1, u32::MAX as u64) as u32;
    let m1 = usage(is_space(which));
    let m2 = usage(is_space(which));
    assume(m1.u > 0.0);
    assume(m2.u > 0.0);
    let p = |r: u64| match r {
        1 => m1.u,
        3 => m1.u * ((n as f64 * 3.0).log2() / lg(n)),
        _ => m1.u * 3.0,
    };
    if param(1) == 0 {
        let v = rank(verdict(which, m1, m2, n, n));
        log(v);
        reach(v);
        if v == 0 {
            check(m2.u <= m1.u, 300);
        } else if v <= 5 {
            check(m2.u <= p(v | 1) * ((1.0 + TOL) * (1.0 + EPS)), 300 + v);
        }
    } else {
        let r = param(2);
        assume(m2.u <= p(r) * ((1.0 + TOL) * (1.0 - EPS)));
        let v = rank(verdict(which, m1, m2, n, n));
        log(v);
        reach(v);
        check(v <= r, 320 + r);
    }
}

/// C04: params: which analysis, part
#[no_mangle]
pub extern "C-unwind" fn h_c04() {
    let which = param(0);
    let n1 = u32_();
    let n2 = u32_();
    match param(1) {
        // the same usage, none included
        0 => {
            let m1 = usage(is_space(which));
            let mut m2 = m1;
            if is_space(which) {
                m2.before = range(0, 1 << 62) as usize;
                m2.max = m2.before + (m1.max - m1.before);
                m2.min = range(0, 1 << 62) as usize;
                m2.after = range(0, 1 << 63) as usize;
                assume(m2.min <= m2.before && m2.min <= m2.after && m2.after <= m2.max);
            }
            let v = rank(verdict(which, m1, m2, n1, n2));
            log(v);
            check(v == 1, 400 + which);
            reach(0);
        }
        // something out of nothing
        1 => {
            assume(n1 >= 1);
            assume(n1 < n2);
            let mut m1 = usage(is_space(which));
            m1.max = m1.before;
            assume(m1.after <= m1.max);
            m1.time = Duration::ZERO;
            let m2 = usage(is_space(which));
            assume(m2.u > 0.0);
            let v = rank(verdict(which, m1, m2, n1, n2));
            log(v);
            check(v >= if which < 4 { 16 } else { 6 }, 410 + which);
            reach(1);
        }
        // the order of the passes over a constant set
        _ => {
            assume(n1 >= 1);
            assume(n1 < n2);
            let m1 = usage(is_space(which));
            let m2 = usage(is_space(which));
            let v = rank(verdict(which, m1, m2, n1, n2));
            let x = rank(verdict(which, m2, m1, n2, n1));
            log(v);
            log(x);
            if v != x && m1.u > 0.0 && m2.u > 0.0 {
                off_borders(15, m1.u, m2.u, n1, n2);
            }
            check(v == x, 420 + which);
            reach(2);
        }
    }
}

/// C05: params: which analysis, whose usage increases (1 or 2)
#[no_mangle]
pub extern "C-unwind" fn h_c05() {
    let which = param(0);
    // set resizing algorithms have one size
    let (n1, n2) = if which < 4 { sizes() } else { let n = range(1, u32::MAX as u64) as u32; (n, n) };
    let m1 = usage(is_space(which));
    let m2 = usage(is_space(which));
    let more = usage(is_space(which));
    assume(m1.u > 0.0);
    assume(m2.u > 0.0);
    let v = rank(verdict(which, m1, m2, n1, n2));
    if param(1) == 2 {
        assume(m2.u * (1.0 + EPS) < more.u);
        let w = rank(verdict(which, m1, more, n1, n2));
        log(v);
        log(w);
        if w < v && which < 4 {
            off_borders(15, m1.u, m2.u, n1, n2);
            off_borders(15, m1.u, more.u, n1, n2);
        } else if w < v {
            off_borders_resizing(m1.u, m2.u, n1);
            off_borders_resizing(m1.u, more.u, n1);
        }
        check(w >= v, 500 + v);
    } else {
        assume(m1.u * (1.0 + EPS) < more.u);
        let w = rank(verdict(which, more, m2, n1, n2));
        log(v);
        log(w);
        if w > v && which < 4 {
            off_borders(15, m1.u, m2.u, n1, n2);
            off_borders(15, more.u, m2.u, n1, n2);
        } else if w > v {
            off_borders_resizing(m1.u, m2.u, n1);
            off_borders_resizing(more.u, m2.u, n1);
        }
        check(w <= v, 520 + v);
    }
    reach(v);
}

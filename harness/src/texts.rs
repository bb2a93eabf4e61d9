//! C22: the texts of the classes
use crate::intr::*;
use crate::runners::class;
use big_o_test::low_level_analysis::types::*;
use big_o_test::BigOAlgorithmComplexity as C;
use std::time::Duration;

const NAMES: [&str; 8] = ["O(1)", "O(log(n))", "O(n)", "O(n.log(n))", "O(n²)", "O(n³)", "O(n⁴)", "O(kⁿ)"];

pub fn has(t: &str, w: &str) -> bool {
    let (t, w) = (t.as_bytes(), w.as_bytes());
    let mut i = 0;
    while i + w.len() <= t.len() {
        let mut k = 0;
        while k < w.len() && t[i + k] == w[k] { k += 1; }
        if k == w.len() { return true; }
        i += 1;
    }
    false
}

/// does the text name the class of rank r?
fn names(t: &str, r: u64, tag: u64) {
    let mut k = 0;
    while k < 8 {
        let own = 2 * k as u64 + 1;
        let want = own == r || (own == r + 1) || (own + 1 == r);
        check(has(t, NAMES[k]) == want, tag);
        k += 1;
    }
    let odd = r % 2 == 1;
    check(has(t, "etter") == (!odd && r != 16), tag + 1);
    check(has(t, "orse") == (!odd && r != 0), tag + 2);
    if !odd && r > 0 && r < 16 {
        // worse than the smaller, better than the larger one
        let w = r as usize / 2 - 1;
        let mut i = 0;
        while i + 4 < t.len() && t.as_bytes()[i] != b'b' { i += 1; }
        let (a, b) = t.as_bytes().split_at(i);
        unsafe {
            let (a, b) = (core::str::from_utf8_unchecked(a), core::str::from_utf8_unchecked(b));
            check(has(a, "orse") && has(a, NAMES[w]), tag + 3);
            check(has(b, "etter") && has(b, NAMES[w + 1]), tag + 4);
        }
    }
}

fn text(kind: u64, c: &C) -> &'static str {
    match kind {
        0 => c.as_pretty_str(),
        1 => c.as_time_pretty_str(),
        _ => c.as_space_pretty_str(),
    }
}

/// C22: params: 0 plain, 1 time, 2 space text
#[no_mangle]
pub extern "C-unwind" fn h_c22() {
    let kind = param(0);
    let r = range(0, 16);
    let c = class(r);
    let t = text(kind, &c);
    names(t, r, 2200);
    let q = range(0, 16);
    assume(q != r);
    let u = text(kind, &class(q));
    check(t.len() != u.len() || t.as_bytes() != u.as_bytes(), 2210);
    check(class(q) != c, 2211);
    log(r * 17 + q);
    reach(0);
}

fn space(before: usize, used: usize) -> BigOSpacePassMeasurements {
    BigOSpacePassMeasurements { used_memory_before: before, used_memory_after: before + used, max_used_memory: before + 2 * used, min_used_memory: before }
}
fn line<'a>(t: &'a str, w: &str, tag: u64) -> &'a str {
    let mut found = "";
    let mut n = 0;
    for l in t.split('\n') {
        if has(l, "Analysis") && has(l, w) { found = l; n += 1; }
    }
    check(n == 1, tag);
    found
}

/// C22: params: kind of report, classes: 0 any time, 1 any space, 2 both
#[no_mangle]
pub extern "C-unwind" fn h_c22r() {
    let kind = param(0);
    let t = if param(1) != 1 { range(0, 16) } else { 9 };
    let s = if param(1) != 0 { range(0, 16) } else { 6 };
    let (time_complexity, space_complexity) = (class(t), class(s));
    let time_measurements = BigOTimeMeasurements { pass_1_measurements: Duration::from_micros(1500), pass_2_measurements: Duration::from_millis(4) };
    let space_measurements = BigOSpaceMeasurements { pass_1_measurements: space(1000, 3 << 20), pass_2_measurements: space(2000, 300) };
    let text = match kind {
        0 => BigOAlgorithmAnalysis { time_complexity, space_complexity, algorithm_measurements: SetResizingIteratorAlgorithmMeasurements {
            measurement_name: "x", passes_info: SetResizingIteratorAlgorithmPassesInfo { delta_set_size: 100 }, time_measurements, space_measurements } }.to_string(),
        1 => BigOAlgorithmAnalysis { time_complexity, space_complexity, algorithm_measurements: ConstantSetIteratorAlgorithmMeasurements {
            measurement_name: "x", passes_info: ConstantSetIteratorAlgorithmPassesInfo { pass_1_set_size: 100, pass_2_set_size: 200, repetitions: 50 }, time_measurements, space_measurements,
            pass1_measurements: pass(), pass2_measurements: pass() } }.to_string(),
        _ => BigOAlgorithmAnalysis { time_complexity, space_complexity, algorithm_measurements: AlgorithmMeasurements {
            measurement_name: "x", passes_info: AlgorithmPassesInfo { pass1_n: 100, pass2_n: 200 }, time_measurements, space_measurements,
            pass1_measurements: pass(), pass2_measurements: pass() } }.to_string(),
    };
    names(line(&text, "Time", 2220), t, 2222);
    names(line(&text, "Space", 2221), s, 2232);
    log(t * 17 + s);
    reach(0);
}

fn pass() -> BigOPassMeasurements {
    BigOPassMeasurements { time_measurements: Duration::from_secs(1), space_measurements: space(10, 20), custom_measurements: Vec::new() }
}

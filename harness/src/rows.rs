//! C25: the figures of the passes in the analyses and in their reports
use crate::intr::*;
use crate::passes::Shared;
use crate::reports::{number, same, shows_within, unit};
use crate::runners::{class, use_memory};
use crate::texts::has;
use big_o_test::low_level_analysis::types::*;
use big_o_test::runners::crud::analyse_crud_algorithms;
use big_o_test::BigOAlgorithmComplexity as C;
use std::cell::Cell;
use std::time::Duration;

/// the `k`-th word of a line
fn word(l: &str, k: usize) -> &str {
    let b = l.as_bytes();
    let (mut i, mut n) = (0, 0);
    loop {
        while i < b.len() && b[i] == b' ' { i += 1; }
        let a = i;
        while i < b.len() && b[i] != b' ' { i += 1; }
        if n == k || a == b.len() { return unsafe { core::str::from_utf8_unchecked(&b[a..i]) }; }
        n += 1;
    }
}

/// seconds of the unit a duration is shown in
fn scale(t: &str) -> f64 {
    let (k, _, _) = number(t.as_bytes());
    let u = &t.as_bytes()[k..];
    if same(u, b"s") { 1.0 } else if same(u, b"ms") { 1e-3 } else if same(u, "µs".as_bytes()) { 1e-6 } else if same(u, b"ns") { 1e-9 } else { 0.0 }
}
/// to within `rel`; of the least durations, which nanoseconds round, only that they are so little
fn about(x: f64, want: f64, rel: f64, tag: u64) {
    if rel > 1.0001 && want < 4e-6 {
        check(x <= 5e-6, tag);
        reach(1);
        return;
    }
    check(x <= want * rel, tag);
    check(x * rel >= want, tag);
}
fn time(t: &str, want: f64, rel: f64, tag: u64) {
    let s = scale(t);
    check(s > 0.0, tag);
    about(num(t) * s, want, rel, tag + 1);
}
fn amount(t: &str, m: &BigOSpacePassMeasurements, n: f64, tag: u64) {
    let b = t.as_bytes();
    check(b.len() > 1, tag);
    let signed = b[0] == b'+' || b[0] == b'-';
    check((b[0] == b'+') == (m.used_memory_after > m.used_memory_before) && (b[0] == b'-') == (m.used_memory_after < m.used_memory_before), tag);
    let t = if signed { unsafe { core::str::from_utf8_unchecked(&b[1..]) } } else { t };
    let (k, _, _) = number(t.as_bytes());
    let u = unit(&t.as_bytes()[k..]);
    check(u > 0.0, tag + 1);
    let up = m.max_used_memory - m.used_memory_before;
    let down = m.used_memory_before - m.min_used_memory;
    shows_within(t, (if up > down { up } else { down }) as f64 / n / u, 1.00001, tag + 2);
}

/// what a row of a report is about
struct Row { d: f64, m: BigOSpacePassMeasurements, shown: u64, per: u32, reps: u32 }

/// the rows of the report that starts with a line naming `name`
fn rows(text: &str, name: &str, kind: u64, want: &[Row; 2], precise: bool, tag: u64) {
    let mut found = 0;
    let mut here = false;
    let mut seen = 0;
    for l in text.split('\n') {
        if has(l, " measurements:") {
            here = has(l, name);
            found += here as u64;
            continue;
        }
        if !here { continue; }
        let first = word(l, 0).as_bytes();
        if first.len() == 2 && first[1] == b')' && (first[0] == b'1' || first[0] == b'2') {
            let k = (first[0] - b'1') as usize;
            check(k == seen, tag);
            seen += 1;
            let r = &want[k];
            time(word(l, 1), r.d, if precise { 1.000000001 } else { 1.00001 }, tag + 2);
            amount(word(l, 2), &r.m, 1.0, tag + 4);
            check(int(word(l, 3)) == r.shown, tag + 10);
            let last = match kind {
                0 => 4,
                1 => { check(int(word(l, 4)) == r.reps as u64, tag + 11); 5 }
                _ => { amount(word(l, 4), &r.m, r.per as f64, tag + 20); 5 }
            };
            time(word(l, last), r.d / r.per as f64, 1.0012, tag + 12);
            check(word(l, last + 1).len() == 0, tag + 14);
        }
    }
    check(found == 1, tag + 15);
    check(seen == 2, tag + 16);
}

fn mem(before: usize, after: usize, min: usize, max: usize) -> BigOSpacePassMeasurements {
    BigOSpacePassMeasurements { used_memory_before: before, used_memory_after: after, max_used_memory: max, min_used_memory: min }
}

/// C25, one report; params: kind of report, which pass has any duration, 1: any number of elements too (for set resizing and regular: of that pass)
#[no_mangle]
pub extern "C-unwind" fn h_c25() {
    let (kind, which, any_n) = (param(0), param(1) as usize, param(2) != 0);
    let mut d = [Duration::new(3, 250), Duration::new(0, 7_654_321)];
    if which < 2 { let s = range(0, 1 << 40); d[which] = Duration::new(s, range(0, 999_999_999) as u32); }
    let mut n = [1234u32, 70001];
    let mut reps = 321u32;
    if any_n {
        if kind == 1 { reps = range(1, 0x7fff_ffff) as u32; } else { n[which & 1] = range(1, 0x7fff_ffff) as u32; }
    }
    let m = [mem(5000, 9000, 4000, 5_000_000), mem(70_000, 60_000, 3000, 71_000)];
    let (time_complexity, space_complexity) = (class(5), class(7));
    let time_measurements = BigOTimeMeasurements { pass_1_measurements: d[0], pass_2_measurements: d[1] };
    let space_measurements = BigOSpaceMeasurements { pass_1_measurements: m[0], pass_2_measurements: m[1] };
    let pass = |k: usize| BigOPassMeasurements { time_measurements: d[k], space_measurements: m[k], custom_measurements: Vec::new() };
    let delta = n[which & 1];
    let text = match kind {
        0 => BigOAlgorithmAnalysis { time_complexity, space_complexity, algorithm_measurements: SetResizingIteratorAlgorithmMeasurements {
            measurement_name: "some name", passes_info: SetResizingIteratorAlgorithmPassesInfo { delta_set_size: delta }, time_measurements, space_measurements } }.to_string(),
        1 => BigOAlgorithmAnalysis { time_complexity, space_complexity, algorithm_measurements: ConstantSetIteratorAlgorithmMeasurements {
            measurement_name: "some name", passes_info: ConstantSetIteratorAlgorithmPassesInfo { pass_1_set_size: n[0], pass_2_set_size: n[1], repetitions: reps }, time_measurements, space_measurements,
            pass1_measurements: pass(0), pass2_measurements: pass(1) } }.to_string(),
        _ => BigOAlgorithmAnalysis { time_complexity, space_complexity, algorithm_measurements: AlgorithmMeasurements {
            measurement_name: "some name", passes_info: AlgorithmPassesInfo { pass1_n: n[0], pass2_n: n[1] }, time_measurements, space_measurements,
            pass1_measurements: pass(0), pass2_measurements: pass(1) } }.to_string(),
    };
    let row = |k: usize| Row {
        d: d[k].as_secs_f64(), m: m[k],
        shown: if kind == 0 { delta as u64 * (k as u64 + 1) } else { n[k] as u64 },
        per: match kind { 0 => delta, 1 => reps, _ => n[k] },
        reps,
    };
    rows(&text, "some name", kind, &[row(0), row(1)], true, 2500);
    reach(0);
}

const OP: [&str; 4] = ["'Create'", "'Read'", "'Update'", "'Delete'"];

/// C25, CRUD: the analyses and the full report; params: operation with any durations, their cap in seconds (0: known durations), most iterations of each operation
#[no_mangle]
pub extern "C-unwind" fn h_c25c() {
    clock(1000, 0);
    let (op, cap) = (param(0) as usize, param(1));
    let mut n = [0u32; 4];
    for o in 0..4 { n[o] = if param(2) > 9 { param(2) / [1000, 100, 10, 1][o] % 10 } else { choice(param(2) + 1) } as u32; }
    // seconds and nanoseconds, and memory, of the passes of the operations
    let mut took = [[(0u64, 0u64); 2]; 4];
    let mut bytes = [[0u64; 2]; 4];
    for o in 0..4 {
        for p in 0..2 {
            took[o][p] = if o == op && cap > 0 { let s = range(1, cap); (s, range(0, 999_999_999)) } else { (3 + 2 * o as u64 + p as u64, 500_000_000) };
            bytes[o][p] = (2 + 3 * o as u64 + p as u64) << 30;
        }
    }
    // elements seen in each pass so far
    let at = Shared(Cell::new([[0u32; 2]; 4]));
    let (at, took, bytes, n) = (&at, &Shared(took), &Shared(bytes), &Shared(n));
    let call = move |o: usize, i: u32| {
        let (at, took, bytes, n) = (&at.0, &took.0, &bytes.0, &n.0);
        let p = (i >= n[o]) as usize;
        let mut a = at.get();
        a[o][p] += 1;
        at.set(a);
        // the last element of a pass does it all
        if a[o][p] == n[o] {
            use_memory(bytes[o][p]);
            clock(1000 + took[o][p].0, took[o][p].1);
        }
        7
    };
    let (took, bytes, n) = (&took.0, &bytes.0, &n.0);
    let (c, r, u, d, report) = analyse_crud_algorithms(unsafe { core::str::from_utf8_unchecked(&[b'n'; 300]) }, |_| 7, move |i| call(0, i), move |i| call(1, i), move |i| call(2, i), move |i| call(3, i), 0, n[0], n[1], n[2], n[3], 1, 1, 1, 1);
    let judge = |o: usize, t: &BigOTimeMeasurements, s: &BigOSpaceMeasurements, tc: C, sc: C, whole: &str, tag: u64| {
        check(n[o] > 0, tag);
        let secs = |p: usize| took[o][p].0 as f64 + took[o][p].1 as u32 as f64 / 1e9;
        about(t.pass_1_measurements.as_secs_f64(), secs(0), 1.00000001, tag + 1);
        about(t.pass_2_measurements.as_secs_f64(), secs(1), 1.00000001, tag + 2);
        for p in 0..2 {
            let m = if p == 0 { &s.pass_1_measurements } else { &s.pass_2_measurements };
            let used = (m.max_used_memory - m.used_memory_before) as u64;
            check(used >= bytes[o][p] && used < bytes[o][p] + (1 << 20), tag + 3 + p as u64);
        }
        let row = |p: usize| Row {
            d: secs(p), m: if p == 0 { s.pass_1_measurements } else { s.pass_2_measurements },
            shown: (if o == 0 || o == 3 { n[o] } else { n[0] }) as u64 * (p as u64 + 1),
            per: n[o], reps: n[o],
        };
        rows(&report, OP[o], (o == 1 || o == 2) as u64, &[row(0), row(1)], false, tag + 10);
        rows(whole, OP[o], (o == 1 || o == 2) as u64, &[row(0), row(1)], false, tag + 40);
        // the texts of the classes come in the report of the operation
        let mut here = false;
        let mut seen = 0;
        for l in report.split('\n') {
            if has(l, " measurements:") { here = has(l, OP[o]); }
            if here && has(l, "Time Analysis: ") { check(has(l, tc.as_time_pretty_str()), tag + 70); seen += 1; }
            if here && has(l, "Space Analysis: ") { check(has(l, sc.as_space_pretty_str()), tag + 71); seen += 2; }
        }
        check(seen == 3, tag + 72);
    };
    if let Some(a) = &c { let m = &a.algorithm_measurements; judge(0, &m.time_measurements, &m.space_measurements, a.time_complexity, a.space_complexity, &a.to_string(), 25100); }
    if let Some(a) = &r { let m = &a.algorithm_measurements; judge(1, &m.time_measurements, &m.space_measurements, a.time_complexity, a.space_complexity, &a.to_string(), 25200); }
    if let Some(a) = &u { let m = &a.algorithm_measurements; judge(2, &m.time_measurements, &m.space_measurements, a.time_complexity, a.space_complexity, &a.to_string(), 25300); }
    if let Some(a) = &d { let m = &a.algorithm_measurements; judge(3, &m.time_measurements, &m.space_measurements, a.time_complexity, a.space_complexity, &a.to_string(), 25400); }
    for o in 0..4 {
        if n[o] == 0 { for l in report.split('\n') { check(!(has(l, " measurements:") && has(l, OP[o])), 25500); } }
    }
    reach(0);
}

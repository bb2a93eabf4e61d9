//! C20, C21: what the reports show
use crate::intr::*;
use crate::runners::class;
use big_o_test::low_level_analysis::types::*;
use big_o_test::verif_hooks::presentable_measurements::*;
use std::time::Duration;

/// length of the number a text starts with, decimals in it
pub fn number(t: &[u8]) -> (usize, i32, bool) {
    let mut i = 0;
    let mut dec = 0;
    let mut dot = false;
    let mut exp = false;
    while i < t.len() {
        let c = t[i];
        if c >= b'0' && c <= b'9' { if dot && !exp { dec += 1; } }
        else if c == b'.' && !dot { dot = true; }
        else if c == b'e' && i + 1 < t.len() && t[i + 1] >= b'0' && t[i + 1] <= b'9' { exp = true; }
        else { break; }
        i += 1;
    }
    (i, dec, exp)
}
fn half(dec: i32) -> f64 { match dec { 0 => 0.501, 1 => 0.0501, 2 => 0.00501, 3 => 0.000501, _ => 0.00005 } }
/// does the number shown stand for `want`, within `rel` and the digits shown?
pub fn shows_within(t: &str, want: f64, rel: f64, tag: u64) {
    let (n, dec, exp) = number(t.as_bytes());
    check(n > 0, tag);
    let x = num(t);
    if exp { check(dec >= 3, tag + 1); }
    if exact(t) {
        check(x <= want * rel, tag + 2);
        check(x * rel >= want, tag + 3);
    } else if exp {
        check(x <= want * 1.0006, tag + 2);
        check(x * 1.0006 >= want, tag + 3);
    } else {
        check(x <= want * rel + half(dec), tag + 2);
        check(x + half(dec) >= want / rel, tag + 3);
    }
}
fn shows(t: &str, want: f64, tag: u64) { shows_within(t, want, 1.000000001, tag) }
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len() { if a[i] != b[i] { return false; } i += 1; }
    true
}
/// bytes of the unit
pub fn unit(u: &[u8]) -> f64 {
    if same(u, b"b") { 1.0 } else if same(u, b"KiB") { 1024.0 } else if same(u, b"MiB") { 1048576.0 } else if same(u, b"GiB") { 1073741824.0 } else if same(u, b"TiB") { 1099511627776.0 } else { 0.0 }
}

fn pass(top: u64) -> BigOSpacePassMeasurements {
    let (before, after, min, max) = (range(0, top) as usize, range(0, top) as usize, range(0, top) as usize, range(0, top) as usize);
    assume((before <= max) & (after <= max) & (min <= before) & (min <= after));
    BigOSpacePassMeasurements { used_memory_before: before, used_memory_after: after, max_used_memory: max, min_used_memory: min }
}
/// any memory before and after, but known extremes
fn band() -> BigOSpacePassMeasurements {
    let (before, after) = (range(100, 1 << 61) as usize, range(0, 1 << 62) as usize);
    assume((after <= before + 5000) & (after >= before - 100));
    BigOSpacePassMeasurements { used_memory_before: before, used_memory_after: after, max_used_memory: before + 5000, min_used_memory: before - 100 }
}
fn fixed(before: usize, after: usize) -> BigOSpacePassMeasurements {
    BigOSpacePassMeasurements { used_memory_before: before, used_memory_after: after, max_used_memory: 9000000, min_used_memory: 100 }
}
/// C20, report of a pass; params: 0: any n, otherwise n
fn sign(c: u8, m: &BigOSpacePassMeasurements) -> bool {
    if m.used_memory_after > m.used_memory_before { c == b'+' } else if m.used_memory_after < m.used_memory_before { c == b'-' } else { c >= b'0' && c <= b'9' }
}
#[no_mangle]
pub extern "C-unwind" fn h_c20() {
    let m = pass(1 << 62);
    let n = if param(0) == 0 { range(1, 0xffff_ffff) as u32 } else { param(0) as u32 };
    let text = if param(1) == 1 { m.to_string() } else { m.fmt_over_n(n) };
    let t = text.as_bytes();
    check(t.len() >= 2, 2000);
    check(sign(t[0], &m), 2001);
    let t = if t[0] >= b'0' && t[0] <= b'9' { &text[..] } else { &text[1..] };
    let (k, dec, _) = number(t.as_bytes());
    let u = unit(&t.as_bytes()[k..]);
    check(u > 0.0, 2002);
    let up = m.max_used_memory - m.used_memory_before;
    let down = m.used_memory_before - m.min_used_memory;
    let used = (if up > down { up } else { down }) as f64;
    let want = used / n as f64 / u;
    shows_within(t, want, 1.00001, 2005);
    if u > 1.0 { check(dec >= 2, 2004); reach(1); } else { reach(2); }
    log(u as u64);
    reach(0);
}

/// C20, report of both passes; params: which are symbolic
#[no_mangle]
pub extern "C-unwind" fn h_c20t() {
    let m = BigOSpaceMeasurements { pass_1_measurements: pass(1 << 61), pass_2_measurements: pass(1 << 61) };
    let (a, b) = (&m.pass_1_measurements, &m.pass_2_measurements);
    let (a0, a1, ax) = (a.used_memory_before as i64, a.used_memory_after as i64, a.max_used_memory as i64);
    let (b0, b1, bx) = (b.used_memory_before as i64, b.used_memory_after as i64, b.max_used_memory as i64);
    let delta = (a1 - a0) + (b1 - b0);
    check(m.used_memory_delta() as i64 == delta, 2010);
    let aux = ax - (if a0 > a1 { a0 } else { a1 }) + bx - (if b0 > b1 { b0 } else { b1 });
    check(m.used_auxiliary_space() as i64 == aux, 2011);
    reach(0);
    if param(0) == 0 { return; }
    let text = m.to_string();
    let t = text.as_bytes();
    let mut i = 0;
    while i < t.len() && t[i] != b':' { i += 1; }
    check(if delta >= 0 { same(&t[..i], b"allocated") } else { same(&t[..i], b"freed") }, 2012);
    i = i + 2;
    let mut k = i;
    while k < t.len() && t[k] != b';' { k += 1; }
    amount(&text[i..k], if delta < 0 { -delta } else { delta } as u64, 2020);
    i = k;
    while i < t.len() && t[i] != b':' { i += 1; }
    amount(&text[i + 2..], aux as u64, 2030);
    reach(1);
}
fn amount(t: &str, bytes: u64, tag: u64) {
    let (k, _, _) = number(t.as_bytes());
    let u = unit(&t.as_bytes()[k..]);
    check(u > 0.0, tag);
    shows_within(t, bytes as f64 / u, 1.00001, tag + 1);
}

/// C20, whole reports; params: kind of report, which pass is symbolic, 1: its memory / 2: its time and n
#[no_mangle]
pub extern "C-unwind" fn h_c20r() {
    let (kind, which, what) = (param(0), param(1), param(2));
    let (time_complexity, space_complexity) = (class(5), class(5));
    let m = if what & 4 != 0 { pass(1 << 61) } else if what & 1 != 0 { band() } else { fixed(500, 600) };
    let d = if what & 2 != 0 { let s = range(0, 1 << 40); Duration::new(s, range(0, 999_999_999) as u32) } else { Duration::from_micros(1500) };
    let n = if what & 2 != 0 { range(1, 0x7fff_ffff) as u32 } else { 100 };
    let mut p = [(fixed(1000, 500), Duration::from_millis(2)), (fixed(2000, 2000), Duration::from_millis(4))];
    p[which as usize] = (m, d);
    let [(m1, d1), (m2, d2)] = p;
    let want = |m: &BigOSpacePassMeasurements| if m.used_memory_after > m.used_memory_before { b'+' } else if m.used_memory_after < m.used_memory_before { b'-' } else { 0 };
    let signs = [want(&m1), want(&m2)];
    let time_measurements = BigOTimeMeasurements { pass_1_measurements: d1, pass_2_measurements: d2 };
    let space_measurements = BigOSpaceMeasurements { pass_1_measurements: m1, pass_2_measurements: m2 };
    let same_as = |m: &BigOSpacePassMeasurements, d: Duration| BigOPassMeasurements { time_measurements: d, space_measurements: *m, custom_measurements: Vec::new() };
    let (again1, again2) = (same_as(&m1, d1), same_as(&m2, d2));
    let mut text = String::new();
    let bad = match kind {
        0 => { let r = BigOAlgorithmAnalysis { time_complexity, space_complexity, algorithm_measurements: SetResizingIteratorAlgorithmMeasurements {
            measurement_name: "x", passes_info: SetResizingIteratorAlgorithmPassesInfo { delta_set_size: n }, time_measurements, space_measurements } }; panics(|| text = r.to_string()) }
        1 => { let r = BigOAlgorithmAnalysis { time_complexity, space_complexity, algorithm_measurements: ConstantSetIteratorAlgorithmMeasurements {
            measurement_name: "x", passes_info: ConstantSetIteratorAlgorithmPassesInfo { pass_1_set_size: n, pass_2_set_size: 200, repetitions: n }, time_measurements, space_measurements,
            pass1_measurements: again1, pass2_measurements: again2 } }; panics(|| text = r.to_string()) }
        _ => { let r = BigOAlgorithmAnalysis { time_complexity, space_complexity, algorithm_measurements: AlgorithmMeasurements {
            measurement_name: "x", passes_info: AlgorithmPassesInfo { pass1_n: n, pass2_n: n }, time_measurements, space_measurements,
            pass1_measurements: again1, pass2_measurements: again2 } }; panics(|| text = r.to_string()) }
    };
    check(!bad, 2040);
    let mut seen = 0;
    for l in text.split('\n') {
        let mut b = l.as_bytes();
        while b.len() > 0 && b[0] == b' ' { b = &b[1..]; }
        if b.len() > 2 && b[1] == b')' && (b[0] == b'1' || b[0] == b'2') {
            let (mut plus, mut minus) = (false, false);
            for c in b { if *c == b'+' { plus = true; } if *c == b'-' { minus = true; } }
            let s = signs[(b[0] - b'1') as usize];
            check(plus == (s == b'+'), 2041);
            check(minus == (s == b'-'), 2042);
            seen += 1;
        }
    }
    check(seen == 2, 2043);
    reach(0);
}

fn away(v: f64, b: f64) { assume(v < b * 0.999999999999 || v > b * 1.000000000001); }

/// C21; params: 0 bytes, 1 bytes per second, 2 custom unit, 3 custom unit per second, 4 duration
#[no_mangle]
pub extern "C-unwind" fn h_c21() {
    let kind = param(0);
    if kind == 4 {
        let s = range(0, 1 << 40);
        let d = Duration::new(s, range(0, 999_999_999) as u32);
        let text = duration_measurement(d).to_string();
        let v = d.as_secs_f64();
        if v < 1.01e-6 { return; }
        let (k, _, _) = number(text.as_bytes());
        let u = &text.as_bytes()[k..];
        let scale = if same(u, b"s") { 1.0 } else if same(u, b"ms") { 1e-3 } else if same(u, "µs".as_bytes()) { 1e-6 } else if same(u, b"ns") { 1e-9 } else { 0.0 };
        check(scale > 0.0, 2100);
        let x = num(&text) * scale;
        let rel = if v >= 1.01 { 1.00000001 } else if v >= 1.01e-3 { 1.00001 } else { 1.003 };
        check(x <= v * rel, 2101);
        check(x * rel >= v, 2102);
        reach(0);
        return;
    }
    let v = f64_();
    if kind == 1 || kind == 3 { away(v, 1.0 / 60.0); away(v, 1.0 / 3600.0); }
    let text = match kind {
        0 => bytes_measurement(v),
        1 => bytes_per_second_measurement(v),
        2 => custom_unit_measurement(v, "req"),
        _ => verif_custom_unit_per_second_measurement(v, "req"),
    }.to_string();
    let (k, dec, exp) = number(text.as_bytes());
    let u = &text.as_bytes()[k..];
    log(u.len() as u64);
    if kind < 2 {
        let names: [&[u8]; 7] = if kind == 0 { [b"TiB", b"GiB", b"MiB", b"KiB", b"b", b"b", b"b"] } else { [b"TiB/s", b"GiB/s", b"MiB/s", b"KiB/s", b"b/s", b"b/min", b"b/hr"] };
        let sizes = [1099511627776.0, 1073741824.0, 1048576.0, 1024.0, 1.0, 1.0 / 60.0, 1.0 / 3600.0];
        let last = if kind == 0 { 5 } else { 7 };
        let mut i = 0;
        while i < last && !(v >= sizes[i]) { i += 1; }
        if i < last {
            check(same(u, names[i]), 2110);
            shows(&text, v / sizes[i], 2111);
            check(i >= 4 && kind == 0 || dec >= 2, 2115);
            reach(1 + i as u64);
        } else {
            // below the smallest one
            let mut j = 4;
            while j < 7 && !same(u, names[j]) { j += 1; }
            check(j < 7, 2116);
            shows(&text, v / sizes[if kind == 0 { 4 } else { j }], 2117);
            reach(1 + last as u64);
        }
    } else {
        let names: [&[u8]; 3] = if kind == 2 { [b"req", b"req", b"req"] } else { [b"req/s", b"req/min", b"req/hr"] };
        let sizes = [1.0, 1.0 / 60.0, 1.0 / 3600.0];
        let last = if kind == 2 { 1 } else { 3 };
        let mut i = 0;
        while i < last && !(v >= sizes[i]) { i += 1; }
        if i < last {
            check(same(u, names[i]), 2120);
            shows(&text, v / sizes[i], 2121);
            check(dec >= 2 || exp, 2125);
            reach(1 + i as u64);
        } else {
            let mut j = 0;
            while j < 3 && !same(u, names[j]) { j += 1; }
            check(j < 3, 2126);
            shows(&text, v / sizes[if kind == 2 { 0 } else { j }], 2127);
            reach(1 + last as u64);
        }
    }
    reach(0);
}

/// C21: several custom units in use at the same time
#[no_mangle]
pub extern "C-unwind" fn h_c21u() {
    let v = f64_();
    assume(v >= 1.0);
    let w = 12.5;
    // much alike, none to be mistaken for another
    let units = ["req", "rows", "reqs", "r", "s", "Req", "qer", "row", "req.", " req", "requests handled", "requests refused"];
    let t = |m: PresentableMeasurement, v: f64, u: &str, per: &str, tag: u64| {
        let text = m.to_string();
        let (k, _, _) = number(text.as_bytes());
        check(text.len() == k + u.len() + per.len() && same(&text.as_bytes()[k..k + u.len()], u.as_bytes()) && same(&text.as_bytes()[k + u.len()..], per.as_bytes()), tag);
        shows(&text, v, tag + 1);
    };
    let a = custom_unit_measurement(v, "req");
    let b = verif_custom_unit_per_second_measurement(v, "req");
    for _ in 0..2 {
        for i in 0..units.len() {
            let c = custom_unit_measurement(w, units[i]);
            let d = verif_custom_unit_per_second_measurement(w, units[i]);
            t(d, w, units[i], "/s", 2150);
            t(c, w, units[i], "", 2160);
        }
    }
    t(b, v, "req", "/s", 2170);
    t(a, v, "req", "", 2180);
    t(custom_unit_measurement(v, "req"), v, "req", "", 2190);
    reach(0);
}

//! C16, C17: the CRUD runner
use crate::intr::*;
use crate::passes::{called, Shared, CALLS};
use crate::runners::{class, pick, use_memory};
use crate::verdict::{prediction, TOL};
use big_o_test::{test_crud_algorithms, BigOAlgorithmComplexity};
use big_o_test::runners::crud::analyse_crud_algorithms;
use std::cell::Cell;
use std::sync::atomic::Ordering::SeqCst;

/// four numbers: any up to `p` each, or, beyond 1000, the last four digits of `p`
fn four(p: u64) -> [u64; 4] {
    let mut v = [0; 4];
    let mut i = 0;
    while i < 4 {
        v[i] = if p < 1000 { choice(p + 1) } else { p / [1000, 100, 10, 1][i] % 10 };
        i += 1;
    }
    v
}

const RESET: u64 = 4;
fn event(op: u64, i: u32) -> u32 {
    called(op << 32 | i as u64);
    i
}

/// the events seen so far
struct Seen(Cell<usize>);
impl Seen {
    /// the next events are exactly operation `op` on [lo, hi), in any order
    fn phase(&self, op: u64, lo: u64, hi: u64, tag: u64) {
        let a = self.0.get();
        let n = (hi - lo) as usize;
        check(a + n <= CALLS.n.load(SeqCst) as usize, tag);
        let mut k = a;
        while k < a + n {
            let e = CALLS.what[k].load(SeqCst);
            check(e >> 32 == op, tag);
            let i = e & 0xffff_ffff;
            check(lo <= i && i < hi, tag + 1);
            let mut j = a;
            while j < k { check(CALLS.what[j].load(SeqCst) != e, tag + 2); j += 1; }
            k += 1;
        }
        self.0.set(a + n);
    }
}

/// C16: params: iterations, threads (see `four`), warm-up percentage (1000: any)
#[no_mangle]
pub extern "C-unwind" fn h_c16() {
    nofmt(true);
    let n = four(param(0));
    let t = four(param(1));
    let pct = if param(2) == 1000 { range(0, 100) } else { param(2) };
    let (c, r, u, d, report) = analyse_crud_algorithms("x",
        |i| event(RESET, i), |i| event(0, i), |i| event(1, i), |i| event(2, i), |i| event(3, i),
        pct as u32, n[0] as u32, n[1] as u32, n[2] as u32, n[3] as u32, t[0] as u32, t[1] as u32, t[2] as u32, t[3] as u32);
    drop(report);
    let on = |o: usize| n[o] > 0 && t[o] > 0;
    let s = Seen(Cell::new(0));
    if pct > 0 {
        let mut o = 0;
        while o < 4 {
            if on(o) { s.phase(o as u64, 0, n[o] * pct / 100, 1600); }
            o += 1;
        }
        let k = s.0.get();
        check((CALLS.n.load(SeqCst) as usize) > k, 1603);
        let e = CALLS.what[k].load(SeqCst);
        check(e >> 32 == RESET, 1604);
        // nothing is said of what is told where nothing could be created
        if on(0) || n[0] == 0 { check(e & 0xffff_ffff == n[0] * pct / 100, 1605); }
        s.0.set(k + 1);
        reach(1);
    }
    let mut pass = 0;
    while pass < 2 {
        let mut o = 0;
        while o < 3 {
            if on(o) { s.phase(o as u64, n[o] * pass, n[o] * (pass + 1), 1610 + 10 * pass); }
            o += 1;
        }
        pass += 1;
    }
    if on(3) {
        s.phase(3, n[3], 2 * n[3], 1630);
        s.phase(3, 0, n[3], 1640);
    }
    check(CALLS.n.load(SeqCst) as usize == s.0.get(), 1650);
    check(c.is_some() == on(0), 1660);
    check(r.is_some() == on(1), 1661);
    check(u.is_some() == on(2), 1662);
    check(d.is_some() == on(3), 1663);
    if let Some(a) = c { check(a.algorithm_measurements.passes_info.delta_set_size as u64 == n[0], 1664); }
    if let Some(a) = d { check(a.algorithm_measurements.passes_info.delta_set_size as u64 == n[3], 1665); }
    let mut o = 1;
    for a in [r, u] {
        if let Some(a) = a {
            let i = a.algorithm_measurements.passes_info;
            check(i.pass_1_set_size as u64 == n[0], 1666);
            check(i.pass_2_set_size as u64 == 2 * n[0], 1667);
            check(i.repetitions as u64 == n[o], 1668);
        }
        o += 1;
    }
    log(CALLS.n.load(SeqCst));
    reach(0);
}

/// C16, sizes of any kind: the very first call. params: operation, warm-up percentage (1000: any from 1)
#[no_mangle]
pub extern "C-unwind" fn h_c16b() {
    nofmt(true);
    let op = param(0);
    let pct = if param(1) == 1000 { choice(100) + 1 } else { param(1) };
    let n = range(1, (1 << 31) - 1);
    let w = n * pct / 100;
    let f = |o: u64, i: u32| {
        let i = i as u64;
        log(i);
        if o == RESET {
            check(pct > 0 && w == 0, 1670);
            if op == 0 { check(i == 0, 1671); }
        } else {
            check(o == op, 1672);
            let (lo, hi) = if pct > 0 { (0, w) } else if op == 3 { (n, 2 * n) } else { (0, n) };
            check(lo <= i && i < hi, 1673);
            check((i == lo) | (i + 1 == hi), 1674);
        }
        reach(0);
        done();
        7
    };
    let k = |o: u64| if o == op { n as u32 } else { 0 };
    let _ = analyse_crud_algorithms("x", |i| f(RESET, i), |i| f(0, i), |i| f(1, i), |i| f(2, i), |i| f(3, i), pct as u32, k(0), k(1), k(2), k(3), 1, 1, 1, 1);
    check(false, 1675);
}

const GIGA: u64 = 1_000_000_000;
/// the memory the threads of a pass take is lost in this much
const LOTS: u64 = 1 << 30;
const CLOSE: f64 = 1e-4;

/// is usage u2 after u1 beyond the limit of rank r, for an operation on one element per pass? (usages close to a limit are left out)
fn excess(op: u64, r: u64, u1: f64, u2: f64) -> bool {
    let b;
    if op == 0 || op == 3 {
        if r >= 6 { return false; }
        let log3 = 1.584962500721156; // log2(3) / log2(2)
        b = u1 * [1.0 / (1.0 + TOL), 1.0 + TOL, log3, log3 * (1.0 + TOL), 3.0 * (1.0 - TOL), 3.0 * (1.0 + TOL)][r as usize];
    } else {
        if r == 16 { return false; }
        let mut x = u1 * (1.0 - TOL);
        let mut k = 1;
        while k <= r {
            let p = if k % 2 == 1 { prediction(k, u1, 1, 2) * (1.0 + TOL) } else { prediction(k + 1, u1, 1, 2) * (1.0 - TOL) };
            x = x.max(p);
            k += 1;
        }
        b = x;
    }
    if u2 > b * (1.0 + CLOSE) { return true; }
    assume(u2 < b * (1.0 - CLOSE));
    false
}

/// leaves out usages close to where any class starts
fn away(op: u64, u1: f64, u2: f64) {
    let not = |b: f64| assume(u2 < b * (1.0 - CLOSE) || u2 > b * (1.0 + CLOSE));
    if op == 0 || op == 3 {
        let log3 = 1.584962500721156;
        for k in [1.0 / (1.0 + TOL), 1.0 - TOL, 1.0 + TOL, log3, log3 * (1.0 - TOL), log3 * (1.0 + TOL), 3.0 * (1.0 - TOL), 3.0 * (1.0 + TOL)] { not(u1 * k); }
    } else {
        let mut r = 1;
        while r < 16 {
            let p = prediction(r, u1, 1, 2);
            not(p * (1.0 - TOL));
            not(p * (1.0 + TOL));
            r += 2;
        }
    }
}

struct Test {
    op: u64, tl: u64, sl: u64, tcap: u64, scap: u64, allowed: u64,
    attempts: Cell<u64>,
    /// operations done in this attempt: a bit each per pass
    did: Cell<u64>,
    /// 0 running, 1 attempt met its limits, 2 rejected for good, 3 to be retried
    state: Cell<u64>,
    next: Cell<u64>,
    last: Cell<(f64, f64)>,
}

impl Test {
    /// a check that does not count where rounding decides
    fn must(&self, c: bool, tag: u64) {
        if !c {
            let (t, m) = self.last.get();
            if self.tcap > 0 && t > 0.0 { away(self.op, 4.0, t); }
            if self.scap > 0 && m > 0.0 { away(self.op, LOTS as f64, m); }
        }
        check(c, tag);
    }
    fn call(&self, o: u64, i: u32) -> u32 {
        self.must(self.state.get() == 0 || self.state.get() == 1, 1700);
        let bit = 1 << (o * 2 + i as u64);
        check(i < 2, 1701);
        check(self.did.get() & bit == 0, 1702);
        if self.did.get() == 0 {
            self.attempts.set(self.attempts.get() + 1);
            self.must(self.attempts.get() <= self.allowed, 1703);
        }
        self.did.set(self.did.get() | bit);
        let (mut secs, mut nanos, mut m) = (4, 0, LOTS);
        if o == self.op && i == 1 {
            // what pass 2 of the operation under test uses
            if self.tcap > 0 { secs = range(1, self.tcap); nanos = range(0, GIGA - 1); }
            if self.scap > 0 { m = range(LOTS / 4, self.scap); }
            let took = secs as f64 + nanos as u32 as f64 / 1e9;
            self.last.set((took, m as f64));
            let late = self.tcap > 0 && excess(o, self.tl, 4.0, took);
            let fat = self.scap > 0 && excess(o, self.sl, LOTS as f64, m as f64);
            log(late as u64 * 2 + fat as u64);
            self.next.set(if late { if self.attempts.get() == self.allowed { 2 } else { 3 } } else if fat { 2 } else { 1 });
        }
        if self.did.get() >> (2 * self.op) & 3 == 3 && o == self.op { self.state.set(self.next.get()); }
        use_memory(m);
        clock(1000 + secs, nanos);
        7
    }
    fn reset(&self) -> u32 {
        self.must(self.state.get() == 3, 1705);
        self.state.set(0);
        self.did.set(0);
        7
    }
}

/// C17: params: operation under test, allowed retries, time cap, space cap, time limits, space limits
#[no_mangle]
pub extern "C-unwind" fn h_c17() {
    nofmt(true);
    clock(1000, 0);
    let retries = choice(param(1) + 1);
    let t = Test { op: param(0), tcap: param(2), scap: param(3), tl: pick(param(4)), sl: pick(param(5)), allowed: retries.max(1), attempts: Cell::new(0), did: Cell::new(0), state: Cell::new(0), next: Cell::new(0), last: Cell::new((0.0, 0.0)) };
    let t = Shared(t);
    let t = &t;
    let call = move |o: u64, i: u32| { let t = t; t.0.call(o, i) };
    let lim = |o: u64, l: u64| class(if o == t.0.op { l } else { 1 });
    let p = panics(|| {
        test_crud_algorithms("x", retries as u32, move |_| { let t = t; t.0.reset() },
            move |i| call(0, i), lim(0, t.0.tl), lim(0, t.0.sl),
            move |i| call(1, i), lim(1, t.0.tl), lim(1, t.0.sl),
            move |i| call(2, i), lim(2, t.0.tl), lim(2, t.0.sl),
            move |i| call(3, i), lim(3, t.0.tl), lim(3, t.0.sl),
            0, 1, 1, 1, 1, 1, 1, 1, 1);
    });
    let t = &t.0;
    log(p as u64);
    reach(if p { 10 } else { 11 });
    reach(t.attempts.get());
    t.must(t.state.get() == if p { 2 } else { 1 }, 1706);
    // an accepted attempt ran everything
    if !p { check(t.did.get() == 0xff, 1707); }
}

/// C17: retries drop no operation. params: attempts, iterations, operations enabled (bits)
#[no_mangle]
pub extern "C-unwind" fn h_c17n() {
    nofmt(true);
    clock(1000, 0);
    let allowed = param(0);
    let n = choice(param(1)) + 1;
    let on = param(2);
    struct T { attempts: Cell<u64>, did: Cell<u64>, resets: Cell<u64>, max: Cell<u32> }
    let t = Shared(T { attempts: Cell::new(1), did: Cell::new(0), resets: Cell::new(0), max: Cell::new(0) });
    let t = &t;
    // the last operation enabled is too slow in every attempt but the last
    let last = 63 - on.leading_zeros() as u64;
    let call = move |o: u64, i: u32| {
        let t = &t.0;
        t.did.set(t.did.get() | 1 << o);
        let fail = o == last && t.attempts.get() < allowed;
        // in the pass over the second half, that is, beyond its first element ...
        let slow = if fail && (i > 0) { 1000 * (i as u64) } else { 4 };
        t.max.set(t.max.get().max(i));
        clock(1000 + if fail { slow } else { 4 }, 0);
        7
    };
    let k = |o: u64| if on >> o & 1 == 1 { n as u32 } else { 0 };
    let worst = class(16);
    let lim = |o: u64| class(if o == last { 1 } else { 16 });
    let p = panics(|| {
        test_crud_algorithms("x", allowed as u32,
            move |_| {
                let t = &t.0;
                // every enabled operation ran in the attempt before
                check(t.did.get() == on, 1720);
                t.did.set(0);
                t.attempts.set(t.attempts.get() + 1);
                t.resets.set(t.resets.get() + 1);
                7
            },
            move |i| call(0, i), lim(0), worst, move |i| call(1, i), lim(1), worst, move |i| call(2, i), lim(2), worst, move |i| call(3, i), lim(3), worst,
            0, k(0), k(1), k(2), k(3), 1, 1, 1, 1);
    });
    let t = &t.0;
    check(!p, 1721);
    check(t.did.get() == on, 1722);
    check(t.attempts.get() == allowed && t.resets.get() == allowed - 1, 1723);
    log(t.max.get() as u64);
    reach(0);
    let _: BigOAlgorithmComplexity = worst;
}

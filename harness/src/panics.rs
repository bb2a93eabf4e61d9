//! C24: a panic in what the user provides is never swallowed
use crate::intr::*;
use crate::measurers::G;
use crate::passes::Shared;
use crate::runners::class;
use big_o_test::low_level_analysis::types::BigOIteratorAlgorithmType;
use big_o_test::runners::crud::analyse_crud_algorithms;
use big_o_test::verif_hooks::run_iterator_pass;
use big_o_test::{test_algorithm, test_crud_algorithms, RegularAsyncAnalyzerBuilder};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

/// the calls received so far, and which of them panics
struct Fuse { n: AtomicU64, at: AtomicU64, base: AtomicU64 }
static FUSE: Fuse = Fuse { n: AtomicU64::new(0), at: AtomicU64::new(0), base: AtomicU64::new(1000) };
impl Fuse {
    fn call(&self, seconds: u64) {
        let b = self.base.fetch_add(seconds, SeqCst) + seconds;
        clock(b, 0);
        self.step();
    }
    fn step(&self) {
        let k = self.n.fetch_add(1, SeqCst);
        if k == self.at.load(SeqCst) { panic!("x"); }
    }
    /// the phases, in order, are of these many calls: a panic happens in one of them, the following ones do not start
    fn ended(&self, p: bool, phases: &[u64], alone: bool, tag: u64) {
        let (n, at) = (self.n.load(SeqCst), self.at.load(SeqCst));
        let mut end = 0;
        let mut i = 0;
        while i < phases.len() {
            end += phases[i];
            if at < end { break; }
            i += 1;
        }
        check(p == (at < end), tag);
        if alone && at < end { check(n == at + 1, tag + 1); }
        check(n <= end, tag + 2);
        if at >= end { check(n == end, tag + 3); }
        log(p as u64);
        if alone || !p { log(n); }
        reach(p as u64);
    }
}

/// the regular runner. params: retries
#[no_mangle]
pub extern "C-unwind" fn h_c24() {
    nofmt(true);
    clock(1000, 0);
    let retries = choice(param(0) + 1);
    // the first attempts, if any, take too long
    let late = choice(retries + 1);
    let total = 3 * (late + 1);
    FUSE.at.store(choice(total + 1), SeqCst);
    let p = panics(|| {
        test_algorithm("x", retries as u32, || FUSE.call(1), 1000, || { FUSE.call(4); 1 }, 2000, || { FUSE.call(if FUSE.n.load(SeqCst) < 3 * late { 1000 } else { 4 }); 2 }, class(1), class(16));
    });
    FUSE.ended(p, &[total], true, 2400);
}

/// the CRUD runner. params: iterations (digits), threads (digits), warm-up percentage, late (with one iteration and one thread), test or analyse
#[no_mangle]
pub extern "C-unwind" fn h_c24c() {
    nofmt(true);
    clock(1000, 0);
    let d = |p: u64, i: usize| p / [1000, 100, 10, 1][i] % 10;
    let n = [d(param(0), 0), d(param(0), 1), d(param(0), 2), d(param(0), 3)];
    let t = [d(param(1), 0), d(param(1), 1), d(param(1), 2), d(param(1), 3)];
    let pct = param(2);
    let late = choice(param(3) + 1);
    let test = param(4) != 0;
    let mut phases = [0u64; 64];
    let mut k = 0;
    let mut attempt = 0;
    let mut one = 0;
    while attempt <= late {
        if attempt > 0 { phases[k] = 1; k += 1; }
        one = k;
        if pct > 0 {
            let mut o = 0;
            while o < 4 {
                phases[k] = n[o] * pct / 100;
                k += 1;
                o += 1;
            }
            phases[k] = 1;
            k += 1;
        }
        let mut o = 0;
        // a read that takes too long is the end of its attempt
        while o < if attempt < late { 5 } else { 6 } {
            phases[k] = n[o % 3];
            k += 1;
            o += 1;
        }
        if attempt == late {
            phases[k] = n[3];
            phases[k + 1] = n[3];
            k += 2;
        }
        attempt += 1;
    }
    let mut total = 0;
    let mut last = 0;
    let mut i = 0;
    while i < k {
        total += phases[i];
        if i + 1 == one { last = total; }
        i += 1;
    }
    // calls up to `last` are of attempts that take too long to read the second time
    FUSE.at.store(choice(total + 1), SeqCst);
    // (a thread has a clock of its own)
    let read = move |i: u32| { clock(if FUSE.n.load(SeqCst) < last && i as u64 >= n[1] { 2000 } else { 1004 }, 0); FUSE.step(); i };
    let call = |i: u32| { clock(1004, 0); FUSE.step(); i };
    let reset = |i: u32| { FUSE.step(); i };
    let w = class(16);
    let p = panics(|| {
        if test {
            test_crud_algorithms("x", late as u32 + 1, reset, call, w, w, read, class(1), w, call, w, w, call, w, w,
                pct as u32, n[0] as u32, n[1] as u32, n[2] as u32, n[3] as u32, t[0] as u32, t[1] as u32, t[2] as u32, t[3] as u32);
        } else {
            let r = analyse_crud_algorithms("x", reset, call, read, call, call,
                pct as u32, n[0] as u32, n[1] as u32, n[2] as u32, n[3] as u32, t[0] as u32, t[1] as u32, t[2] as u32, t[3] as u32);
            drop(r);
        }
    });
    FUSE.ended(p, &phases[..k], param(1) <= 1111, 2410);
}

/// an iterator pass. params: elements, threads, schedule
#[no_mangle]
pub extern "C-unwind" fn h_c24i() {
    nofmt(true);
    clock(1000, 0);
    let len = choice(param(0)) + 1;
    let threads = choice(param(1)) + 1;
    sched(param(2));
    let down = choice(2) == 1;
    let kind = if choice(2) == 0 { BigOIteratorAlgorithmType::ConstantSet } else { BigOIteratorAlgorithmType::SetResizing };
    let lo = range(0, u32::MAX as u64 - len);
    // the element whose processing panics
    let bad = range(0, u32::MAX as u64);
    let r = if down { (lo + len) as u32..lo as u32 } else { lo as u32..(lo + len) as u32 };
    FUSE.at.store(u64::MAX, SeqCst);
    let alg = |i: u32| { if i as u64 == bad { panic!("x"); } 7 };
    let p = panics(|| {
        run_iterator_pass(&alg, &kind, r.clone(), threads as u32);
    });
    check(p == (lo <= bad && bad < lo + len), 2430);
    log(p as u64);
    reach(p as u64);
}

static WAITS: G<Option<Shared<u64>>> = G(UnsafeCell::new(None));

/// the asynchronous builder. params: retries, steps pending at first, 0: the closures panic, 1: their futures do
#[no_mangle]
pub extern "C-unwind" fn h_c24a() {
    nofmt(true);
    clock(1000, 0);
    let retries = choice(param(0) + 1);
    let late = choice(retries + 1);
    let parts = choice(16);
    let waits = param(1) as u32;
    let inside = param(2) == 1;
    unsafe { *WAITS.0.get() = Some(Shared(param(1))); }
    let on = |b: u64| (parts >> b) & 1;
    let per = 2 + on(0) * (2 + on(1)) + on(1) + on(2) + on(3);
    let total = per * (late + 1);
    FUSE.at.store(choice(total + 1), SeqCst);
    // calls of `a` seconds, either when the closure is called or when its future goes on
    let step = move |a: u64| {
        if !inside { FUSE.call(a); }
        async move {
            YieldOnce(waits == 0, 7).await;
            if inside { FUSE.call(a); }
            1u32
        }
    };
    let p = panics(|| {
        let mut b = RegularAsyncAnalyzerBuilder::new("x").with_max_reattempts(retries as u32);
        if on(0) == 1 { b = b.with_reset_fn(move |_: Option<u32>| step(1)); }
        if on(1) == 1 { b = b.warmup_pass(move |_: Option<u32>| step(1)); }
        if on(2) == 1 { b = b.first_pass_assertion(move |_: &u32| { let f = step(1); async move { f.await; } }); }
        if on(3) == 1 { b = b.second_pass_assertion(move |_: &u32| { let f = step(1); async move { f.await; } }); }
        let b = b.with_time_measurements(class(1))
            .first_pass(1000, move |_: Option<u32>| step(4))
            .second_pass(2000, move |_: Option<u32>| step(if FUSE.n.load(SeqCst) < per * late { 1000 } else { 4 }));
        block_on(b.test_algorithm());
    });
    FUSE.ended(p, &[total], true, 2440);
}

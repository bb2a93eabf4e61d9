//! C14, C15: the passes
use crate::intr::*;
use big_o_test::low_level_analysis::types::BigOIteratorAlgorithmType;
use big_o_test::verif_hooks::{run_async_pass, run_iterator_pass, run_sync_pass, PassResult};
use std::alloc::Layout;
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

pub const MAXCALLS: usize = 512;
#[allow(clippy::declare_interior_mutable_const)]
const ZERO: AtomicU64 = AtomicU64::new(0);

/// the calls an iterator algorithm received
pub struct Calls { pub n: AtomicU64, pub who: [AtomicU64; MAXCALLS], pub what: [AtomicU64; MAXCALLS] }
pub static CALLS: Calls = Calls { n: ZERO, who: [ZERO; MAXCALLS], what: [ZERO; MAXCALLS] };

pub fn called(i: u64) -> u64 {
    let k = CALLS.n.fetch_add(1, SeqCst);
    if (k as usize) < MAXCALLS {
        CALLS.who[k as usize].store(tid(), SeqCst);
        CALLS.what[k as usize].store(i, SeqCst);
    }
    k
}

fn kind(k: u64) -> BigOIteratorAlgorithmType {
    if k == 0 { BigOIteratorAlgorithmType::ConstantSet } else { BigOIteratorAlgorithmType::SetResizing }
}

/// C14, every element of short ranges anywhere. params: elements, threads, schedule
#[no_mangle]
pub extern "C-unwind" fn h_c14() {
    let len = choice(param(0) + 1);
    let threads = choice(param(1)) + 1;
    sched(param(2));
    let down = choice(2) == 1;
    let t = kind(choice(2));
    let lo = range(0, u32::MAX as u64 - len);
    let r = if down { (lo + len) as u32..lo as u32 } else { lo as u32..(lo + len) as u32 };
    let alg = |i: u32| { called(i as u64); 7 };
    let (_, _) = run_iterator_pass(&alg, &t, r, threads as u32);
    check(CALLS.n.load(SeqCst) == len, 1400);
    let mut k = 0;
    while k < len as usize {
        let x = CALLS.what[k].load(SeqCst);
        check(lo <= x && x < lo + len, 1401);
        let mut j = 0;
        let mut seen = false;
        let mut step = 0;
        while j < k {
            check(CALLS.what[j].load(SeqCst) != x, 1402);
            j += 1;
        }
        // the next and the next but one call of the same thread
        let mut prev = x;
        j = k + 1;
        let mut n = 0;
        while j < len as usize && n < 2 {
            if CALLS.who[j].load(SeqCst) == CALLS.who[k].load(SeqCst) {
                let y = CALLS.what[j].load(SeqCst);
                let d = y.wrapping_sub(prev);
                check((d == 1) | (d == u64::MAX), 1403);
                if seen { check(d == step, 1404); }
                seen = true;
                step = d;
                prev = y;
                n += 1;
            }
            j += 1;
        }
        k += 1;
    }
    reach(len.min(1));
    reach(1 + threads);
    log(len);
}

/// C14, the first elements of each thread on ranges of any size. params: threads
#[no_mangle]
pub extern "C-unwind" fn h_c14b() {
    let threads = param(0);
    sched(1);
    let down = choice(2) == 1;
    let t = kind(choice(2));
    let a = range(0, u32::MAX as u64);
    let b = range(0, u32::MAX as u64);
    assume(a + 2 * threads <= b);
    let r = if down { b as u32..a as u32 } else { a as u32..b as u32 };
    thread_local! { static MINE: Cell<u64> = const { Cell::new(0) }; }
    static READY: AtomicU64 = ZERO;
    let alg = |i: u32| {
        called(i as u64);
        MINE.set(MINE.get() + 1);
        if MINE.get() == 2 { // each thread takes two elements and waits
            if READY.fetch_add(1, SeqCst) + 1 == threads {
                let mut j = 0;
                let mut firsts = 0;
                let mut ups = 0;
                let mut edge = false;
                while j < 2 * threads as usize {
                    let x = CALLS.what[j].load(SeqCst);
                    check(a <= x && x < b, 1410);
                    let mut l = 0;
                    while l < j {
                        let y = CALLS.what[l].load(SeqCst);
                        check(x != y, 1411);
                        if CALLS.who[j].load(SeqCst) == CALLS.who[l].load(SeqCst) {
                            let d = x.wrapping_sub(y);
                            check((d == 1) | (d == u64::MAX), 1412);
                            firsts += 1;
                            ups += (d == 1) as u64;
                            edge |= y == select(d == 1, a, b - 1);
                        }
                        l += 1;
                    }
                    j += 1;
                }
                check(firsts == threads, 1413);
                // where all go the same way, one begins at the beginning
                check((ups != 0 && ups != threads) | edge, 1414);
                reach(9);
                done();
            }
            park();
        }
        7
    };
    let (_, _) = run_iterator_pass(&alg, &t, r, threads as u32);
}

/// blocks held by an algorithm, with the extremes of the memory they take
struct Heap { p: Cell<[(usize, u64); 8]>, n: Cell<usize>, cur: Cell<u64>, min: Cell<u64>, max: Cell<u64> }

impl Heap {
    fn new() -> Self { Heap { p: Cell::new([(0, 0); 8]), n: Cell::new(0), cur: Cell::new(0), min: Cell::new(0), max: Cell::new(0) } }
    fn alloc(&self) {
        let s = range(1, 1 << 40);
        let p = unsafe { std::alloc::alloc(Layout::from_size_align_unchecked(s as usize, 8)) };
        let mut v = self.p.get();
        v[self.n.get()] = (std::hint::black_box(p) as usize, s);
        self.p.set(v);
        self.n.set(self.n.get() + 1);
        self.cur.set(self.cur.get() + s);
        self.note();
    }
    fn free(&self, i: usize) {
        let mut v = self.p.get();
        let (p, s) = v[i];
        unsafe { std::alloc::dealloc(p as *mut u8, Layout::from_size_align_unchecked(s as usize, 8)) };
        self.n.set(self.n.get() - 1);
        v[i] = v[self.n.get()];
        self.p.set(v);
        self.cur.set(self.cur.get() - s);
        self.note();
    }
    /// one allocation or deallocation
    fn step(&self) {
        let n = self.n.get() as u64;
        let k = choice(n + 1);
        if k == n { self.alloc() } else { self.free(k as usize) }
    }
    fn note(&self) {
        let c = self.cur.get();
        self.min.set(select(c < self.min.get(), c, self.min.get()));
        self.max.set(select(c > self.max.get(), c, self.max.get()));
    }
    fn start(&self) {
        self.min.set(self.cur.get());
        self.max.set(self.cur.get());
    }
}

fn verify(h: &Heap, before: u64, cur0: u64, p: PassResult, secs: u64, ns: u64) {
    let m = p.space_measurements;
    check(m.used_memory_before as u64 == before, 1500);
    check(m.used_memory_after as u64 == before + h.cur.get() - cur0, 1501);
    check(m.min_used_memory as u64 == before + h.min.get() - cur0, 1502);
    check(m.max_used_memory as u64 == before + h.max.get() - cur0, 1503);
    check(p.time_measurements.as_secs() == secs, 1504);
    check(p.time_measurements.subsec_nanos() as u64 == ns, 1505);
    log(m.used_memory_after as u64 + (1 << 50) - m.used_memory_before as u64);
    log(m.max_used_memory as u64 - m.used_memory_before as u64);
}

fn in_use() -> u64 {
    let s = big_o_test::ALLOC.save_point().metrics.current_used_memory;
    s as u64
}

/// C15: params: kind (0 sync, 1 async), operations before, operations in the pass, passes
#[no_mangle]
pub extern "C-unwind" fn h_c15() {
    let h = Heap::new();
    let mut k = 0;
    while k < param(1) { h.step(); k += 1; }
    let mut pass = 0;
    while pass < param(3) {
        let before = in_use();
        let cur0 = h.cur.get();
        let s0 = range(1000, 1 << 40);
        let n0 = range(0, 999_999_999);
        clock(s0, n0);
        let secs = range(0, 1 << 40);
        let ns = range(0, 999_999_999);
        let r = u32_();
        let calls = Cell::new(0);
        let body = || {
            calls.set(calls.get() + 1);
            h.start();
            let mut k = 0;
            while k < param(2) { h.step(); k += 1; }
            let carry = select(n0 + ns > 999_999_999, 1, 0);
            clock(s0 + secs + carry, n0 + ns - carry * 1_000_000_000);
        };
        let given = u32_();
        let (p, out) = if param(0) == 0 {
            let (p, out) = run_sync_pass(|| { body(); r });
            (p, out)
        } else {
            struct S<T>(T);
            unsafe impl<T> Send for S<T> {}
            unsafe impl<T> Sync for S<T> {}
            let b = S(&body as &dyn Fn());
            let give = if choice(2) == 1 { Some(given) } else { None };
            let (p, out) = block_on(run_async_pass(give, move |d: Option<u32>| {
                let b = &b;
                check(d == give, 1506);
                (b.0)();
                YieldOnce(false, r)
            }));
            (p, out)
        };
        check(out == r, 1507);
        check(calls.get() == 1, 1508);
        verify(&h, before, cur0, p, secs, ns);
        pass += 1;
    }
    reach(0);
}

pub struct Shared<T>(pub T);
unsafe impl<T> Sync for Shared<T> {}

/// what the threads themselves allocate
const OWN: u64 = 1 << 16;
fn near(a: u64, b: u64) -> bool { (a <= b + OWN) & (b <= a + OWN) }

/// C15, iterator passes. params: elements, threads, operations before, operations in the pass, descending
#[no_mangle]
pub extern "C-unwind" fn h_c15i() {
    let len = param(0);
    let threads = param(1);
    sched(choice(2));
    let h = Shared(Heap::new());
    let mut k = 0;
    while k < param(2) { h.0.step(); k += 1; }
    let busy = choice(len);
    let before = in_use();
    let cur0 = h.0.cur.get();
    // each thread's clock advances by its own amount, one in each call
    let t = kind(choice(2));
    const STEPS: [(u64, u64); 4] = [(0, 1000), (0, 999_999_999), (1, 500_000_000), (4_000_000_000, 7)];
    let a = STEPS[choice(4) as usize];
    let total = AtomicU64::new(0);
    thread_local! { static MINE: Cell<(u64, u64)> = const { Cell::new((0, 0)) }; }
    clock(5000, 0);
    let alg = |i: u32| {
        called(i as u64);
        if i as u64 == busy {
            let h = &h;
            h.0.start();
            let mut k = 0;
            while k < param(3) { h.0.step(); k += 1; }
        }
        // thread clocks: as far apart as the elements
        let (s, n) = MINE.get();
        let w = if i % 3 == 0 { a } else { (a.0 / 2, a.1 / 2) };
        let n = n + w.1;
        let now = (s + w.0 + n / 1_000_000_000, n % 1_000_000_000);
        MINE.set(now);
        total.fetch_add(w.0 * 1_000_000_000 + w.1, SeqCst);
        clock(5000 + now.0, now.1);
        i
    };
    let r = if param(4) == 1 { len as u32..0 } else { 0..len as u32 };
    let (p, _) = run_iterator_pass(&alg, &t, r, threads as u32);
    let m = p.space_measurements;
    let h = &h.0;
    check(near(m.used_memory_before as u64, before), 1520);
    check(near(m.used_memory_after as u64, before + h.cur.get() - cur0), 1521);
    check(near(m.min_used_memory as u64, before + h.min.get() - cur0), 1522);
    check(near(m.max_used_memory as u64, before + h.max.get() - cur0), 1523);
    check((m.min_used_memory <= m.used_memory_before) & (m.min_used_memory <= m.used_memory_after), 1524);
    check((m.max_used_memory >= m.used_memory_before) & (m.max_used_memory >= m.used_memory_after), 1525);
    let expected = total.load(SeqCst) / threads;
    let got = p.time_measurements.as_nanos() as u64;
    // doubles keep nine digits of these seconds at least
    let eps = 3 + expected / 1_000_000_000_000;
    check(got <= expected + eps && expected <= got + eps, 1526);
    check(CALLS.n.load(SeqCst) == len, 1527);
    log(got);
    reach(0);
}

//! C18, C22: the regular runner
use crate::intr::*;
use crate::verdict::*;
use big_o_test::test_algorithm;
use big_o_test::BigOAlgorithmComplexity as C;
use std::alloc::Layout;
use std::cell::Cell;

pub fn class(r: u64) -> C {
    match r {
        0 => C::BetterThanO1,
        1 => C::O1,
        2 => C::BetweenO1AndOLogN,
        3 => C::OLogN,
        4 => C::BetweenOLogNAndON,
        5 => C::ON,
        6 => C::BetweenONAndONLogN,
        7 => C::ONLogN,
        8 => C::BetweenONLogNAndON2,
        9 => C::ON2,
        10 => C::BetweenON2AndON3,
        11 => C::ON3,
        12 => C::BetweenON3AndON4,
        13 => C::ON4,
        14 => C::BetweenON4AndOkN,
        15 => C::OkN,
        _ => C::WorseThanExponential,
    }
}

/// one of the classes in the mask
pub fn pick(mask: u64) -> u64 {
    let mut k = choice(mask.count_ones() as u64);
    let mut r = 0;
    loop {
        if mask >> r & 1 == 1 {
            if k == 0 { return r; }
            k -= 1;
        }
        r += 1;
    }
}

/// is a usage of u2 after u1 beyond the limit of rank r? (usages on which rounding decides are left out)
pub fn excess(r: u64, u1: f64, u2: f64, n1: u32, n2: u32) -> bool {
    if r >= 16 { return false; }
    if u1 == 0.0 { return r == 0 || u2 > 0.0; }
    // the smallest class that explains the usage is what gets reported
    let mut b = u1 * (1.0 - TOL);
    let mut k = 1;
    while k <= r {
        let x = if k % 2 == 1 { prediction(k, u1, n1, n2) * (1.0 + TOL) } else { prediction(k + 1, u1, n1, n2) * (1.0 - TOL) };
        b = b.max(x);
        k += 1;
    }
    if u2 > b * (1.0 + EPS) { return true; }
    assume(u2 < b * (1.0 - EPS));
    false
}

/// uses `n` bytes of memory for a while
pub fn use_memory(n: u64) {
    if n > 0 {
        unsafe {
            let l = Layout::from_size_align_unchecked(n as usize, 8);
            let p = std::alloc::alloc(l);
            std::alloc::dealloc(std::hint::black_box(p), l);
        }
    }
}

/// how one resource behaves in the passes of a test
#[derive(Clone, Copy)]
pub struct Use { pub u1: u64, pub cap: u64 }

/// an attempt of a test, as its closures see it
pub struct Attempts {
    pub t: Use,
    pub s: Use,
    pub n1: u32,
    pub n2: u32,
    pub tl: u64,
    pub sl: u64,
    pub allowed: u64,
    /// number of attempts started
    pub n: Cell<u64>,
    /// 0: nothing decided, 1: accepted, 2: rejected for good
    pub outcome: Cell<u64>,
    pub base: Cell<u64>,
    free: Cell<bool>,
    late: u64,
    /// time and space of pass 2
    pub last: Cell<(f64, f64)>,
}

pub const STEADY: u64 = 1 << 60;
const GIGA: u64 = 1_000_000_000;

impl Attempts {
    pub fn new(p: usize, allowed: u64) -> Self {
        let p = p as u64;
        // `STEADY`: pass 2 takes far too long in each attempt up to some one
        let late = if param(p + 3) == STEADY { choice(allowed + 1) } else { 0 };
        Attempts {
            late,
            n1: param(p) as u32, n2: param(p + 1) as u32, t: Use { u1: param(p + 2), cap: param(p + 3) }, s: Use { u1: param(p + 4), cap: param(p + 5) },
            tl: pick(param(p + 6)), sl: pick(param(p + 7)), allowed,
            n: Cell::new(0), outcome: Cell::new(0), base: Cell::new(1000), free: Cell::new(true), last: Cell::new((0.0, 0.0)),
        }
    }
    /// a check that does not count where rounding decides
    fn must(&self, c: bool, tag: u64) {
        if !c {
            let (t, s) = self.last.get();
            if self.t.cap > 0 && t > 0.0 && self.t.u1 > 0 { off_borders(15, self.t.u1 as f64 / 1e9, t, self.n1, self.n2); }
            if self.s.cap > 0 && s > 0.0 && self.s.u1 > 0 { off_borders(15, self.s.u1 as f64, s, self.n1, self.n2); }
        }
        check(c, tag);
    }
    pub fn begin(&self, tag: u64) { self.start(true, tag) }
    /// `free`: in a step that is not measured (otherwise all times are in whole seconds)
    pub fn start(&self, free: bool, tag: u64) {
        self.must(self.outcome.get() == 0, tag);
        self.n.set(self.n.get() + 1);
        check(self.n.get() <= self.allowed, tag + 1);
        self.free.set(free);
        if !free {
            if self.n.get() == 1 { self.base.set(1000); }
            return;
        }
        self.base.set(self.base.get() + (1 << 42));
        // whatever happens here is not to be measured
        use_memory(123_456_789 * self.n.get());
        clock(self.base.get(), 0);
    }
    pub fn pass1(&self) {
        use_memory(self.s.u1);
        clock(self.base.get() + self.t.u1 / GIGA, self.t.u1 % GIGA);
    }
    pub fn pass2(&self) {
        let (s, ns) = if self.t.cap == STEADY { (if self.n.get() <= self.late { 1000 } else { 1 }, 0) } else if self.t.cap == 0 { (0, self.t.u1) } else { (range(0, self.t.cap), if self.free.get() { range(0, GIGA - 1 - self.t.u1 % GIGA) } else { 0 }) };
        // (amounts comparable to what the texts take would only multiply the paths)
        let m = if self.s.cap == 0 { self.s.u1 } else if self.s.cap < 1 << 20 { range(0, self.s.cap) } else { range(1 << 16, self.s.cap) };
        let u1 = self.t.u1 as f64 / 1e9;
        let u2 = if self.t.cap == 0 { u1 } else { s as f64 + ns as u32 as f64 / 1e9 };
        self.last.set((u2, m as f64));
        let bad_time = excess(self.tl, u1, u2, self.n1, self.n2);
        let bad_space = excess(self.sl, self.s.u1 as f64, m as f64, self.n1, self.n2);
        if bad_space {
            self.outcome.set(2);
        } else if !bad_time {
            self.outcome.set(1);
        } else if self.n.get() == self.allowed {
            self.outcome.set(2);
        }
        log((bad_time as u64) * 2 + bad_space as u64);
        use_memory(m);
        if self.t.cap == 0 {
            let t = 2 * self.t.u1;
            clock(self.base.get() + t / GIGA, t % GIGA);
        } else {
            clock(self.base.get() + self.t.u1 / GIGA + s, self.t.u1 % GIGA + ns);
        }
        if !self.free.get() { self.base.set(self.base.get() + if self.t.cap == 0 { 2 } else { 1 } * (self.t.u1 / GIGA) + s); }
    }
    pub fn end(&self, panicked: bool, tag: u64) {
        log(panicked as u64);
        reach(if panicked { 10 } else { 11 });
        reach(self.n.get());
        self.must(self.outcome.get() != 0, tag);
        self.must(panicked == (self.outcome.get() == 2), tag + 1);
    }
}

/// C18: params: max retries, real formatting of the reports; then as in Attempts::new
#[no_mangle]
pub extern "C-unwind" fn h_c18() {
    let retries = choice(param(0) + 1);
    nofmt(param(1) == 0);
    let a = Attempts::new(2, retries + 1);
    let phase = Cell::new(0);
    let p = panics(|| {
        test_algorithm("x", retries as u32,
            || {
                check(phase.get() == 0, 1800);
                phase.set(1);
                a.begin(1804);
            },
            a.n1,
            || {
                check(phase.get() == 1, 1801);
                phase.set(2);
                a.pass1();
                1
            },
            a.n2,
            || {
                check(phase.get() == 2, 1802);
                phase.set(0);
                a.pass2();
                2
            },
            class(a.tl), class(a.sl));
    });
    check(phase.get() == 0, 1803);
    a.end(p, 1806);
}

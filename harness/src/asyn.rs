//! C19: the asynchronous builder
use crate::intr::*;
use crate::measurers::G;
use crate::passes::Shared;
use crate::runners::{class, use_memory, Attempts};
use big_o_test::RegularAsyncAnalyzerBuilder;
use std::cell::{Cell, UnsafeCell};

/// what the steps of a test hand over
#[derive(Debug)]
pub struct Data(u64);

const NOTHING: u64 = 0;
struct Run {
    a: Attempts,
    reset: bool, warmup: bool, first: bool, second: bool,
    /// the step that comes next: 0 reset, 1 warm-up, 2 reset, 3 pass 1, 4 assertion, 5 reset, 6 pass 2, 7 assertion
    next: Cell<u64>,
    /// the data of the step before, and that of the attempt before
    data: Cell<u64>,
    old: Cell<u64>,
    made: Cell<u64>,
    busy: Cell<bool>,
}
static RUN: G<Option<Shared<Run>>> = G(UnsafeCell::new(None));
fn run() -> &'static Run { unsafe { &(*RUN.0.get()).as_ref().unwrap().0 } }

impl Run {
    fn on(&self, step: u64) -> bool {
        match step {
            0 | 5 => self.reset,
            1 => self.warmup,
            2 => self.reset && self.warmup,
            4 => self.first,
            7 => self.second,
            _ => true,
        }
    }
    fn skip(&self) {
        while self.next.get() < 8 && !self.on(self.next.get()) { self.next.set(self.next.get() + 1); }
    }
    /// the step called is this one (or, for resets, any of these), and it received that
    fn step(&self, steps: u64, got: u64, tag: u64) -> u64 {
        check(!self.busy.get(), tag);
        self.skip();
        if self.next.get() >= 8 {
            self.next.set(0);
            self.old.set(self.data.get());
            self.data.set(NOTHING);
        }
        self.skip();
        let s = self.next.get();
        check(steps >> s & 1 == 1, tag + 1);
        if self.data.get() == NOTHING {
            // the first step of an attempt: what it receives is what was left by the attempt before, if anything
            check(got == NOTHING || got == self.old.get(), tag + 2);
            if s == 0 { check(got == self.old.get(), tag + 3); }
            self.a.start(s != 3, 1900);
        } else if s == 2 {
            check(got == NOTHING || got == self.data.get(), tag + 4);
        } else {
            check(got == self.data.get(), tag + 5);
        }
        self.busy.set(true);
        s
    }
    fn finish(&self, s: u64, makes: bool) -> Data {
        self.busy.set(false);
        if makes {
            self.made.set(self.made.get() + 1);
            self.data.set(self.made.get());
        }
        self.next.set(s + 1);
        Data(self.data.get())
    }
}

fn id(d: &Option<Data>) -> u64 { match d { Some(d) => d.0, None => NOTHING } }

/// C19: params: max reattempts (1000: not given), 0 or bits: 1 reset, 2 warm-up, 4 and 8 assertions (1000: any), steps pending at first; then as in Attempts::new, with limit 17 for none
#[no_mangle]
pub extern "C-unwind" fn h_c19() {
    nofmt(true);
    let retries = if param(0) == 1000 { 0 } else { choice(param(0) + 1) };
    let parts = if param(1) == 1000 { choice(16) } else { param(1) };
    let waits = param(2) as u32;
    let a = Attempts::new(3, retries + 1);
    let (n1, n2, tl, sl) = (a.n1, a.n2, a.tl, a.sl);
    let r = Run { a, reset: parts & 1 != 0, warmup: parts & 2 != 0, first: parts & 4 != 0, second: parts & 8 != 0, next: Cell::new(0), data: Cell::new(NOTHING), old: Cell::new(NOTHING),
        made: Cell::new(NOTHING), busy: Cell::new(false) };
    unsafe { *RUN.0.get() = Some(Shared(r)); }
    let wait = move || YieldOnce(waits == 0, 7);
    let p = panics(|| {
        let mut b = RegularAsyncAnalyzerBuilder::new("x");
        if param(0) != 1000 { b = b.with_max_reattempts(retries as u32); }
        if parts & 1 != 0 {
            b = b.with_reset_fn(move |d: Option<Data>| async move {
                let s = run().step(0b100101, id(&d), 1910);
                wait().await;
                use_memory(777_777_777);
                run().finish(s, true)
            });
        }
        if parts & 2 != 0 {
            b = b.warmup_pass(move |d: Option<Data>| async move {
                let s = run().step(0b10, id(&d), 1920);
                wait().await;
                use_memory(888_888_888);
                run().finish(s, true)
            });
        }
        if parts & 4 != 0 {
            b = b.first_pass_assertion(move |d: &Data| {
                let s = run().step(0b10000, d.0, 1930);
                run().finish(s, false);
                async move { wait().await; }
            });
        }
        if parts & 8 != 0 {
            b = b.second_pass_assertion(move |d: &Data| {
                let s = run().step(0b10000000, d.0, 1940);
                run().finish(s, false);
                async move { wait().await; }
            });
        }
        if tl != 17 { b = b.with_time_measurements(class(tl)); }
        if sl != 17 { b = b.with_space_measurements(class(sl)); }
        let b = b
            .first_pass(n1, move |d: Option<Data>| async move {
                let s = run().step(0b1000, id(&d), 1950);
                wait().await;
                run().a.pass1();
                run().finish(s, true)
            })
            .second_pass(n2, move |d: Option<Data>| async move {
                let s = run().step(0b1000000, id(&d), 1960);
                wait().await;
                run().a.pass2();
                run().finish(s, true)
            });
        block_on(b.test_algorithm());
    });
    let r = run();
    check(!r.busy.get(), 1970);
    r.skip();
    check(r.next.get() == 8, 1971);
    r.a.end(p, 1906);
}

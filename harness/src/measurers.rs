//! C23: custom measurements
use crate::intr::*;
use crate::runners::class;
use big_o_test::verif_hooks::measurer::*;
use big_o_test::verif_hooks::presentable_measurements::*;
use std::cell::UnsafeCell;

const MAX: usize = 8;
/// what the measurers saw
struct Seen {
    /// measurers called before and after the event, in order
    before: [u64; 64], nb: usize,
    after: [u64; 64], na: usize,
    /// what each one read before the event, and whether that is still to be handed over
    value: [u64; MAX], open: [bool; MAX],
    n: usize,
    data: Option<u64>,
    busy: bool,
}
pub struct G<T>(pub UnsafeCell<T>);
unsafe impl<T> Sync for G<T> {}
static SEEN: G<Seen> = G(UnsafeCell::new(Seen { before: [0; 64], nb: 0, after: [0; 64], na: 0, value: [0; MAX], open: [false; MAX], n: 0, data: None, busy: false }));
fn seen() -> &'static mut Seen { unsafe { &mut *SEEN.0.get() } }

fn before(i: usize, d: Option<&u64>) -> u64 {
    let s = seen();
    check(!s.busy, 2300);
    check(d.copied() == s.data, 2301);
    check(!s.open[i], 2302);
    check(s.nb + 1 + i == s.n, 2303);
    s.before[s.nb] = i as u64;
    s.nb += 1;
    s.open[i] = true;
    s.value[i] = u64_();
    s.value[i]
}
fn after(i: usize, d: Option<&u64>, v: u64) {
    let s = seen();
    check(!s.busy, 2304);
    check(d.copied() == s.data, 2305);
    check(s.open[i], 2306);
    check(v == s.value[i], 2307);
    check(s.nb == s.n && s.na == i, 2308);
    s.open[i] = false;
    s.after[s.na] = i as u64;
    s.na += 1;
}

/// a reading that is pending for a while
struct Later<T>(u64, Option<T>);
impl<T: Unpin> std::future::Future for Later<T> {
    type Output = T;
    fn poll(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<T> {
        if self.0 > 0 {
            self.0 -= 1;
            seen().busy = true;
            return std::task::Poll::Pending;
        }
        seen().busy = false;
        std::task::Poll::Ready(self.1.take().unwrap())
    }
}
unsafe impl<T> Send for Later<T> {}

const NAMED: [&str; MAX] = ["a", "bb", "a", "a", "", "", "gg", "h"];
const TOLD: [&str; MAX] = ["first", "", "first", "4", "", "6", "7", "first"];

fn add(v: &mut Vec<Box<dyn CustomMeasurerExecutor<u64> + Send>>, i: usize, rank: u64, wait: u64) {
    let out = move || bytes_measurement((i + 1) as f64);
    if i % 2 == 0 {
        v.push(Box::new(CustomMeasurer::new(NAMED[i], class(rank), TOLD[i],
            move |d: Option<&u64>| Later(wait & 1, Some(before(i, d))),
            move |d: Option<&u64>, x: u64| { after(i, d, x); Later(wait >> 1, Some(out())) })));
    } else {
        // a reading that lives elsewhere
        v.push(Box::new(CustomMeasurer::new(String::from(NAMED[i]), class(rank), String::from(TOLD[i]),
            move |d: Option<&u64>| Later(wait & 1, Some(Box::new((i, before(i, d))))),
            move |d: Option<&u64>, x: Box<(usize, u64)>| { check(x.0 == i, 2309); after(i, d, x.1); Later(wait >> 1, Some(out())) })));
    }
}

/// C23: params: measurers, events
#[no_mangle]
pub extern "C-unwind" fn h_c23() {
    let n = choice(param(0) + 1) as usize;
    let mut v = Vec::new();
    let r0 = if param(1) == 1 { range(0, 16) } else { 14 };
    let wait = if n > 0 { choice(4) } else { 0 };
    let mut i = 0;
    while i < n {
        // all classes are told apart from their neighbours
        add(&mut v, i, rank(r0, i), if i % 2 == 0 { wait } else { 3 - wait });
        i += 1;
    }
    seen().n = n;
    let mut e = 0;
    while e < param(1) {
        let s = seen();
        s.nb = 0;
        s.na = 0;
        let d = u64_();
        s.data = if choice(2) == 1 { Some(d) } else { None };
        block_on(measure_all_before_event(if s.data.is_some() { Some(&d) } else { None }, &mut v));
        check(s.nb == n && s.na == 0, 2310);
        // the data may have changed by then
        let d = u64_();
        s.data = if choice(2) == 1 { Some(d) } else { None };
        let m = block_on(measure_all_after_event(if s.data.is_some() { Some(&d) } else { None }, &mut v));
        check(s.nb == n && s.na == n, 2311);
        check(m.len() == n, 2312);
        i = 0;
        while i < n {
            check(m[i].name == NAMED[i], 2313);
            check(m[i].description == TOLD[i], 2314);
            check(m[i].expected_complexity == class(rank(r0, i)), 2315);
            check(m[i].measured_data.to_string() == bytes_measurement((i + 1) as f64).to_string(), 2316);
            i += 1;
        }
        e += 1;
    }
    log(n as u64);
    reach(n as u64);
}

fn rank(r0: u64, i: usize) -> u64 {
    let k = r0 + i as u64;
    select(k > 16, k.wrapping_sub(17), k)
}

//! The symbolic executor provides these when a harness is decided; `main.rs` provides them when a path is replayed.
extern "C" {
    pub fn lsym_u64() -> u64;
    pub fn lsym_u32() -> u32;
    pub fn lsym_u8() -> u8;
    pub fn lsym_bool() -> u8;
    pub fn lsym_range(lo: u64, hi: u64) -> u64;
    pub fn lsym_choice(n: u64) -> u64;
    pub fn lsym_param(i: u64) -> u64;
    pub fn lsym_assume(c: u64);
    pub fn lsym_assert(c: u64, tag: u64);
    pub fn lsym_log(v: u64);
    pub fn lsym_reach(k: u64);
    pub fn lsym_clock(sec: u64, nsec: u64);
    pub fn lsym_fail_next(b: u64);
    pub fn lsym_syslog(on: u64);
    pub fn lsym_sys_n() -> u64;
    pub fn lsym_sys_get(i: u64, field: u64) -> u64;
    pub fn lsym_sched(m: u64);
    pub fn lsym_tid() -> u64;
    pub fn lsym_select(c: u64, a: u64, b: u64) -> u64;
    pub fn lsym_num(p: *const u8, n: u64) -> f64;
    pub fn lsym_f64() -> f64;
    pub fn lsym_int(p: *const u8, n: u64) -> u64;
    pub fn lsym_exact(p: *const u8, n: u64) -> u64;
    pub fn lsym_done();
    pub fn lsym_park();
    pub fn lsym_nofmt(on: u64);
    pub fn lsym_try(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> u64;
}

pub fn u64_() -> u64 { unsafe { lsym_u64() } }
pub fn u32_() -> u32 { unsafe { lsym_u32() } }
pub fn bool_() -> bool { unsafe { lsym_bool() != 0 } }
/// 0 or 1, symbolic, without branching on it
pub fn bit() -> u64 { unsafe { lsym_bool() as u64 } }
pub fn range(lo: u64, hi: u64) -> u64 { unsafe { lsym_range(lo, hi) } }
pub fn choice(n: u64) -> u64 { unsafe { lsym_choice(n) } }
pub fn param(i: u64) -> u64 { unsafe { lsym_param(i) } }
pub fn assume(c: bool) { unsafe { lsym_assume(c as u64) } }
pub fn check(c: bool, tag: u64) { unsafe { lsym_assert(c as u64, tag) } }
pub fn log(v: u64) { unsafe { lsym_log(v) } }
pub fn reach(k: u64) { unsafe { lsym_reach(k) } }
pub fn clock(sec: u64, nsec: u64) { unsafe { lsym_clock(sec, nsec) } }
pub fn fail_next(b: u64) { unsafe { lsym_fail_next(b) } }
pub fn syslog(on: bool) { unsafe { lsym_syslog(on as u64) } }
pub fn sys_n() -> u64 { unsafe { lsym_sys_n() } }
pub fn sys_get(i: u64, f: u64) -> u64 { unsafe { lsym_sys_get(i, f) } }
pub fn sched(m: u64) { unsafe { lsym_sched(m) } }
pub fn tid() -> u64 { unsafe { lsym_tid() } }

/// texts are left empty when a harness is decided (they are real when it is replayed)
pub fn nofmt(on: bool) { unsafe { lsym_nofmt(on as u64) } }
#[no_mangle]
pub extern "C" fn lsym_empty_string(out: *mut String) { unsafe { out.write(String::new()) } }

/// the number a text starts with
pub fn num(t: &str) -> f64 { unsafe { lsym_num(t.as_ptr(), t.len() as u64) } }
/// the whole number a text starts with (u64::MAX: none)
pub fn int(t: &str) -> u64 { unsafe { lsym_int(t.as_ptr(), t.len() as u64) } }
/// does `num` give the value printed, not only what its text shows of it?
pub fn exact(t: &str) -> bool { unsafe { lsym_exact(t.as_ptr(), t.len() as u64) != 0 } }
/// any non-negative finite number
pub fn f64_() -> f64 { unsafe { lsym_f64() } }

/// without branching
pub fn select(c: bool, a: u64, b: u64) -> u64 { unsafe { lsym_select(c as u64, a, b) } }

/// runs `f`, returning true if it panicked
pub fn panics<F: FnMut()>(mut f: F) -> bool {
    extern "C-unwind" fn run<F: FnMut()>(p: *mut u8) {
        let f = unsafe { &mut *(p as *mut F) };
        f()
    }
    unsafe { lsym_try(run::<F>, &mut f as *mut F as *mut u8) != 0 }
}

/// ends the path: everything checked so far held
pub fn done() { unsafe { lsym_done() } }
/// the thread does not go on
pub fn park() { unsafe { lsym_park() } }

/// runs a future to its end
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    use std::task::*;
    fn clone(_: *const ()) -> RawWaker { RawWaker::new(core::ptr::null(), &VT) }
    fn nop(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
    let w = unsafe { Waker::from_raw(RawWaker::new(core::ptr::null(), &VT)) };
    let mut cx = Context::from_waker(&w);
    let mut f = f;
    let mut f = unsafe { std::pin::Pin::new_unchecked(&mut f) };
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) { return x; }
    }
}

/// a future that is pending once
pub struct YieldOnce<T>(pub bool, pub T);
impl<T: Copy> std::future::Future for YieldOnce<T> {
    type Output = T;
    fn poll(self: std::pin::Pin<&mut Self>, _cx: &mut std::task::Context<'_>) -> std::task::Poll<T> {
        let me = unsafe { self.get_unchecked_mut() };
        if me.0 { std::task::Poll::Ready(me.1) } else { me.0 = true; std::task::Poll::Pending }
    }
}

extern "C" {
    pub fn lsym_par(n: u64, f: extern "C-unwind" fn(u64, *mut u8), data: *mut u8, mode: u64) -> u64;
    pub fn lsym_out(slot: u64, v: u64);
    pub fn lsym_get(tid: u64, slot: u64) -> u64;
    pub fn lsym_private(p: *const u8);
    pub fn lsym_shared(p: *const u8, n: u64);
    pub fn lsym_watch(p: *const u8);
    pub fn lsym_hist(p: *const u8, hi: u64) -> u64;
}

/// runs `f(0)` .. `f(n - 1)` in threads of their own, in any interleaving; returns which of them panicked
pub fn par<F: Fn(u64)>(n: u64, mode: u64, f: F) -> u64 {
    extern "C-unwind" fn run<F: Fn(u64)>(t: u64, p: *mut u8) {
        let f = unsafe { &*(p as *const F) };
        f(t)
    }
    unsafe { lsym_par(n, run::<F>, &f as *const F as *mut u8, mode) }
}
/// what a thread reports
pub fn out(slot: u64, v: u64) { unsafe { lsym_out(slot, v) } }
/// what thread `t` reported
pub fn get(t: u64, slot: u64) -> u64 { unsafe { lsym_get(t, slot) } }
/// the threads share this
pub fn shared<T>(x: &T) { unsafe { lsym_shared(x as *const T as *const u8, core::mem::size_of::<T>() as u64) } }
/// the threads' accesses to this do not matter
pub fn private<T>(x: &T) { unsafe { lsym_private(x as *const T as *const u8) } }

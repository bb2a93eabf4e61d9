//! Replays one path of one harness natively: argv = harness name, file with "P <param>" and "I <input>" lines.
#![allow(clippy::missing_safety_doc)]
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};

extern "C" {
    fn __libc_malloc(n: usize) -> *mut u8;
    fn __libc_calloc(n: usize, m: usize) -> *mut u8;
    fn __libc_realloc(p: *mut u8, n: usize) -> *mut u8;
    fn __libc_memalign(a: usize, n: usize) -> *mut u8;
    fn __libc_free(p: *mut u8);
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
    fn gettid() -> i32;
    fn usleep(us: u32) -> i32;
}

struct G<T>(UnsafeCell<T>);
unsafe impl<T> Sync for G<T> {}
static INPUTS: G<[u64; 4096]> = G(UnsafeCell::new([0; 4096]));
static NIN: AtomicUsize = AtomicUsize::new(0);
static POS: AtomicUsize = AtomicUsize::new(0);
static PARAMS: G<[u64; 16]> = G(UnsafeCell::new([0; 16]));
static SYS: G<[[u64; 6]; 64]> = G(UnsafeCell::new([[0; 6]; 64]));
static NSYS: AtomicUsize = AtomicUsize::new(0);
static SYSON: AtomicBool = AtomicBool::new(false);
static FAIL: AtomicBool = AtomicBool::new(false);
static SEC: AtomicU64 = AtomicU64::new(1000);
static NSEC: AtomicU64 = AtomicU64::new(0);
static VIRT: AtomicBool = AtomicBool::new(false);

fn out(s: &str) { unsafe { write(1, s.as_ptr(), s.len()); } }
fn outn(tag: &str, v: u64) {
    let mut b = [0u8; 64];
    let mut i = 63;
    b[i] = b'\n';
    let mut x = v;
    loop { i -= 1; b[i] = b'0' + (x % 10) as u8; x /= 10; if x == 0 { break; } }
    i -= 1;
    b[i] = b' ';
    out(tag);
    unsafe { write(1, b[i..].as_ptr(), 64 - i); }
}
fn next() -> u64 {
    let i = POS.fetch_add(1, SeqCst);
    if i >= NIN.load(SeqCst) {
        out("\nNOINPUT\n");
        unsafe { _exit(3) }
    }
    unsafe { (*INPUTS.0.get())[i] }
}
#[no_mangle] pub extern "C" fn lsym_u64() -> u64 { next() }
#[no_mangle] pub extern "C" fn lsym_u32() -> u32 { next() as u32 }
#[no_mangle] pub extern "C" fn lsym_u8() -> u8 { next() as u8 }
#[no_mangle] pub extern "C" fn lsym_bool() -> u8 { next() as u8 }
#[no_mangle] pub extern "C" fn lsym_range(lo: u64, hi: u64) -> u64 {
    let v = next();
    if v < lo || v > hi { out("\nOUTOFRANGE\n"); unsafe { _exit(3) } }
    v
}
#[no_mangle] pub extern "C" fn lsym_f64() -> f64 {
    let v = f64::from_bits(next());
    if !v.is_finite() || v.is_sign_negative() { out("\nOUTOFRANGE\n"); unsafe { _exit(3) } }
    v
}
#[no_mangle] pub extern "C" fn lsym_exact(_p: *const u8, _n: u64) -> u64 { 0 }
#[no_mangle] pub unsafe extern "C" fn lsym_num(p: *const u8, n: u64) -> f64 {
    let b = std::slice::from_raw_parts(p, n as usize);
    let mut k = 0;
    while k < b.len() && (b[k].is_ascii_digit() || b[k] == b'.' || b[k] == b'-' && (k == 0 || b[k - 1] == b'e') || b[k] == b'e' && k + 1 < b.len() && (b[k + 1].is_ascii_digit() || b[k + 1] == b'-')) { k += 1; }
    match std::str::from_utf8_unchecked(&b[..k]).parse() { Ok(v) => v, Err(_) => { out("\nNONUMBER\n"); _exit(1) } }
}
#[no_mangle] pub unsafe extern "C" fn lsym_int(p: *const u8, n: u64) -> u64 {
    let b = std::slice::from_raw_parts(p, n as usize);
    let mut k = 0;
    while k < b.len() && b[k].is_ascii_digit() { k += 1; }
    std::str::from_utf8_unchecked(&b[..k]).parse().unwrap_or(u64::MAX)
}
#[no_mangle] pub extern "C" fn lsym_choice(_n: u64) -> u64 { next() }
#[no_mangle] pub extern "C" fn lsym_param(i: u64) -> u64 { unsafe { (*PARAMS.0.get())[i as usize] } }
#[no_mangle] pub extern "C" fn lsym_assume(c: u64) { if c == 0 { out("\nASSUME\n"); unsafe { _exit(3) } } }
#[no_mangle] pub extern "C" fn lsym_assert(c: u64, tag: u64) { if c == 0 { outn("\nASSERT", tag); unsafe { _exit(1) } } }
#[no_mangle] pub extern "C" fn lsym_select(c: u64, a: u64, b: u64) -> u64 { if c != 0 { a } else { b } }
#[no_mangle] pub extern "C" fn lsym_log(v: u64) { outn("\nLOG", v) }
#[no_mangle] pub extern "C" fn lsym_reach(_k: u64) {}
#[no_mangle] pub extern "C" fn lsym_clock(s: u64, n: u64) { if MAIN.load(SeqCst) != lsym_tid() { OWN.set((true, s, n)); return; } SEC.store(s, SeqCst); NSEC.store(n, SeqCst); VIRT.store(true, SeqCst); }
#[no_mangle] pub extern "C" fn lsym_fail_next(b: u64) { FAIL.store(b != 0, SeqCst) }
#[no_mangle] pub extern "C" fn lsym_syslog(on: u64) { if on != 0 { NSYS.store(0, SeqCst) } SYSON.store(on != 0, SeqCst) }
#[no_mangle] pub extern "C" fn lsym_sys_n() -> u64 { NSYS.load(SeqCst) as u64 }
#[no_mangle] pub extern "C" fn lsym_sys_get(i: u64, f: u64) -> u64 { unsafe { (*SYS.0.get())[i as usize][f as usize] } }
#[no_mangle] pub extern "C" fn lsym_sched(_m: u64) {}
#[no_mangle] pub extern "C" fn lsym_done() { out("\nOK\n"); unsafe { _exit(0) } }
#[no_mangle] pub extern "C" fn lsym_park() { unsafe { usleep(3_000_000); _exit(0) } }
#[no_mangle] pub extern "C" fn lsym_nofmt(_on: u64) {}
#[no_mangle] pub extern "C" fn lsym_tid() -> u64 { unsafe { gettid() as u64 } }
#[no_mangle] pub extern "C" fn lsym_try(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u64 {


    let r = std::panic::catch_unwind(move || f(d));
    r.is_err() as u64
}

fn sys(op: u64, p: u64, n: u64, al: u64, x: u64, r: u64) {
    if SYSON.load(SeqCst) {
        let i = NSYS.fetch_add(1, SeqCst);
        if i < 64 { unsafe { (*SYS.0.get())[i] = [op, p, n, al, x, r]; } }
    }
}
const BIG: usize = 1 << 26;
fn cap(n: usize) -> usize { if n > BIG { 64 } else { n } }
fn failing() -> bool { FAIL.swap(false, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn malloc(n: usize) -> *mut u8 {
    let p = if failing() { std::ptr::null_mut() } else { __libc_malloc(cap(n)) };
    sys(1, 0, n as u64, 0, 0, p as u64);
    p
}
#[no_mangle] pub unsafe extern "C" fn calloc(n: usize, m: usize) -> *mut u8 {
    let t = n.wrapping_mul(m);
    let p = if failing() { std::ptr::null_mut() } else { __libc_calloc(1, cap(t)) };
    sys(2, 0, t as u64, 0, 0, p as u64);
    p
}
#[no_mangle] pub unsafe extern "C" fn realloc(q: *mut u8, n: usize) -> *mut u8 {
    let p = if failing() { std::ptr::null_mut() } else { __libc_realloc(q, cap(n)) };
    sys(3, q as u64, n as u64, 0, 0, p as u64);
    p
}
#[no_mangle] pub unsafe extern "C" fn posix_memalign(o: *mut *mut u8, a: usize, n: usize) -> i32 {
    let p = if failing() { std::ptr::null_mut() } else { __libc_memalign(a, cap(n)) };
    sys(4, 0, n as u64, a as u64, 0, p as u64);
    if p.is_null() { return 12; }
    *o = p;
    0
}
#[no_mangle] pub unsafe extern "C" fn free(p: *mut u8) { sys(5, p as u64, 0, 0, 0, 0); __libc_free(p) }
// a copy between two of the blocks whose size is only pretended must not touch what is not there
// a spawned thread has a clock of its own once it has set it
static MAIN: AtomicU64 = AtomicU64::new(0);
thread_local! { static OWN: std::cell::Cell<(bool, u64, u64)> = const { std::cell::Cell::new((false, 0, 0)) }; }
#[repr(C)] pub struct Ts { s: i64, n: i64 }
#[no_mangle] pub unsafe extern "C" fn clock_gettime(_c: i32, t: *mut Ts) -> i32 { let (own, s, n) = OWN.get(); (*t).s = if own { s } else { SEC.load(SeqCst) } as i64; (*t).n = if own { n } else { NSEC.load(SeqCst) } as i64; 0 }
#[no_mangle] pub unsafe extern "C" fn nanosleep(_a: *const Ts, _b: *mut Ts) -> i32 { 0 }
#[no_mangle] pub unsafe extern "C" fn clock_nanosleep(_c: i32, _f: i32, _a: *const Ts, _b: *mut Ts) -> i32 { 0 }

include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/names.rs"));

fn main() {
    MAIN.store(lsym_tid(), SeqCst);
    std::panic::set_hook(Box::new(|i| { if let Some(l) = i.location() { out("\nPANIC "); out(l.file()); outn("", l.line() as u64); } }));
    let a: Vec<String> = std::env::args().collect();
    let txt = std::fs::read_to_string(&a[2]).unwrap();
    let mut np = 0;
    let mut ni = 0;
    for l in txt.lines() {
        let mut w = l.split_whitespace();
        match (w.next(), w.next()) {
            (Some("P"), Some(v)) => { unsafe { (*PARAMS.0.get())[np] = v.parse().unwrap(); } np += 1; }
            (Some("I"), Some(v)) => { unsafe { (*INPUTS.0.get())[ni] = v.parse().unwrap(); } ni += 1; }
            _ => {}
        }
    }
    drop(txt);
    #[cfg(lsym_par)]
    unsafe { let mut p = a[2].clone(); p.push('\0'); lsym_load_schedule(p.as_ptr()); }
    NIN.store(ni, SeqCst);
    let f = NAMES.iter().find(|x| x.0 == a[1]).unwrap().1;
    if lsym_try(unsafe { std::mem::transmute::<extern "C-unwind" fn(), extern "C-unwind" fn(*mut u8)>(f) }, std::ptr::null_mut()) != 0 {
        out("\nESCAPED\n");
        unsafe { _exit(2) }
    }
    out("\nOK\n");
    unsafe { _exit(0) }
}

#[cfg(lsym_par)]
extern "C" { fn lsym_load_schedule(p: *const u8); }
/// one of the threads of `lsym_par`
#[cfg(lsym_par)]
#[no_mangle] pub extern "C" fn lsym_thread(f: extern "C-unwind" fn(u64, *mut u8), t: u64, d: *mut u8) -> u64 {
    std::panic::catch_unwind(move || f(t, d)).is_err() as u64
}
#[cfg(not(lsym_par))]
mod nopar {
    #[no_mangle] pub extern "C" fn lsym_par(_n: u64, _f: extern "C-unwind" fn(u64, *mut u8), _d: *mut u8, _m: u64) -> u64 { unsafe { super::_exit(3) } }
    #[no_mangle] pub extern "C" fn lsym_out(_s: u64, _v: u64) {}
    #[no_mangle] pub extern "C" fn lsym_get(_t: u64, _s: u64) -> u64 { 0 }
    #[no_mangle] pub extern "C" fn lsym_private(_p: *const u8) {}
    #[no_mangle] pub extern "C" fn lsym_shared(_p: *const u8, _n: u64) {}
    #[no_mangle] pub extern "C" fn lsym_watch(_p: *const u8) {}
    #[no_mangle] pub extern "C" fn lsym_hist(_p: *const u8, _h: u64) -> u64 { 0 }
}

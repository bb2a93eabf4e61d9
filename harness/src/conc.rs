//! C08, C12, C13: threads that run at the same time
use crate::intr::*;
use big_o_test::metrics_allocator::ring_buffer::{RingBuffer, RingBufferConsumer};
use big_o_test::metrics_allocator::MetricsAllocator;
use std::alloc::{GlobalAlloc, Layout};

const NONE: u64 = 0;
const FAILED: u64 = 0xE77;
const MAXT: usize = 8;

fn token(t: u64, i: u64) -> u64 { t * 16 + i + 1 }
fn eq(a: u64, b: u64) -> u64 { select(a == b, 1, 0) }

/// params: ring size, elements each of the producers enqueues, producers, dequeuing threads, dequeues of each, 0: one consumer / 1: one for each dequeuing thread,
/// memory model, how many elements went through the ring before (1 << 63: any number), what the dequeuing threads do (0: dequeue, 1: peek)
fn ring<const N: usize>() {
    let (each, np, nd, deqs, own, mode, before, peek) = (param(1), param(2), param(3), param(4), param(5), param(6), param(7), param(8) == 1);
    let mut ring = RingBuffer::<u64, N>::new();
    if before >> 63 == 1 { ring.verif_preset(range(0, 1 << 62)); } else { ring.verif_preset(before); }
    let ring = ring;
    let (c0, c1) = (ring.consumer(), ring.consumer());
    shared(&ring);
    shared(&c0);
    shared(&c1);
    nofmt(true);
    let cons = |t: u64| -> &RingBufferConsumer<'_, u64, N> { if own == 1 && t == np + 1 { &c1 } else { &c0 } };
    let bad = par(np + nd, mode, |t| {
        if t < np {
            for i in 0..each { ring.enqueue(token(t, i)); }
        } else if peek {
            match cons(t).peek_all() {
                Ok(chunks) => {
                    let mut k = 0;
                    for ch in chunks { for v in ch { out(1 + k, *v); k += 1; } }
                    out(0, k);
                }
                Err(_) => out(0, FAILED),
            }
        } else {
            for i in 0..deqs {
                let r = match cons(t).dequeue() { Ok(None) => NONE, Ok(Some(v)) => *v, Err(_) => FAILED };
                out(i, r);
            }
        }
    });
    check(bad == 0, 1);
    if peek {
        for t in np..np + nd {
            let k = get(t, 0);
            check(k != FAILED, 2);
            let mut a = 0;
            let mut ok = 1;
            while a < k {
                let x = get(t, 1 + a);
                log(x);
                // one of the elements, all of its producer's earlier ones seen before it
                let mut known = 0;
                for p in 0..np { for i in 0..each { known |= eq(x, token(p, i)); } }
                ok &= known;
                for b in 0..a { ok &= select(get(t, 1 + b) >> 4 == x >> 4, select(get(t, 1 + b) < x, 1, 0), 1); }
                for p in 0..np { for i in 1..each {
                    let mut prior = 0;
                    for b in 0..a { prior |= eq(get(t, 1 + b), token(p, i - 1)); }
                    ok &= select(x == token(p, i), prior, 1);
                } }
                a += 1;
            }
            check(ok != 0, 3);
            if k == each * np { reach(2); }
            if k == 0 { reach(3); }
        }
        reach(0);
        return;
    }
    for c in 0..1 + own {
        let cc: &RingBufferConsumer<'_, u64, N> = if c == 1 { &c1 } else { &c0 };
        // what is left
        let mut left = [0u64; MAXT];
        let mut nl = 0u64;
        loop {
            let mut res = 9;
            let mut val = 0;
            let bad = panics(|| match cc.dequeue() { Ok(None) => res = 0, Ok(Some(v)) => { res = 1; val = *v; } Err(_) => res = 2 });
            check(!bad && res != 2, 4);
            if res == 0 { break; }
            check(nl < each * np, 5);
            left[nl as usize] = val;
            nl += 1;
        }
        let mut ok = 1u64;
        let mut first = 0;
        for t in np..np + nd {
            if own == 1 && (t == np + 1) != (c == 1) { continue; }
            for i in 0..deqs {
                let x = get(t, i);
                log(x);
                let mut known = eq(x, NONE);
                for p in 0..np { for j in 0..each { known |= eq(x, token(p, j)); } }
                ok &= known;
                // in order
                for b in 0..i {
                    let y = get(t, b);
                    ok &= select(y != NONE, select(x != NONE, select(x >> 4 == y >> 4, select(y < x, 1, 0), 1), 1), 1);
                }
                for b in 0..nl { ok &= select(x != NONE, select(left[b as usize] >> 4 == x >> 4, select(x < left[b as usize], 1, 0), 1), 1); }
                first |= 1 - eq(x, NONE);
            }
        }
        for a in 0..nl { for b in 0..a { ok &= select(left[a as usize] >> 4 == left[b as usize] >> 4, select(left[b as usize] < left[a as usize], 1, 0), 1); } }
        // every element exactly once
        for p in 0..np { for j in 0..each {
            let mut n = 0;
            for t in np..np + nd {
                if own == 1 && (t == np + 1) != (c == 1) { continue; }
                for i in 0..deqs { n += eq(get(t, i), token(p, j)); }
            }
            for b in 0..nl { n += eq(left[b as usize], token(p, j)); }
            ok &= eq(n, 1);
        } }
        check(ok != 0, 6);
        if nl == each * np { reach(3); } else { reach(2); }
    }
    reach(0);
}

#[no_mangle]
pub extern "C-unwind" fn h_c12() {
    match param(0) { 1 => ring::<1>(), 2 => ring::<2>(), 3 => ring::<3>(), 4 => ring::<4>(), _ => ring::<8>() }
}

/// params: threads, requests of each; then for every request its kind (0 allocate, 1 free, 2 allocate zeroed, 3 reallocate)
#[no_mangle]
pub extern "C-unwind" fn h_c08() {
    let (nt, each) = (param(0), param(1));
    let m = MetricsAllocator::<4>::new();
    let mut size = [0usize; MAXT];
    let mut new = [0usize; MAXT];
    let mut ptr = [core::ptr::null_mut::<u8>(); MAXT];
    let n = (nt * each) as usize;
    let lay = |s: usize| unsafe { Layout::from_size_align_unchecked(s, 8) };
    for i in 0..n {
        let kind = param(2 + i as u64);
        size[i] = range(1, 1 << 40) as usize;
        if kind == 1 || kind == 3 { ptr[i] = unsafe { m.alloc(lay(size[i])) }; assume(!ptr[i].is_null()); }
        if kind == 3 { new[i] = range(1, 1 << 40) as usize; }
    }
    let sp = m.save_point();
    let s0 = match m.delta_statistics(&sp) { Ok(x) => x, Err(_) => { check(false, 1); return; } };
    shared(&m);
    let cur = m.verif_current_used_memory();
    unsafe { lsym_watch(cur) };
    let bad = par(nt, 0, |t| {
        for j in 0..each {
            let i = (t * each + j) as usize;
            unsafe {
                match param(2 + i as u64) {
                    0 => { m.alloc(lay(size[i])); }
                    1 => m.dealloc(ptr[i], lay(size[i])),
                    2 => { m.alloc_zeroed(lay(size[i])); }
                    _ => { m.realloc(ptr[i], lay(size[i]), new[i]); }
                }
            }
        }
    });
    check(bad == 0, 2);
    let d = match m.delta_statistics(&sp) { Ok(x) => x, Err(_) => { check(false, 3); return; } };
    let (mut na, mut nf, mut nz, mut nr) = (0usize, 0usize, 0usize, 0usize);
    let (mut ba, mut bf, mut bz, mut bo, mut bn) = (0usize, 0usize, 0usize, 0usize, 0usize);
    for i in 0..n {
        match param(2 + i as u64) {
            0 => { na += 1; ba += size[i]; }
            1 => { nf += 1; bf += size[i]; }
            2 => { nz += 1; bz += size[i]; }
            _ => { nr += 1; bo += size[i]; bn += new[i]; }
        }
    }
    check(d.allocations_count == na && d.deallocations_count == nf && d.zeroed_allocations_count == nz && d.reallocations_count == nr, 4);
    check(select(d.allocated_bytes == ba, 1, 0) & select(d.deallocated_bytes == bf, 1, 0) & select(d.zeroed_allocated_bytes == bz, 1, 0)
        & select(d.reallocated_originals_bytes == bo, 1, 0) & select(d.reallocated_news_bytes == bn, 1, 0) != 0, 5);
    check(d.current_used_memory == s0.current_used_memory + ba + bz + bn - bf - bo, 6);
    log(d.current_used_memory as u64);
    log(d.max_used_memory as u64);
    log(d.min_used_memory as u64);
    let (lo, hi) = unsafe { (lsym_hist(cur, 0), lsym_hist(cur, 1)) };
    check(d.max_used_memory as u64 == hi, 7);
    check(d.min_used_memory as u64 == lo, 8);
    reach(0);
}

/// params: what thread 0 does (0: takes a save point and asks it, 1: asks a save point taken before, 2: the same twice); then the requests of the other thread
/// (0 allocate, 1 free, 2 allocate zeroed, 3 reallocate, 8 takes a save point of its own and asks it; 9 none)
#[no_mangle]
pub extern "C-unwind" fn h_c26() {
    let what = param(0);
    let m = MetricsAllocator::<4>::new();
    let mut size = [0usize; 2];
    let mut new = [0usize; 2];
    let mut ptr = [core::ptr::null_mut::<u8>(); 2];
    let n = if param(2) == 9 { 1 } else { 2 };
    let lay = |s: usize| unsafe { Layout::from_size_align_unchecked(s, 8) };
    for i in 0..n {
        let kind = param(1 + i as u64);
        size[i] = range(1, 1 << 40) as usize;
        if kind == 1 || kind == 3 { ptr[i] = unsafe { m.alloc(lay(size[i])) }; assume(!ptr[i].is_null()); }
        if kind == 3 { new[i] = range(1, 1 << 40) as usize; }
    }
    let sp = m.save_point();
    let was = match m.delta_statistics(&sp) { Ok(x) => x.current_used_memory, Err(_) => { check(false, 1); return; } };
    shared(&m);
    shared(&sp);
    let bad = par(2, 0, |t| {
        if t == 0 {
            let own;
            let asked = if what == 0 { own = m.save_point(); &own } else { &sp };
            let mut at = 0;
            for _ in 0..if what == 2 { 2 } else { 1 } {
                match m.delta_statistics(asked) {
                    Ok(d) => {
                        out(at, 1);
                        out(at + 1, asked.metrics.current_used_memory as u64);
                        out(at + 2, d.current_used_memory as u64);
                        out(at + 3, d.min_used_memory as u64);
                        out(at + 4, d.max_used_memory as u64);
                        out(at + 5, (d.allocations_count + d.deallocations_count + d.zeroed_allocations_count + d.reallocations_count) as u64);
                        out(at + 6, d.allocated_bytes as u64);
                        out(at + 7, d.deallocated_bytes as u64);
                    }
                    Err(_) => out(at, 2),
                }
                at += 8;
            }
        } else {
            for i in 0..n {
                unsafe {
                    match param(1 + i as u64) {
                        0 => { m.alloc(lay(size[i])); }
                        1 => m.dealloc(ptr[i], lay(size[i])),
                        2 => { m.alloc_zeroed(lay(size[i])); }
                        8 => {
                            let own = m.save_point();
                            match m.delta_statistics(&own) {
                                Ok(d) => {
                                    out(0, 1);
                                    out(1, own.metrics.current_used_memory as u64);
                                    out(2, d.current_used_memory as u64);
                                    out(3, d.min_used_memory as u64);
                                    out(4, d.max_used_memory as u64);
                                }
                                Err(_) => out(0, 2),
                            }
                        }
                        _ => { m.realloc(ptr[i], lay(size[i]), new[i]); }
                    }
                }
            }
        }
    });
    check(bad == 0, 2);
    // the amounts that were in use
    let mut amounts = [was; 3];
    for i in 0..2 {
        amounts[i + 1] = if i >= n { amounts[i] } else {
            match param(1 + i as u64) { 0 | 2 => amounts[i] + size[i], 1 => amounts[i] - size[i], 8 => amounts[i], _ => amounts[i] - size[i] + new[i] }
        };
    }
    let was_so = |x: u64| eq(x, amounts[0] as u64) | eq(x, amounts[1] as u64) | eq(x, amounts[2] as u64);
    let le = |a: u64, b: u64| select(a <= b, 1, 0);
    let mut at = 0;
    let mut requests = n;
    let (mut ba, mut bf, mut bz, mut bo, mut bn) = (0usize, 0usize, 0usize, 0usize, 0usize);
    for i in 0..n {
        match param(1 + i as u64) {
            0 => ba += size[i],
            1 => bf += size[i],
            2 => bz += size[i],
            8 => {
                requests -= 1;
                check(get(1, 0) == 1, 14);
                let (before, after, min, max) = (get(1, 1), get(1, 2), get(1, 3), get(1, 4));
                check(was_so(before) & was_so(after) & was_so(min) & was_so(max) != 0, 16);
                check(le(min, before) & le(before, max) & le(min, after) & le(after, max) != 0, 15);
            }
            _ => { bo += size[i]; bn += new[i]; }
        }
    }
    for k in 0..if what == 2 { 2 } else { 1 } {
        check(get(0, at) == 1, 3);
        let (before, after, min, max) = (get(0, at + 1), get(0, at + 2), get(0, at + 3), get(0, at + 4));
        // no figures but those that were true
        check(was_so(before) & was_so(after) & was_so(min) & was_so(max) != 0, 4);
        check(le(min, before) & le(before, max) & le(min, after) & le(after, max) != 0, 5);
        check(get(0, at + 5) <= requests as u64, 6);
        check(le(get(0, at + 6), ba as u64) & le(get(0, at + 7), bf as u64) != 0, 7);
        if k == 1 {
            check(get(0, at - 3) <= get(0, at + 5), 8);
            check(le(get(0, at - 2), get(0, at + 6)) & le(get(0, at - 1), get(0, at + 7)) != 0, 9);
        }
        log(min);
        log(max);
        at += 8;
    }
    let d = match m.delta_statistics(&sp) { Ok(x) => x, Err(_) => { check(false, 10); return; } };
    check(d.allocations_count + d.deallocations_count + d.zeroed_allocations_count + d.reallocations_count == requests, 11);
    check(d.current_used_memory == was + ba + bz + bn - bf - bo, 12);
    check(was_so(d.min_used_memory as u64) & was_so(d.max_used_memory as u64) != 0, 13);
    reach(0);
}

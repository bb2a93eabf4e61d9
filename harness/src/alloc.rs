//! C06, C07, C09: the metrics allocator
use crate::intr::*;
use big_o_test::metrics_allocator::MetricsAllocator;
use std::alloc::{GlobalAlloc, Layout, System};

const MAXB: usize = 8;
/// no program can have more than this in use
const LIMIT: u64 = i64::MAX as u64;

#[derive(Clone, Copy)]
struct Block { p: *mut u8, size: u64, align: u64 }

/// what the counters should say
#[derive(Clone, Copy)]
struct Truth { ac: u64, dc: u64, zc: u64, rc: u64, ab: u64, db: u64, zb: u64, ro: u64, rn: u64, cur: u64 }

struct World<'w, const N: usize> {
    a: &'w MetricsAllocator<'static, N>,
    b: [Block; MAXB],
    n: usize,
    t: Truth,
}

fn aligns(k: u64) -> u64 {
    match k { 0 => 8, 1 => 64, 2 => 16, 3 => 1, _ => 4096 }
}

impl<'w, const N: usize> World<'w, N> {
    fn new(a: &'w MetricsAllocator<'static, N>) -> Self {
        World {
            a,
            b: [Block { p: core::ptr::null_mut(), size: 0, align: 1 }; MAXB],
            n: 0,
            t: Truth { ac: 0, dc: 0, zc: 0, rc: 0, ab: 0, db: 0, zb: 0, ro: 0, rn: 0, cur: 0 },
        }
    }
    fn size(&self) -> u64 {
        range(1, LIMIT >> 8)
    }
    fn alloc(&mut self) {
        let s = self.size();
        let p = unsafe { self.a.alloc(Layout::from_size_align_unchecked(s as usize, 8)) };
        self.b[self.n] = Block { p, size: s, align: 8 };
        self.n += 1;
        self.t.ac += 1;
        self.t.ab += s;
        self.t.cur += s;
    }
    /// blocks stay in order of age
    fn dealloc(&mut self, i: usize) {
        let b = self.b[i];
        unsafe { self.a.dealloc(b.p, Layout::from_size_align_unchecked(b.size as usize, b.align as usize)) };
        for j in i + 1..self.n { self.b[j - 1] = self.b[j]; }
        self.n -= 1;
        self.t.dc += 1;
        self.t.db += b.size;
        self.t.cur -= b.size;
    }
    fn realloc(&mut self, i: usize) {
        let b = self.b[i];
        let s = self.size();
        let p = unsafe { self.a.realloc(b.p, Layout::from_size_align_unchecked(b.size as usize, b.align as usize), s as usize) };
        self.b[i] = Block { p, size: s, align: b.align };
        self.t.rc += 1;
        self.t.ro += b.size;
        self.t.rn += s;
        self.t.cur = self.t.cur - b.size + s;
    }
    /// one request of any kind; true if something happened
    fn step(&mut self, kinds: u64, naligns: u64, fails: bool) {
        let k = choice(kinds);
        let f = if fails { bit() } else { 0 };
        match k {
            0 | 2 => {
                let al = aligns(choice(naligns));
                let s = self.size();
                let l = unsafe { Layout::from_size_align_unchecked(s as usize, al as usize) };
                fail_next(f);
                let p = unsafe { if k == 0 { self.a.alloc(l) } else { self.a.alloc_zeroed(l) } };
                fail_next(0);
                if !p.is_null() {
                    self.b[self.n] = Block { p, size: s, align: al };
                    self.n += 1;
                    if k == 0 { self.t.ac += 1; self.t.ab += s; } else { self.t.zc += 1; self.t.zb += s; }
                    self.t.cur += s;
                } else {
                    reach(1);
                }
            }
            1 => {
                if self.n == 0 { return; }
                let i = choice(self.n as u64) as usize;
                let b = self.b[i];
                unsafe { self.a.dealloc(b.p, Layout::from_size_align_unchecked(b.size as usize, b.align as usize)) };
                self.n -= 1;
                self.b[i] = self.b[self.n];
                self.t.dc += 1;
                self.t.db += b.size;
                self.t.cur -= b.size;
            }
            _ => {
                if self.n == 0 { return; }
                let i = choice(self.n as u64) as usize;
                let b = self.b[i];
                let s = self.size();
                let l = unsafe { Layout::from_size_align_unchecked(b.size as usize, b.align as usize) };
                fail_next(f);
                let p = unsafe { self.a.realloc(b.p, l, s as usize) };
                fail_next(0);
                if !p.is_null() {
                    self.b[i] = Block { p, size: s, align: b.align };
                    self.t.rc += 1;
                    self.t.ro += b.size;
                    self.t.rn += s;
                    self.t.cur = self.t.cur - b.size + s;
                } else {
                    reach(2);
                }
            }
        }
    }
}

/// C06: params: number of requests, kinds of request, alignments, whether the system may refuse
#[no_mangle]
pub extern "C-unwind" fn h_c06() {
    let a = MetricsAllocator::<4>::new();
    let mut w = World::new(&a);
    let sp = a.save_point();
    let k = param(0);
    for _ in 0..k {
        w.step(param(1), param(2), param(3) != 0);
    }
    let d = match w.a.delta_statistics(&sp) { Ok(d) => d, Err(_) => { check(false, 1); return; } };
    check(d.allocations_count as u64 == w.t.ac, 2);
    check(d.deallocations_count as u64 == w.t.dc, 3);
    check(d.zeroed_allocations_count as u64 == w.t.zc, 4);
    check(d.reallocations_count as u64 == w.t.rc, 5);
    check(d.allocated_bytes as u64 == w.t.ab, 6);
    check(d.deallocated_bytes as u64 == w.t.db, 7);
    check(d.zeroed_allocated_bytes as u64 == w.t.zb, 8);
    check(d.reallocated_originals_bytes as u64 == w.t.ro, 9);
    check(d.reallocated_news_bytes as u64 == w.t.rn, 10);
    check(d.current_used_memory as u64 == w.t.cur, 11);
    let m = w.a.save_point().metrics;
    check(m.allocations_count as u64 == w.t.ac && m.deallocations_count as u64 == w.t.dc && m.zeroed_allocations_count as u64 == w.t.zc && m.reallocations_count as u64 == w.t.rc, 12);
    check(m.allocated_bytes as u64 == w.t.ab && m.deallocated_bytes as u64 == w.t.db && m.zeroed_allocated_bytes as u64 == w.t.zb, 13);
    check(m.reallocated_originals_bytes as u64 == w.t.ro && m.reallocated_news_bytes as u64 == w.t.rn && m.current_used_memory as u64 == w.t.cur, 14);
    log(d.allocated_bytes as u64);
    log(d.current_used_memory as u64);
    log(d.max_used_memory as u64);
    log(d.min_used_memory as u64);
    reach(0);
}

/// C06: a long run of requests, the figures compared after every one; params: number of requests, one request in how many is of any size
#[no_mangle]
pub extern "C-unwind" fn h_c06l() {
    let a = MetricsAllocator::<4>::new();
    let mut w = World::new(&a);
    let sp = a.save_point();
    let any = param(1);
    let mut x = 12345u64;
    for i in 0..param(0) {
        // numerical recipes' generator: the kinds of requests come in no simple rhythm
        x = x.wrapping_mul(1664525).wrapping_add(1013904223) & 0xffff_ffff;
        let k = (x >> 28) & 3;
        let s = if i % any == 0 { range(16, 1 << 40) } else { 16 + ((x >> 8) & 0xfff) };
        let pos = if w.n > 0 { ((x >> 20) & 0xff) as usize % w.n } else { 0 };
        if w.n == 0 || (w.n < MAXB && k & 1 == 0) {
            let l = unsafe { Layout::from_size_align_unchecked(s as usize, [8, 16, 1][((x >> 24) % 3) as usize]) };
            let p = unsafe { if k & 2 == 0 { a.alloc(l) } else { a.alloc_zeroed(l) } };
            w.b[w.n] = Block { p, size: s, align: l.align() as u64 };
            w.n += 1;
            if k & 2 == 0 { w.t.ac += 1; w.t.ab += s; } else { w.t.zc += 1; w.t.zb += s; }
            w.t.cur += s;
        } else if k == 3 {
            let b = w.b[pos];
            let p = unsafe { a.realloc(b.p, Layout::from_size_align_unchecked(b.size as usize, b.align as usize), s as usize) };
            w.b[pos] = Block { p, size: s, align: b.align };
            w.t.rc += 1;
            w.t.ro += b.size;
            w.t.rn += s;
            w.t.cur = w.t.cur - b.size + s;
        } else {
            w.dealloc(pos);
        }
        let d = match a.delta_statistics(&sp) { Ok(d) => d, Err(_) => { check(false, 15); return; } };
        let t = &w.t;
        check(d.allocations_count as u64 == t.ac && d.deallocations_count as u64 == t.dc && d.zeroed_allocations_count as u64 == t.zc && d.reallocations_count as u64 == t.rc, 16);
        check(d.allocated_bytes as u64 == t.ab && d.deallocated_bytes as u64 == t.db && d.zeroed_allocated_bytes as u64 == t.zb, 17);
        check(d.reallocated_originals_bytes as u64 == t.ro && d.reallocated_news_bytes as u64 == t.rn && d.current_used_memory as u64 == t.cur, 18);
    }
    reach(0);
}

#[derive(Clone, Copy)]
struct Watch { min: u64, max: u64, later: u64, t: Truth }

fn c07<const N: usize>() {
    let a = MetricsAllocator::<N>::new();
    let mut w = World::new(&a);
    let mut sps = [const { None }; 8];
    let mut ws = [Watch { min: 0, max: 0, later: 0, t: w.t }; 8];
    let mut n = 0usize;
    let k = param(1);
    let maxsp = param(2) as usize;
    for i in 0..k {
        // a save point or a request
        let kind = if n == 0 && i > 0 { 1 } else if i + 1 == k { 0 } else { choice(2) };
        if kind == 1 && n < maxsp {
            sps[n] = Some(a.save_point());
            ws[n] = Watch { min: w.t.cur, max: w.t.cur, later: 0, t: w.t };
            for x in ws.iter_mut().take(n) { x.later += 1; }
            n += 1;
        } else {
            w.step(param(3), 1, param(4) != 0);
            for x in ws.iter_mut().take(n) {
                if w.t.cur < x.min { x.min = w.t.cur; }
                if w.t.cur > x.max { x.max = w.t.cur; }
            }
        }
    }
    ask(&w, &sps, &ws, n, 2);
}

/// every save point is asked `rounds` times: asking must not disturb anything
fn ask<const N: usize>(w: &World<'_, N>, sps: &[Option<big_o_test::metrics_allocator::MetricsAllocatorSavePoint<'_, N>>; 8], ws: &[Watch; 8], n: usize, rounds: u64) {
    for round in 0..rounds {
        for i in 0..n {
            if let Some(sp) = &sps[i] {
                match w.a.delta_statistics(sp) {
                    Ok(d) => {
                        check(ws[i].later <= N as u64, 20);
                        check(d.min_used_memory as u64 == ws[i].min, 21);
                        check(d.max_used_memory as u64 == ws[i].max, 22);
                        check(d.current_used_memory as u64 == w.t.cur, 23);
                        check(d.allocations_count as u64 == w.t.ac - ws[i].t.ac && d.deallocations_count as u64 == w.t.dc - ws[i].t.dc
                            && d.zeroed_allocations_count as u64 == w.t.zc - ws[i].t.zc && d.reallocations_count as u64 == w.t.rc - ws[i].t.rc, 24);
                        check(d.allocated_bytes as u64 == w.t.ab - ws[i].t.ab && d.deallocated_bytes as u64 == w.t.db - ws[i].t.db
                            && d.zeroed_allocated_bytes as u64 == w.t.zb - ws[i].t.zb, 25);
                        check(d.reallocated_originals_bytes as u64 == w.t.ro - ws[i].t.ro && d.reallocated_news_bytes as u64 == w.t.rn - ws[i].t.rn, 26);
                        log(d.min_used_memory as u64);
                        log(d.max_used_memory as u64);
                        reach(10 + round);
                    }
                    Err(_) => { check(ws[i].later > N as u64, 27); reach(12); }
                }
            }
        }
    }
}

/// as c07, for one sequence of steps given as decimal digits: 1 save point, 2 allocation, 3 freeing the oldest block, 4 freeing the newest
/// block, 5 any of 2 to 4, 6 growing or shrinking the newest block
fn c07s<const N: usize>() {
    let a = MetricsAllocator::<N>::new();
    let mut w = World::new(&a);
    let mut sps = [const { None }; 8];
    let mut ws = [Watch { min: 0, max: 0, later: 0, t: w.t }; 8];
    let mut n = 0usize;
    let mut code = param(1);
    while code != 0 {
        let mut d = code % 10;
        code /= 10;
        if d == 5 {
            d = if w.n == 0 { 2 } else { 2 + choice(3) };
        }
        if d == 1 {
            sps[n] = Some(a.save_point());
            ws[n] = Watch { min: w.t.cur, max: w.t.cur, later: 0, t: w.t };
            for x in ws.iter_mut().take(n) { x.later += 1; }
            n += 1;
            continue;
        }
        match d {
            2 => w.alloc(),
            3 | 4 => w.dealloc(if d == 3 { 0 } else { w.n - 1 }),
            _ => w.realloc(w.n - 1),
        }
        let cur = w.t.cur;
        for x in ws.iter_mut().take(n) {
            if cur < x.min { x.min = cur; }
            if cur > x.max { x.max = cur; }
        }
    }
    ask(&w, &sps, &ws, n, 1);
    reach(20);
}

/// C07: params: buffer size, the steps
#[no_mangle]
pub extern "C-unwind" fn h_c07s() {
    match param(0) { 1 => c07s::<1>(), 2 => c07s::<2>(), 3 => c07s::<3>(), 4 => c07s::<4>(), _ => c07s::<16>() }
}

/// C07: a long run; params: buffer size, number of steps (one in four a save point), how many of the latest save points are asked after every
/// step, one allocation in how many is of any size
fn c07l<const N: usize>() {
    let a = MetricsAllocator::<N>::new();
    let mut w = World::new(&a);
    let mut sps = [const { None }; 40];
    let mut ws = [Watch { min: 0, max: 0, later: 0, t: w.t }; 40];
    let mut n = 0usize;
    let (steps, ask, any) = (param(1), param(2) as usize, param(3));
    let mut x = 777u64;
    let mut allocs = 0;
    for i in 0..steps {
        x = x.wrapping_mul(1664525).wrapping_add(1013904223) & 0xffff_ffff;
        if i & 3 == 0 {
            if n == sps.len() { break; }
            sps[n] = Some(a.save_point());
            ws[n] = Watch { min: w.t.cur, max: w.t.cur, later: 0, t: w.t };
            for y in ws.iter_mut().take(n) { y.later += 1; }
            n += 1;
        } else if w.n == 0 || (w.n < MAXB && x >> 31 == 0) {
            let s = if any != 0 && allocs % any == 0 { range(1, 1 << 14) } else { 1 + ((x >> 8) & 0xfff) };
            allocs += 1;
            let p = unsafe { a.alloc(Layout::from_size_align_unchecked(s as usize, 8)) };
            w.b[w.n] = Block { p, size: s, align: 8 };
            w.n += 1;
            w.t.ac += 1;
            w.t.ab += s;
            w.t.cur += s;
        } else {
            let pos = ((x >> 20) & 0xff) as usize % w.n;
            w.dealloc(pos);
        }
        for y in ws.iter_mut().take(n) {
            if w.t.cur < y.min { y.min = w.t.cur; }
            if w.t.cur > y.max { y.max = w.t.cur; }
        }
        let from = if n > ask { n - ask } else { 0 };
        for j in from..n {
            if let Some(sp) = &sps[j] {
                match a.delta_statistics(sp) {
                    Ok(d) => {
                        check(ws[j].later <= N as u64, 30);
                        check(d.min_used_memory as u64 == ws[j].min && d.max_used_memory as u64 == ws[j].max, 31);
                        check(d.current_used_memory as u64 == w.t.cur, 32);
                        check(d.allocations_count as u64 == w.t.ac - ws[j].t.ac && d.deallocations_count as u64 == w.t.dc - ws[j].t.dc, 33);
                        check(d.allocated_bytes as u64 == w.t.ab - ws[j].t.ab && d.deallocated_bytes as u64 == w.t.db - ws[j].t.db, 34);
                    }
                    Err(_) => check(ws[j].later > N as u64, 35),
                }
            }
        }
    }
    reach(0);
}

#[no_mangle]
pub extern "C-unwind" fn h_c07l() {
    match param(0) { 2 => c07l::<2>(), 3 => c07l::<3>(), 4 => c07l::<4>(), _ => c07l::<16>() }
}

/// C07: params: buffer size, number of steps, most save points, kinds of request, whether the system may refuse
#[no_mangle]
pub extern "C-unwind" fn h_c07() {
    match param(0) { 1 => c07::<1>(), 2 => c07::<2>(), 3 => c07::<3>(), _ => c07::<4>() }
}

/// C09: params: number of requests, kinds, alignments, refusals
#[no_mangle]
pub extern "C-unwind" fn h_c09() {
    let a = MetricsAllocator::<2>::new();
    let mut b = [Block { p: core::ptr::null_mut(), size: 0, align: 1 }; MAXB];
    let mut r = b;
    let mut n = 0usize;
    for step in 0..param(0) {
        let k = choice(param(1));
        let f = if param(3) != 0 { bit() } else { 0 };
        let mut i = n;
        let mut l = Layout::new::<u8>();
        let mut s = 0;
        if k == 0 || k == 2 {
            let al = aligns(choice(param(2)));
            s = range(1, LIMIT >> 8);
            l = unsafe { Layout::from_size_align_unchecked(s as usize, al as usize) };
        } else {
            if n == 0 { continue; }
            i = choice(n as u64) as usize;
            if k == 3 { s = range(1, LIMIT >> 8); }
        }
        if k == 1 || k == 3 {
            l = unsafe { Layout::from_size_align_unchecked(b[i].size as usize, b[i].align as usize) };
        }
        // the same request to the system allocator, and to the metrics allocator
        let mut ops = [(0u64, 0u64, 0u64, 0u64, 0u64); 4];
        let mut nops = 0;
        for who in 0..2 {
            let (pp, g): (*mut u8, &dyn GlobalAlloc) = if who == 0 { (r[i].p, &System) } else { (b[i].p, &a) };
            let mut out = core::ptr::null_mut();
            syslog(true);
            fail_next(f);
            let bad = panics(|| unsafe {
                match k {
                    0 => out = g.alloc(l),
                    2 => out = g.alloc_zeroed(l),
                    1 => g.dealloc(pp, l),
                    _ => out = g.realloc(pp, l, s as usize),
                }
            });
            fail_next(0);
            syslog(false);
            check(!bad, 40);
            let m = sys_n();
            if who == 0 {
                nops = m;
                for j in 0..m as usize {
                    // kind, size, alignment, position of the pointer (own / other), whether it failed
                    ops[j] = (sys_get(j as u64, 0), sys_get(j as u64, 2), sys_get(j as u64, 3), (sys_get(j as u64, 1) == pp as u64) as u64, (sys_get(j as u64, 5) == 0) as u64);
                }
            } else {
                check(m == nops, 41);
                for j in 0..nops as usize {
                    check(sys_get(j as u64, 0) == ops[j].0, 42);
                    check(sys_get(j as u64, 2) == ops[j].1, 43);
                    check(sys_get(j as u64, 3) == ops[j].2, 44);
                    check((sys_get(j as u64, 1) == pp as u64) as u64 == ops[j].3, 45);
                    check((sys_get(j as u64, 5) == 0) as u64 == ops[j].4, 46);
                }
                if k != 1 {
                    // what the system returned is what the program gets
                    let mut given = 0;
                    for j in 0..nops { if sys_get(j, 0) != 5 { given = sys_get(j, 5); } }
                    check(out as u64 == given, 47);
                }
                check(out.is_null() == r[MAXB - 1].p.is_null() || k == 1, 48);
            }
            if who == 0 { r[MAXB - 1].p = out; }
            log(out.is_null() as u64);
            if who == 1 {
                match k {
                    0 | 2 => if !out.is_null() {
                        b[n] = Block { p: out, size: s, align: l.align() as u64 };
                        r[n] = Block { p: r[MAXB - 1].p, size: s, align: l.align() as u64 };
                        n += 1;
                    },
                    1 => { n -= 1; b[i] = b[n]; r[i] = r[n]; }
                    _ => if !out.is_null() {
                        b[i].p = out; b[i].size = s;
                        r[i].p = r[MAXB - 1].p; r[i].size = s;
                    },
                }
            }
        }
        reach(step);
    }
    // neither does asking for figures go to the system
    syslog(true);
    let bad = panics(|| { let sp = a.save_point(); let d = a.delta_statistics(&sp); check(d.is_ok(), 49); });
    syslog(false);
    check(!bad, 50);
    check(sys_n() == 0, 51);
}

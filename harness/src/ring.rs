//! C10, C11 (sequential)
use crate::intr::*;
use big_o_test::metrics_allocator::ring_buffer::{RingBuffer, RingBufferConsumer};

const MAXC: usize = 3;
const MAXE: usize = 24;

/// any mix of enqueue, consumer creation, dequeue and peek over a ring of N slots; the oracle is the list of everything enqueued
fn ring<const N: usize>(overrun: bool) {
    let mut ring = RingBuffer::<u64, N>::new();
    // how many elements have already gone through it
    match param(4) {
        0 => {}
        // any number of them
        1 => ring.verif_preset(range(0, 1 << 62)),
        // close to where narrower counters wrap
        2 => ring.verif_preset((1u64 << 32) - 1 - choice(3)),
        3 => ring.verif_preset((1u64 << 16) - 1 - choice(3)),
        _ => ring.verif_preset((1u64 << 31) - 1 - choice(3)),
    }
    let ring = ring;
    let mut all = [0u64; MAXE];
    let mut ne = 0usize;
    let mut cons: [Option<RingBufferConsumer<'_, u64, N>>; MAXC] = [None, None, None];
    let mut pos = [0usize; MAXC];
    let mut broken = [false; MAXC];
    let mut nc = 0usize;
    let steps = param(1);
    let maxc = param(2) as usize;
    // the ring has already gone round: some elements before any consumer existed
    let start = choice(param(3) + 1);
    for _ in 0..start {
        let v = u64_();
        ring.enqueue(v);
        all[ne] = v;
        ne += 1;
    }
    for _ in 0..steps {
        let kind = if nc == 0 { choice(2) } else { choice(2 + 2 * nc as u64) };
        if kind == 0 {
            if !overrun {
                let mut full = false;
                for c in 0..nc { if ne - pos[c] >= N { full = true; } }
                if full { continue; }
            }
            let v = u64_();
            ring.enqueue(v);
            all[ne] = v;
            ne += 1;
        } else if kind == 1 {
            if nc >= maxc { continue; }
            cons[nc] = Some(ring.consumer());
            pos[nc] = ne;
            nc += 1;
        } else {
            let c = ((kind - 2) / 2) as usize;
            let cc = match &cons[c] { Some(x) => x, None => return };
            let behind = ne - pos[c];
            if kind % 2 == 0 {
                let mut res = 9;
                let mut val = 0;
                let bad = panics(|| match cc.dequeue() { Ok(None) => res = 0, Ok(Some(v)) => { res = 1; val = *v; } Err(_) => res = 2 });
                check(!bad, 1);
                if broken[c] || behind > N {
                    check(res == 2, 2);
                    broken[c] = true;
                    reach(1);
                } else if behind == 0 {
                    check(res == 0, 3);
                    reach(2);
                } else {
                    check(res == 1, 4);
                    check(val == all[pos[c]], 5);
                    log(val);
                    pos[c] += 1;
                    reach(3);
                }
            } else {
                let mut res = 9;
                let mut got = [0u64; MAXE];
                let mut n = 0usize;
                let bad = panics(|| match cc.peek_all() {
                    Ok(chunks) => { res = 1; for ch in chunks { for v in ch { got[n] = *v; n += 1; } } }
                    Err(_) => res = 2,
                });
                check(!bad, 6);
                if broken[c] || behind > N {
                    check(res == 2, 7);
                    broken[c] = true;
                    reach(4);
                } else {
                    check(res == 1, 8);
                    check(n == behind, 9);
                    for i in 0..behind { check(got[i] == all[pos[c] + i], 10); }
                    reach(5);
                }
            }
        }
    }
}

/// params: ring size, steps, most consumers, most elements enqueued beforehand, what went through the ring before that
#[no_mangle]
pub extern "C-unwind" fn h_c10() {
    match param(0) { 1 => ring::<1>(false), 2 => ring::<2>(false), 3 => ring::<3>(false), 4 => ring::<4>(false), _ => ring::<8>(false) }
}

#[no_mangle]
pub extern "C-unwind" fn h_c11() {
    match param(0) { 1 => ring::<1>(true), 2 => ring::<2>(true), 3 => ring::<3>(true), 4 => ring::<4>(true), _ => ring::<8>(true) }
}

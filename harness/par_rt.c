// Runs the threads of `lsym_par` natively, in the order of a schedule. The code is compiled with ThreadSanitizer's instrumentation; this is
// the run-time library behind it: accesses to the cells the schedule names wait for their turn, loads of a weak-memory execution return
// the value that execution reads, and a happens-before race detector watches the cells.
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <pthread.h>
#include <time.h>
#include <sys/syscall.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef unsigned __int128 u128;
#define MT 8
#define ME 4096
#define MC 256
#define MR 16
#define MH 512

struct ev { int tid; char kind; int range; u64 off; int n; u64 val; int spurious, at; };
struct cellspec { int range; u64 off; int n; };
struct block { int mode; int ne, nc; struct ev *e; struct cellspec *c; };
static struct block blocks[8];
static int nblocks, curblock = -1;
static struct { u64 p, n; } ranges[MR];
static int nranges;
static u64 outs[MT][64];
static u64 watchp; static u64 wlo, whi; static int wset;

struct hist { u64 val; int has; u32 rel[MT]; };
struct cell { u64 a; int n; struct hist h[MH]; int nh; u32 rp[MT], wp[MT], ra[MT], wa[MT]; };
static struct cell cells[MC];
static int ncells;
static u32 vc[MT][MT], facq[MT][MT], frel[MT][MT]; static int hasfrel[MT];

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static int cur;
static __thread int me = -1, holding;

u64 lsym_thread(void *f, u64 t, void *d);

static void say(const char *s) { if (write(1, s, strlen(s)) < 0) {} }
static void die(const char *s, int c) { say("\n"); say(s); say("\n"); _exit(c); }

void lsym_load_schedule(const char *path) {
    FILE *f = fopen(path, "r");
    char l[256];
    if (!f) return;
    while (fgets(l, sizeof l, f)) {
        if (l[0] == 'B' && nblocks < 8) {
            struct block *b = &blocks[nblocks++];
            b->mode = atoi(l + 1);
            b->e = calloc(ME, sizeof *b->e); b->c = calloc(MC, sizeof *b->c);
        } else if (l[0] == 'C' && nblocks) {
            struct block *b = &blocks[nblocks - 1];
            struct cellspec *c = &b->c[b->nc++];
            unsigned long long o;
            sscanf(l + 1, "%d %llu %d", &c->range, &o, &c->n); c->off = o;
        } else if (l[0] == 'E' && nblocks) {
            struct block *b = &blocks[nblocks - 1];
            struct ev *e = &b->e[b->ne++];
            unsigned long long o, v;
            sscanf(l + 1, "%d %c %d %llu %d %llu %d %d", &e->tid, &e->kind, &e->range, &o, &e->n, &v, &e->spurious, &e->at);
            e->off = o; e->val = v;
        }
    }
    fclose(f);
}

void lsym_shared(u64 p, u64 n) { if (nranges < MR) { ranges[nranges].p = p; ranges[nranges].n = n; nranges++; } }
void lsym_private(u64 p) {}
void lsym_out(u64 s, u64 v) { if (me >= 0 && s < 64) outs[me][s] = v; }
u64 lsym_get(u64 t, u64 s) { return t < MT && s < 64 ? outs[t][s] : 0; }
void lsym_watch(u64 p) { watchp = p; }
u64 lsym_hist(u64 p, u64 hi) { return wset ? (hi ? whi : wlo) : *(volatile u64 *)p; }

static u64 get(u64 a, int n) {
    switch (n) { case 1: return *(volatile u8 *)a; case 2: return *(volatile u16 *)a; case 4: return *(volatile u32 *)a; default: return *(volatile u64 *)a; }
}

static struct cell *find(u64 a, int n) {
    for (int i = 0; i < ncells; i++) if (cells[i].a == a && cells[i].n == n) return &cells[i];
    return 0;
}

static void note(u64 a, u64 v) { if (a == watchp) { if (v < wlo) wlo = v; if (v > whi) whi = v; } }

static void release_turn(void) {
    if (!holding) return;
    pthread_mutex_lock(&mu);
    holding = 0;
    cur++;
    pthread_cond_broadcast(&cv);
    pthread_mutex_unlock(&mu);
}

// waits for this thread's turn; on return the lock is held. 0: the schedule is over
static struct ev *turn(struct cell *c, char kind, int at) {
    struct block *b = &blocks[curblock];
    struct timespec ts;
    pthread_mutex_lock(&mu);
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    ts.tv_sec += 5;
    while (cur < b->ne && b->e[cur].tid != me)
        if (pthread_cond_timedwait(&cv, &mu, &ts)) {
            char s[200];
            snprintf(s, sizeof s, "SCHEDULE stuck: thread %d before %c at %llu, step %d of %d is thread %d %c at %llu", me, kind, (unsigned long long)c->a, cur, b->ne, b->e[cur].tid, b->e[cur].kind, (unsigned long long)(ranges[b->e[cur].range].p + b->e[cur].off));
            die(s, 3);
        }
    if (cur >= b->ne) return 0;
    struct ev *e = &b->e[cur];
    if (ranges[e->range].p + e->off != c->a || e->n != c->n || e->at != at || (e->kind != kind && !(at && kind == 'U' && e->kind == 'R'))) {
        char s[200];
        snprintf(s, sizeof s, "SCHEDULE mismatch: thread %d does %c at %d of its cell, step %d is %c (range %d off %llu)", me, kind, c->n, cur, e->kind, e->range, (unsigned long long)e->off);
        die(s, 3);
    }
    return e;
}
static void done(void) { cur++; pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mu); }

static void racy(struct cell *c, int write, int at) {
    if (blocks[curblock].mode != 1) return;
    for (int u = 0; u < MT; u++) {
        if (u == me) continue;
        u32 k = vc[me][u];
        if (c->wp[u] > k || (write && c->rp[u] > k) || (!at && (c->wa[u] > k || (write && c->ra[u] > k)))) die("RACE", 1);
    }
}
static void join(u32 *a, const u32 *b) { for (int i = 0; i < MT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static int acq(int mo) { return mo == 2 || mo == 1 || mo == 4 || mo == 5; }
static int rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

static void plain(u64 a, int n, int write) {
    if (me < 0) return;
    release_turn();
    struct cell *c = find(a, n);
    if (!c) return;
    struct ev *e = turn(c, write ? 'W' : 'R', 0);
    vc[me][me]++;
    racy(c, write, 0);
    (write ? c->wp : c->rp)[me] = vc[me][me];
    if (e) { holding = 1; pthread_mutex_unlock(&mu); } else pthread_mutex_unlock(&mu);
}
static void range_access(u64 a, u64 n, int write) {
    if (me < 0) return;
    for (int i = 0; i < ncells; i++) if (cells[i].a >= a && cells[i].a + cells[i].n <= a + n) plain(cells[i].a, cells[i].n, write);
}
static void other(void) { if (me >= 0) release_turn(); }

// what a load or read-modify-write learns from the write it reads
static void learn(struct cell *c, struct hist *h, int mo) {
    if (h && h->has) { if (acq(mo)) join(vc[me], h->rel); else join(facq[me], h->rel); }
}
static void put(struct cell *c, u64 v, int mo, struct hist *rmw) {
    if (c->nh >= MH) die("SCHEDULE long", 3);
    struct hist *h = &c->h[c->nh++];
    h->val = v; h->has = 0; memset(h->rel, 0, sizeof h->rel);
    if (rmw && rmw->has) { h->has = 1; join(h->rel, rmw->rel); }
    if (rel(mo)) { h->has = 1; join(h->rel, vc[me]); } else if (hasfrel[me]) { h->has = 1; join(h->rel, frel[me]); }
    note(c->a, v);
}

#define ATOMICS(W, T) \
T __tsan_atomic##W##_load(volatile T *p, int mo) { \
    struct cell *c; T r; \
    if (me < 0) return __atomic_load_n(p, 5); \
    release_turn(); \
    if (!(c = find((u64)p, W / 8))) return __atomic_load_n(p, 5); \
    struct ev *e = turn(c, 'R', 1); \
    vc[me][me]++; racy(c, 0, 1); c->ra[me] = vc[me][me]; \
    r = __atomic_load_n(p, 5); \
    struct hist *h = c->nh ? &c->h[c->nh - 1] : 0; \
    if (e && blocks[curblock].mode == 1 && (u64)r != e->val) { \
        h = 0; for (int i = c->nh; i-- > 0;) if (c->h[i].val == e->val) { h = &c->h[i]; break; } \
        if (!h) die("SCHEDULE value", 3); \
        r = (T)e->val; \
    } \
    learn(c, h, mo); done(); return r; \
} \
void __tsan_atomic##W##_store(volatile T *p, T v, int mo) { \
    struct cell *c; \
    if (me < 0) { __atomic_store_n(p, v, 5); return; } \
    release_turn(); \
    if (!(c = find((u64)p, W / 8))) { __atomic_store_n(p, v, 5); return; } \
    turn(c, 'W', 1); \
    vc[me][me]++; racy(c, 1, 1); c->wa[me] = vc[me][me]; \
    __atomic_store_n(p, v, 5); put(c, (u64)v, mo, 0); done(); \
} \
static T rmw##W(volatile T *p, int op, T v, int mo) { \
    struct cell *c = 0; T r, x; \
    if (me >= 0) { release_turn(); c = find((u64)p, W / 8); } \
    if (c) { turn(c, 'U', 1); vc[me][me]++; racy(c, 1, 1); c->wa[me] = c->ra[me] = vc[me][me]; } \
    r = __atomic_load_n(p, 5); \
    do { x = op == 0 ? v : op == 1 ? r + v : op == 2 ? r - v : op == 3 ? (r & v) : op == 4 ? (r | v) : op == 5 ? (r ^ v) : ~(r & v); } while (!__atomic_compare_exchange_n(p, &r, x, 0, 5, 5)); \
    if (c) { struct hist *h = c->nh ? &c->h[c->nh - 1] : 0; learn(c, h, mo); put(c, (u64)x, mo, h); done(); } \
    return r; \
} \
T __tsan_atomic##W##_exchange(volatile T *p, T v, int mo) { return rmw##W(p, 0, v, mo); } \
T __tsan_atomic##W##_fetch_add(volatile T *p, T v, int mo) { return rmw##W(p, 1, v, mo); } \
T __tsan_atomic##W##_fetch_sub(volatile T *p, T v, int mo) { return rmw##W(p, 2, v, mo); } \
T __tsan_atomic##W##_fetch_and(volatile T *p, T v, int mo) { return rmw##W(p, 3, v, mo); } \
T __tsan_atomic##W##_fetch_or(volatile T *p, T v, int mo) { return rmw##W(p, 4, v, mo); } \
T __tsan_atomic##W##_fetch_xor(volatile T *p, T v, int mo) { return rmw##W(p, 5, v, mo); } \
T __tsan_atomic##W##_fetch_nand(volatile T *p, T v, int mo) { return rmw##W(p, 6, v, mo); } \
T __tsan_atomic##W##_compare_exchange_val(volatile T *p, T x, T v, int mo, int fmo) { \
    struct cell *c = 0; T r = x; \
    if (me >= 0) { release_turn(); c = find((u64)p, W / 8); } \
    if (!c) { __atomic_compare_exchange_n(p, &r, v, 0, 5, 5); return r; } \
    struct ev *e = turn(c, 'U', 1); \
    vc[me][me]++; \
    if (e && e->kind == 'R') { \
        if (e->spurious) die("SCHEDULE spurious", 3); \
        racy(c, 0, 1); c->ra[me] = vc[me][me]; \
        r = __atomic_load_n(p, 5); \
        struct hist *h = c->nh ? &c->h[c->nh - 1] : 0; \
        if (blocks[curblock].mode == 1 && (u64)r != e->val) { \
            h = 0; for (int i = c->nh; i-- > 0;) if (c->h[i].val == e->val) { h = &c->h[i]; break; } \
            if (!h) die("SCHEDULE value", 3); \
            r = (T)e->val; \
        } \
        if (r == x) die("SCHEDULE value", 3); \
        learn(c, h, fmo); done(); return r; \
    } \
    racy(c, 1, 1); \
    if (__atomic_compare_exchange_n(p, &r, v, 0, 5, 5)) { \
        struct hist *h = c->nh ? &c->h[c->nh - 1] : 0; \
        c->wa[me] = c->ra[me] = vc[me][me]; learn(c, h, mo); put(c, (u64)v, mo, h); \
    } else if (e) die("SCHEDULE value", 3); \
    done(); return r; \
}
ATOMICS(8, u8) ATOMICS(16, u16) ATOMICS(32, u32) ATOMICS(64, u64)

void __tsan_atomic_thread_fence(int mo) {
    if (me < 0) return;
    release_turn();
    if (acq(mo)) join(vc[me], facq[me]);
    if (rel(mo)) { memcpy(frel[me], vc[me], sizeof frel[me]); hasfrel[me] = 1; }
}
void __tsan_atomic_signal_fence(int mo) {}
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { other(); }
void __tsan_func_exit(void) { other(); }
void __tsan_vptr_update(void **a, void *b) { plain((u64)a, 8, 1); }
void __tsan_vptr_read(void **a) { plain((u64)a, 8, 0); }
#define PLAIN(N) \
void __tsan_read##N(void *a) { range_access((u64)a, N, 0); if (me >= 0 && !find((u64)a, N)) other(); } \
void __tsan_write##N(void *a) { range_access((u64)a, N, 1); if (me >= 0 && !find((u64)a, N)) other(); } \
void __tsan_unaligned_read##N(void *a) { range_access((u64)a, N, 0); } \
void __tsan_unaligned_write##N(void *a) { range_access((u64)a, N, 1); } \
void __tsan_read##N##_pc(void *a, void *pc) { range_access((u64)a, N, 0); } \
void __tsan_write##N##_pc(void *a, void *pc) { range_access((u64)a, N, 1); }
PLAIN(1) PLAIN(2) PLAIN(4) PLAIN(8) PLAIN(16)
void __tsan_read_range(void *a, u64 n) { range_access((u64)a, n, 0); }
void __tsan_write_range(void *a, u64 n) { range_access((u64)a, n, 1); }
void *__tsan_memcpy(void *d, const void *s, u64 n) { range_access((u64)s, n, 0); range_access((u64)d, n, 1); return memmove(d, s, n); }
void *__tsan_memmove(void *d, const void *s, u64 n) { range_access((u64)s, n, 0); range_access((u64)d, n, 1); return memmove(d, s, n); }
void *__tsan_memset(void *d, int v, u64 n) { range_access((u64)d, n, 1); return memset(d, v, n); }

static void *pf; static void *pd; static u64 panicked; static int ready;
static void *thread(void *t) {
    // the thread only counts from here on: its start and end are not part of what runs at the same time
    me = (int)(u64)t;
    u64 r = lsym_thread(pf, (u64)t, pd);
    release_turn();
    me = -1;
    if (r) __atomic_fetch_or(&panicked, 1ull << (u64)t, 5);
    return 0;
}
u64 lsym_par(u64 n, void *f, void *d, u64 mode) {
    pthread_t th[MT];
    curblock++;
    if (curblock >= nblocks) die("SCHEDULE missing", 3);
    struct block *b = &blocks[curblock];
    ncells = 0;
    memset(cells, 0, sizeof cells); memset(vc, 0, sizeof vc); memset(facq, 0, sizeof facq); memset(frel, 0, sizeof frel); memset(hasfrel, 0, sizeof hasfrel);
    for (int i = 0; i < b->nc; i++) {
        struct cell *c = &cells[ncells++];
        c->a = ranges[b->c[i].range].p + b->c[i].off;
        c->n = b->c[i].n;
        c->h[0].val = get(c->a, c->n); c->nh = 1;
    }
    cur = 0; panicked = 0; pf = f; pd = d;
    if (watchp) { wlo = whi = get(watchp, 8); wset = 1; }
    for (u64 i = 0; i < n; i++) if (pthread_create(&th[i], 0, thread, (void *)i)) die("SCHEDULE thread", 3);
    for (u64 i = 0; i < n; i++) pthread_join(th[i], 0);
    if (cur < b->ne) die("SCHEDULE left over", 3);
    return panicked;
}

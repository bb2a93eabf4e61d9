"""The environment of the code: harness intrinsics, the C library, threads, clock, panics, output."""
import re, struct
import z3
from . import bv as B
from . import fl
from .bv import Unsupported
from .engine import *
from .engine import HANDLERS, HANDLER_RX, Thread, Frame, Obj, handler, OB, OM, M64, LD, SD

# ------------------------------------------------------------------ harness intrinsics


def fresh(S, w, lo=None, hi=None):
    k = len(S.inputs)
    pre = S.eng.preset
    if pre is not None and k < len(pre):
        S.inputs.append((w, pre[k]))
        return pre[k]
    v = z3.BitVec('in%d_%d' % (k, w), w)
    S.inputs.append((w, v))
    return v


@handler('lsym_u64')
def _(S):
    return fresh(S, 64)


@handler('lsym_u32')
def _(S):
    return fresh(S, 32)


@handler('lsym_u8')
def _(S):
    return fresh(S, 8)


@handler('lsym_bool')
def _(S):
    v = fresh(S, 8)
    if v.__class__ is int:
        return v
    # a fresh byte: restrict without a query
    S.pc.append(z3.ULE(v, 1))
    S.model = None
    return v


@handler('lsym_range')
def _(S, lo, hi):
    """u64 in [lo, hi]"""
    v = fresh(S, 64)
    if v.__class__ is int:
        return v
    if lo.__class__ is int and hi.__class__ is int and lo == hi:
        S.pc.append(v == lo)
        return lo
    if not (lo.__class__ is int and lo == 0):
        S.pc.append(z3.ULE(B.bv(lo, 64), v))
    S.pc.append(z3.ULE(v, B.bv(hi, 64)))
    S.model = None
    return v


@handler('lsym_choice')
def _(S, n):
    """a value in [0, n), explored separately"""
    if S.pend is not None and S.pi < len(S.pend):
        v = S.pend[S.pi]
        S.pi += 1
        S.inputs.append((64, v))
        return v
    k = len(S.inputs)
    pre = S.eng.preset
    if pre is not None and k < len(pre):
        S.inputs.append((64, pre[k]))
        return pre[k]
    raise Fork([(None, i) for i in range(S.conc(n))], (S.pend or [])[:S.pi])


@handler('lsym_param')
def _(S, i):
    return S.eng.params[i]


def truth(c):
    if c.__class__ is int:
        return c & 1
    return B.normb(c != 0) if isinstance(c, z3.BitVecRef) else c


@handler('lsym_assume')
def _(S, c):
    c = truth(c)
    S.assume(c)


@handler('lsym_assert')
def _(S, c, tag):
    eng = S.eng
    c = truth(c)
    tag = tag if tag.__class__ is int else 0
    eng.res.checks += 1
    S.env['asserts'] = S.env.get('asserts', 0) + 1
    if c.__class__ is int:
        if not c:
            raise PathEnd('violation', ('assert', tag))
        return
    nc = B.normb(z3.Not(c))
    m = eng.solver.check(S.pc, nc if nc.__class__ is not int else z3.BoolVal(bool(nc)))
    if m is not None:
        S2 = S.clone()
        S2.pc.append(nc)
        S2.model = m
        eng.end(S2, PathEnd('violation', ('assert', tag)))
        # keep going with the part of the state where it held
        S.assume(c)
    # implied: nothing to add


@handler('lsym_select')
def _(S, c, a, b):
    c = truth(c)
    if c.__class__ is int:
        return a if c else b
    return B.norm(z3.If(c, B.bv(a, 64), B.bv(b, 64)))


@handler('lsym_log')
def _(S, v):
    S.log.append(v)


@handler('lsym_reach')
def _(S, k):
    S.env['reached'] = S.env.get('reached', 0) | (1 << k)
    S.eng.reach.add(k)


@handler('lsym_clock')
def _(S, sec, nsec):
    # a spawned thread has a clock of its own once it has set it
    S.env[('clock', S.cur) if S.cur else 'clock'] = (sec, nsec)


@handler('lsym_fail_next')
def _(S, b):
    S.env['failnext'] = truth(b)


@handler('lsym_syslog')
def _(S, on):
    S.env['syslog_on'] = on
    if on:
        S.env['syslog'] = ()


@handler('lsym_sys_n')
def _(S):
    return len(S.env.get('syslog', ()))


@handler('lsym_sys_get')
def _(S, i, field):
    return S.env['syslog'][i][field]


@handler('lsym_sched')
def _(S, m):
    """0: a new thread runs as soon as it is created; 1: only when somebody waits for it"""
    S.env['sched'] = m


@handler('lsym_tid')
def _(S):
    return S.cur


@handler('lsym_done')
def _(S):
    raise PathEnd('ok', 'done')


@handler('lsym_park', ctl=True)
def _(S, F, retreg, nxt):
    F.seg = nxt
    S.threads[S.cur].status = 'parked'
    schedule(S)


@handler('lsym_nofmt')
def _(S, on):
    S.env['nofmt'] = on


def format_factory(prog, f):
    empty = prog.fns.get('lsym_empty_string')

    def h(S, F, retreg, nxt, *args):
        if S.env.get('nofmt') and empty is not None and retreg < 0:
            S.call(F, empty, [args[0]], -1, nxt)
        else:
            S.call(F, f, list(args), retreg, nxt)
    return h, True


HANDLER_RX.append((re.compile(r'^alloc::fmt::format::format_inner$'), format_factory))


@handler('lsym_havoc_times')
def _(S, on):
    S.env['havoc_times'] = on


def pop_try(S, G, v):
    S.env['try'] = S.env['try'][:-1]


@handler('lsym_try', ctl=True)
def _(S, F, retreg, nxt, fn, data):
    f = S.prog.fbyaddr[fn]
    if retreg >= 0:
        F.R[retreg] = 0
    S.env['try'] = S.env.get('try', ()) + ((S.cur, len(S.frames), retreg, nxt),)
    S.call(F, f, [data], -1, nxt)
    S.frames[-1].mark = pop_try


def unwind(S, exc):
    """a panic goes up the stack of the thread, through its landing pads"""
    while True:
        F = S.frames[-1]
        g = F.seg
        if g is not None and g.unw is not None:
            S.env[('exc', S.cur)] = exc
            F.seg = g.unw
            return
        if F.mark is pop_try:
            t = S.env['try']
            S.env['try'] = t[:-1]
            _, _, retreg, nxt = t[-1]
            S.frames.pop()
            if F.sid:
                S.mem.pop(F.sid, None)
            F = S.frames[-1]
            if retreg >= 0:
                F.R[retreg] = 1
            F.seg = nxt
            return
        if F.mark is not None or len(S.frames) == 1:
            if S.cur:
                raise Unsupported('panic out of a thread: ' + str(S.env['panic']))
            raise PathEnd('panic', S.env['panic'])
        S.frames.pop()
        if F.sid:
            S.mem.pop(F.sid, None)


State.resume = unwind


def rethrow(S, F, retreg, nxt, *args):
    F.seg = nxt
    unwind(S, EXC)


EXC = 0xE8CE8CE


def cleanup(S, *args):
    """catch_unwind got hold of the payload: a Box<dyn Any> of no size"""
    v = S.new_obj(32, 'vtable', 0)
    SD(S, v + 16, 1, 8)
    return [1, v]


HANDLER_RX.append((re.compile(r'^std::panicking::catch_unwind::cleanup$'), (cleanup, False)))
for rx in (r'^std::panicking::resume_unwind$', r'^std::panic::resume_unwind$', r'^std::panicking::rust_panic_without_hook$'):
    HANDLER_RX.append((re.compile(rx), lambda prog, f: (rethrow, True) if prog.unwind else (panic_handler, True)))


def panic(S, what):
    t = S.env.get('try', ())
    S.eng.panics[what] = S.eng.panics.get(what, 0) + 1
    S.env['panic'] = what
    if S.prog.unwind:
        return unwind(S, EXC)
    if not t:
        raise PathEnd('panic', what)
    tid, depth, retreg, nxt = t[-1]
    S.env['try'] = t[:-1]
    # threads started since then go away with the panic
    for T in S.threads:
        if T.tid != tid:
            T.status = 'done'
    S.cur = tid
    T = S.threads[tid]
    T.status = 'run'
    S.frames = T.frames
    for G in S.frames[depth:]:
        if G.sid:
            S.mem.pop(G.sid, None)
    del S.frames[depth:]
    F = S.frames[-1]
    if retreg >= 0:
        F.R[retreg] = 1
    F.seg = nxt


def location(S, a):
    try:
        p = LD(S, a, 8)
        n = LD(S, a + 8, 8)
        return '%s:%d' % (S.bytes_at(p, n).decode('utf-8', 'replace').rstrip('\0'), LD(S, a + 16, 4))
    except Exception:
        return '?'


def panic_handler(S, F, retreg, nxt, *args):
    loc = '?'
    for a in reversed(args):
        if a.__class__ is int and a >> OB and '.rs' in location(S, a):
            loc = location(S, a)
            break
    F.seg = nxt
    panic(S, loc)


for rx in (r'^core::panicking::panic_fmt$', r'^core::panicking::panic$', r'^core::panicking::panic_nounwind', r'^core::panicking::panic_str', r'^core::panicking::panic_explicit$', r'^core::panicking::panic_display',
           r'^core::panicking::assert_failed', r'^core::panicking::panic_const::', r'^core::panicking::panic_bounds_check$',
           r'^std::panicking::begin_panic', r'^std::rt::begin_panic', r'^std::panicking::panic_with_hook$', r'^std::panicking::rust_panic', r'^std::process::abort$', r'^std::panicking::panic_handler$', r'^std::panicking::begin_panic_handler',
           r'^alloc::alloc::handle_alloc_error', r'^alloc::raw_vec::handle_error$', r'^core::panicking::panic_null', r'^core::panicking::panic_misaligned', r'^core::panicking::panic_invalid', r'^core::panicking::panic_in_cleanup', r'^core::panicking::panic_cannot_unwind',
           r'^core::(result|option)::(unwrap_failed|expect_failed)$', r'^core::slice::index::slice_.*fail'):
    HANDLER_RX.append((re.compile(rx), (panic_handler, True)))


# ------------------------------------------------------------------ memory

def syslog(S, *e):
    if S.env.get('syslog_on'):
        S.env['syslog'] = S.env['syslog'] + (e,)


def failing(S):
    f = S.env.get('failnext', 0)
    if f.__class__ is not int:
        f = S.decide(f)
    return f


def new_block(S, size, zero):
    if size.__class__ is int and size <= 1 << 20:
        return S.new_obj(size, 'heap', 0 if zero else 0xA5)
    a = S.new_obj(0, 'heap')
    S.mem[a >> OB].symsize = size
    return a


@handler('malloc')
def _(S, n):
    f = failing(S)
    p = 0 if f else new_block(S, n, False)
    S.env['failnext'] = 0
    syslog(S, 1, 0, n, 0, 0, p)
    return p


@handler('calloc')
def _(S, n, m):
    f = failing(S)
    t = (n * m) & M64 if n.__class__ is int and m.__class__ is int else B.mul(n, m, 64)
    p = 0 if f else new_block(S, t, True)
    S.env['failnext'] = 0
    syslog(S, 2, 0, t, 0, 0, p)
    return p


@handler('realloc')
def _(S, p, n):
    if p.__class__ is not int:
        p = S.conc(p)
    f = failing(S)
    if p and not f:
        heapcheck(S, p)
    if f:
        q = 0
    else:
        q = new_block(S, n, False)
        if p:
            o = S.robj(p)
            if n.__class__ is int and o.symsize is None:
                k = min(n, len(o.data))
                MC(S, q, p, k)
            del S.mem[p >> OB]
    S.env['failnext'] = 0
    syslog(S, 3, p, n, 0, 0, q)
    return q


@handler('posix_memalign')
def _(S, out, al, n):
    f = failing(S)
    S.env['failnext'] = 0
    p = 0 if f else new_block(S, n, False)
    syslog(S, 4, 0, n, al, 0, p)
    if f:
        return 12
    SD(S, out, p, 8)
    return 0


def heapcheck(S, p):
    o = S.mem.get(p >> OB)
    if o is None or p & OM or o.kind != 'heap':
        raise MemError('free of %#x, which is not a live heap block' % p)


@handler('free')
def _(S, p):
    if p.__class__ is not int:
        p = S.conc(p)
    syslog(S, 5, p, 0, 0, 0, 0)
    if p == 0:
        return None
    heapcheck(S, p)
    del S.mem[p >> OB]


@handler('memcpy', 'memmove')
def _(S, d, s, n):
    MC(S, d, s, n)
    return d


@handler('memset')
def _(S, d, v, n):
    MS(S, d, v & 255 if v.__class__ is int else v, n)
    return d


@handler('memcmp', 'bcmp')
def _(S, a, b, n):
    n = S.conc(n)
    if n == 0:
        return 0
    oa, ob = S.robj(a), S.robj(b)
    if not oa.sym and not ob.sym:
        x, y = S.bytes_at(a, n), S.bytes_at(b, n)
        if len(x) < n or len(y) < n:
            raise MemError('memcmp out of bounds')
        return 0 if x == y else (1 if x > y else (1 << 32) - 1)
    r = 0
    for i in reversed(range(n)):
        x, y = LD(S, a + i, 1), LD(S, b + i, 1)
        if x.__class__ is int and y.__class__ is int:
            if x != y:
                r = 1 if x > y else (1 << 32) - 1
            continue
        x, y = B.bv(x, 8), B.bv(y, 8)
        r = B.norm(z3.If(x == y, B.bv(r, 32), z3.If(z3.ULT(y, x), z3.BitVecVal(1, 32), z3.BitVecVal(-1, 32))))
    return r


@handler('strlen')
def _(S, a):
    return len(S.cstr(a).encode())


# ------------------------------------------------------------------ clock

@handler('clock_gettime')
def _(S, clk, p):
    sec, ns = S.env.get(('clock', S.cur)) or S.env.get('clock', (1000, 0))
    S.env['clock_reads'] = S.env.get('clock_reads', 0) + 1
    SD(S, p, sec, 8)
    SD(S, p + 8, ns, 8)
    return 0


@handler('nanosleep')
def _(S, a, b):
    return 0


@handler('clock_nanosleep')
def _(S, c, f, a, b):
    return 0


# ------------------------------------------------------------------ threads

def switch(S, tid):
    S.cur = tid
    S.frames = S.threads[tid].frames


def schedule(S):
    """somebody else must run"""
    for T in S.threads:
        if T.status == 'run':
            switch(S, T.tid)
            return
    if any(T.status == 'parked' for T in S.threads):
        raise PathEnd('ok', 'parked')
    raise PathEnd('deadlock', 'no thread can run')


def thread_end(S, G, v):
    T = S.threads[S.cur]
    d = T.dtors
    if d:                               # thread-local destructors, last registered first
        T.dtors = d[:-1]
        f, obj = d[-1]
        S.call(S.frames[-1], S.prog.fbyaddr[f], [obj], -1, None)
        S.frames[-1].mark = thread_end
        return
    for k in range(S.env.get('tkeys', 0)):
        x = T.tls.get(('key', k + 1), 0)
        d = S.env.get(('tkey', k + 1), 0)
        if d and not (x.__class__ is int and x == 0):
            T.tls[('key', k + 1)] = 0
            S.call(S.frames[-1], S.prog.fbyaddr[d], [x], -1, None)
            S.frames[-1].mark = thread_end
            return
    T.status = 'done'
    for U in S.threads:
        if U.status == 'join' and U.wait == T.tid:
            U.status = 'run'
    schedule(S)


@handler('pthread_create', ctl=True)
def _(S, F, retreg, nxt, out, attr, fn, arg):
    tid = len(S.threads)
    T = Thread(tid)
    S.threads.append(T)
    SD(S, out, tid, 8)
    if retreg >= 0:
        F.R[retreg] = 0
    F.seg = nxt
    B0 = S.eng.bottom()
    T.frames.append(B0)
    cur, fr = S.cur, S.frames
    S.cur, S.frames = tid, T.frames
    S.call(B0, S.prog.fbyaddr[fn], [arg], -1, None)
    S.frames[-1].mark = thread_end
    S.env['nthreads'] = S.env.get('nthreads', 0) + 1
    if S.env.get('sched', 0) == 1:
        S.cur, S.frames = cur, fr


@handler('pthread_join', ctl=True)
def _(S, F, retreg, nxt, th, out):
    if retreg >= 0:
        F.R[retreg] = 0
    F.seg = nxt
    if S.threads[th].status != 'done':
        T = S.threads[S.cur]
        T.status = 'join'
        T.wait = th
        if S.threads[th].status == 'run':
            switch(S, th)
        else:
            schedule(S)


@handler('syscall', ctl=True)
def _(S, F, retreg, nxt, num, *a):
    r = 0
    F.seg = nxt
    if num == 202:                      # futex
        addr, op, val = a[0], a[1] & 127, a[2]
        if op in (0, 9):
            cur = LD(S, addr, 4)
            if cur.__class__ is int and val.__class__ is int and cur == val & 0xffffffff:
                if retreg >= 0:
                    F.R[retreg] = 0
                T = S.threads[S.cur]
                T.status = 'futex'
                T.wait = addr
                schedule(S)
                return
            r = M64
        elif op in (1, 10):
            n = a[2]
            for T in S.threads:
                if n > 0 and T.status == 'futex' and T.wait == addr:
                    T.status = 'run'
                    n -= 1
                    r += 1
        else:
            raise Unsupported('futex %d' % op)
    elif num == 186:
        r = 4242 + S.cur
    else:
        raise Unsupported('syscall %d' % num)
    if retreg >= 0:
        F.R[retreg] = r


@handler('sched_yield', ctl=True)
def _(S, F, retreg, nxt):
    spin_hint(S)
    F.seg = nxt
    if retreg >= 0:
        F.R[retreg] = 0
    for k in range(1, len(S.threads) + 1):
        T = S.threads[(S.cur + k) % len(S.threads)]
        if T.status == 'run':
            switch(S, T.tid)
            return


@handler('pthread_self')
def _(S):
    return S.cur


for n in ('pthread_attr_init', 'pthread_attr_destroy', 'pthread_attr_setstacksize', 'pthread_attr_getguardsize', 'pthread_getattr_np', 'pthread_detach', 'pthread_setname_np', 'pthread_attr_getstack',
          'pthread_key_delete', 'sigaltstack', 'mprotect', 'munmap', 'sigaction', 'signal', 'prctl', 'poll'):
    HANDLERS[n] = (lambda S, *a: 0, False)


@handler('pthread_key_create')
def _(S, out, dtor):
    k = S.env['tkeys'] = S.env.get('tkeys', 0) + 1
    S.env[('tkey', k)] = dtor
    SD(S, out, k, 4)
    return 0


@handler('pthread_setspecific')
def _(S, k, v):
    S.threads[S.cur].tls[('key', k & 0xffffffff)] = v
    return 0


@handler('pthread_getspecific')
def _(S, k):
    return S.threads[S.cur].tls.get(('key', k & 0xffffffff), 0)


@handler('sysconf')
def _(S, k):
    return {30: 4096, 84: 8, 83: 8}.get(k, 4096)


@handler('getauxval', 'getenv')
def _(S, *a):
    return 0


@handler('sched_getaffinity')
def _(S, *a):
    return M64 & 0xffffffff


@handler('mmap64')
def _(S, a, n, *r):
    return S.new_obj(n, 'mmap')


@handler('getrandom')
def _(S, p, n, f):
    MS(S, p, 7, n)
    return n


@handler('__cxa_thread_atexit_impl')
def _(S, f, obj, dso):
    T = S.threads[S.cur]
    T.dtors = T.dtors + ((f, obj),)
    return 0


@handler('__errno_location')
def _(S):
    a = S.env.get('errno')
    if a is None:
        a = S.env['errno'] = S.new_obj(4, 'errno')
    return a


@handler('abort', '_exit', 'exit')
def _(S, *a):
    raise PathEnd('abort', 'abort')


@handler('write')
def _(S, fd, p, n):
    return n


@handler('writev')
def _(S, fd, iov, n):
    t = 0
    for i in range(n):
        t += LD(S, iov + 16 * i + 8, 8)
    return t


@handler('dlsym', 'gnu_get_libc_version')
def _(S, *a):
    return 0


# ------------------------------------------------------------------ standard library short-cuts

def unit(S, *a):
    return None


for rx in (r'^std::io::stdio::_e?print$', r'^std_detect::detect::cache::detect_and_initialize'):
    HANDLER_RX.append((re.compile(rx), (unit, False)))


def okunit(S, *a):
    return 0


# io::Result<()> of stdout/stderr flush: Ok(()) is the null repr
for rx in (r'^<&?std::io::stdio::Std(out|err) as \S+Write>::flush$',):
    HANDLER_RX.append((re.compile(rx), (okunit, False)))


def pad(S, F, retreg, nxt, text, f):
    b = text.encode()
    a = S.new_obj(max(1, len(b)), 'text')
    S.mem[a >> OB].data[:len(b)] = b
    for n, fn in S.prog.fns.items():
        if fn.dem == '<core::fmt::Formatter>::pad':
            break
    else:
        raise Unsupported('no Formatter::pad')
    S.call(F, fn, [f, a, len(b)], retreg, nxt)


def marker(k):
    """the number printed in place of the k-th symbolic one"""
    return (700 + k) * 1e28


# the integer printed in place of the first symbolic one
INT0 = 4111000000


def formatting(kind, n, signed=False):
    """Display/Debug of a number: the real code; a symbolic float is replaced by a concrete one that stands for it, other symbolic numbers by a placeholder"""
    def factory(prog, f):
        def h(S, F, retreg, nxt, self_, fmt, *rest):
            if kind == 'dur':
                v = (LD(S, self_, 8), LD(S, self_ + 8, 4))
                sym = v[0].__class__ is not int or v[1].__class__ is not int
            else:
                v = LD(S, self_, n)
                if kind == 'f' and v.__class__ is not int and not B.isf(v):
                    v = fl.of_bits(S, v, 8 * n)
                sym = v.__class__ is not int and v.__class__ is not float
                if sym and kind == 'f':
                    v = fl.resolve(S, v)
                    sym = v.__class__ is not float
                    if not sym:
                        self_ = S.new_obj(8, 'number')
                        SD(S, self_, v, n)
            if not sym:
                S.call(F, f, [self_, fmt] + list(rest), retreg, nxt)
                return
            if kind == 'f':
                k = len(S.env.get('nums', ()))
                if k < 290:
                    S.env['nums'] = S.env.get('nums', ()) + (v,)
                    a = S.new_obj(8, 'number')
                    SD(S, a, fl.rnd(marker(k), 8 * n), n)
                    S.call(F, f, [a, fmt] + list(rest), retreg, nxt)
                    return
            if kind == 'dur':
                k = len(S.env.get('nums', ()))
                S.env['nums'] = S.env.get('nums', ()) + (fl.fadd(S, fl.uitofp(S, v[0], 64, 64), fl.fdiv(S, fl.uitofp(S, v[1], 32, 64), 1e9, 64), 64),)
                a = S.new_obj(16, 'number')
                SD(S, a, 7000000000000 + k, 8)
                SD(S, a + 8, 0, 4)
                S.call(F, f, [a, fmt] + list(rest), retreg, nxt)
                return
            if n in (4, 8) and not signed:
                # an integer that stands for it
                k = len(S.env.get('nums', ()))
                S.env['nums'] = S.env.get('nums', ()) + (fl.uitofp(S, v, 8 * n, 64),)
                S.env['ints'] = S.env.get('ints', ()) + ((k, z3.ZeroExt(32, v) if n == 4 else v),)
                a = S.new_obj(8, 'number')
                SD(S, a, INT0 + k, n)
                S.call(F, f, [a, fmt] + list(rest), retreg, nxt)
                return
            pad(S, F, retreg, nxt, '{%s}' % kind, fmt)
        return h, True
    return factory


def printed(S, p, n):
    """the number a text starts with, and whether it stands for a symbolic one"""
    t = bytes(S.conc(LD(S, p + i, 1)) for i in range(S.conc(n))).decode('latin1')
    m = re.match(r'-?[0-9]+(\.[0-9]+)?(e-?[0-9]+)?', t)
    if not m:
        raise Unsupported('no number in %r' % t)
    x = float(m.group())
    for k, v in enumerate(S.env.get('nums', ())):
        if abs(x / marker(k) - 1) < 1e-6 or x == 7000000000000 + k or x == INT0 + k:
            return v, 1
    return x, 0


@handler('lsym_num')
def _(S, p, n):
    return printed(S, p, n)[0]


@handler('lsym_int')
def _(S, p, n):
    t = bytes(S.conc(LD(S, p + i, 1)) for i in range(S.conc(n))).decode('latin1')
    x = int(re.match(r'[0-9]*', t).group() or (1 << 64) - 1)
    for k, v in S.env.get('ints', ()):
        if x == INT0 + k:
            return v
    return x & ((1 << 64) - 1)


@handler('lsym_exact')
def _(S, p, n):
    return printed(S, p, n)[1]


@handler('lsym_f64')
def _(S):
    """any non-negative finite number"""
    v = fresh(S, 64)
    if v.__class__ is int:
        return struct.unpack('<d', struct.pack('<Q', v))[0]
    S.pc.append(z3.ULE(v, 0x7fefffffffffffff))
    S.model = None
    return fl.of_bits(S, v, 64)


for t, n in (('u8', 1), ('i8', 1), ('u16', 2), ('u32', 4), ('i32', 4), ('u64', 8), ('i64', 8), ('usize', 8), ('isize', 8), ('u128', 16), ('i128', 16), ('f32', 4), ('f64', 8)):
    HANDLER_RX.append((re.compile(r'^<%s as core::fmt::(Display|Debug|LowerExp)>::fmt$' % t), formatting('f' if t[0] == 'f' else 'i', n, t[0] == 'i')))
HANDLER_RX.append((re.compile(r'^<core::time::Duration as core::fmt::Debug>::fmt$'), formatting('dur', 0)))


def secs_factory(prog, f):
    """Duration::from_secs_f64 of a symbolic number: some duration within a nanosecond of it (stated in log space)"""
    def h(S, F, retreg, nxt, *args):
        x = args[-1]
        if x.__class__ is float:
            S.call(F, f, list(args), retreg, nxt)
            return
        x = fl.resolve(S, x)
        if x.__class__ is float:
            S.call(F, f, list(args[:-1]) + [x], retreg, nxt)
            return
        if not fl.is_pos(S, x):
            panic(S, 'Duration::from_secs_f64 of a negative number')
            return
        k = S.env.get('havocs', 0)
        S.env['havocs'] = k + 1
        secs, ns = z3.BitVec('havoc_s%d' % k, 64), z3.BitVec('havoc_n%d' % k, 32)
        S.pc.append(z3.ULT(ns, 1000000000))
        fl.near(S, x, secs, ns)
        S.model = None
        if len(args) == 2:
            SD(S, args[0], secs, 8)
            SD(S, args[0] + 8, ns, 4)
            r = None
        else:
            r = [secs, ns]
        if retreg >= 0:
            F.R[retreg] = r
        F.seg = nxt
    return h, True


HANDLER_RX.append((re.compile(r'^<core::time::Duration>::from_secs_f(64|32)$'), secs_factory))

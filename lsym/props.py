"""Which jobs decide which property."""
from .run import Job


SYMEX = 'bounded symbolic execution of the compiled LLVM IR with Z3, counterexamples replayed natively'
LOGREAL = 'symbolic execution of the compiled LLVM IR; floating-point comparisons as real constraints in log space (Z3), counterexamples replayed natively'
TRUST = ('Trusts the LLVM IR rustc emits (before LLVM optimisation), the executor in lsym/ (cross-checked on every run by native executions of sampled paths), Z3, and the models of the system '
         'allocator, clock, threads and output. ')
EXACT = 'Every path within the stated bounds is executed over all values of its symbolic inputs; nothing is said beyond the bounds. ' + TRUST
FLOATN = ('Every path of the cascade is decided for all sizes and usages within the bounds; rounding is over-approximated, so a pass is sound up to the stated 1e-9 borders. ' + TRUST)

# properties without a check, and why
NOT_APPLICABLE = {}


class Check:
    def __init__(self, quick, thorough, notes='', tq=600, tt=840, technique=SYMEX, level_note=EXACT, unwind=False):
        self.technique = technique
        self.level_note = level_note
        self.q = quick
        self.t = thorough
        self.notes = notes
        self.tq = tq
        self.tt = tt
        self.unwind = unwind    # decided on the IR with landing pads

    def jobs(self, tier):
        return self.q if tier == 'quick' else self.t

    def seconds(self, tier):
        return self.tq if tier == 'quick' else self.tt


CHECKS = {}

WHICH = ['regular time', 'regular space', 'constant-set time', 'constant-set space', 'set-resizing time', 'set-resizing space']
FB = ('every pair of set sizes 1 <= n1 < n2 < 2^32; every duration below 2^40 s at nanosecond resolution or usage up to 2^62 bytes; arithmetic over the reals in log space, each '
      'floating-point operation widened by its rounding error, logarithms and powers by monotonicity lemmas (an over-approximation, candidates confirmed natively); ')
BORDER = 'usages within 1e-9 of (1 -+ 10%) of a prediction, where rounding decides, left out'


def f(w):
    return 'the %s analysis, ' % WHICH[w] + FB + BORDER


# C01
j = [Job('h_c01', [w], f(w), need=range(17)) for w in range(4)]
CHECKS['C01'] = Check(j, j, technique=LOGREAL, level_note=FLOATN)

# C02
j = [Job('h_c02', [w, r], 'class %d of the %s' % (r, f(w)), need=[min(1, r)] if r < 3 else [1, 3]) for w in range(4) for r in range(16)]
CHECKS['C02'] = Check(j, j, technique=LOGREAL, level_note=FLOATN)

# C03
j = [Job('h_c03', [w, 0], f(w) + '; n >= 1', need=[0, 1, 2, 3, 4, 5, 6]) for w in (4, 5)] + [Job('h_c03', [w, 1, r], 'class %d of the %s; n >= 1' % (r, f(w)), need=[1]) for w in (4, 5) for r in (1, 3, 5)]
CHECKS['C03'] = Check(j, j, technique=LOGREAL, level_note=FLOATN)

# C04
j = [Job('h_c04', [w, 0], 'equal usage, any set sizes, %s analysis' % WHICH[w], need=[0]) for w in range(6)] \
    + [Job('h_c04', [w, 1], 'no usage in pass 1; ' + f(w), need=[1]) for w in range(6)] \
    + [Job('h_c04', [w, 2], 'passes exchanged; ' + f(w), need=[2], cost=9) for w in (2, 3)]
CHECKS['C04'] = Check(j, j, technique=LOGREAL, level_note=FLOATN)

# C05
j = [Job('h_c05', [w, p], 'usage of pass %d increased by at least 1e-9 of it; %s' % (p, f(w)), need=[1, 3, 5, 7, 9, 11, 13, 15, 16], cost=9) for w in range(4) for p in (1, 2)] \
    + [Job('h_c05', [w, p], 'usage of pass %d increased by at least 1e-9 of it; %s; n >= 1' % (p, f(w)), need=[0, 1, 2, 3, 4, 5, 6], cost=3) for w in (4, 5) for p in (1, 2)]
CHECKS['C05'] = Check(j, j, technique=LOGREAL, level_note=FLOATN)


# C06
def c06(k, kinds, al, ref):
    return Job('h_c06', [k, kinds, al, ref], 'every sequence of up to %d requests of %d kinds, any size from 1 to 2^55 bytes, %d alignments%s' % (k, kinds, al, ', each request possibly refused' if ref else ''),
               need=[0] + ([1] if ref else []), cost=k)


def c06l(n, any_):
    return Job('h_c06l', [n, any_], 'one run of %d requests of all kinds, %s of any size, the figures compared after each' % (n, 'the first' if any_ >= n else 'one in %d' % any_), need=[0], cost=3)


CHECKS['C06'] = Check([c06(3, 4, 2, 1), c06(1, 4, 5, 1), c06l(300, 1000), c06l(45, 15)], [c06(4, 4, 1, 1), c06(3, 4, 3, 1), c06(5, 4, 1, 0), c06l(1200, 5000), c06l(60, 15)])


# C07
def c07(n, k, sp, kinds, ref):
    return Job('h_c07', [n, k, sp, kinds, ref], 'buffer of %d save points; every sequence of %d requests (%d kinds, any size) and up to %d save points%s' % (n, k, kinds, sp, ', requests possibly refused' if ref else ''),
               need=[10, 11] + ([12] if sp > n + 1 else []), cost=k)


STEP = {'1': 'save point', '2': 'allocation', '3': 'free oldest', '4': 'free newest', '5': 'allocate/free any', '6': 'reallocate'}


def c07s(n, code):
    return Job('h_c07s', [n, code], 'buffer of %d save points; any sizes, the steps: %s' % (n, ', '.join(STEP[d] for d in reversed(str(code)))), need=[20], cost=len(str(code)) - 1)


def c07l(n, steps, ask, any_):
    return Job('h_c07l', [n, steps, ask, any_], 'buffer of %d save points; one run of %d allocations, frees and save points (one in four), %s allocation(s) of any size, the latest %d save points asked after each step' % (
        n, steps, 'the first' if any_ >= steps else 'one in %d' % any_, ask), need=[0], cost=6)


CHECKS['C07'] = Check([c07l(4, 80, 6, 1000), c07l(16, 80, 18, 1000), c07l(3, 24, 5, 6), c07(2, 4, 3, 4, 1), c07(1, 4, 3, 4, 0), c07(3, 4, 3, 2, 0), c07(2, 5, 4, 1, 0), c07s(4, 5155115), c07s(2, 215515), c07s(3, 5151211), c07s(16, 123112), c07s(16, 6161612), c07s(1, 515512)],
                      [c07(2, 5, 4, 2, 0), c07(4, 5, 4, 2, 0), c07(1, 5, 4, 2, 0), c07(3, 5, 4, 2, 0), c07(2, 4, 4, 4, 1), c07(1, 4, 4, 4, 1), c07s(4, 5155115), c07s(3, 515551112), c07s(4, 51515515), c07s(16, 6161612),
                       c07s(2, 5515515), c07s(4, 251215121), c07l(4, 80, 6, 1000), c07l(16, 150, 18, 1000), c07l(3, 32, 5, 8)])


# C09
def c09(k, kinds, al, ref):
    return Job('h_c09', [k, kinds, al, ref], 'every sequence of up to %d requests of %d kinds, any size from 1 to 2^55 bytes, %d alignments%s; one twin request straight to the system allocator'
               % (k, kinds, al, ', each request possibly refused' if ref else ''), need=[0], cost=k)


CHECKS['C09'] = Check([c09(2, 4, 5, 1), c09(3, 4, 2, 1)], [c09(3, 4, 5, 1), c09(4, 4, 2, 1)])


# C10, C11
START = {0: 'from an empty ring', 1: 'from any position up to 2^62', 2: 'from just before 2^32 elements', 3: 'from just before 2^16 elements', 4: 'from just before 2^31 elements'}


def ring(h, n, steps, cons, pre, start, need):
    return Job(h, [n, steps, cons, pre, start], '%d slots; every sequence of %d operations by up to %d consumers, any element values, up to %d elements enqueued beforehand, %s' % (n, steps, cons, pre, START[start]),
               need=need, cost=steps)


CHECKS['C10'] = Check(
    [ring('h_c10', 2, 5, 2, 2, 0, [2, 3, 5]), ring('h_c10', 3, 5, 1, 2, 0, [2, 3, 5]), ring('h_c10', 1, 5, 2, 1, 0, [2, 3, 5]), ring('h_c10', 4, 5, 1, 1, 1, [2, 3, 5]), ring('h_c10', 2, 5, 1, 0, 1, [2, 3, 5]),
     ring('h_c10', 3, 4, 1, 1, 2, [2, 3, 5]), ring('h_c10', 3, 4, 1, 1, 3, [2, 3, 5]), ring('h_c10', 3, 4, 1, 1, 4, [2, 3, 5])],
    [ring('h_c10', 2, 7, 2, 2, 0, [2, 3, 5]), ring('h_c10', 3, 7, 2, 2, 0, [2, 3, 5]), ring('h_c10', 4, 8, 1, 3, 0, [2, 3, 5]), ring('h_c10', 4, 6, 2, 1, 1, [2, 3, 5]), ring('h_c10', 2, 6, 2, 0, 1, [2, 3, 5]),
     ring('h_c10', 3, 6, 2, 1, 2, [2, 3, 5]), ring('h_c10', 3, 6, 1, 1, 3, [2, 3, 5]), ring('h_c10', 3, 6, 1, 1, 4, [2, 3, 5]), ring('h_c10', 8, 7, 1, 6, 0, [2, 3, 5])])
CHECKS['C11'] = Check(
    [ring('h_c11', 1, 5, 1, 1, 0, [1, 2, 3, 4, 5]), ring('h_c11', 2, 6, 1, 1, 0, [1, 2, 3, 4, 5]), ring('h_c11', 2, 5, 1, 0, 1, [1, 4]), ring('h_c11', 3, 6, 1, 0, 0, [1, 4]), ring('h_c11', 3, 6, 1, 0, 2, [1, 4]),
     ring('h_c11', 1, 4, 2, 0, 1, [1, 4])],
    [ring('h_c11', 1, 7, 2, 1, 0, [1, 2, 3, 4, 5]), ring('h_c11', 2, 8, 1, 1, 0, [1, 2, 3, 4, 5]), ring('h_c11', 2, 6, 2, 0, 1, [1, 4]), ring('h_c11', 3, 8, 1, 1, 0, [1, 4]), ring('h_c11', 3, 7, 1, 0, 2, [1, 4]),
     ring('h_c11', 4, 8, 1, 2, 0, [1, 4]), ring('h_c11', 4, 7, 1, 0, 1, [1, 4])])


# C14
def c14(n, t, s):
    return Job('h_c14', [n, t, s], 'up to %d consecutive elements anywhere below 2^32, ascending and descending, 1 to %d threads, both kinds of algorithm, threads started %s' % (n, t, ['one after the other', 'together'][s]),
               need=range(t + 2), cost=n * t)


def c14b(t):
    return Job('h_c14b', [t], 'the first two elements of each of %d threads; every range of at least %d elements, ascending and descending, both kinds of algorithm' % (t, 2 * t), need=[9], cost=t)


CHECKS['C14'] = Check([c14(5, 3, 1), c14(6, 2, 0), c14(9, 4, 0), c14b(1), c14b(2), c14b(3), c14b(4)],
                      [c14(9, 4, 1), c14(12, 8, 0), c14(10, 6, 1), c14(20, 3, 0), c14b(1), c14b(2), c14b(3), c14b(4), c14b(5), c14b(8)])


# C15
def c15(k, before, ops, passes):
    return Job('h_c15', [k, before, ops, passes], '%s, %d requests of any size beforehand, every sequence of %d requests of any size during each of %d passes, any duration at nanosecond resolution'
               % (['synchronous', 'asynchronous'][k], before, ops, passes), need=[0], cost=ops + passes)


def c15i(n, t, before, ops, down):
    return Job('h_c15i', [n, t, before, ops, down], 'iterator pass over %d elements on %d threads, %d requests of any size beforehand, every sequence of %d requests of any size in the call for any one element (to within the 64 KiB '
               'that starting threads may take); per-thread durations from a list of four%s' % (n, t, before, ops, ', descending' if down else ''), need=[0], cost=9)


CHECKS['C15'] = Check([c15(0, 1, 2, 1), c15(1, 1, 1, 1), c15(0, 0, 1, 2), c15(1, 0, 2, 1), c15i(2, 1, 1, 1, 0), c15i(2, 2, 0, 2, 1), c15i(3, 2, 1, 1, 0)],
                      [c15(0, 2, 3, 1), c15(1, 1, 3, 1), c15(0, 1, 2, 2), c15(1, 0, 1, 3), c15i(3, 3, 1, 1, 0), c15i(3, 2, 0, 3, 1), c15i(4, 2, 1, 1, 0), c15i(2, 1, 2, 2, 0)])


# C18
STEADY = 1 << 60
ALL = 131071


def c18(retries, fmt, n1, n2, u1, tcap, s1, scap, tm, sm):
    w = []
    if tcap == STEADY:
        w.append('pass 2 takes far too long in the first few, any number of them')
    elif tcap:
        w.append('pass 1 takes %g s and pass 2 any time up to %d s' % (u1 / 1e9, tcap))
    if scap:
        w.append('pass 1 uses %d bytes and pass 2 any amount up to %d' % (s1, scap))
    lim = lambda m: 'any of %d' % bin(m).count('1') if m & (m - 1) else 'one'
    return Job('h_c18', [retries, fmt, n1, n2, u1, tcap, s1, scap, tm, sm], 'up to %d retries, each attempt with its own usage: %s; sizes %d and %d, %s time limit(s), %s space limit(s)%s'
               % (retries, ' and '.join(w), n1, n2, lim(tm), lim(sm), ', texts formatted' if fmt else ', texts left empty'), need=[10, 11] + list(range(1, retries + 2)), cost=20 * retries + 5, validate=3)


ENDS = 65539
S1 = 1000000000
CHECKS['C18'] = Check([c18(0, 0, 1000, 2000, S1, 1 << 40, 0, 0, ALL, ENDS), c18(0, 0, 1000, 2000, S1, 0, 1000, 1 << 40, ENDS, ALL), c18(0, 0, 1, 5, 250000000, 1 << 40, 0, 0, ALL, ENDS),
                       c18(1, 0, 1000, 2000, S1, 1, 1000000, 1150000, 16, 2), c18(1, 0, 1000, 2000, S1, 0, 1000, 9000, ENDS, 34), c18(2, 0, 1000, 2000, S1, 3, 0, 0, 128, 65536), c18(1, 1, 1000, 2000, S1, 3, 0, 0, 32, 3), c18(9, 0, 1000, 2000, S1, STEADY, 0, 0, 32, 65536)],
                      [c18(0, 0, 1000, 2000, S1, 1 << 40, 0, 0, ALL, ENDS), c18(0, 0, 1000, 2000, S1, 0, 1000, 1 << 40, ENDS, ALL), c18(0, 0, 1, 5, 250000000, 1 << 40, 0, 0, ALL, ENDS),
                       c18(0, 0, 3, 1 << 20, 7, 1 << 40, 0, 0, ALL, ENDS), c18(0, 0, 77, 4000000000, 1, 0, 3, 1 << 55, ENDS, ALL), c18(1, 0, 1000, 2000, S1, 1, 1000000, 2100000, 16, 32), c18(3, 0, 1000, 2000, S1, 3, 0, 0, 128, 65536),
                       c18(2, 1, 1000, 2000, S1, 3, 0, 0, 32, 3), c18(2, 0, 1000, 2000, S1, 0, 1000, 9000, ENDS, 34), c18(40, 0, 1000, 2000, S1, STEADY, 0, 0, 32, 65536)], technique=LOGREAL, level_note=FLOATN)


# C16
OPS = ['create', 'read', 'update', 'delete']


def digits(p, what):
    return '0 to %d %s for each operation' % (p, what) if p < 1000 else '%s %s for create, read, update and delete' % (', '.join(str(p).zfill(4)[-4:]), what)


def c16(n, t, pct):
    return Job('h_c16', [n, t, pct], '%s; %s; %s' % (digits(n, 'iterations'), digits(t, 'threads'), 'any warm-up percentage from 0 to 100' if pct == 1000 else 'warm-up of %d%%' % pct if pct else 'no warm-up'),
               need=[0] + ([1] if pct else []), cost=20 if pct == 1000 else 5)


def c16b(op, pct):
    return Job('h_c16b', [op, pct], 'any number of iterations below 2^31 of %s alone, one thread, %s: the first call' % (OPS[op], 'any warm-up percentage from 1 to 100' if pct == 1000 else 'no warm-up'), need=[0],
               cost=15 if pct else 1)


CHECKS['C16'] = Check([c16(2, 11111, 0), c16(11111, 2, 0), c16(12312, 12121, 1000), c16(13221, 11212, 50), c16(1, 11111, 1000)] + [c16b(o, p) for o in range(4) for p in (0, 1000)],
                      [c16(3, 11111, 0), c16(12223, 3, 0), c16(2, 11111, 1000), c16(14321, 13213, 1000), c16(11357, 12341, 1000), c16(19999, 13333, 0), c16(19, 12, 1000)] + [c16b(o, p) for o in range(4) for p in (0, 1000)])


# C17
def c17(op, retries, tcap, scap, tm, sm):
    w = (['any time from 1 to %d s' % tcap] if tcap else []) + (['any amount of memory from 256 MiB to %d bytes' % scap] if scap else [])
    lim = lambda m: 'any of %d' % bin(m).count('1') if m & (m - 1) else 'one'
    return Job('h_c17', [op, retries, tcap, scap, tm, sm], 'up to %d attempts; pass 2 of %s takes %s (pass 1: 4 s, 1 GiB) in each, the others are O(1) and limited to it; %s time limit(s), %s space limit(s); one element per pass; usages '
               'within 1e-4 of a border left out' % (retries, OPS[op], ' and '.join(w), lim(tm), lim(sm)), need=[10, 11] + list(range(1, retries + 1)) if tcap else [10, 11, 1], cost=10 * retries, validate=3)


def c17n(allowed, n, on):
    return Job('h_c17n', [allowed, n, on], '%d attempts, 1 to %d iterations of %s: every attempt runs them all' % (allowed, n, ', '.join(o for i, o in enumerate(OPS) if on >> i & 1)), need=[0], cost=2)


SC = 9 << 30
CHECKS['C17'] = Check([c17(0, 2, 40, 0, 2, 65536), c17(1, 2, 20, 0, 8, 65536), c17(2, 2, 20, 0, 10, 65536), c17(3, 2, 40, 0, 8, 65536), c17(1, 1, 1 << 40, 0, ALL, 65536), c17(0, 1, 1 << 40, 0, 127, 65536),
                       c17(0, 2, 0, SC, 65536, 127), c17(1, 2, 0, SC, 65536, ALL), c17(2, 1, 0, 1 << 42, 65536, ALL), c17(3, 1, 0, 1 << 42, 65536, 127), c17(2, 1, 8, 2 << 30, 8, 2), c17(3, 1, 8, 2 << 30, 8, 2),
                       c17n(4, 6, 15), c17n(17, 2, 15), c17n(3, 12, 8)],
                      [c17(o, 3, 20, 0, 8, 65536) for o in range(4)] + [c17(o, 1, 1 << 40, 0, ALL if o in (1, 2) else 127, 65536) for o in range(4)] + [c17(o, 2, 0, 1 << 42, 65536, ALL if o in (1, 2) else 127) for o in range(4)]
                      + [c17(o, 1, 8, 2 << 30, 8, 2) for o in range(4)] + [c17n(4, 12, 15), c17n(17, 6, 15), c17n(16, 24, 8), c17n(9, 9, 11), c17n(9, 9, 4)], technique=LOGREAL, level_note=FLOATN)


# C19
PARTS = ['reset', 'warm-up', 'assertion of pass 1', 'assertion of pass 2']


def c19(retries, parts, wait, tcap, s1, scap, tm, sm):
    u1 = S1
    w = []
    if tcap == STEADY:
        w.append('pass 2 takes far too long in the first few, any number of them')
    elif tcap:
        w.append('pass 1 takes %g s and pass 2 any time up to %d s' % (u1 / 1e9, tcap))
    if scap:
        w.append('pass 1 uses %d bytes and pass 2 any amount up to %d' % (s1, scap))
    p = 'each set of steps present or absent' if parts == 1000 else 'with ' + (', '.join(x for i, x in enumerate(PARTS) if parts >> i & 1) or 'no optional steps')
    lim = lambda m: 'none' if m == 1 << 17 else 'any of %d%s' % (bin(m & 131071).count('1'), ' or none' if m >> 17 else '')
    return Job('h_c19', [retries, parts, wait, 1000, 2000, u1, tcap, s1, scap, tm, sm], '%s; %s; each attempt with its own usage: %s; time limit: %s, space limit: %s; %s; texts left empty'
               % ('number of retries not given' if retries == 1000 else 'up to %d retries' % retries, p, ' and '.join(w), lim(tm), lim(sm), 'all steps pending once' if wait else 'steps never pending'),
               need=[10, 11] + list(range(1, (0 if retries == 1000 else retries) + 2)), cost=(0 if retries == 1000 else 20 * retries) + 5, validate=3)


NONE = 1 << 17
ALLN = ALL | NONE
ENDN = ENDS | NONE
CHECKS['C19'] = Check([c19(1, 1000, 0, 3, 0, 0, 32, 65536), c19(0, 1000, 1, 3, 0, 0, 32 | NONE, NONE), c19(0, 0, 0, 1 << 40, 0, 0, ALLN, 65536 | NONE), c19(0, 12, 1, 0, 1000, 1 << 40, ENDN, ALLN), c19(1, 15, 1, 0, 1000, 9000, ENDN, 32),
                       c19(2, 0, 0, 3, 0, 0, 128, NONE), c19(1, 3, 0, 1, 1000000, 1150000, 16, 2), c19(1000, 15, 1, 3, 0, 0, 32 | NONE, NONE), c19(9, 1, 1, STEADY, 0, 0, 32, NONE), c19(9, 14, 0, STEADY, 0, 0, 32, NONE)],
                      [c19(1, 1000, 1, 3, 0, 0, 32 | NONE, NONE), c19(0, 1, 0, 1 << 40, 0, 0, ALLN, 65536 | NONE), c19(0, 14, 1, 0, 1000, 1 << 40, ENDN, ALLN), c19(2, 15, 1, 0, 1000, 9000, ENDN, 32), c19(3, 2, 0, 3, 0, 0, 32 | NONE, NONE),
                       c19(2, 15, 0, 3, 0, 0, 128, NONE), c19(1, 3, 0, 1, 1000000, 1150000, 16, 2), c19(1000, 1000, 1, 3, 0, 0, 32 | NONE, NONE), c19(40, 1, 1, STEADY, 0, 0, 32, NONE), c19(40, 14, 0, STEADY, 0, 0, 32, NONE)],
                      technique=LOGREAL, level_note=FLOATN + ' tokio is replaced by a stand-in whose sleep returns at once.')


# C22
def c22(k):
    return Job('h_c22', [k], 'every pair of classes, %s texts' % ['plain', 'time', 'space'][k], need=[0])


def c22r(k, w):
    return Job('h_c22r', [k, w], '%s report, %s' % (['set resizing', 'constant set', 'regular'][k], ['every time class', 'every space class', 'every time and space class'][w]), need=[0], cost=1 + 5 * (w == 2))


ACCEPT = [c18(0, 0, 1000, 2000, S1, 1 << 40, 0, 0, ALL, ENDS), c18(0, 0, 1000, 2000, S1, 0, 1000, 1 << 40, ENDS, ALL), c19(0, 0, 0, 1 << 40, 0, 0, ALL, 65536), c19(0, 0, 0, 0, 1000, 1 << 40, 65536, ALL),
          c17(1, 1, 1 << 40, 0, ALL, 65536), c17(0, 1, 1 << 40, 0, 127, 65536), c17(2, 1, 0, 1 << 42, 65536, ALL), c17(3, 1, 0, 1 << 42, 65536, 127)]
CHECKS['C22'] = Check([c22(k) for k in range(3)] + [c22r(k, w) for k in range(3) for w in range(2)] + ACCEPT,
                      [c22(k) for k in range(3)] + [c22r(k, 2) for k in range(3)] + ACCEPT + [c17(o, 1, 1 << 40, 0, ALL if o in (1, 2) else 127, 65536) for o in (2, 3)] + [c17(o, 1, 0, 1 << 42, 65536, ALL if o in (1, 2) else 127) for o in (0, 1)]
                      + [c18(0, 0, 3, 1 << 20, 7, 1 << 40, 0, 0, ALL, ENDS), c18(0, 0, 77, 4000000000, 1, 0, 3, 1 << 55, ENDS, ALL)], technique=LOGREAL, level_note=FLOATN)


# C23
def c23(n, e):
    return Job('h_c23', [n, e], 'up to %d measurers of two kinds and any expected classes, %d event(s), readings of any value, pending or not, with and without data' % (n, e), need=range(n + 1), cost=n * e * 4)


CHECKS['C23'] = Check([c23(5, 1), c23(2, 2), c23(1, 3)], [c23(8, 1), c23(3, 2), c23(2, 3)])


# C24
def c24c(n, t, pct, late=0, test=0, **k):
    return Job('h_c24c', [n, t, pct, late, test], 'CRUD, %s, %s calls per pass, %s threads, %d%% of warm-up, up to %d attempt(s) that take too long, any call panicking' % (
        'checked' if test else 'reported', '/'.join(str(n)), '/'.join(str(t)), pct, late), need=[0, 1], **k)


def c24i(n, t, s):
    return Job('h_c24i', [n, t, s], 'an iterator pass of any kind, up to %d elements from anywhere, up to %d threads%s, any element panicking' % (n, t, ' in any order' if s else ''), need=[0, 1])


CHECKS['C24'] = Check([Job('h_c24', [2], 'regular, up to 2 retries, any call panicking', need=[0, 1]),
                       c24c(2111, 1111, 100), c24c(1112, 1111, 0), c24c(1111, 1111, 100, 1, 1), c24c(2222, 2222, 0), c24c(3212, 2111, 50),
                       c24i(3, 3, 0), c24i(2, 2, 1)] + [Job('h_c24a', [1, w, i], 'asynchronous, any of the optional closures, up to 1 retry, any call panicking, %s, %s' % (
                           'in its future' if i else 'before its future', 'pending once' if w else 'never pending'), need=[0, 1]) for w, i in ((0, 0), (1, 1), (0, 1))],
                      [Job('h_c24', [6], 'regular, up to 6 retries, any call panicking', need=[0, 1])]
                      + [c24c(n, t, p, l, e) for n, t, p, l, e in ((4321, 1111, 100, 0, 0), (1234, 1111, 50, 0, 0), (1111, 1111, 100, 4, 1), (1111, 1111, 0, 4, 1), (4444, 2222, 0, 0, 0), (4343, 3231, 50, 0, 1), (3333, 3333, 100, 0, 0))]
                      + [c24i(6, 6, 0), c24i(4, 3, 1)] + [Job('h_c24a', [3, w, i], 'asynchronous, any of the optional closures, up to 3 retries, any call panicking, %s, %s' % (
                           'in its future' if i else 'before its future', 'pending once' if w else 'never pending'), need=[0, 1]) for w, i in ((0, 0), (1, 1), (1, 0), (0, 1))], unwind=True)


# C12, C13
PARSYM = 'symbolic execution of each thread from the compiled LLVM IR; every combination of thread paths with symbolic order of accesses and values read, decided by Z3; counterexample schedules replayed natively'
PARNOTE = ('Every thread path within the bounds and every interleaving of them is covered by a query over the order of the accesses to shared memory and the value each read sees; nothing is said about longer '
           'runs, more threads, or more failed compare-exchanges or turns of waiting loops per thread than stated. Paths cut by the bound on accesses per thread are counted in the evidence. ' + TRUST)


def ring(n, each, np, nd, deqs, own=0, mode=0, before=0, peek=0, e=12, fails=1, cost=3):
    w = '%d producer(s) of %d element(s)' % (np, each)
    if nd:
        w += ', %d thread(s) %s' % (nd, 'peeking at all elements' if peek else 'dequeuing %d time(s) from %s' % (deqs, 'a consumer each' if own else 'one consumer'))
    w += ', buffer of %d, %s' % (n, 'any number of elements (up to 2^62) gone through it before' if before >> 63 else '%d elements gone through it before' % before if before else 'fresh')
    w += '; %s' % ('every execution the C11 memory model allows (release/acquire, release sequences, coherence)' if mode else 'every interleaving')
    w += '; up to %d shared accesses and %d failed compare-exchange(s) (spurious or not) or turns of a waiting loop per thread' % (e, fails)
    need = [0] + ([2, 3] if nd else [3])
    return Job('h_c12', [n, each, np, nd, deqs, own, mode, before, peek], w, need=need, par={'events': e, 'fails': fails}, cost=cost, max_conc=1024)


ANY = 1 << 63
CHECKS['C12'] = Check([ring(4, 1, 2, 1, 1, e=10), ring(4, 1, 1, 2, 1, e=10), ring(4, 2, 1, 1, 2, e=15), ring(4, 1, 2, 1, 2, e=14), ring(4, 1, 1, 2, 1, own=1, e=10), ring(4, 2, 2, 0, 0, e=12), ring(4, 1, 2, 1, 1, peek=1, e=10),
                       ring(4, 2, 1, 1, 1, peek=1, e=12), ring(4, 1, 2, 1, 1, before=3, e=10), ring(2, 1, 2, 1, 1, before=ANY, e=10), ring(4, 1, 2, 2, 1, e=10, cost=20), ring(4, 1, 3, 1, 1, e=9)],
                      [ring(4, 1, 2, 2, 1, e=12, fails=2, cost=100), ring(4, 1, 2, 2, 1, own=1, e=10, cost=20), ring(4, 1, 2, 1, 2, e=16, fails=2, cost=20), ring(4, 2, 1, 2, 1, e=12, cost=20), ring(8, 2, 2, 1, 1, e=14, cost=20),
                       ring(4, 1, 2, 1, 1, e=14, fails=3, cost=10), ring(4, 1, 1, 2, 1, e=14, fails=3), ring(2, 1, 2, 1, 2, before=ANY, e=14), ring(4, 2, 2, 1, 1, peek=1, e=12), ring(4, 1, 3, 1, 2, e=14, cost=20), ring(4, 1, 1, 3, 1, e=10),
                       ring(4, 2, 2, 0, 0, e=16, fails=2)])
CHECKS['C13'] = Check([ring(4, 1, 1, 1, 1, mode=1, e=10), ring(4, 1, 2, 1, 1, mode=1, e=9), ring(4, 1, 1, 2, 1, mode=1, e=9), ring(4, 1, 1, 2, 1, mode=1, own=1, e=9), ring(4, 1, 2, 1, 1, mode=1, peek=1, e=9),
                       ring(4, 2, 1, 1, 1, mode=1, peek=1, e=12), ring(4, 2, 1, 1, 2, mode=1, e=14)],
                      [ring(4, 1, 2, 1, 1, mode=1, e=12, fails=2, cost=40), ring(4, 1, 2, 1, 2, mode=1, e=12, cost=30), ring(4, 1, 2, 2, 1, mode=1, e=9, cost=100), ring(4, 1, 1, 2, 1, mode=1, e=12, fails=2, cost=30), ring(4, 1, 3, 1, 1, mode=1, peek=1, e=9),
                       ring(4, 2, 2, 1, 1, mode=1, peek=1, e=12), ring(4, 2, 1, 1, 2, mode=1, e=16, fails=2, cost=20), ring(2, 1, 2, 1, 1, mode=1, before=ANY, e=9)])
for _p in ('C12', 'C13'):
    CHECKS[_p].technique, CHECKS[_p].level_note = PARSYM, PARNOTE


# C08
REQ = ['allocate', 'free', 'allocate zeroed', 'reallocate']


def c08(kinds, nt=None, fails=1, e=14, cost=5):
    nt = nt or len(kinds)
    each = len(kinds) // nt
    return Job('h_c08', [nt, each] + list(kinds), '%d threads: %s; sizes 1 to 2^40; every interleaving of the atomic steps; up to %d failed compare-exchange(s) (spurious or not) or turns of a waiting loop per thread' % (
        nt, ' | '.join(', '.join(REQ[k] for k in kinds[i * each:(i + 1) * each]) for i in range(nt)), fails), need=[0], par={'events': e, 'fails': fails}, cost=cost, max_conc=1024)


CHECKS['C08'] = Check([c08((0, 0)), c08((0, 1)), c08((1, 1)), c08((0, 2)), c08((1, 2)), c08((0, 3), cost=20), c08((1, 3), cost=20), c08((0, 1, 0), fails=0, cost=20)],
                      [c08((2, 2)), c08((2, 3), cost=20), c08((3, 3), cost=90), c08((0, 1), fails=2, e=16), c08((1, 1), fails=2, e=16), c08((0, 0), fails=2, e=16), c08((0, 1, 0), cost=150), c08((0, 1, 1), fails=0, cost=20),
                       c08((0, 1, 0, 1), nt=2, fails=0, e=16, cost=100)], technique=PARSYM, level_note=PARNOTE)


# C20
def c20(n, how):
    return Job('h_c20', [n, how], 'memory before, after, at most and at least: any below 2^62; %s, %s' % ('any n below 2^32' if n == 0 else 'n = %d' % n, 'Display' if how else 'fmt_over_n'), need=[0, 1, 2])


def c20r(kind, which, what):
    w = []
    if what & 1:
        w.append('any memory before and after it (at most 5000 above or 100 below)')
    if what & 4:
        w.append('any memory before, after, at most and at least below 2^61')
    if what & 2:
        w.append('any duration below 2^40 s at nanosecond resolution, any number of elements below 2^31')
    return Job('h_c20r', [kind, which, what], '%s report, pass %d: %s; the other pass fixed' % (['set resizing', 'constant set', 'regular'][kind], which + 1, '; '.join(w)), need=[0], cost=4 if what & 4 else 1)


C20T = [Job('h_c20t', [0], 'both passes with any memory below 2^61: the sums', need=[0]), Job('h_c20t', [1], 'both passes with any memory below 2^61: the text', need=[0, 1], cost=5)]
CHECKS['C20'] = Check([c20(0, 0), c20(1, 1), c20(7, 0)] + C20T + [c20r(k, w, x) for k in range(3) for w in range(2) for x in (1, 2)],
                      [c20(0, 0), c20(1, 1), c20(7, 0)] + C20T + [c20r(k, w, x) for k in range(3) for w in range(2) for x in (1, 2, 4)] + [c20r(2, 0, 3), c20r(2, 1, 3)], technique=LOGREAL, level_note=FLOATN)


# C21
KIND21 = ['bytes', 'bytes per second', 'custom units', 'custom units per second', 'durations']
CHECKS['C21'] = Check([Job('h_c21', [k], '%s: %s' % (KIND21[k], 'from 1.01 us to 2^40 s at nanosecond resolution' if k == 4 else 'any non-negative finite number' + (', 1e-12 around 1/60 and 1/3600 left out' if k in (1, 3) else '')), need=r)
                       for k, r in enumerate([range(7), range(9), range(3), range(5), [0]])] + [Job('h_c21u', [], 'twelve custom units much alike in use at once, values and rates, one of any value from 1 on', need=[0])],
                      None, technique=LOGREAL, level_note=FLOATN)
CHECKS['C21'].t = CHECKS['C21'].q


# C25
def c25(kind, which, any_n):
    return Job('h_c25', [kind, which, any_n], '%s report, %s%s, the rest fixed' % (['set resizing', 'constant set', 'regular'][kind], 'pass %d of any duration below 2^40 s at nanosecond resolution' % (which + 1) if which < 2 else 'known durations',
               ', any number of %s below 2^31' % ('repetitions' if kind == 1 else 'elements') if any_n else ''), need=[0])


def c25c(op, cap, n):
    return Job('h_c25c', [op, cap, n], 'CRUD, %s, %s' % ('both passes of %s of any duration from 1 to %d s at nanosecond resolution' % (OPS[op], cap) if cap else 'known durations',
               '%s calls per pass' % '/'.join(str(n)) if n > 9 else '0 to %d calls per pass of each operation' % n), need=[0], cost=5)


CHECKS['C25'] = Check([c25(k, w, a) for k in range(3) for w in range(2) for a in range(2)] + [c25c(o, 20, 1111) for o in range(4)] + [c25c(0, 0, 1), c25c(1, 9, 2321), c25c(3, 9, 1232)],
                      [c25(k, w, a) for k in range(3) for w in range(3) for a in range(2)] + [c25c(o, 1 << 40, 1111) for o in range(4)] + [c25c(o, 50, 3425) for o in range(4)] + [c25c(0, 0, 2), c25c(1, 20, 1101), c25c(2, 20, 1011)],
                      technique=LOGREAL, level_note=FLOATN)


# C26
ASK = ['takes a save point and asks it', 'asks a save point taken before', 'asks a save point taken before, twice']


def c26(what, kinds, fails=0, cost=3):
    kinds = list(kinds) + [9] * (2 - len(kinds))
    e = 64 if what == 2 else 48
    return Job('h_c26', [what] + kinds, 'one thread %s, another: %s; sizes 1 to 2^40; every interleaving; up to %d shared accesses and %d failed compare-exchange(s) (spurious or not) or turns of a waiting loop per thread' % (
        ASK[what], ', '.join('takes a save point and asks it' if k == 8 else REQ[k] for k in kinds if k != 9), e, fails), need=[0], par={'events': e, 'fails': fails}, cost=cost, max_conc=1024, timeout_ms=240000)


CHECKS['C26'] = Check([c26(w, [k]) for w in range(3) for k in range(3)] + [c26(0, [3], cost=20), c26(1, [3])] + [c26(w, [8], fails=1) for w in range(3)] + [c26(1, [0, 1]), c26(1, [3, 0]), c26(1, [8, 0], cost=30)],
                      [c26(w, [k], fails=1) for w in range(3) for k in range(4)] + [c26(w, [8], fails=2) for w in range(3)] + [c26(0, [0, 1], cost=60), c26(0, [1, 0], cost=60), c26(2, [0, 1], cost=60), c26(1, [2, 3]), c26(1, [8, 0], cost=30)],
                      technique=PARSYM, level_note=PARNOTE)

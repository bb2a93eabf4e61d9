"""Floating point.

Concrete floats are Python floats.  A symbolic float is a polynomial over positive base symbols, every term with a
bound on its relative rounding error.  Base symbols live in log space (one z3 Real per symbol: the natural logarithm
of its value), so that a comparison of two monomials is a linear real constraint.  A comparison forks the path; both
sides get constraints widened by the accumulated rounding error, i.e. the set of paths over-approximates the real
IEEE-754 behaviour by at most those bands."""
import math, struct
from fractions import Fraction
import z3
from . import bv as B
from .bv import Unsupported, Inconclusive

U64 = 2.0 ** -53
U32 = 2.0 ** -24
LOGERR = 1e-12         # slack for the float logarithms used as constants


class Sym:
    """a positive real quantity"""
    __slots__ = ('id', 'key', 'lg', 'zero', 'mag', 'whole', 'kind', 'lo', 'hi', 'expr', 'kids')

    def __init__(self, id, key, kind):
        self.id = id
        self.key = key
        self.kind = kind
        self.lg = z3.Real('lg%d' % id)
        self.zero = None      # z3 Bool: the quantity is zero (to be decided before non-linear use)
        self.mag = None       # z3 BV whose unsigned order is the order of the quantities of this kind
        self.lo = None        # lower bound of lg
        self.hi = None
        self.expr = None      # function(model env) -> float
        self.kids = ()


class SF:
    is_sf = True
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t            # {mono: (coef, relerr)}; mono = ((id, exp), ...), () for the constant

    def __repr__(self):
        return 'SF(%s)' % ' + '.join('%g*%s' % (c, '*'.join('s%d^%d' % x for x in m) or '1') for m, (c, e) in self.t.items())


class Table:
    """base symbols of one engine"""

    def __init__(self):
        self.syms = []
        self.bykey = {}
        self.keep = []

    def get(self, key, kind):
        s = self.bykey.get(key)
        if s is None:
            s = Sym(len(self.syms), key, kind)
            self.syms.append(s)
            self.bykey[key] = s
            return s, True
        return s, False


def table(S):
    t = getattr(S.eng, 'ftab', None)
    if t is None:
        t = S.eng.ftab = Table()
    return t


def mk(S, t):
    t = {m: ce for m, ce in t.items() if ce[0] != 0}
    if not t:
        return 0.0
    if len(t) == 1 and () in t:
        return float(t[()][0])
    return SF(t)


def lift(x):
    if x.__class__ is float:
        return {(): (x, 0.0)} if x != 0 else {}
    return x.t


def special(x):
    return x.__class__ is float and (math.isinf(x) or math.isnan(x))


def ulp(w):
    return U64 if w == 64 else U32


def rnd(x, w):
    """round a Python float to w bits"""
    if w == 64 or x != x or math.isinf(x):
        return x
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


# ------------------------------------------------------------------ base symbols

def register(S, s):
    """first appearance of a base symbol on this path: add the lemmas that relate it to the others"""
    known = S.env.get('fsyms', ())
    if s.id in known:
        return
    tab = table(S)
    add = []
    if s.lo is not None:
        add.append(s.lg >= s.lo)
    if s.hi is not None:
        add.append(s.lg <= s.hi)
    if s.mag is not None:
        for k in known:
            o = tab.syms[k]
            if o.kind == s.kind and o.mag is not None and o.mag.size() == s.mag.size():
                add.append(z3.And(z3.ULT(o.mag, s.mag) == (o.lg < s.lg), z3.ULT(s.mag, o.mag) == (s.lg < o.lg)))
                d = B.norm(s.mag - o.mag)
                if s.kind == 'int' and d.__class__ is int:
                    # a constant apart (where nothing wraps around): close, if large
                    lo, hi, d = (o, s, d) if d < 1 << 63 else (s, o, (1 << 64) - d)
                    if 0 < d < 1 << 32:
                        for k in (4, 8, 12, 16, 20, 24):
                            add.append(z3.Implies(z3.And(z3.ULE(lo.mag, hi.mag), z3.ULE(d << k, lo.mag)), hi.lg - lo.lg <= rv(2.0 ** -k * 1.0000001 + 1e-12)))
    if s.kind == 'secs':
        # less than a second exactly when there are no whole seconds, ...
        for v in (1, 2, 3, 4, 10):
            add.append(z3.ULT(s.whole, v) == (s.lg < rv(math.log(v) if v > 1 else 0)))
    if s.kind == 'log2':
        arg = s.kids[0]
        for k in known:
            o = tab.syms[k]
            if o.kind == 'log2':
                a, b = o.kids[0], arg
                la, lb = logof(S, a), logof(S, b)
                add.append((la < lb) == (o.lg < s.lg))
                add.append((lb < la) == (s.lg < o.lg))
                # x/log(x) increases beyond e
                three = rv(math.log(3.0) - LOGERR)
                add.append(z3.Implies(z3.And(la >= three, lb >= la), s.lg - o.lg <= lb - la))
                add.append(z3.Implies(z3.And(lb >= three, la >= lb), o.lg - s.lg <= la - lb))
        # log2(x) >= 1 exactly when x >= 2
        add.append(z3.Implies(logof(S, arg) >= rv(math.log(2.0) - LOGERR), s.lg >= rv(-1e-11)))
    if s.kind == 'pow':
        base, ex = s.kids
        lb, lq = logof(S, base), logof(S, ex)
        z = rv(1e-11)
        for k in (1, 2, 3, 4):
            lk = rv(math.log(k))
            # base^q against base^k
            add.append(z3.Implies(z3.And(lb >= 0, lq >= lk), s.lg >= lb * k - z))
            add.append(z3.Implies(z3.And(lb >= 0, lq <= lk), s.lg <= lb * k + z))
            add.append(z3.Implies(z3.And(lb <= 0, lq >= lk), s.lg <= lb * k + z))
            add.append(z3.Implies(z3.And(lb <= 0, lq <= lk), s.lg >= lb * k - z))
        for k in known:
            o = tab.syms[k]
            if o.kind == 'pow' and o.kids[0] == base:
                lo = logof(S, o.kids[1])
                add.append(z3.Implies(lb > 0, z3.And((lo < lq) == (o.lg < s.lg), (lq < lo) == (s.lg < o.lg))))
                add.append(z3.Implies(lb < 0, z3.And((lo < lq) == (o.lg > s.lg), (lq < lo) == (s.lg > o.lg))))
                add.append(z3.Implies(lb == 0, s.lg == o.lg))
            if o.kind == 'pow' and o.kids[1] == ex:
                la, lb = logof(S, o.kids[0]), logof(S, base)
                add.append((la < lb) == (o.lg < s.lg))
                add.append((lb < la) == (s.lg < o.lg))
    S.env['fsyms'] = known + (s.id,)
    for c in add:
        S.pc.append(c)
    if add:
        S.model = None


def rv(x):
    return z3.RealVal(Fraction(x))


def logof(S, key):
    """log of a single-term polynomial given as a hashable ((mono, coef),)"""
    (mono, coef), = key
    tab = table(S)
    e = rv(math.log(coef))
    for i, x in mono:
        e = e + tab.syms[i].lg * x
    return e


def int_symbol(S, x, w, merge=False):
    """positive symbol for an unsigned BV (its zero-ness still to be decided)"""
    tab = table(S)
    al = S.env.get('fints', {})
    i = al.get(x.get_id())
    if i is not None:
        return tab.syms[i]
    s, new = tab.get(('int', w, x.get_id()), 'int%d' % w)
    if new:
        tab.keep.append(x)
        s.zero = x == 0
        s.mag = x if x.size() == 64 else z3.ZeroExt(64 - x.size(), x) if x.size() < 64 else x
        s.kind = 'int'
        s.lo = rv(0)
        s.hi = rv(w * math.log(2.0) + LOGERR)
        s.expr = ('bv', x)
    # one seen on this path that can only be equal?
    others = [tab.syms[i] for i in dict.fromkeys(al.values()) if tab.syms[i].expr[1].size() == x.size()]
    if others and merge:
        m = S.getmodel()
        for o in others:
            if z3.is_true(m.eval(o.expr[1] == x, model_completion=True)):
                try:
                    if S.eng.solver.check(S.pc, o.expr[1] != x) is None:
                        tab.keep.append(x)
                        S.env['fints'] = {**al, x.get_id(): o.id}
                        return o
                except Inconclusive:
                    pass
    S.env['fints'] = {**al, x.get_id(): s.id}
    return s


def of_bits(S, x, w):
    """the non-negative finite 64 bit float with these bits"""
    if w != 64:
        raise Unsupported('float of symbolic bits')
    tab = table(S)
    s, new = tab.get(('fbits', x.get_id()), 'fbits')
    if new:
        tab.keep.append(x)
        s.zero = x == 0
        s.mag = x
        s.lo = rv(math.log(5e-324) - LOGERR)
        s.hi = rv(1024 * math.log(2.0))
        s.expr = ('fbits', x)
    return SF({((s.id, 1),): (1.0, 0.0)})


def sum_symbol(S, t):
    """positive symbol for a linear combination of symbols with positive coefficients (a duration in seconds)"""
    tab = table(S)
    key = tuple(sorted((m, float(c)) for m, (c, e) in t.items()))
    s, new = tab.get(('sum', key), 'sum')
    if new:
        parts = []
        for m, c in key:
            if m == ():
                raise Unsupported('sum with a constant')
            if len(m) != 1 or m[0][1] != 1 or c <= 0:
                raise Unsupported('non-linear sum')
            parts.append((tab.syms[m[0][0]], c))
        s.zero = z3.And(*[p.zero if p.zero is not None else z3.BoolVal(False) for p, c in parts])
        s.expr = ('sum', [(p, c) for p, c in parts])
        cs = sorted(c for p, c in parts)
        if len(parts) == 2 and cs[1] == 1.0 and abs(cs[0] - 1e-9) < 1e-20:
            hi = [p for p, c in parts if c == 1.0][0]
            lo = [p for p, c in parts if c != 1.0][0]
            if hi.mag is not None and lo.mag is not None:
                s.mag = z3.Concat(hi.mag, B.bv(B.trunc(lo.mag, lo.mag.size(), 32), 32))
                s.whole = hi.mag
                s.kind = 'secs'
                s.lo = rv(math.log(1e-9) - LOGERR)
    return s


def near(S, x, secs, ns):
    """lemma: secs + ns / 10^9, as a number of seconds, is within a nanosecond of the positive x"""
    if x.__class__ is float or len(x.t) != 1:
        return
    (m, (c, e)), = x.t.items()
    if c <= 0:
        return
    d = fadd(S, uitofp(S, secs, 64, 64), fdiv(S, uitofp(S, ns, 32, 64), 1e9, 64), 64)
    s = sum_symbol(S, {k: v for k, v in d.t.items()})
    lx = logof(S, ((m, c),))
    out = [z3.Implies(s.zero, lx <= rv(math.log(2e-9)))]
    for lo, err in ((1.0, 1.1e-9), (1e-3, 1.1e-6), (3.9e-6, 2.6e-4), (1e-6, 1.1e-3)):
        b = rv(err + e + 1e-12)
        out.append(z3.Implies(z3.And(lx >= rv(math.log(lo)), z3.Not(s.zero)), z3.And(s.lg - lx <= b, lx - s.lg <= b)))
    out.append(z3.Implies(z3.And(lx <= rv(math.log(4.1e-6)), z3.Not(s.zero)), s.lg <= rv(math.log(4.2e-6))))
    S.pc += out


def nonzero(S, s):
    """decide (forking if needed) whether base symbol s is zero; True if it is not"""
    if s.zero is None:
        return True
    nz = S.env.get('fnz', ())
    if s.id in nz:
        return True
    d = S.decide(s.zero) if not z3.is_false(z3.simplify(s.zero)) else 0
    return not d


def note_nonzero(S, ids):
    nz = S.env.get('fnz', ())
    new = tuple(i for i in ids if i not in nz)
    if new:
        S.env['fnz'] = nz + new
        tab = table(S)
        for i in new:
            register(S, tab.syms[i])


def resolve(S, x):
    """make x usable in a product, quotient or comparison: sums of several symbols become one symbol, symbols that may
    be zero are decided"""
    if x.__class__ is float:
        return x
    tab = table(S)
    t = x.t
    non = [m for m in t if m != ()]
    if len(non) > 1 and all(len(m) == 1 and m[0][1] == 1 and tab.syms[m[0][0]].zero is not None for m in non):
        signs = {t[m][0] > 0 for m in non}
        if len(signs) == 1 and () not in t:
            neg = not signs.pop()
            tt = {m: (abs(c), e) for m, (c, e) in t.items()}
            # one symbol for all the multiples of the same sum
            top = max(c for c, e in tt.values())
            err = max(e for c, e in tt.values())
            if top != 1.0:
                scaled = {}
                for m, (c, e) in tt.items():
                    r = c / top
                    if abs(r * 1e9 - 1.0) < 1e-12:
                        r = 1e-9
                    scaled[m] = (r, e)
                tt = scaled
                err += 2e-12
            s = sum_symbol(S, tt)
            t = {((s.id, 1),): (-top if neg else top, err)}
    ids = set()
    zero = set()
    for m in t:
        for i, e in m:
            ids.add(i)
    ok = []
    for i in sorted(ids):
        if nonzero(S, tab.syms[i]):
            ok.append(i)
        else:
            zero.add(i)
    note_nonzero(S, ok)
    if zero:
        t = {m: ce for m, ce in t.items() if not any(i in zero for i, e in m)}
    return mk(S, t)


# ------------------------------------------------------------------ operations

def con2(a, b):
    return a.__class__ is float and b.__class__ is float


def fadd(S, a, b, w, sign=1.0):
    if con2(a, b):
        return rnd(a + sign * b, w)
    if special(a):
        return a
    if special(b):
        return sign * b
    u = ulp(w)
    t = dict(lift(a))
    for m, (c, e) in lift(b).items():
        c *= sign
        if m in t:
            c0, e0 = t[m]
            if c0 == -c and e0 == 0.0 and e == 0.0:
                del t[m]
                continue
            if c0 * c < 0:
                # cancellation: bound the error by the larger operand
                tot = c0 + c
                if tot == 0:
                    raise Unsupported('cancelling rounded terms')
                ee = (abs(c0) * e0 + abs(c) * e) / abs(tot)
                t[m] = (tot, ee)
            else:
                t[m] = (c0 + c, max(e0, e))
        else:
            t[m] = (c, e)
    if len(t) == 0:
        return 0.0
    t = {m: (c, e + u * 1.01) for m, (c, e) in t.items()}
    return mk(S, t)


def fsub(S, a, b, w):
    return fadd(S, a, b, w, -1.0)


def fneg(S, a, w):
    if a.__class__ is float:
        return -a
    return SF({m: (-c, e) for m, (c, e) in a.t.items()})


def mulmono(a, b):
    d = dict(a)
    for i, e in b:
        d[i] = d.get(i, 0) + e
        if d[i] == 0:
            del d[i]
    return tuple(sorted(d.items()))


def fmul(S, a, b, w):
    if con2(a, b):
        return rnd(a * b, w)
    if (a.__class__ is float and a == 0.0) or (b.__class__ is float and b == 0.0):
        return 0.0
    if special(a) or special(b):
        x, y = (a, b) if special(a) else (b, a)
        if x != x:
            return x
        y = resolve(S, y)
        if y.__class__ is float:
            return rnd(x * y, w)
        return x if is_pos(S, y) else -x
    if a.__class__ is not float and b.__class__ is not float:
        a, b = resolve(S, a), resolve(S, b)
        if con2(a, b) or a.__class__ is float or b.__class__ is float:
            return fmul(S, a, b, w)
    u = ulp(w)
    if exact_product(S, a, b, w):
        u = 0.0
    t = {}
    for m1, (c1, e1) in lift(a).items():
        for m2, (c2, e2) in lift(b).items():
            m = mulmono(m1, m2)
            c = c1 * c2
            e = e1 + e2 + 1.01 * u
            if m in t:
                c0, e0 = t[m]
                if c0 * c < 0:
                    raise Unsupported('cancellation in a product')
                t[m] = (c0 + c, max(e0, e))
            else:
                t[m] = (c, e)
    return mk(S, t)


def exact_product(S, a, b, w):
    """an integer times a small integer constant"""
    if a.__class__ is float:
        a, b = b, a
    if b.__class__ is not float or b != int(b) or len(a.t) != 1:
        return False
    (m, (c, e)), = a.t.items()
    if e != 0.0 or c != int(c) or len(m) != 1 or m[0][1] != 1:
        return False
    s = table(S).syms[m[0][0]]
    if not s.expr or s.expr[0] != 'bv':
        return False
    return s.expr[1].size() + math.log2(abs(c * b)) <= (53 if w == 64 else 24)


def pdiv(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        if a != a or a == 0:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)


def fdiv(S, a, b, w):
    if con2(a, b):
        return rnd(pdiv(a, b), w)
    if b.__class__ is float:
        if b == 0.0 or special(b):
            a = resolve(S, a)
            if a.__class__ is float:
                return rnd(pdiv(a, b), w)
            if b != b:
                return b
            if math.isinf(b):
                return 0.0
            return math.inf if is_pos(S, a) == (math.copysign(1.0, b) > 0) else -math.inf
        u = ulp(w)
        return mk(S, {m: (c / b, e + 1.01 * u + U64) for m, (c, e) in lift(a).items()})
    b = resolve(S, b)
    a = resolve(S, a)
    if b.__class__ is float:
        return fdiv(S, a, b, w)
    if a.__class__ is float and (a == 0.0 or special(a)):
        if a == 0.0:
            return 0.0
        if a != a:
            return a
        return a if is_pos(S, b) else -a
    if len(b.t) != 1:
        raise Unsupported('division by a sum: %r' % b)
    (m2, (c2, e2)), = b.t.items()
    inv = tuple((i, -e) for i, e in m2)
    u = ulp(w)
    t = {}
    for m1, (c1, e1) in lift(a).items():
        t[mulmono(m1, inv)] = (c1 / c2, e1 + e2 + 1.01 * u + U64)
    return mk(S, t)


def frem(S, a, b, w):
    if con2(a, b):
        if b == 0 or a != a or b != b or math.isinf(a):
            return math.nan
        return rnd(math.fmod(a, b), w)
    raise Unsupported('frem on symbolic values')


def is_pos(S, x):
    """sign of a resolved symbolic value (forks if it depends)"""
    if x.__class__ is float:
        return x > 0
    s = {c > 0 for c, e in x.t.values()}
    if len(s) == 1:
        return s.pop()
    return bool(S.decide(cmp0(S, x, 'gt')))


def cmp0(S, x, op):
    """x (two terms of opposite sign) compared with 0, as an undecided pair of constraints -> decided by S.choose"""
    raise Unsupported('sign of %r' % x)


def fcmp(S, pred, a, b):
    if con2(a, b):
        un = a != a or b != b
        if pred == 'ord':
            return int(not un)
        if pred == 'uno':
            return int(un)
        if un:
            return int(pred[0] == 'u')
        p = pred[1:]
        return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p])
    if pred == 'true':
        return 1
    if pred == 'false':
        return 0
    if a.__class__ is float and a != a or b.__class__ is float and b != b:
        return int(pred[0] == 'u')
    if pred in ('ord', 'uno'):
        return int(pred == 'ord')
    p = pred[1:]
    # the same two values compared before: what is known of them since
    ka = a if a.__class__ is float else id(a)
    kb = b if b.__class__ is float else id(b)
    seen = S.env.get('fcmps')
    pm = RELS[p]
    k = 7
    if seen is not None:
        if (ka, kb) in seen:
            k = seen[(ka, kb)][0]
        elif (kb, ka) in seen:
            k = seen[(kb, ka)][0]
            k = (k & 2) | (k & 1) << 2 | k >> 2
        if k & pm == k:
            return 1
        if not k & pm:
            return 0
    r = fcmp_(S, p, a, b)
    S.env['fcmps'] = {**(seen or {}), (ka, kb): (k & (pm if r else ~pm), a, b)}
    return r


RELS = {'lt': 1, 'le': 3, 'gt': 4, 'ge': 6, 'eq': 2, 'ne': 5}


def fcmp_(S, p, a, b):
    if special(a) or special(b):
        x = a if special(a) else b
        big = x > 0
        if p in ('eq', 'ne'):
            return int(p == 'ne')
        if special(a):
            return int(big == (p in ('gt', 'ge')))
        return int(big == (p in ('lt', 'le')))
    # an exact integer against a constant: keep it in the integers
    r = int_vs_const(S, p, a, b)
    if r is not None:
        return S.decide(r)
    if a.__class__ is float and a == 0.0 or b.__class__ is float and b == 0.0:
        x = resolve(S, b if a.__class__ is float and a == 0.0 else a)
        if x.__class__ is float:
            return fcmp(S, 'o' + p, *((a, x) if a.__class__ is float and a == 0.0 else (x, b)))
        if len({c > 0 for c, e in x.t.values()}) == 1:
            pos = next(iter(x.t.values()))[0] > 0
            if a.__class__ is float and a == 0.0:
                pos = not pos
            return int({'eq': False, 'ne': True, 'lt': not pos, 'le': not pos, 'gt': pos, 'ge': pos}[p])
    # bring everything to one side
    t = dict(lift(a))
    for m, (c, e) in lift(b).items():
        c = -c
        if m in t:
            c0, e0 = t[m]
            if c0 + c == 0:
                del t[m]            # the same quantity on both sides (rounded alike)
            else:
                t[m] = (c0 + c, (abs(c0) * e0 + abs(c) * e) / abs(c0 + c))
        else:
            t[m] = (c, e)
    if t:
        pos = {m: ce for m, ce in t.items() if ce[0] > 0}
        neg = {m: (-ce[0], ce[1]) for m, ce in t.items() if ce[0] < 0}
        if any(table(S).syms[i].kind == 'round' for m in t for i, _ in m) and len(t) > 2:
            return S.choose([(None, 1), (None, 0)])
        if len(pos) > 1:
            pos = side(S, pos)
        if len(neg) > 1:
            neg = side(S, neg)
        t = dict(pos)
        for m, (c, e) in neg.items():
            if m in t:
                c0, e0 = t.pop(m)
                if c0 != c:
                    t[m] = (c0 - c, max(e0, e) * 2)
            else:
                t[m] = (-c, e)
    x = resolve(S, mk(S, t))
    if x.__class__ is float:
        return int({'eq': x == 0, 'ne': x != 0, 'lt': x < 0, 'le': x <= 0, 'gt': x > 0, 'ge': x >= 0}[p])
    pos = [(m, c, e) for m, (c, e) in x.t.items() if c > 0]
    neg = [(m, -c, e) for m, (c, e) in x.t.items() if c < 0]
    if not neg or not pos:
        s = 1 if pos else -1
        return int({'eq': False, 'ne': True, 'lt': s < 0, 'le': s < 0, 'gt': s > 0, 'ge': s > 0}[p])
    if len(pos) > 1 or len(neg) > 1:
        if any(table(S).syms[i].kind == 'round' for m in x.t for i, _ in m):
            # how far a number is from a whole one is not modelled: both
            return S.choose([(None, 1), (None, 0)])
        raise Unsupported('comparison of %r' % x)
    (m1, c1, e1), (m2, c2, e2) = pos[0], neg[0]
    tab = table(S)
    d = rv(math.log(c1) - math.log(c2))
    for i, ex in mulmono(m1, tuple((i, -e) for i, e in m2)):
        d = d + tab.syms[i].lg * ex
    # d > 0 <=> positive term larger
    exact = e1 == 0.0 and e2 == 0.0 and c1 == c2
    band = 0.0 if exact else (e1 + e2) * 1.05 + LOGERR
    bd = rv(band)
    if p in ('gt', 'ge'):
        tr, fa = d >= -bd, d <= bd
        if exact:
            tr, fa = (d > 0, d <= 0) if p == 'gt' else (d >= 0, d < 0)
    elif p in ('lt', 'le'):
        tr, fa = d <= bd, d >= -bd
        if exact:
            tr, fa = (d < 0, d >= 0) if p == 'lt' else (d <= 0, d > 0)
    else:
        tr, fa = z3.And(d <= bd, d >= -bd), z3.BoolVal(True)
        if exact:
            fa = d != 0
        if p == 'ne':
            tr, fa = fa, tr
    return S.choose([(tr, 1), (fa, 0)])


def side(S, t):
    """several same-sign terms: one symbol if they form a linear sum"""
    x = resolve(S, SF(t))
    if x.__class__ is float:
        return {(): (x, 0.0)} if x else {}
    return x.t


def int_vs_const(S, p, a, b):
    if b.__class__ is float:
        x, c, flip = a, b, False
    elif a.__class__ is float:
        x, c, flip = b, a, True
    else:
        return None
    if len(x.t) != 1:
        return None
    (m, (co, e)), = x.t.items()
    if len(m) != 1 or m[0][1] != 1 or co != 1.0 or e != 0.0:
        return None
    s = table(S).syms[m[0][0]]
    if s.expr and s.expr[0] == 'fbits':
        if flip:
            p = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(p, p)
        v = s.expr[1]
        if c < 0:
            return int(p in ('ne', 'gt', 'ge'))
        k = struct.unpack('<Q', struct.pack('<d', c + 0.0))[0]
        seen = S.env.get('fcons', ())
        if c > 0 and (s.id, k) not in seen and s.id in S.env.get('fnz', ()):
            S.env['fcons'] = seen + ((s.id, k),)
            lc = rv(math.log(c))
            S.pc.append(z3.And(z3.Implies(z3.UGE(v, k), s.lg >= lc - rv(LOGERR)), z3.Implies(z3.ULE(v, k), s.lg <= lc + rv(LOGERR))))
            S.model = None
        return {'eq': v == k, 'ne': v != k, 'lt': z3.ULT(v, k), 'le': z3.ULE(v, k), 'gt': z3.UGT(v, k), 'ge': z3.UGE(v, k)}[p]
    if not s.expr or s.expr[0] != 'bv':
        return None
    v = s.expr[1]
    w = v.size()
    if flip:
        p = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(p, p)
    if s.id in S.env.get('fnz', ()):
        # keep the log space informed
        if c > 0:
            lc = rv(math.log(c))
            k = math.floor(c)
            seen = S.env.get('fcons', ())
            if c == k and 0 < k < (1 << w) and (s.id, k) not in seen:
                S.env['fcons'] = seen + ((s.id, k),)
                cons = z3.And(z3.ULT(v, k) == (s.lg < lc), z3.UGT(v, k) == (s.lg > lc))
                S.pc.append(cons)
    f = math.floor(c)
    integral = f == c
    if p in ('eq', 'ne'):
        if not integral or not 0 <= f < (1 << w):
            return int(p == 'ne')
        return v == f if p == 'eq' else v != f
    # v < c  <=>  v < ceil(c);  v <= c <=> v <= floor(c)
    if p == 'lt' or p == 'ge':
        k = f if integral else f + 1
        if k <= 0:
            r = 0
        elif k >= (1 << w):
            r = 1
        else:
            r = z3.ULT(v, k)
        return r if p == 'lt' else (1 - r if r.__class__ is int else z3.Not(r))
    k = f
    if k < 0:
        r = 0
    elif k >= (1 << w) - 1:
        r = 1
    else:
        r = z3.ULE(v, k)
    return r if p == 'le' else (1 - r if r.__class__ is int else z3.Not(r))


# ------------------------------------------------------------------ conversions

def int2f32(x):
    if x == 0:
        return 0.0
    n = x.bit_length()
    if n > 24:
        sh = n - 24
        q, r = x >> sh, x & ((1 << sh) - 1)
        half = 1 << (sh - 1)
        if r > half or (r == half and q & 1):
            q += 1
        x = q << sh
    return rnd(float(x), 32)


def uitofp(S, a, w, fw):
    if a.__class__ is int:
        return int2f32(a) if fw == 32 else float(a)
    if B.isf(a):
        return a
    if w == 1:
        return 1.0 if S.decide(a) else 0.0
    x = a
    # strip zero extensions so that the same number is the same symbol
    while True:
        if z3.is_app_of(x, z3.Z3_OP_ZERO_EXT):
            x = x.arg(0)
        elif z3.is_app_of(x, z3.Z3_OP_CONCAT) and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 0:
            x = x.arg(1) if x.num_args() == 2 else z3.Concat(*[x.arg(i) for i in range(1, x.num_args())])
        else:
            break
    s = int_symbol(S, x, x.size(), True)
    bits = 53 if fw == 64 else 24
    e = 0.0 if x.size() <= bits else ulp(fw)
    return SF({((s.id, 1),): (1.0, e)})


def sitofp(S, a, w, fw):
    if a.__class__ is int:
        v = B.sgn(a, w)
        return (int2f32(v) if v >= 0 else -int2f32(-v)) if fw == 32 else float(v)
    if S.decide(a < 0):
        return fneg(S, uitofp(S, B.norm(-a), w, fw), fw)
    return uitofp(S, a, w, fw)


def ftoi(x, w, signed, saturate):
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    if x != x:
        return 0
    if math.isinf(x):
        v = hi if x > 0 else lo
    else:
        v = math.trunc(x)
    v = min(max(v, lo), hi)
    return v & B.mask(w)


def fptoui(S, a, fw, w):
    if a.__class__ is float:
        return ftoi(a, w, False, False)
    return f2i_sym(S, a, w, False)


def fptosi(S, a, fw, w):
    if a.__class__ is float:
        return ftoi(a, w, True, False)
    return f2i_sym(S, a, w, True)


def fptoui_sat(S, a, fw, w):
    if a.__class__ is float:
        return ftoi(a, w, False, True)
    return f2i_sym(S, a, w, False)


def fptosi_sat(S, a, fw, w):
    if a.__class__ is float:
        return ftoi(a, w, True, True)
    return f2i_sym(S, a, w, True)


def neg(x, w):
    return -x & B.mask(w) if x.__class__ is int else B.norm(-x)


def f2i_sym(S, a, w, signed, sat=True):
    """truncation of a symbolic value: a fresh integer bracketed in log space"""
    a = resolve(S, a)
    if a.__class__ is float:
        return ftoi(a, w, signed, sat)
    if len(a.t) != 1:
        raise Unsupported('integer from a sum')
    key, err = single(a)
    (m, c), = key
    if c < 0:
        if not signed:
            return 0
        return neg(f2i_sym(S, fneg(S, a, 64), w, True), w)
    if fcmp(S, 'olt', a, 1.0):
        return 0
    top = w - 1 if signed else w
    if fcmp(S, 'oge', a, 2.0 ** top):
        return (1 << top) - 1
    tab = table(S)
    x = tab.bykey.get(('f2i', key, w))
    if x is None:
        x = tab.bykey[('f2i', key, w)] = z3.BitVec('trunc%d' % len(tab.syms), w)
        s = int_symbol(S, x, w)
        s.expr = ('bv', x, ('f2i', key))
    s = int_symbol(S, x, w)
    register(S, s)
    if s.id not in S.env.get('fnz', ()):
        S.env['fnz'] = S.env.get('fnz', ()) + (s.id,)
        lx = logof(S, key)
        b = rv(err * 1.05 + LOGERR)
        cs = [z3.UGE(x, 1), z3.ULT(x, 1 << top) if top < w else z3.BoolVal(True), s.lg <= lx + b]
        for k in range(1, 17):
            cs.append((x == k) == z3.And(s.lg == rv(math.log(k))))
            cs.append(z3.Implies(x == k, lx <= rv(math.log(k + 1)) + b))
        cs.append(z3.Implies(z3.UGT(x, 16), z3.And(s.lg >= rv(math.log(17) - LOGERR), lx <= s.lg + rv(math.log(18 / 17)) + b)))
        for q in cs:
            S.pc.append(q)
        S.model = None
    return x


def fptrunc(S, a, w):
    if a.__class__ is float:
        return rnd(a, w)
    return SF({m: (c, e + U32) for m, (c, e) in a.t.items()})


# ------------------------------------------------------------------ functions

def f1(S, op, a, w):
    if a.__class__ is float:
        if op == 'fabs':
            return abs(a)
        if a != a:
            return a
        if op == 'sqrt':
            return rnd(math.sqrt(a), w) if a >= 0 else math.nan
        if op in ('log2', 'log', 'log10'):
            if a < 0:
                return math.nan
            if a == 0:
                return -math.inf
            return rnd({'log2': math.log2, 'log': math.log, 'log10': math.log10}[op](a), w) if not math.isinf(a) else a
        if math.isinf(a):
            return a
        if op == 'floor':
            return float(math.floor(a)) if a != 0 else a
        if op == 'ceil':
            return math.copysign(float(math.ceil(a)), a)
        if op == 'trunc':
            return math.copysign(float(math.trunc(a)), a)
        if op == 'round':
            f = math.floor(abs(a))
            d = abs(a) - f
            return math.copysign(float(f + 1 if d >= 0.5 else f), a)
        if op in ('rint', 'roundeven', 'nearbyint'):
            return math.copysign(float(round(a)), a)
        if op in ('exp', 'exp2'):
            try:
                return rnd(math.exp(a) if op == 'exp' else 2.0 ** a, w)
            except OverflowError:
                return math.inf
        raise Unsupported(op)
    if op == 'fabs':
        s = {c > 0 for c, e in a.t.values()}
        if len(s) == 1:
            return a if s.pop() else fneg(S, a, w)
        return a if fcmp(S, 'oge', a, 0.0) else fneg(S, a, w)
    if op == 'log2':
        return flog2(S, a, w)
    if op in ('log', 'log10'):
        x = flog2(S, a, w)
        return fmul(S, x, math.log(2.0) if op == 'log' else math.log10(2.0), w)
    if op == 'round':
        return fround(S, a, w)
    raise Unsupported('symbolic ' + op)


def fround(S, a, w):
    """some number within a half of a, nothing else being known of it"""
    a = resolve(S, a)
    if a.__class__ is float:
        return f1(S, 'round', a, w)
    key, e = single(a)
    if key[0][1] < 0:
        return fneg(S, fround(S, fneg(S, a, w), w), w)
    if fcmp(S, 'olt', a, 0.5):
        return 0.0
    tab = table(S)
    s, new = tab.get(('round', key), 'round')
    if new:
        s.lo = rv(0)
        s.expr = ('round', key)
    if s.id not in S.env.get('fsyms', ()):
        register(S, s)
        S.pc.append(s.lg - logof(S, key) <= rv(math.log(2.0) + e + LOGERR))
        S.pc.append(logof(S, key) - s.lg <= rv(math.log(1.5) + e + LOGERR))
        S.model = None
    return SF({((s.id, 1),): (1.0, 0.0)})


def single(x):
    (m, (c, e)), = x.t.items()
    return ((m, float(c)),), e


def flog2(S, a, w):
    a = resolve(S, a)
    if a.__class__ is float:
        return f1(S, 'log2', a, w)
    if len(a.t) != 1:
        raise Unsupported('log of a sum')
    key, e = single(a)
    (m, c), = key
    if c < 0:
        return math.nan
    tab = table(S)
    # sign of the logarithm
    sg = None
    if all(tab.syms[i].lo is not None and ex > 0 and z3.is_rational_value(tab.syms[i].lo) and tab.syms[i].lo.as_fraction() >= 0 for i, ex in m) and c > 1:
        sg = 1
    elif len(m) == 1 and m[0][1] == 1 and c == 1.0 and tab.syms[m[0][0]].expr and tab.syms[m[0][0]].expr[0] == 'bv':
        v = tab.syms[m[0][0]].expr[1]
        if S.decide(v == 1):
            return 0.0
        sg = 1
    if sg is None:
        raise Unsupported('log2 of %r, of unknown sign' % a)
    if e > 0:
        raise Unsupported('log2 of a rounded quantity %r' % a)
    s, new = tab.get(('log2', key), 'log2')
    if new:
        s.kids = (key,)
        s.expr = ('log2', key)
    register(S, s)
    return SF({((s.id, 1),): (1.0, 2 * U64)})


def fpow(S, a, b, w):
    if con2(a, b):
        try:
            return rnd(math.pow(a, b), w)
        except OverflowError:
            return math.inf if a > 0 or b % 2 == 0 else -math.inf
        except ValueError:
            return math.inf if a == 0 else math.nan
    if b.__class__ is float and b == int(b) and abs(b) <= 64:
        return fpowi(S, a, int(b) & 0xffffffff, w)
    a = resolve(S, a)
    b = resolve(S, b)
    if con2(a, b) or (b.__class__ is float and b == int(b) and abs(b) <= 64):
        return fpow(S, a, b, w)
    if a.__class__ is float:
        if a == 0.0:
            return 0.0 if is_pos(S, b) else math.inf
        if a == 1.0:
            return 1.0
        if a < 0 or special(a):
            raise Unsupported('pow of %r' % a)
        ka, ea = (((), a),), 0.0
    else:
        if len(a.t) != 1:
            raise Unsupported('pow of a sum')
        ka, ea = single(a)
    if b.__class__ is float:
        kb, eb = (((), b),), 0.0
    else:
        if len(b.t) != 1:
            raise Unsupported('pow by a sum')
        kb, eb = single(b)
    tab = table(S)
    s, new = tab.get(('pow', ka, kb), 'pow')
    if new:
        s.kids = (ka, kb)
        s.expr = ('pow', ka, kb)
    register(S, s)
    # |exponent * ln(base)| < 745 whenever the result is neither 0 nor infinite
    return SF({((s.id, 1),): (1.0, 750 * (ea + eb + 2 * U64))})


def fpowi(S, a, b, w):
    if a.__class__ is float and b.__class__ is int:
        k = B.sgn(b, 32)
        try:
            r = 1.0
            x = a
            n = abs(k)
            while True:
                if n & 1:
                    r = rnd(r * x, w)
                n >>= 1
                if n == 0:
                    break
                x = rnd(x * x, w)
            return rnd(pdiv(1.0, r), w) if k < 0 else r
        except OverflowError:
            return math.inf
    if b.__class__ is not int:
        if S.decide(b < 0):
            return fdiv(S, 1.0, fpowi(S, a, B.norm(-b), w), w)
        if S.decide(b == 0):
            return 1.0
        return fpow(S, a, uitofp(S, b, b.size(), 64), w)
    a = resolve(S, a)
    if a.__class__ is float:
        return fpowi(S, a, b, w)
    k = B.sgn(b, 32)
    r = 1.0
    for _ in range(abs(k)):
        r = fmul(S, r, a, w)
    return fdiv(S, 1.0, r, w) if k < 0 else r


def f2(S, op, a, b, w):
    if op == 'pow':
        return fpow(S, a, b, w)
    if con2(a, b):
        if op == 'copysign':
            return math.copysign(a, b)
        if a != a:
            return b if op in ('maxnum', 'minnum', 'maximumnum', 'minimumnum') else a
        if b != b:
            return a if op in ('maxnum', 'minnum', 'maximumnum', 'minimumnum') else b
        return max(a, b) if 'max' in op else min(a, b)
    if op in ('maxnum', 'maximumnum', 'maximum'):
        return a if fcmp(S, 'oge', a, b) else b
    if op in ('minnum', 'minimumnum', 'minimum'):
        return a if fcmp(S, 'ole', a, b) else b
    raise Unsupported('symbolic ' + op)

"""Concrete inputs for a path with symbolic floating point: the logarithms of the solver's model are turned into integers,
one symbol after the other, everything derived being pinned to its actual value."""
import math, struct
import z3
from . import fl
from .engine import Inconclusive

# (bounds of the logs of 32 bit symbols, bounds of the others)
L = math.log
TRIES = [((0, L(64)), (L(1000), L(1e7))), ((0, L(5000)), (L(1e4), L(1e12))), ((0, L(2.0 ** 32)), (L(10), L(2.0 ** 50))),
         ((L(2), L(2.0 ** 20)), (L(1e-6), L(1e3))), ((0, L(2.0 ** 33)), (L(1e-9), L(2.0 ** 63))), ((0, L(8)), (L(1e-9), L(100)))]


def fval(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    return float(v.approx(20).as_fraction())


def around(t, v, e=1e-11):
    return z3.And(t >= fl.rv(v - e), t <= fl.rv(v + e))


def mono(vals, key):
    (m, c), = key
    r = c
    for i, e in m:
        r *= vals[i] ** e
    return r


def is_trunc(s):
    return s.expr is not None and s.expr[0] == 'bv' and len(s.expr) > 2


def derived(tab, s, vals):
    """actual value of a derived symbol whose parts are known; None otherwise"""
    try:
        k = s.expr[0]
        if is_trunc(s):
            return float(math.trunc(mono(vals, s.expr[2][1])))
        if k == 'round':
            return math.floor(mono(vals, s.expr[1]) + 0.5)
        if k == 'log2':
            return math.log2(mono(vals, s.expr[1]))
        if k == 'pow':
            return math.pow(mono(vals, s.expr[1]), mono(vals, s.expr[2]))
        if k == 'sum':
            return sum(vals[p.id] * c for p, c in s.expr[1])
    except KeyError:
        return None
    except OverflowError:
        return math.inf
    return None


def powers(tab, syms, vals, skip):
    """powers of which only the exponent is known are linear in the logarithms"""
    out = []
    for s in syms:
        if s.expr[0] == 'pow' and s.id not in skip:
            try:
                q = mono(vals, s.expr[2])
            except KeyError:
                continue
            (m, c), = s.expr[1]
            e = fl.rv(math.log(c))
            for i, x in m:
                e = e + tab.syms[i].lg * x
            e = e * fl.rv(q)
            out.append(z3.And(s.lg - e <= fl.rv(1e-9), e - s.lg <= fl.rv(1e-9)))
    return out


def attempt(S, lo32, hi32, lo, hi, solver, sizes=None):
    tab = fl.table(S)
    syms = [tab.syms[i] for i in S.env.get('fsyms', ())]
    pins = []
    if sizes is not None:
        vals = {}
        k = 0
        for s in syms:
            if s.expr and s.expr[0] == 'bv' and not is_trunc(s) and s.expr[1].size() <= 32 and k < len(sizes):
                pins.append(z3.And(s.expr[1] == sizes[k], around(s.lg, math.log(sizes[k]))))
                vals[s.id] = float(sizes[k])
                k += 1
        if k == 0:
            return None
        for s in syms:
            if s.expr and s.expr[0] == 'log2':
                try:
                    v = math.log2(mono(vals, s.expr[1]))
                except KeyError:
                    continue
                if v > 0:
                    pins.append(around(s.lg, math.log(v)))
        pins += powers(tab, syms, vals, ())
    for s in syms:
        if s.expr and s.expr[0] == 'bv' and not is_trunc(s):
            a, b = (lo32, hi32) if s.expr[1].size() <= 32 else (lo, hi)
            pins.append(z3.And(s.lg >= fl.rv(a), s.lg <= fl.rv(b)))
        elif s.expr and s.expr[0] in ('sum', 'fbits'):
            pins.append(z3.And(s.lg >= fl.rv(lo), s.lg <= fl.rv(hi)))
    m = solver.check(S.pc, z3.And(*pins) if pins else z3.BoolVal(True))
    if m is None:
        return None
    pins = []
    vals = {}
    todo = sorted(syms, key=lambda s: (2 if is_trunc(s) else 0 if s.expr[0] == 'bv' and s.expr[1].size() <= 32 else 1 if s.expr[0] in ('bv', 'sum', 'fbits') else 2, s.id))
    done = set()

    def derive():
        """pins what follows from what is pinned"""
        out = []
        for s in todo:
            if s.id in done or s.expr[0] in ('bv', 'sum', 'fbits') and not is_trunc(s):
                continue
            v = derived(tab, s, vals)
            if v is None:
                continue
            done.add(s.id)
            if v <= 0 or math.isinf(v):
                # out of the range of the doubles: only its side matters
                continue
            vals[s.id] = v
            out.append(around(s.lg, math.log(v)))
            if is_trunc(s):
                out.append(s.expr[1] == int(v))
        return out + powers(tab, syms, vals, done)

    def put(options):
        """first option (list of constraints, values) that is still satisfiable"""
        nonlocal m
        for cons, nv in options:
            keep = dict(vals), set(done)
            vals.update(nv)
            done.update(nv)
            more = cons + derive()
            x = solver.check(S.pc, z3.And(*(pins + more)))
            if x is not None:
                pins.extend(more)
                m = x
                return True
            vals.clear()
            vals.update(keep[0])
            done.clear()
            done.update(keep[1])
        return False

    for s in todo:
        if s.id in done:
            continue
        if s.expr[0] == 'bv' and not is_trunc(s):
            w = s.expr[1].size()
            v = min(max(1, round(math.exp(min(fval(m, s.lg), w * L(2.0))))), (1 << w) - 1)
            opts = [([s.expr[1] == k, around(s.lg, math.log(k))], {s.id: float(k)}) for k in (v, v + 1, v - 1, v + 2, v - 2) if 0 < k < (1 << w)]
            if not put(opts):
                return None
        elif s.expr[0] == 'fbits':
            x = math.exp(fval(m, s.lg))
            opts = []
            for v in (x, float(round(x)), x * (1 + 1e-9), x * (1 - 1e-9), math.nextafter(x, math.inf), math.nextafter(x, 0.0)):
                if 0 < v < math.inf:
                    opts.append(([s.expr[1] == struct.unpack('<Q', struct.pack('<d', v))[0], around(s.lg, math.log(v))], {s.id: v}))
            if not put(opts):
                return None
        elif s.expr[0] == 'sum':
            parts = sorted(s.expr[1], key=lambda p: -p[1])
            x = math.exp(min(fval(m, s.lg), 44))
            opts = []
            for d in (0, 1, -1, 2, -2):
                if len(parts) == 2:
                    tot = max(1, round(x * 1e9) + d)
                    a, b = divmod(tot, 10 ** 9)
                    cons = [parts[0][0].expr[1] == a, parts[1][0].expr[1] == b]
                    v = tot / 1e9
                else:
                    return None
                opts.append((cons + [around(s.lg, math.log(v))], {s.id: v}))
            if not put(opts):
                return None
        else:
            return None
    return m


SIZES = [(2, 3), (2, 4), (1, 2), (2, 16), (1000, 2000), (10, 100), (3, 5), (1000, 1001), (1, 5), (100000, 1000000), (7, 8), (2, 1000), (1, 100)]


def models(S, limit=10):
    solver = S.eng.solver
    n = 0
    wide = (0, L(2.0 ** 33)), (L(1e-9), L(2.0 ** 63))
    tries = [(x, None) for x in TRIES[:3]] + [(wide, z) for z in SIZES] + [(wide, z[::-1]) for z in SIZES[:6]] + [(x, None) for x in TRIES[3:]]
    for ((a, b), (c, d)), sizes in tries:
        try:
            m = attempt(S, a, b, c, d, solver, sizes)
        except Inconclusive:
            continue
        if m is not None:
            yield m
            n += 1
            if n >= limit:
                return

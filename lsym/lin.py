"""Linear bit-vector constraints as linear integer constraints: exact (wrap-around is an explicit multiple of 2^w), used when
bit-blasting is slow. Anything that is not linear raises NotLinear."""
import z3


class NotLinear(Exception):
    pass


DEBUG = False
DIVS = {z3.Z3_OP_BUDIV: ('q', False), z3.Z3_OP_BUDIV_I: ('q', False), z3.Z3_OP_BSDIV: ('q', True), z3.Z3_OP_BSDIV_I: ('q', True),
        z3.Z3_OP_BUREM: ('r', False), z3.Z3_OP_BUREM_I: ('r', False), z3.Z3_OP_BSREM: ('r', True), z3.Z3_OP_BSREM_I: ('r', True)}


class Lin:
    def __init__(self):
        self.terms = {}      # expr id -> (coefs {var id: c}, constant, width)
        self.vals = {}       # expr id -> z3 Int term for the unsigned value
        self.vars = {}       # expr id -> (Int, expr)
        self.bools = {}
        self.keep = []
        self.side = []       # constraints of the auxiliary variables of what was translated last
        self.bounds = {}     # expr id -> (lo, hi)
        self.n = 0
        self.floors = {}
        self.quots = {}

    def var(self, e, bound=None):
        i = e.get_id()
        v = self.vars.get(i)
        if v is None:
            v = self.vars[i] = (z3.Int('lv%d' % i), e)
            self.keep.append(e)
        return v[0]

    def interval(self, i):
        e = self.vars[i][1]
        w = e.size()
        lo, hi = self.bounds.get(i, (0, (1 << w) - 1))
        return lo, hi

    def lin(self, e):
        """(coefs, const) congruent to e modulo 2^width"""
        i = e.get_id()
        r = self.terms.get(i)
        if r is not None:
            return r
        w = e.size()
        k = e.decl().kind()
        if k == z3.Z3_OP_BNUM:
            r = ({}, e.as_long())
        elif k == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0:
            self.var(e)
            r = ({i: 1}, 0)
        elif k == z3.Z3_OP_BADD:
            c, k0 = {}, 0
            for a in e.children():
                ca, ka = self.lin(a)
                k0 += ka
                for x, y in ca.items():
                    c[x] = c.get(x, 0) + y
            r = (c, k0)
        elif k == z3.Z3_OP_BSUB:
            a, b = e.children()
            ca, ka = self.lin(a)
            cb, kb = self.lin(b)
            c = dict(ca)
            for x, y in cb.items():
                c[x] = c.get(x, 0) - y
            r = (c, ka - kb)
        elif k == z3.Z3_OP_BNEG or k == z3.Z3_OP_BNOT:
            ca, ka = self.lin(e.arg(0))
            r = ({x: -y for x, y in ca.items()}, -ka - (1 if k == z3.Z3_OP_BNOT else 0))
        elif k == z3.Z3_OP_BMUL and e.num_args() == 2 and z3.is_bv_value(e.arg(0)):
            m = e.arg(0).as_long()
            if m >> (w - 1):
                m -= 1 << w
            ca, ka = self.lin(e.arg(1))
            r = ({x: y * m for x, y in ca.items()}, ka * m)
        elif k == z3.Z3_OP_ITE:
            # an auxiliary variable
            v = self.var(e)
            c = self.bool(e.arg(0))
            self.side.append(z3.If(c, v == self.val(e.arg(1)), v == self.val(e.arg(2))))
            r = ({i: 1}, 0)
        elif k == z3.Z3_OP_ZERO_EXT or (k == z3.Z3_OP_CONCAT and z3.is_bv_value(e.arg(0)) and e.arg(0).as_long() == 0 and e.num_args() == 2):
            a = e.arg(e.num_args() - 1)
            v = self.var(e)
            self.side.append(v == self.val(a))
            r = ({i: 1}, 0)
        elif k == z3.Z3_OP_EXTRACT:
            h, l = e.params()
            x = e.arg(0)
            v = self.var(e)
            t = self.floor(x, l)
            if h + 1 < x.size():
                t = t - self.floor(x, h + 1) * (1 << (h + 1 - l))
            self.side.append(v == t)
            r = ({i: 1}, 0)
        elif k == z3.Z3_OP_CONCAT:
            t = z3.IntVal(0)
            for a in e.children():
                t = t * (1 << a.size()) + self.val(a)
            v = self.var(e)
            self.side.append(v == t)
            r = ({i: 1}, 0)
        elif k == z3.Z3_OP_SIGN_EXT:
            v = self.var(e)
            self.side.append(v == self.val(e.arg(0)) + z3.If(self.sval(e.arg(0)) < 0, (1 << w) - (1 << e.arg(0).size()), 0))
            r = ({i: 1}, 0)
        elif k in DIVS and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long() != 0:
            # truncating division by a constant
            what, signed = DIVS[k]
            m = e.arg(1).as_long()
            if signed and m >> (w - 1):
                raise NotLinear('division by a negative number')
            t = self.sval(e.arg(0)) if signed else self.val(e.arg(0))
            q = self.quots.get((e.arg(0).get_id(), m, signed))
            if q is None:
                self.n += 1
                q = self.quots[(e.arg(0).get_id(), m, signed)] = z3.Int('div%d' % self.n)
                if signed:
                    self.side.append(z3.If(t >= 0, z3.And(q >= 0, q * m <= t, t < q * m + m), z3.And(q <= 0, q * m >= t, t > q * m - m)))
                else:
                    self.side.append(z3.And(q >= 0, q * m <= t, t < q * m + m))
            v = self.var(e)
            x = q if what == 'q' else t - q * m
            self.side.append(v == (z3.If(x < 0, x + (1 << w), x) if signed else x))
            r = ({i: 1}, 0)
        else:
            raise NotLinear(str(e.decl()))
        m = 1 << w
        c = {}
        for x, y in r[0].items():
            y %= m
            if y >= m // 2:
                y -= m
            if y:
                c[x] = y
        r = (c, r[1] % m)
        if r[1] >= m // 2:
            r = (c, r[1] - m)
        self.terms[i] = r
        self.keep.append(e)
        return r

    def val(self, e):
        """the unsigned value of e"""
        i = e.get_id()
        v = self.vals.get(i)
        if v is not None:
            return v
        w = e.size()
        c, k = self.lin(e)
        lo = hi = k
        t = z3.IntVal(k)
        for x, y in c.items():
            a, b = self.interval(x)
            lo += y * (a if y > 0 else b)
            hi += y * (b if y > 0 else a)
            t = t + self.vars[x][0] * y if y != 1 else t + self.vars[x][0]
        m = 1 << w
        if lo < 0 or hi >= m:
            if not c:
                t = z3.IntVal(k % m)
            else:
                self.n += 1
                q = z3.Int('wrap%d' % self.n)
                t = t + q * m
                self.side.append(z3.And(t >= 0, t < m, q >= -(hi // m) - 1, q <= (-lo) // m + 1))
        self.vals[i] = t
        self.keep.append(e)
        return t

    def floor(self, x, l):
        """x / 2^l"""
        if l == 0:
            return self.val(x)
        q = self.floors.get((x.get_id(), l))
        if q is None:
            self.n += 1
            q = self.floors[(x.get_id(), l)] = z3.Int('quot%d' % self.n)
            t = self.val(x)
            self.side.append(z3.And(q >= 0, q * (1 << l) <= t, t < (q + 1) * (1 << l)))
        return q

    def sval(self, e):
        t = self.val(e)
        w = e.size()
        return z3.If(t >= (1 << (w - 1)), t - (1 << w), t)

    def bool(self, e):
        i = e.get_id()
        r = self.bools.get(i)
        if r is not None:
            return r
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_TRUE or k == z3.Z3_OP_FALSE:
            r = e
        elif k == z3.Z3_OP_NOT:
            r = z3.Not(self.bool(ch[0]))
        elif k == z3.Z3_OP_AND:
            r = z3.And(*[self.bool(x) for x in ch])
        elif k == z3.Z3_OP_OR:
            r = z3.Or(*[self.bool(x) for x in ch])
        elif k == z3.Z3_OP_IMPLIES:
            r = z3.Implies(self.bool(ch[0]), self.bool(ch[1]))
        elif k == z3.Z3_OP_ITE:
            r = z3.If(self.bool(ch[0]), self.bool(ch[1]), self.bool(ch[2]))
        elif k == z3.Z3_OP_XOR:
            r = z3.Xor(self.bool(ch[0]), self.bool(ch[1]))
        elif k == z3.Z3_OP_UNINTERPRETED and not ch:
            r = e
        elif k == z3.Z3_OP_EQ or k == z3.Z3_OP_IFF:
            if z3.is_bool(ch[0]):
                r = self.bool(ch[0]) == self.bool(ch[1])
            elif z3.is_bv(ch[0]):
                r = self.val(ch[0]) == self.val(ch[1])
            else:
                raise NotLinear('eq')
        elif k == z3.Z3_OP_ULT:
            r = self.val(ch[0]) < self.val(ch[1])
        elif k == z3.Z3_OP_ULEQ:
            r = self.val(ch[0]) <= self.val(ch[1])
        elif k == z3.Z3_OP_UGT:
            r = self.val(ch[0]) > self.val(ch[1])
        elif k == z3.Z3_OP_UGEQ:
            r = self.val(ch[0]) >= self.val(ch[1])
        elif k == z3.Z3_OP_SLT:
            r = self.sval(ch[0]) < self.sval(ch[1])
        elif k == z3.Z3_OP_SLEQ:
            r = self.sval(ch[0]) <= self.sval(ch[1])
        elif k == z3.Z3_OP_SGT:
            r = self.sval(ch[0]) > self.sval(ch[1])
        elif k == z3.Z3_OP_SGEQ:
            r = self.sval(ch[0]) >= self.sval(ch[1])
        else:
            raise NotLinear(str(e.decl()))
        self.bools[i] = r
        self.keep.append(e)
        return r

    def collect(self, e):
        """bounds of single variables stated by e"""
        k = e.decl().kind()
        if k == z3.Z3_OP_AND:
            for x in e.children():
                self.collect(x)
            return
        neg = False
        if k == z3.Z3_OP_NOT:
            e = e.arg(0)
            k = e.decl().kind()
            neg = True
        if k not in (z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ):
            return
        a, b = e.children()
        up = k in (z3.Z3_OP_ULT, z3.Z3_OP_ULEQ)     # a below b
        strict = k in (z3.Z3_OP_ULT, z3.Z3_OP_UGT)
        if neg:
            up = not up
            strict = not strict
        if not up:
            a, b = b, a
        # now a <(=) b
        s = 1 if strict else 0
        if z3.is_bv_value(b) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            lo, hi = self.bounds.get(a.get_id(), (0, (1 << a.size()) - 1))
            self.bounds[a.get_id()] = (lo, min(hi, b.as_long() - s))
            self.keep.append(a)
        elif z3.is_bv_value(a) and b.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            lo, hi = self.bounds.get(b.get_id(), (0, (1 << b.size()) - 1))
            self.bounds[b.get_id()] = (max(lo, a.as_long() + s), hi)
            self.keep.append(b)


def solve(cs, timeout_ms):
    """('unsat', None), ('sat', {bv expr: value}) or ('unknown', None) for the conjunction of cs"""
    L = Lin()
    s = z3.Solver()
    s.set('timeout', timeout_ms)
    try:
        for c in cs:
            L.collect(c)
        out = [L.bool(c) for c in cs]
        for c in out:
            s.add(c)
        for i, (v, e) in list(L.vars.items()):
            lo, hi = L.interval(i)
            s.add(v >= lo, v <= hi)
        for c in L.side:
            s.add(c)
    except NotLinear as e:
        if DEBUG: print("NL", e, [str(c)[:200] for c in cs])
        return 'unknown', None
    r = s.check()
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.unknown:
        return 'unknown', None
    m = s.model()
    out = []
    for i, (v, e) in L.vars.items():
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            x = m.eval(v, model_completion=True).as_long()
            out.append(e == x)
    return 'sat', out

"""Threads that really run at the same time.

`lsym_par` executes every thread of a harness on its own, symbolically: a read of memory that some thread writes yields an unconstrained value, every
access to such memory is recorded.  Each combination of one path per thread then becomes one SMT query: a position for every access, and for every read
the write it sees.  In mode 0 (sequential consistency) that is the last one before it; in mode 1 it is any write the C11 memory model allows (release /
acquire synchronisation, release sequences through read-modify-writes, coherence), and a plain access that is not ordered after a conflicting one is a
violation.  The state after the threads is the main thread's, under the constraints of the combination."""
import z3
from . import bv as B
from .engine import *
from .engine import Frame, Obj, Thread, handler, OB, OM, M64, HANDLERS, rmw_val, Result, LD, SD, SHIM
from .bv import Unsupported

ACQ = ('acquire', 'acq_rel', 'seq_cst')
REL = ('release', 'acq_rel', 'seq_cst')


class Restart(Exception):
    pass


class Ev:
    """one access: kind R, W, U (read-modify-write) or F (fence)"""
    __slots__ = ('kind', 'a', 'n', 'order', 'r', 'w', 'at', 'cells', 'rmw', 'tid', 'k', 'weak', 'x')

    def __init__(self, kind, a, n, order, r, w, at, cells, rmw=None, x=None):
        self.kind, self.a, self.n, self.order, self.r, self.w, self.at, self.cells, self.rmw = kind, a, n, order, r, w, at, cells, rmw
        self.x = x


class TPath:
    __slots__ = ('pc', 'ev', 'outs', 'kind', 'info', 'used', 'inputs')


def free_vars(e, cache):
    """names of the constants in e"""
    if e.__class__ is int or e.__class__ is float:
        return frozenset()
    i = e.get_id()
    r = cache.get(i)
    if r is not None:
        return r[0]
    if z3.is_const(e):
        out = frozenset([e.decl().name()]) if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset()
    else:
        out = frozenset().union(*[free_vars(c, cache) for c in e.children()])
    cache[i] = (out, e)
    return out


class Par:
    """what is shared by the explorations of the threads of one lsym_par"""

    def __init__(self, S, n, f, data, mode):
        self.S = S
        self.eng = S.eng
        self.n, self.f, self.data, self.mode = n, f, data, mode
        self.nid0 = S.nid
        self.serial = S.env.get('parn', 0)
        p = S.eng.parcfg
        self.F = p.get('fails', 1)
        self.E = p.get('events', 40)
        self.exempt = S.env.get('private', ())
        self.cells = S.eng.parcells.setdefault(self.serial, {})      # object -> {offset: size}
        self.vc = {}
        self.qc = {}             # terms already built
        self.cut = 0
        self.dom = None          # cell -> what may be read from it, relative to its initial value (None: anything)

    # -- what is shared
    def shared(self, i):
        if i >= self.nid0 or i in self.exempt:
            return False
        if i < 1 << 20:
            nm = self.S.prog.gname.get(i, '')
            o = self.S.prog.base.get(i)
            return ('big_o_test' in nm or 'harness' in nm) and not (o is not None and o.kind.startswith('tls'))
        return True

    def initial(self, a, n):
        o = self.S.robj(a)
        off = a & OM
        if off + n > len(o.data):
            raise MemError('read of %d bytes at offset %d of a %d-byte object (%s)' % (n, off, len(o.data), o.kind))
        return LD(self.S, a, n)

    def bounds(self, a, n):
        o = self.S.robj(a)
        if (a & OM) + n > len(o.data):
            raise MemError('access to %d bytes at offset %d of a %d-byte object (%s)' % (n, a & OM, len(o.data), o.kind))

    def track(self, addrs, n):
        """threads write these cells"""
        new = False
        for a in addrs:
            c = self.cells.setdefault(a >> OB, {})
            off = a & OM
            if off in c and c[off] == n:
                continue
            for o, m in list(c.items()):
                if o < off + n and off < o + m:
                    raise Unsupported('shared memory accessed with different sizes (%d at %d, %d at %d)' % (n, off, m, o))
            c[off] = n
            new = True
        if new:
            raise Restart

    def tracked(self, a, n):
        """1: one written cell, 0: nothing in it is written, 2: several cells"""
        c = self.cells.get(a >> OB)
        if not c:
            return 0
        off = a & OM
        if c.get(off) == n:
            return 1
        for o, m in c.items():
            if o < off + n and off < o + m:
                return 2
        return 0

    def emit(self, S, kind, a, n, order, w, at, cells, rmw=None, r=None, x=None):
        ev = S.env['ev']
        if len(ev) >= self.E:
            raise PathEnd('cut')
        if r is None and kind in 'RU':
            r = z3.BitVec('p%dr%d_%d' % (self.serial, S.env['partid'], len(ev)), 8 * n)
            if rmw is not None:
                w = rmw_val(rmw[0], r, rmw[1], 8 * n)
            self.limit(S, r, cells, n)
        elif kind == 'U':
            self.limit(S, r, cells, n)
        if w is not None and isinstance(w, z3.BoolRef):
            w = B.zext(w, 1, 8 * n)
        S.env['ev'] = ev + (Ev(kind, a, n, order, r, w, at, cells, rmw, x),)
        return r

    def limit(self, S, r, cells, n):
        if self.dom is None:
            return
        alts = set()
        for c in cells:
            d = self.dom.get(c, (0,))
            if d is None:
                return
            i = self.initial(c, n)
            for x in d:
                alts.add(B.add(i, x & B.mask(8 * n), 8 * n))
        t = [B.normb(B.bv(r, 8 * n) == B.bv(x, 8 * n)) for x in alts]
        t = [x if x.__class__ is not int else z3.BoolVal(bool(x)) for x in t]
        c = z3.simplify(z3.Or(t))
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd('infeasible')
        S.pc.append(c)
        S.model = None

    def where(self, S, a, n):
        """feasible cells of a symbolic address, or None if it is not one of shared memory"""
        m = S.getmodel()
        v = m.eval(a, model_completion=True).as_long()
        if not self.shared(v >> OB):
            return None
        for p, size in S.env.get('ranges', ()):
            if p <= v < p + size:
                break
        else:
            return None
        if size > 1024:
            return None
        sol = S.eng.solver
        off0 = (v - p) % n
        cells = [p + off0 + i * n for i in range((size - off0) // n)]
        if sol.check(S.pc, z3.Not(z3.Or([a == c for c in cells]))) is not None:
            return None
        return tuple(c for c in cells if sol.check(S.pc, a == c) is not None)

    # -- plain accesses
    def load(self, S, a, n):
        self.bounds(a, n)
        t = self.tracked(a, n)
        if t == 0:
            return self.initial(a, n)
        if t == 1:
            return self.emit(S, 'R', a, n, 'plain', None, False, (a,))
        # several cells
        bs = []
        c = self.cells[a >> OB]
        i = a
        while i < a + n:
            m = c.get(i & OM)
            if m is not None and i + m <= a + n:
                v = self.emit(S, 'R', i, m, 'plain', None, False, (i,))
                bs += [B.extract_byte(v, m, k) for k in range(m)]
                i += m
            elif self.tracked(i, 1):
                raise Unsupported('partial read of a shared cell')
            else:
                bs.append(self.initial(i, 1))
                i += 1
        return B.concat_bytes(bs)

    def store(self, S, a, v, n):
        self.bounds(a, n)
        self.track((a,), n)
        self.emit(S, 'W', a, n, 'plain', v, False, (a,))

    def sym_load(self, S, a, n):
        cells = self.where(S, a, n)
        if cells is None:
            return None
        k = [self.tracked(c, n) for c in cells]
        if not any(k):
            r = self.initial(cells[0], n)
            for c in cells[1:]:
                r = B.ite(B.normb(a == c), self.initial(c, n), r, 8 * n)
            return r
        if not all(x == 1 for x in k):
            self.track(cells, n)
        return self.emit(S, 'R', a, n, 'plain', None, False, cells)

    def sym_store(self, S, a, v, n):
        cells = self.where(S, a, n)
        if cells is None:
            return False
        self.track(cells, n)
        self.emit(S, 'W', a, n, 'plain', v, False, cells)
        return True

    def copy(self, S, d, s, n):
        """memcpy touching shared memory"""
        i = 0
        while i < n:
            m = 8 if n - i >= 8 else 4 if n - i >= 4 else 2 if n - i >= 2 else 1
            for x in (s + i, d + i):
                c = self.cells.get(x >> OB)
                if c:
                    k = c.get(x & OM)
                    if k is not None:
                        m = min(m, k)
            SD(S, d + i, LD(S, s + i, m), m)
            i += m

    # -- atomics
    def hook(self, S, kind, a, n, order, *x):
        order = {'unordered': 'monotonic'}.get(order, order)
        if kind == 'fence':
            self.emit(S, 'F', None, 0, order, None, True, ())
            return None
        cells = None
        if a.__class__ is not int:
            cells = self.where(S, a, n)
            if cells is None:
                a = S.conc(a)
        if cells is None:
            cells = (a,)
        if not self.shared(cells[0] >> OB):
            eng = S.eng
            eng.atomic_hook = None
            try:
                if kind == 'load':
                    return LD(S, a, n)
                if kind == 'store':
                    return atomic_store(S, a, x[0], n, order)
                if kind == 'cmpxchg':
                    return cmpxchg(S, a, x[0], x[1], n, order, x[2], x[3])
                return atomicrmw(S, x[0], a, x[1], n, order)
            finally:
                eng.atomic_hook = self.hook
        for c in cells:
            self.bounds(c, n)
        if kind == 'load':
            for c in cells:
                if self.tracked(c, n) == 2:
                    raise Unsupported('mixed-size atomic')
            if not any(self.tracked(c, n) for c in cells) and len(cells) == 1:
                return self.initial(cells[0], n)
            return self.emit(S, 'R', a, n, order, None, True, cells)
        if kind == 'store':
            self.track(cells, n)
            self.emit(S, 'W', a, n, order, x[0], True, cells)
            return None
        if kind == 'rmw':
            self.track(cells, n)
            return self.emit(S, 'U', a, n, order, None, True, cells, rmw=(x[0], x[1]))
        # compare-exchange
        exp, new, o2, weak = x
        self.track(cells, n)
        fails = S.env.get('fails', 0)
        k = S.choose([(None, 1), (None, 0)] if fails < self.F else [(None, 1)])
        if k:
            self.emit(S, 'U', a, n, order, new, True, cells, r=exp, x='cas')
            return [exp, 1]
        S.env['fails'] = fails + 1
        r = self.emit(S, 'R', a, n, o2, None, True, cells, x='weak' if weak else 'strong')
        ne = B.normb(r != B.bv(exp, 8 * n))
        if not weak:
            S.pc.append(ne)
            S.model = None
        else:
            # the failure is a spurious one if the value is the expected one
            S.env['ev'][-1].x = ('weak', exp)
        return [r, 0]

    # -- one thread
    def explore(self, tid):
        S = self.S
        main = S.eng
        sub = Engine(S.prog, deadline=main.deadline)
        sub.solver = main.solver
        sub.max_conc = main.max_conc
        sub.params = main.params
        sub.stop = False
        sub.reach = main.reach
        sub.panics = main.panics
        sub.atomic_hook = self.hook
        sub.parcfg = main.parcfg
        paths = []
        npc, nin = len(S.pc), len(S.inputs)

        def on_end(T, e):
            if e.kind == 'cut':
                self.cut += 1
                return
            if e.kind in ('infeasible', 'assume'):
                return
            if len(T.inputs) != nin:
                raise Unsupported('an input created by a thread')
            p = TPath()
            p.pc = T.pc[npc:]
            p.ev = T.env['ev']
            p.outs = T.env.get('outs', ())
            p.kind, p.info = e.kind, e.info
            paths.append(p)
        sub.on_end = on_end
        T = S.clone()
        T.eng = sub
        T.threads = [Thread(0)]
        T.cur = 0
        T.frames = T.threads[0].frames
        T.frames.append(sub.bottom())
        T.nid = self.nid0 + ((tid + 1) << 22)
        T.par = self
        T.env['ev'] = ()
        T.env['outs'] = ()
        T.env['partid'] = tid
        T.env['try'] = ()
        T.env['fails'] = 0
        T.env['syslog_on'] = 0
        for i in self.cells:
            T.mem[i] = Obj(bytearray(0), None, SHIM)
        T.call(T.frames[0], self.f, [tid, self.data], -1, None)
        T.frames[-1].mark = lambda S_, G, v: S_.eng.finish(S_, v)
        sub.work = [T]
        while sub.work:
            sub.step(sub.work.pop())
            if sub.res.errors:
                raise Unsupported('thread %d: %s' % (tid, sub.res.errors[0]))
            if main.deadline and time.time() > main.deadline:
                raise Inconclusive('out of time exploring thread %d (%d paths)' % (tid, len(paths)))
        main.res.instrs += sub.res.instrs
        main.res.checks += sub.res.checks
        for t in S.threads:
            pass
        S.frames = S.threads[S.cur].frames
        for p in paths:
            self.usage(p, tid)
        return paths

    def usage(self, p, tid):
        fv = lambda e: free_vars(e, self.vc)
        used = set()
        for c in p.pc:
            used |= fv(c)
        for _, v in p.outs:
            used |= fv(v)
        for k, e in enumerate(p.ev):
            e.tid, e.k = tid, k
            if e.a is not None:
                used |= fv(e.a)
            if e.rmw is not None:
                used |= fv(e.rmw[1])
            elif e.w is not None:
                used |= fv(e.w)
            if e.kind == 'U' and e.rmw is None and e.r is not None:
                used |= fv(e.r)
        p.used = frozenset(used)

    def once(self):
        while True:
            try:
                self.cut = 0
                return [self.explore(t) for t in range(self.n)]
            except Restart:
                continue

    def all(self):
        """thread paths.  What a cell may hold is computed along the way: reads only see what the paths found so far can put there, until that no longer grows"""
        self.dom = {}
        self.rounds = 1
        while True:
            ths = self.once()
            if not self.widen(ths):
                return ths
            self.rounds += 1

    def widen(self, ths):
        dom = {}
        sol = self.eng.solver
        # cells that only ever change by constant steps
        steps = {}
        for ps in ths:
            for p in ps:
                for e in p.ev:
                    if e.kind not in 'WU':
                        continue
                    d = None
                    if e.kind == 'U':
                        d = B.sub(e.w, e.r, 8 * e.n)
                        if d.__class__ is not int:
                            d = z3.simplify(d)
                            d = d.as_long() if z3.is_bv_value(d) else None
                    for c in e.cells:
                        if d is None:
                            steps[c] = None
                        elif steps.get(c, 0) is not None:
                            steps.setdefault(c, []).append(d)
        for c, ds in steps.items():
            if ds is None:
                continue
            m = B.mask(64)
            tot = {0}
            for ps in ths:
                mine = {0}
                for p in ps:
                    s = {0}
                    for e in p.ev:
                        if c in e.cells and e.kind == 'U':
                            d = B.sub(e.w, e.r, 8 * e.n)
                            d = d if d.__class__ is int else z3.simplify(d).as_long()
                            m = B.mask(8 * e.n)
                            s |= {(x + d) & m for x in s}
                    mine |= s
                tot = {(x + y) & m for x in tot for y in mine}
            dom[c] = frozenset(tot) if len(tot) <= self.MAXDOM else None
        for ps in ths:
            for p in ps:
                for e in p.ev:
                    if e.kind not in 'WU':
                        continue
                    for c in e.cells:
                        if steps.get(c) is not None:
                            continue
                        if c not in dom:
                            dom[c] = self.dom.get(c, frozenset([0]))
                        if dom[c] is None:
                            continue
                        rel = B.sub(B.bv(e.w, 8 * e.n), self.initial(c, e.n), 8 * e.n)
                        if rel.__class__ is not int:
                            rel = z3.simplify(rel)
                            if z3.is_bv_value(rel):
                                rel = rel.as_long()
                        if rel.__class__ is int:
                            dom[c] |= {rel}
                            continue
                        if any(not v.startswith('p%dr' % self.serial) for v in free_vars(rel, self.vc)):
                            # as many values as the inputs have
                            dom[c] = None
                            continue
                        d = set(dom[c])
                        pc = self.S.pc + p.pc
                        while True:
                            mo = sol.check(pc, z3.And([rel != x for x in d] + ([e.a == c] if e.a.__class__ is not int else [])))
                            if mo is None:
                                break
                            d.add(mo.eval(rel, model_completion=True).as_long())
                            if len(d) > self.MAXDOM:
                                d = None
                                break
                        dom[c] = None if d is None else frozenset(d)
        grown = dom != self.dom
        self.dom = dom
        return grown

    MAXDOM = 24

    # -- one combination of paths
    def query(self, paths):
        """-> (constraints, positions {event id: var}, events, fin {cell: value}, hist)"""
        S = self.S
        wmm = self.mode == 1
        evs = [e for p in paths for e in p.ev]
        cs = [c for p in paths for c in p.pc]
        used = frozenset().union(*[p.used for p in paths])
        watch = S.env.get('watch', ())
        # counters nobody looks at commute
        bycell = {}
        for e in evs:
            for c in e.cells:
                bycell.setdefault(c, []).append(e)
        fin = {}
        gone = set()
        for c, es in bycell.items():
            if c in watch:
                continue
            if all(e.kind == 'U' and e.rmw is not None and e.rmw[0] in ('add', 'sub') and e.a.__class__ is int and e.order == 'monotonic' and e.r.decl().name() not in used for e in es):
                v = self.initial(c, es[0].n)
                for e in es:
                    v = rmw_val(e.rmw[0], v, e.rmw[1], 8 * e.n)
                    gone.add(id(e))
                fin[c] = v
        live = [e for e in evs if id(e) not in gone]
        n = len(live)
        qc = self.qc
        if n > 126:
            raise Unsupported('too many accesses')
        # a total order: x before y, for events of different threads
        def lt(x, y):
            if x.tid > y.tid:
                k = ('!<', x.tid, x.k, y.tid, y.k)
                v = qc.get(k)
                if v is None:
                    v = qc[k] = z3.Not(lt(y, x))
                return v
            k = ('<', x.tid, x.k, y.tid, y.k)
            v = qc.get(k)
            if v is None:
                v = qc[k] = z3.Bool('p%do%d_%d_%d_%d' % (self.serial, x.tid, x.k, y.tid, y.k))
            return v

        def imp(*ts):
            """the conjunction of all but the last implies the last; terms are (x, y): x before y"""
            k = ('imp',) + tuple([v for x, y in ts for v in (x.tid, x.k, y.tid, y.k)])
            v = qc.get(k)
            if v is None:
                v = qc[k] = z3.Or([lt(y, x) for x, y in ts[:-1]] + [lt(*ts[-1])])
            return v
        bytid = {}
        for e in live:
            bytid.setdefault(e.tid, []).append(e)
        tids = sorted(bytid)
        for i in tids:
            for j in tids:
                if i >= j:
                    continue
                for x, e in enumerate(bytid[i]):
                    for y, f in enumerate(bytid[j]):
                        if y + 1 < len(bytid[j]):
                            cs.append(imp((e, f), (e, bytid[j][y + 1])))
                        if x:
                            cs.append(imp((e, f), (bytid[i][x - 1], f)))
                for k in tids:
                    if k <= j:
                        continue
                    for e in bytid[i]:
                        for f in bytid[j]:
                            for g in bytid[k]:
                                cs.append(imp((e, f), (f, g), (e, g)))
                                cs.append(imp((g, f), (f, e), (g, e)))
        # the order in which to run them under a model
        pos = {id(e): (e.k, [lt(y, e) for y in live if y.tid != e.tid], sum(1 for y in live if y.tid == e.tid and y.k < e.k)) for e in live}

        def alias(x, y):
            k = ('a', id(x), id(y))
            v = qc.get(k)
            if v is None:
                v = qc[k] = alias_(x, y)
            return v

        def alias_(x, y):
            """do x and y touch the same cell? True, False or a term"""
            if x.a.__class__ is int and y.a.__class__ is int:
                return x.a == y.a
            if not set(x.cells) & set(y.cells):
                return False
            t = B.normb(B.bv(x.a, 64) == B.bv(y.a, 64))
            return bool(t) if t.__class__ is int else t
        wr = [e for e in live if e.kind in 'WU']
        rd = [e for e in live if e.kind in 'RU']
        al = {}
        for i, x in enumerate(live):
            if x.kind == 'F':
                continue
            for y in live[i + 1:]:
                if y.kind == 'F' or (x.kind == 'R' and y.kind == 'R'):
                    continue
                t = alias(x, y)
                if t is not False:
                    al[id(x), id(y)] = al[id(y), id(x)] = t
        NOT = lambda t: z3.BoolVal(not t) if t.__class__ is bool else z3.Not(t)
        before = lambda x, y: x.k < y.k if x.tid == y.tid else lt(x, y)
        rf = {}

        def init(e):
            r = self.initial(e.cells[0], e.n)
            for c in e.cells[1:]:
                r = B.ite(B.normb(e.a == c), self.initial(c, e.n), r, 8 * e.n)
            return r

        def eqv(x, y, m):
            return B.bv(x, 8 * m) == B.bv(y, 8 * m)
        for i in rd:
            cand = [j for j in wr if j is not i and (id(i), id(j)) in al and not (j.tid == i.tid and j.k > i.k)]
            key = ('rd', id(i)) + tuple([id(j) for j in cand])
            hit = qc.get(key)
            if hit is not None:
                rf.update(hit[0])
                cs.append(hit[1])
                continue
            cs_, rf_ = cs, rf
            cs, rf = [], {}
            opts = []
            for j in cand:
                s = z3.Bool('p%drf%d_%d_%d_%d' % (self.serial, i.tid, i.k, j.tid, j.k))
                rf[id(i), id(j)] = s
                opts.append(s)
                t = [eqv(i.r, j.w, i.n)]
                a = al[id(i), id(j)]
                if a is not True:
                    t.append(a)
                b = before(j, i)
                if b is not True:
                    t.append(b)
                # nothing in between: always in an SC execution, for read-modify-writes in any
                if not wmm or i.kind == 'U':
                    for k in cand:
                        if k is j:
                            continue
                        a = al[id(i), id(k)]
                        o = [x for x in (NOT(a) if a is not True else False, before(k, j), before(i, k)) if x is not False]
                        if True in o:
                            continue
                        t.append(z3.Or(o))
                cs.append(z3.Implies(s, z3.And(t)))
            s = z3.Bool('p%drf%d_%d_init' % (self.serial, i.tid, i.k))
            rf[id(i), 0] = s
            opts.append(s)
            t = [eqv(i.r, init(i), i.n)]
            if not wmm or i.kind == 'U':
                for k in cand:
                    a = al[id(i), id(k)]
                    o = [x for x in (NOT(a) if a is not True else False, before(i, k)) if x is not False]
                    if True in o:
                        continue
                    t.append(z3.Or(o) if o else z3.BoolVal(False))
            cs.append(z3.Implies(s, z3.And(t)))
            cs.append(z3.Or(opts))
            if wmm:
                for x in range(len(opts)):
                    for y in range(x):
                        cs.append(z3.Or(z3.Not(opts[x]), z3.Not(opts[y])))
            c = z3.And(cs)
            qc[key] = (rf, c)
            rf_.update(rf)
            cs, rf = cs_, rf_
            cs.append(c)
        # a failed strong compare-exchange is constrained by its path; a weak one may fail on the expected value
        race = None
        if wmm:
            race = self.weak(live, wr, rd, al, rf, before, cs)
        # memory afterwards
        cells = {}
        for e in wr:
            for c in e.cells:
                cells.setdefault(c, []).append(e)
        hist = {}
        for c, es in cells.items():
            key = ('fin', c) + tuple([id(e) for e in es])
            hit = qc.get(key)
            if hit is not None:
                fin[c] = hit[0]
                cs.append(hit[1])
                if hit[2] is not None:
                    hist[c] = hit[2]
                continue
            m = es[0].n
            v = z3.BitVec('p%dfin_%x' % (self.serial, c), 8 * m)
            opts = []
            at = lambda e: True if e.a.__class__ is int else e.a == c
            for j in es:
                t = [v == B.bv(j.w, 8 * m)]
                if at(j) is not True:
                    t.append(at(j))
                for k in es:
                    if k is j:
                        continue
                    o = [x for x in (NOT(at(k)) if at(k) is not True else False, before(k, j)) if x is not False]
                    if True in o:
                        continue
                    t.append(z3.Or(o) if o else z3.BoolVal(False))
                opts.append(z3.And(t))
            if not any(at(j) is True for j in es):
                opts.append(z3.And([v == B.bv(self.initial(c, m), 8 * m)] + [z3.Not(at(k)) for k in es]))
            c_ = z3.Or(opts)
            cs.append(c_)
            fin[c] = v
            qc[key] = (v, c_, None)
            if c in watch:
                lo = hi = self.initial(c, m)
                for j in es:
                    x = B.bv(j.w, 8 * m)
                    ok = z3.BoolVal(True) if at(j) is True else at(j)
                    lo = z3.If(z3.And(ok, z3.ULT(x, B.bv(lo, 8 * m))), x, B.bv(lo, 8 * m))
                    hi = z3.If(z3.And(ok, z3.UGT(x, B.bv(hi, 8 * m))), x, B.bv(hi, 8 * m))
                hist[c] = (lo, hi)
                qc[key] = (v, c_, hist[c])
        return cs, pos, evs, gone, fin, hist, race, rf

    def weak(self, live, wr, rd, al, rf, before, cs):
        """happens-before, coherence; -> the condition that there is a race"""
        n = len(live)
        idx = {id(e): i for i, e in enumerate(live)}
        hb = [[None] * n for _ in range(n)]
        for i, x in enumerate(live):
            for j, y in enumerate(live):
                if i == j:
                    hb[i][j] = False
                elif x.tid == y.tid:
                    hb[i][j] = x.k < y.k
                else:
                    hb[i][j] = z3.Bool('p%dhb%d_%d_%d_%d' % (self.serial, x.tid, x.k, y.tid, y.k))
        # happens-before never contradicts the order of execution
        for i, x in enumerate(live):
            for j, y in enumerate(live):
                if x.tid != y.tid:
                    cs.append(z3.Implies(hb[i][j], z3.Not(hb[j][i])))
                    for k, z in enumerate(live):
                        if k in (i, j):
                            continue
                        # hb(i,j) and hb(j,k) -> hb(i,k)
                        if hb[j][k] is False or hb[i][k] is True:
                            continue
                        if y.tid == z.tid and hb[j][k] is True and not self.adjacent(live, j, k):
                            continue
                        t = [hb[i][j]] + ([hb[j][k]] if hb[j][k] is not True else [])
                        cs.append(z3.Implies(z3.And(t), hb[i][k] if hb[i][k] is not False else z3.BoolVal(False)))
                elif hb[i][j] is True and self.adjacent(live, i, j):
                    for k, z in enumerate(live):
                        if z.tid != x.tid:
                            cs.append(z3.Implies(hb[j][k], hb[i][k]))
        # release sequences: rs(h, w)
        rs = {}
        for h in wr:
            for w in wr:
                if h is w:
                    rs[id(h), id(w)] = True
                elif w.kind == 'U' and (id(h), id(w)) in al:
                    rs[id(h), id(w)] = z3.Bool('p%drs%d_%d_%d_%d' % (self.serial, h.tid, h.k, w.tid, w.k))
        for (h, w), v in list(rs.items()):
            if v is True:
                continue
            for j in wr:
                if (w, id(j)) in rf and (h, id(j)) in rs:
                    u = rs[h, id(j)]
                    cs.append(z3.Implies(rf[w, id(j)] if u is True else z3.And(rf[w, id(j)], u), v))
        # synchronisation
        for i in rd:
            for j in wr:
                if (id(i), id(j)) not in rf:
                    continue
                for h in wr:
                    u = rs.get((id(h), id(j)))
                    if u is None or not h.at or not i.at:
                        continue
                    srcs = [h] if h.order in REL else [f for f in live if f.kind == 'F' and f.tid == h.tid and f.k < h.k and f.order in REL][-1:]
                    dsts = [i] if i.order in ACQ else [f for f in live if f.kind == 'F' and f.tid == i.tid and f.k > i.k and f.order in ACQ][:1]
                    for x in srcs:
                        for y in dsts:
                            if x.tid != y.tid:
                                c = rf[id(i), id(j)]
                                cs.append(z3.Implies(c if u is True else z3.And(c, u), hb[idx[id(x)]][idx[id(y)]]))
        # coherence; writes of one location take effect in the order of execution
        def A(x, y):
            t = al.get((id(x), id(y)))
            return None if t is None else t
        for i in rd:
            for j in [None] + wr:
                s = rf.get((id(i), id(j) if j is not None else 0))
                if s is None:
                    continue
                for k in wr:
                    if k is j or k is i:
                        continue
                    a = A(i, k)
                    if a is None:
                        continue
                    # k, a newer write than the one read, must not be known to the reader
                    newer = True if j is None else before(j, k)
                    if newer is False:
                        continue
                    h = hb[idx[id(k)]][idx[id(i)]]
                    bad = [x for x in (s, a, newer, h) if x is not True]
                    if h is not False:
                        cs.append(z3.Not(z3.And(bad)))
                # nor is anything older read after something newer has been
                for i2 in rd:
                    if i2 is i or i.kind != 'R' and i2.kind != 'R':
                        continue
                    h = hb[idx[id(i2)]][idx[id(i)]]
                    if h is False:
                        continue
                    for j2 in wr:
                        if j2 is j:
                            continue
                        s2 = rf.get((id(i2), id(j2)))
                        a = A(i, j2)
                        if s2 is None or a is None:
                            continue
                        newer = True if j is None else before(j, j2)
                        if newer is False:
                            continue
                        cs.append(z3.Not(z3.And([x for x in (s, s2, a, newer, h) if x is not True])))
        races = []
        for i, x in enumerate(live):
            for j in range(i):
                y = live[j]
                if x.tid == y.tid or x.kind == 'F' or y.kind == 'F' or (x.at and y.at):
                    continue
                a = al.get((id(x), id(y)))
                if a is None:
                    continue
                t = [z3.Not(hb[i][j]), z3.Not(hb[j][i])]
                if a is not True:
                    t.append(a)
                races.append(z3.And(t))
        # an execution is judged up to its first race
        return z3.Or(races) if races else z3.BoolVal(False)

    def adjacent(self, live, i, j):
        return j == i + 1 and live[i].tid == live[j].tid


def solve(eng, cs):
    """-> model or None; a fresh solver per query"""
    t = time.time()
    s = z3.SimpleSolver()
    s.set('timeout', 120000)
    s.add(*cs)
    r = s.check()
    eng.solver.queries += 1
    eng.solver.time += time.time() - t
    if r == z3.unknown:
        raise Inconclusive('solver: ' + s.reason_unknown())
    if r == z3.unsat:
        eng.solver.unsat += 1
        return None
    eng.solver.sat += 1
    return s.model()


CHUNK = 12


@handler('lsym_par', ctl=True)
def _(S, F, retreg, nxt, n, fn, data, mode):
    eng = S.eng
    if S.par is not None:
        raise Unsupported('nested lsym_par')
    key = (S.env.get('parn', 0), tuple(c.get_id() for c in S.pc), tuple(v if v.__class__ is int else v.get_id() for _, v in S.inputs))
    got = eng.parcache.get(key)
    if got is None:
        par = Par(S.clone(), n, S.prog.fbyaddr[fn], data, mode)
        ths = par.all()
        combos = [[]]
        for ps in ths:
            combos = [c + [p] for c in combos for p in ps]
        # interleave so that chunks cost about the same
        got = eng.parcache[key] = (par, combos, S.pc[:])
        eng.parinfo.append(([len(x) for x in ths], par.cut, [max([len(p.ev) for p in x] or [0]) for x in ths], par.rounds))
    par, combos, _ = got
    nch = (len(combos) + CHUNK - 1) // CHUNK
    if nch == 0:
        raise PathEnd('cut')
    k = S.choose([(None, i) for i in range(nch)]) if nch > 1 else 0
    for paths in combos[k::nch]:
        if eng.deadline and time.time() > eng.deadline:
            raise Inconclusive('out of time with combinations of thread paths left')
        cs, pos, evs, gone, fin, hist, race, rf = par.query(paths)
        branches = [(cs, None)]
        if race is not None and not z3.is_false(race):
            branches = [(cs + [race], 'race'), (cs + [z3.Not(race)], None)]
        for bcs, bad in branches:
            m = solve(eng, S.pc + bcs)
            if m is None:
                continue
            s2 = S.clone()
            s2.pend = None
            s2.pc.append(z3.And(bcs))
            s2.model = m
            s2.frames[-1].seg = nxt
            mask = 0
            for t, p in enumerate(paths):
                if p.kind == 'panic':
                    mask |= 1 << t
                for slot, v in p.outs:
                    s2.env[('out', t, slot)] = v
            if retreg >= 0:
                s2.frames[-1].R[retreg] = mask
            for c, v in fin.items():
                SD(s2, c, v, [e.n for e in evs if c in e.cells][0])
            for c, v in hist.items():
                s2.env[('hist', c)] = v
            s2.env['parn'] = S.env.get('parn', 0) + 1
            s2.env['sched'] = S.env.get('sched', ()) + ((par, evs, pos, gone, rf),)
            ends = [p for p in paths if p.kind not in ('ok', 'panic')]
            if bad:
                eng.end(s2, PathEnd('violation', (bad, 0)))
                continue
            if ends:
                eng.end(s2, PathEnd(ends[0].kind, ends[0].info))
                continue
            eng.push(s2)
    raise PathEnd('par')


@handler('lsym_out')
def _(S, slot, v):
    S.env['outs'] = S.env.get('outs', ()) + ((slot, v),)


@handler('lsym_get')
def _(S, t, slot):
    return S.env.get(('out', t, slot), 0)


@handler('lsym_private')
def _(S, p):
    S.env['private'] = S.env.get('private', ()) + (p >> OB,)


@handler('lsym_shared')
def _(S, p, n):
    S.env['ranges'] = S.env.get('ranges', ()) + ((p, n),)


@handler('lsym_watch')
def _(S, p):
    S.env['watch'] = S.env.get('watch', ()) + (p,)


@handler('lsym_hist')
def _(S, p, hi):
    h = S.env.get(('hist', p))
    if h is None:
        return LD(S, p, 8)
    return h[1 if hi else 0]


def schedule(S, m):
    """lines telling the native run in which order the accesses happen"""
    out = []
    ranges = S.env.get('ranges', ())

    def rel(a):
        for k, (p, n) in enumerate(ranges):
            if p <= a < p + n:
                return '%d %d' % (k, a - p)
        return None
    for par, evs, pos, gone, rf in S.env.get('sched', ()):
        out.append('B %d' % par.mode)
        for oid, c in par.cells.items():
            for off, n in c.items():
                r = rel((oid << OB) + off)
                if r is not None:
                    out.append('C %s %d' % (r, n))
        order = []
        last = {}
        for e in evs:
            if e.kind == 'F':
                continue
            if id(e) in gone:
                p = last.get(e.tid, -1)
            else:
                p = place(m, pos[id(e)])
                last[e.tid] = p
            order.append((p, e.tid, e.k, e))
        order.sort(key=lambda x: x[:3])
        ev = lambda v: v if v.__class__ is int else m.eval(v, model_completion=True).as_long()
        for p, t, k, e in order:
            a = ev(e.a)
            r = rel(a)
            if r is None:
                continue
            val = 0
            spurious = 0
            if e.kind in 'RU' and id(e) not in gone:
                val = ev(e.r)
                if e.x.__class__ is tuple and val == ev(e.x[1]):
                    spurious = 1
            out.append('E %d %s %s %d %d %d %d' % (t, e.kind, r, e.n, val, spurious, 1 if e.at else 0))
    return out


def place(m, x):
    return x[2] + sum(1 for t in x[1] if z3.is_true(m.eval(t, model_completion=True)))


def spurious(S, m):
    """no native run can follow: a weak compare-exchange fails without cause under model m, or there is an atomic minimum or maximum,
    which the instrumentation of the native build leaves alone"""
    ev = lambda v: v if v.__class__ is int else m.eval(v, model_completion=True).as_long()
    return any(e.x.__class__ is tuple and ev(e.r) == ev(e.x[1]) or e.rmw and e.rmw[0] in ('umin', 'umax', 'min', 'max') for _, evs, _, gone, _ in S.env.get('sched', ()) for e in evs if id(e) not in gone)

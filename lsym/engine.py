"""Symbolic executor for the LLVM IR rustc emits.

Each segment of a basic block (up to the next call to a defined function, or the terminator) is translated to
a Python function that works on concrete Python ints as long as it can and on z3 terms otherwise.  States are
forked copy-on-write; every fork is decided by the SMT solver under the path condition."""
import sys, time, subprocess, struct
import z3
from .ir import *
from . import bv as B
from . import lin
from .bv import Unsupported, Inconclusive

sys.setrecursionlimit(20000)
OB = 36
SHIM = 'memory shared between threads'
OM = (1 << OB) - 1
M64 = (1 << 64) - 1
FOBJ = 1                     # object id of the function "addresses"
FBASE = FOBJ << OB


class Fork(Exception):
    def __init__(self, alts, done):
        self.alts = alts      # [(constraint or None, value)]
        self.done = done


class PathEnd(Exception):
    def __init__(self, kind, info=None):
        self.kind = kind
        self.info = info


class MemError(Exception):
    pass


class Obj:
    __slots__ = ('data', 'sym', 'owner', 'kind', 'symsize')

    def __init__(self, data, owner, kind='', sym=None, symsize=None):
        self.data = data
        self.sym = sym
        self.owner = owner
        self.kind = kind
        self.symsize = symsize


class Frame:
    __slots__ = ('fn', 'R', 'seg', 'retreg', 'sid', 'mark')

    def copy(self):
        f = Frame()
        f.fn = self.fn
        f.R = self.R[:]
        f.seg = self.seg
        f.retreg = self.retreg
        f.sid = self.sid
        f.mark = self.mark
        return f


class Seg:
    __slots__ = ('fc', 'blk', 'start', 'code', 'n', 'single', 'unw')

    def __init__(self, fc, blk, start, single=False):
        self.unw = None         # where a panic of the call that returns here continues
        self.fc = fc
        self.blk = blk
        self.start = start
        self.single = single
        self.code = None
        self.n = 0


# ------------------------------------------------------------------ program

class Program:
    def __init__(self, modules):
        self.mods = modules
        self.unwind = False     # panics unwind, in IR that has landing pads
        self.fns = {}
        self.gdef = {}
        for m in modules:
            for k, f in m.funcs.items():
                if k not in self.fns or self.fns[k].linkage == 'internal':
                    self.fns[k] = f
            for k, t in m.globals.items():
                if ' extern_weak ' in t[:60] or ' external ' in t[:60] or t.lstrip(' =').startswith('extern'):
                    continue
                if k not in self.gdef:
                    self.gdef[k] = m
        self.demangle()
        self.base = {}            # objid -> Obj (initial contents of globals)
        self.gaddr = {}
        self.gname = {}
        self.next_gid = 2
        self.faddr = {}
        self.fbyaddr = {}
        self.fc = {}
        self.tlsinit = {}

    def demangle(self):
        names = sorted(self.fns)
        out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        import re
        rx = re.compile(r'\[[0-9a-f]{8,16}\]')
        out = [rx.sub('', x) for x in out]
        self.dem = dict(zip(names, out))
        for n, f in self.fns.items():
            f.dem = self.dem[n]
        for m in self.mods:
            for n, f in m.funcs.items():
                f.dem = self.dem[n]

    def func_addr(self, name, mod):
        f = mod.funcs.get(name) or self.fns.get(name) or name
        key = f if isinstance(f, str) else id(f)
        a = self.faddr.get(key)
        if a is None:
            a = self.faddr[key] = FBASE + 16 * (len(self.faddr) + 1)
            self.fbyaddr[a] = f
        return a

    def global_addr(self, name, mod):
        """address of a global or function symbol"""
        if name in mod.funcs:
            return self.func_addr(name, mod)
        t = mod.globals.get(name)
        m = mod
        if t is None or t.lstrip(' =').startswith('extern') or ' external ' in t[:60] or ' extern_weak ' in t[:60]:
            m = self.gdef.get(name)
            if m is None:
                if t is None or name in self.fns or name in HANDLERS:
                    return self.func_addr(name, mod)
                if 'extern_weak' in t[:40] and name != '__dso_handle':
                    return 0
                m = None
        if m is not None:
            t = m.globals[name]
        if t is not None and ' alias ' in t[:80]:
            toks = tokenize(t)
            i = [x[1] for x in toks].index('alias')
            p = P(toks[i + 1:], m)
            p.type()
            p.expect(',')
            p.type()
            return self.global_addr(unq(p.next()[1]), m)
        key = (m.name if m else '', name)
        a = self.gaddr.get(key)
        if a is not None:
            return a
        gid = self.next_gid
        self.next_gid += 1
        a = self.gaddr[key] = gid << OB
        self.gname[gid] = name
        if m is None:
            self.base[gid] = Obj(bytearray(64), None, 'extern ' + name)
            return a
        toks = tokenize(t)
        vals = [x[1] for x in toks]
        i = min(vals.index(k) for k in ('global', 'constant') if k in vals)
        p = P(toks[i + 1:], m)
        ty = p.type()
        data = bytearray(size_align(ty)[0])
        o = Obj(data, None, 'global ' + name)
        self.base[gid] = o
        try:
            self.fill(data, 0, ty, p)
        except IndexError:
            raise Unsupported("global %s: %s" % (name, t[:300]))
        if 'thread_local' in vals[:i]:
            o.kind = 'tls ' + name
        return a

    def fill(self, data, off, ty, p):
        k, v = p.peek()
        if v in ('zeroinitializer', 'undef', 'poison', 'null', 'none'):
            p.next()
            return
        if ty[0] in ('i', 'ptr'):
            x = const_int(self, p, ty)
            n = store_size(ty)
            data[off:off + n] = (x & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')
        elif ty[0] == 'f':
            x = parse_float(p.next()[1], ty[1])
            data[off:off + ty[1] // 8] = struct.pack('<d' if ty[1] == 64 else '<f' if ty[1] == 32 else '<e', x)
        elif ty[0] in ('a', 'v'):
            es = size_align(ty[2])[0]
            if k == 'cstr':
                b = cstr_bytes(p.next()[1])
                data[off:off + len(b)] = b
                return
            op = p.next()[1]
            cl = {'[': ']', '<': '>'}[op]
            i = 0
            while not p.accept(cl):
                if i:
                    p.expect(',')
                et = p.type()
                self.fill(data, off + i * es, et, p)
                i += 1
        elif ty[0] == 's':
            op = p.next()[1]
            if op == '<':
                p.expect('{')
            for i in range(len(ty[1])):
                if i:
                    p.expect(',')
                et = p.type()
                self.fill(data, off + field_offset(ty, i), et, p)
            p.expect('}')
            if op == '<':
                p.expect('>')
        else:
            raise Unsupported('initialiser %s' % (ty,))

    def code(self, f):
        c = self.fc.get(id(f))
        if c is None:
            c = self.fc[id(f)] = FnCode(self, f)
        return c


def const_int(prog, p, ty):
    """integer/pointer constant (no registers)"""
    k, v = p.next()
    if k == 'num':
        return int(v) & B.mask(ty[1] if ty[0] == 'i' else 64)
    if v in ('null', 'undef', 'poison', 'zeroinitializer', 'false'):
        return 0
    if v == 'true':
        return 1
    if k == 'gl':
        return prog.global_addr(unq(v), p.mod)
    if v == 'getelementptr':
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw', 'nneg') or p.peek()[1] == 'inrange':
            if p.next()[1] == 'inrange':
                while p.next()[1] != ')':
                    pass
        p.expect('(')
        ety = p.type()
        p.expect(',')
        p.type()
        base = const_int(prog, p, PTR)
        idx = []
        while p.accept(','):
            it = p.type()
            idx.append(B.sgn(const_int(prog, p, it), it[1]))
        p.expect(')')
        return (base + gep_const(ety, idx)) & M64
    if v in ('inttoptr', 'ptrtoint', 'bitcast', 'addrspacecast', 'ptrtoaddr'):
        p.expect('(')
        t = p.type()
        x = const_int(prog, p, t)
        p.expect('to')
        t2 = p.type()
        p.expect(')')
        return x & B.mask(t2[1]) if t2[0] == 'i' else x
    if v in ('add', 'sub', 'mul'):
        while p.peek()[1] in ('nuw', 'nsw'):
            p.next()
        p.expect('(')
        t = p.type()
        x = const_int(prog, p, t)
        p.expect(',')
        p.type()
        y = const_int(prog, p, t)
        p.expect(')')
        return (x + y if v == 'add' else x - y if v == 'sub' else x * y) & B.mask(t[1])
    raise Unsupported('constant %s at %s' % (v, p.t[max(0, p.i - 4):p.i + 8]))


def gep_const(ety, idx):
    off = idx[0] * size_align(ety)[0]
    t = ety
    for i in idx[1:]:
        if t[0] == 's':
            off += field_offset(t, i)
            t = t[1][i]
        else:
            t = t[2]
            off += i * size_align(t)[0]
    return off


# ------------------------------------------------------------------ code generation

ATTRSKIP = {'tail', 'musttail', 'notail', 'fastcc', 'ccc', 'coldcc', 'preserve_mostcc', 'preserve_allcc', 'noundef', 'zeroext', 'signext', 'inreg', 'noalias', 'nonnull', 'nofree',
            'nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'reassoc', 'afn', 'disjoint', 'samesign', 'returned', 'swiftself', 'writeonly', 'readonly', 'readnone', 'nocapture', 'immarg', 'noinline',
            'unnamed_addr', 'local_unnamed_addr', 'internal', 'private', 'hidden', 'dso_local', 'weak', 'linkonce_odr', 'weak_odr', 'protected', 'define', 'available_externally', 'dead_on_unwind', 'writable', 'dead_on_return', 'inalloca', 'byref', 'nest', 'nofpclass', 'allocptr', 'allocalign'}


class FnCode:
    def __init__(self, prog, f):
        self.prog = prog
        self.f = f
        self.mod = f.mod
        self.name = f.name
        self.dem = f.dem
        self.regs = {}
        self.segs = {}
        self.ns = None
        self.parse()

    # -- parsing
    def parse(self):
        lines, a, b = self.f.lines
        blocks = {}
        cur = None
        i = a
        self.order = []
        while i < b:
            l = lines[i]
            i += 1
            if not l or l[0] == ';':
                continue
            if l[0] != ' ':
                lab = l.split(';')[0].strip()
                if lab.endswith(':'):
                    nm = lab[:-1]
                    if nm.startswith('"'):
                        nm = nm[1:-1]
                    cur = blocks[nm] = []
                    self.order.append(nm)
                continue
            s = l.strip()
            if s.startswith('switch') and not s.endswith(']'):
                while True:
                    s += ' ' + lines[i].strip()
                    i += 1
                    if lines[i - 1].strip().startswith(']'):
                        break
            if 'invoke ' in s and (s.startswith('invoke ') or ' = invoke ' in s):
                s += ' ' + lines[i].strip()
                i += 1
            elif ' = landingpad ' in s:
                while lines[i].strip().split(' ')[0] in ('cleanup', 'catch', 'filter'):
                    s += ' ' + lines[i].strip()
                    i += 1
            if s[0] == '#' or s.startswith('; '):
                continue
            if s.startswith('#dbg'):
                continue
            if cur is None:
                cur = blocks['0'] = []
                self.order.append('0')
            cur.append(s)
        self.blocks = blocks
        # parameters
        toks = tokenize(self.f.header)
        p = P(toks, self.mod)
        while p.peek()[0] != 'gl':
            p.next()
        p.next()
        p.expect('(')
        self.params = []
        self.ptypes = []
        self.vararg = False
        while not p.accept(')'):
            if p.accept(','):
                continue
            if p.accept('...'):
                self.vararg = True
                continue
            t = p.type()
            self.ptypes.append(t)
            d = 0
            while True:
                k, v = p.peek()
                if k == 'loc' and d == 0:
                    self.reg(unq(v))
                    self.params.append(unq(v))
                    p.next()
                    break
                if v == '(':
                    d += 1
                if v == ')':
                    if d == 0:
                        nm = str(len(self.params))
                        self.reg(nm)
                        self.params.append(nm)
                        break
                    d -= 1
                if v == ',' and d == 0:
                    nm = str(len(self.params))
                    self.reg(nm)
                    self.params.append(nm)
                    break
                p.next()
        self.nparams = len(self.params)
        # frame layout: every alloca of the function
        off = 0
        self.alloc = {}
        self.ralloc = {}
        for ins in blocks.values():
            for s in ins:
                if ' = alloca ' in s:
                    pp = P(tokenize(s), self.mod)
                    nm = unq(pp.next()[1])
                    pp.expect('=')
                    pp.expect('alloca')
                    t = pp.type()
                    n = 1
                    al = size_align(t)[1]
                    while pp.accept(','):
                        if pp.accept('align'):
                            al = int(pp.next()[1])
                        else:
                            tt = pp.type()
                            n = int(pp.next()[1])
                    al = max(al, 1)
                    off = (off + al - 1) // al * al
                    self.alloc[nm] = off
                    off += max(1, size_align(t)[0] * n)
        self.ssize = (off + 15) // 16 * 16
        self.sp = self.reg('.sp')
        for ins in blocks.values():
            for t in ins:
                if t[0] == '%':
                    self.reg(t[1:t.index(' = ')].strip('"'))
        self.entryseg = self.seg(self.order[0])
        self.types = {}
        self.parsed = {}

    def reg(self, n):
        r = self.regs.get(n)
        if r is None:
            r = self.regs[n] = len(self.regs)
        return r

    @property
    def nregs(self):
        return len(self.regs)

    def seg(self, blk, start=0, single=False):
        k = (blk, start, single)
        s = self.segs.get(k)
        if s is None:
            s = self.segs[k] = Seg(self, blk, start, single)
        return s

    def entry(self):
        return self.seg(self.order[0])

    # -- values
    def val(self, p, t):
        """parse a value of type t -> (python expression, constant or None)"""
        k, v = p.peek()
        if k == 'loc':
            p.next()
            return 'R[%d]' % self.reg(unq(v)), None
        if t[0] == 'f':
            if k == 'num':
                p.next()
                return self.konst(parse_float(v, t[1])), None
            if v in ('undef', 'poison', 'zeroinitializer'):
                p.next()
                return '0.0', None
        if t[0] in ('i', 'ptr'):
            c = const_int(self.prog, p, t)
            return str(c), c
        if v in ('undef', 'poison', 'zeroinitializer'):
            p.next()
            return repr(zero_of(t)), None
        if t[0] in ('a', 's', 'v'):
            if k == 'cstr':
                p.next()
                return repr(list(cstr_bytes(v))), None
            if v == 'splat':
                p.next()
                p.expect('(')
                et = p.type()
                e, c = self.val(p, et)
                p.expect(')')
                return '[%s]*%d' % (e, t[1]), None
            op = p.next()[1]
            if op == '<' and t[0] == 's':
                p.expect('{')
                end = '}'
            else:
                end = {'[': ']', '<': '>', '{': '}'}[op]
            out = []
            while not p.accept(end):
                if out:
                    p.expect(',')
                et = p.type()
                out.append(self.val(p, et)[0])
            if op == '<' and t[0] == 's':
                p.expect('>')
            return '[' + ', '.join(out) + ']', None
        raise Unsupported('value %s of %s in %s' % (v, t, self.dem))

    def konst(self, x):
        n = 'K%d' % len(self.ns)
        self.ns[n] = x
        return n

    def skipattrs(self, p):
        while True:
            k, v = p.peek()
            if k == 'id' and (v in ATTRSKIP or v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'range', 'sret', 'byval', 'captures', 'elementtype', 'initializes', 'nofpclass', 'memory', 'alignstack', 'addrspace', 'dead_on_return')):
                p.next()
                if v == 'align' and p.peek()[0] == 'num':
                    p.next()
                elif p.peek()[1] == '(':
                    d = 0
                    while True:
                        x = p.next()[1]
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0:
                                break
            elif k == 'attr':
                p.next()
            else:
                return

    def compile(self, seg):
        if self.ns is None:
            self.ns = dict(GEN_NS)
        if seg.blk[0] == '\0':          # edge segment with phi moves
            return self.compile_edge(seg)
        ins = self.blocks[seg.blk]
        out = ['def seg(S,F,R):']
        i = seg.start
        self.cur = seg
        while True:
            line, stop = self.gen(ins[i], seg.blk, i)
            if seg.single and not stop:
                line += '; F.seg=%s' % self.segname(seg.blk, i + 1)
                stop = True
            out.append('  ' + line)
            i += 1
            if stop:
                break
        seg.n = i - seg.start
        ns = self.ns
        exec(compile('\n'.join(out), '<seg>', 'exec'), ns)
        code = ns['seg']
        if seg.single:
            inner = code

            def code(S, F, R):
                S.pi = 0
                inner(S, F, R)
                S.pend = None
        seg.code = code
        return code

    def segname(self, blk, start=0):
        s = self.seg(blk, start)
        n = 'T%d' % id(s)
        self.ns[n] = s
        return n

    def has_phi(self, blk):
        for s in self.blocks[blk]:
            return ' = phi ' in s
        return False

    def target(self, frm, to):
        if not self.has_phi(to):
            return self.segname(to)
        return self.segname('\0%s\0%s' % (frm, to))

    def compile_edge(self, seg):
        _, frm, to = seg.blk.split('\0')
        dst, src = [], []
        k = 0
        for s in self.blocks[to]:
            if ' = phi ' not in s:
                break
            k += 1
            p = P(tokenize(s), self.mod)
            r = self.reg(unq(p.next()[1]))
            p.expect('=')
            p.expect('phi')
            self.skipattrs(p)
            t = p.type()
            got = None
            while True:
                p.expect('[')
                v, _ = self.val(p, t)
                p.expect(',')
                lab = unq(p.next()[1])
                p.expect(']')
                if lab == frm:
                    got = v
                if not p.accept(','):
                    break
            dst.append('R[%d]' % r)
            src.append(got)
        out = 'def seg(S,F,R):\n  %sF.seg=%s' % ('%s = %s\n  ' % (', '.join(dst) + ',', ', '.join(src) + ',') if dst else '', self.segname(to, k))
        exec(compile(out, '<seg>', 'exec'), self.ns)
        seg.code = self.ns['seg']
        seg.n = k
        return seg.code

    # -- one instruction -> one line of Python
    def gen(self, s, blk, idx):
        key = (blk, idx)
        toks = self.parsed.get(key)
        if toks is None:
            toks = self.parsed[key] = tokenize(s)
        p = P(toks, self.mod)
        res = None
        if p.peek()[0] == 'loc' and p.t[1][1] == '=':
            res = unq(p.next()[1])
            p.next()
        op = p.next()[1]
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()[1]
        m = getattr(self, 'g_' + op, None)
        if m is None:
            if op in BIN:
                return self.g_bin(p, res, op)
            m = CASTS.get(op)
            if m:
                return self.g_cast(p, res, op)
            raise Unsupported('instruction %s: %s' % (op, s))
        if op in ('br', 'switch', 'call', 'invoke', 'ret', 'unreachable'):
            self.here = (blk, idx)
        return m(p, res)

    def D(self, res):
        return 'R[%d]=' % self.reg(res)

    def g_alloca(self, p, res):
        return 'R[%d]=R[%d]+%d' % (self.reg(res), self.sp, self.alloc[res]), False

    def g_bin(self, p, res, op):
        self.skipattrs(p)
        t = p.type()
        a, ca = self.val(p, t)
        p.expect(',')
        b, cb = self.val(p, t)
        d = self.D(res)
        if op[0] == 'f':
            return '%s%s(S,%s,%s,%d)' % (d, op, a, b, t[1]), False
        if t[0] == 'v':
            return '%svbin(%r,%s,%s,%d)' % (d, op, a, b, t[2][1]), False
        w = t[1]
        conc = BIN[op].replace('M', str(B.mask(w))).replace('W', str(w))
        if op in ('sdiv', 'srem', 'ashr'):
            return '%s%s_(S,%s,%s,%d)' % (d, op, a, b, w), False
        sym = {'and': 'and_', 'or': 'or_'}.get(op, op)
        pre = ''
        tests = []
        if ca is None:
            pre += 'a=%s;' % a
            tests.append('a.__class__ is I')
            a = 'a'
        if cb is None:
            pre += 'b=%s;' % b
            tests.append('b.__class__ is I')
            b = 'b'
        conc = conc.replace('A', a).replace('B', b)
        if not tests:
            return d + conc, False
        return '%s%s%s if %s else B_%s(%s,%s,%d)' % (pre, d, conc, ' and '.join(tests), sym, a, b, w), False

    def g_fneg(self, p, res):
        self.skipattrs(p)
        t = p.type()
        a, _ = self.val(p, t)
        return '%sfneg(S,%s,%d)' % (self.D(res), a, t[1]), False

    def g_icmp(self, p, res):
        self.skipattrs(p)
        pred = p.next()[1]
        if pred == 'samesign':
            pred = p.next()[1]
        t = p.type()
        a, ca = self.val(p, t)
        p.expect(',')
        b, cb = self.val(p, t)
        d = self.D(res)
        if t[0] == 'v':
            return '%s[B_icmp(%r,x,y,%d) for x,y in zip(%s,%s)]' % (d, pred, t[2][1] if t[2][0] == 'i' else 64, a, b), False
        w = t[1] if t[0] == 'i' else 64
        if pred[0] == 's':
            return '%sB_icmp(%r,%s,%s,%d)' % (d, pred, a, b, w), False
        o = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}[pred]
        pre = ''
        tests = []
        if ca is None:
            pre += 'a=%s;' % a
            tests.append('a.__class__ is I')
            a = 'a'
        if cb is None:
            pre += 'b=%s;' % b
            tests.append('b.__class__ is I')
            b = 'b'
        if not tests:
            return '%s1 if %s%s%s else 0' % (d, a, o, b), False
        return '%s%s(1 if %s%s%s else 0) if %s else B_icmp(%r,%s,%s,%d)' % (pre, d, a, o, b, ' and '.join(tests), pred, a, b, w), False

    def g_fcmp(self, p, res):
        self.skipattrs(p)
        pred = p.next()[1]
        t = p.type()
        a, _ = self.val(p, t)
        p.expect(',')
        b, _ = self.val(p, t)
        return '%sfcmp(S,%r,%s,%s)' % (self.D(res), pred, a, b), False

    def g_cast(self, p, res, op):
        self.skipattrs(p)
        while p.peek()[1] in ('nneg', 'nuw', 'nsw'):
            p.next()
        t = p.type()
        a, c = self.val(p, t)
        p.expect('to')
        t2 = p.type()
        d = self.D(res)
        if t[0] == 'v' and op in ('zext', 'sext', 'trunc'):
            return '%s[B_%s(x,%d,%d) for x in %s]' % (d, op, t[2][1], t2[2][1], a), False
        if op == 'zext':
            return 'a=%s;%sa if a.__class__ is I else B_zext(a,%d,%d)' % (a, d, t[1], t2[1]), False
        if op == 'trunc':
            return 'a=%s;%sa&%d if a.__class__ is I else B_trunc(a,%d,%d)' % (a, d, B.mask(t2[1]), t[1], t2[1]), False
        if op == 'sext':
            return '%sB_sext(%s,%d,%d)' % (d, a, t[1], t2[1]), False
        if op in ('ptrtoint', 'inttoptr', 'ptrtoaddr'):
            w1 = t[1] if t[0] == 'i' else 64
            w2 = t2[1] if t2[0] == 'i' else 64
            if w1 == w2:
                return '%s%s' % (d, a), False
            if w1 > w2:
                return '%sB_trunc(%s,%d,%d)' % (d, a, w1, w2), False
            return '%sB_zext(%s,%d,%d)' % (d, a, w1, w2), False
        if op == 'bitcast':
            return '%sbitcast(%s,%r,%r)' % (d, a, t, t2), False
        if op in ('uitofp', 'sitofp'):
            return '%s%s(S,%s,%d,%d)' % (d, op, a, t[1], t2[1]), False
        if op in ('fptoui', 'fptosi'):
            return '%s%s(S,%s,%d,%d)' % (d, op, a, t[1], t2[1]), False
        if op == 'fpext':
            return d + a, False
        if op == 'fptrunc':
            return '%sfptrunc(S,%s,%d)' % (d, a, t2[1]), False
        raise Unsupported(op)

    def g_freeze(self, p, res):
        t = p.type()
        a, _ = self.val(p, t)
        return self.D(res) + a, False

    def g_select(self, p, res):
        self.skipattrs(p)
        tc = p.type()
        c, _ = self.val(p, tc)
        p.expect(',')
        t = p.type()
        a, _ = self.val(p, t)
        p.expect(',')
        t2 = p.type()
        b, _ = self.val(p, t2)
        if tc[0] == 'v':
            return '%s[(x if c else y) for c,x,y in zip(%s,%s,%s)]' % (self.D(res), c, a, b), False
        w = t[1] if t[0] == 'i' else 64 if t[0] == 'ptr' else 0
        return 'c=%s;%s(%s if c else %s) if c.__class__ is I else sel(S,c,%s,%s,%d)' % (c, self.D(res), a, b, a, b, w), False

    def g_extractvalue(self, p, res):
        t = p.type()
        a, _ = self.val(p, t)
        ix = ''
        while p.accept(','):
            if p.peek()[0] != 'num':
                break
            ix += '[%s]' % p.next()[1]
        return self.D(res) + a + ix, False

    def g_insertvalue(self, p, res):
        t = p.type()
        a, _ = self.val(p, t)
        p.expect(',')
        t2 = p.type()
        b, _ = self.val(p, t2)
        ix = []
        while p.accept(','):
            if p.peek()[0] != 'num':
                break
            ix.append(int(p.next()[1]))
        if len(ix) == 1:
            return 'x=list(%s);x[%d]=%s;%sx' % (a, ix[0], b, self.D(res)), False
        return '%sinsval(%s,%s,%r)' % (self.D(res), a, b, ix), False

    def g_extractelement(self, p, res):
        t = p.type()
        a, _ = self.val(p, t)
        p.expect(',')
        it = p.type()
        i, _ = self.val(p, it)
        return '%s%s[%s]' % (self.D(res), a, i), False

    def g_insertelement(self, p, res):
        t = p.type()
        a, _ = self.val(p, t)
        p.expect(',')
        t2 = p.type()
        b, _ = self.val(p, t2)
        p.expect(',')
        it = p.type()
        i, _ = self.val(p, it)
        return 'x=list(%s);x[%s]=%s;%sx' % (a, i, b, self.D(res)), False

    def g_shufflevector(self, p, res):
        t = p.type()
        a, _ = self.val(p, t)
        p.expect(',')
        t2 = p.type()
        b, _ = self.val(p, t2)
        p.expect(',')
        t3 = p.type()
        m, _ = self.val(p, t3)
        return 'x=%s+%s;%s[x[i] for i in %s]' % (a, b, self.D(res), m), False

    def g_getelementptr(self, p, res):
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
            p.next()
        ety = p.type()
        p.expect(',')
        p.type()
        base, cb = self.val(p, PTR)
        coff = 0
        dyn = []
        t = None
        while p.accept(','):
            if p.peek()[0] == 'meta':
                break
            it = p.type()
            e, c = self.val(p, it)
            if t is None:
                sz = size_align(ety)[0]
                t = ety
            elif t[0] == 's':
                coff += field_offset(t, c)
                t = t[1][c]
                continue
            else:
                t = t[2]
                sz = size_align(t)[0]
            if c is not None:
                coff += B.sgn(c, it[1]) * sz
            else:
                dyn.append((e, it[1], sz))
        d = self.D(res)
        if not dyn:
            if coff == 0:
                return d + base, False
            return 'a=%s;%sa+%d if a.__class__ is I else B_add(a,%d,64)' % (base, d, coff, coff & M64), False
        if len(dyn) == 1 and dyn[0][1] == 64:
            e, w, sz = dyn[0]
            return 'a=%s;b=%s;%s(a+b*%d+%d)&%d if a.__class__ is I and b.__class__ is I else gep(a,[(b,64,%d)],%d)' % (base, e, d, sz, coff, M64, sz, coff), False
        return '%sgep(%s,[%s],%d)' % (d, base, ','.join('(%s,%d,%d)' % x for x in dyn), coff), False

    def g_load(self, p, res):
        at = p.accept('atomic')
        p.accept('volatile')
        t = p.type()
        p.expect(',')
        p.type()
        a, _ = self.val(p, PTR)
        d = self.D(res)
        if at:
            order = p.next()[1]
            return '%satomic_load(S,%s,%d,%r)' % (d, a, store_size(t), order), False
        if t[0] in ('i', 'ptr'):
            w = t[1] if t[0] == 'i' else 64
            n = (w + 7) // 8
            if w == 8 * n:
                return '%sLD(S,%s,%d)' % (d, a, n), False
            return '%sB_trunc(LD(S,%s,%d),%d,%d)' % (d, a, n, 8 * n, w), False
        return '%sLT(S,%s,%r)' % (d, a, t), False

    def g_store(self, p, res):
        at = p.accept('atomic')
        p.accept('volatile')
        t = p.type()
        v, _ = self.val(p, t)
        p.expect(',')
        p.type()
        a, _ = self.val(p, PTR)
        if at:
            order = p.next()[1]
            return 'atomic_store(S,%s,%s,%d,%r)' % (a, v, store_size(t), order), False
        if t[0] in ('i', 'ptr'):
            w = t[1] if t[0] == 'i' else 64
            n = (w + 7) // 8
            if w != 8 * n:
                v = 'B_zext(%s,%d,%d)' % (v, w, 8 * n)
            return 'SD(S,%s,%s,%d)' % (a, v, n), False
        return 'STT(S,%s,%s,%r)' % (a, v, t), False

    def g_cmpxchg(self, p, res):
        weak = p.accept('weak')
        p.accept('volatile')
        p.type()
        a, _ = self.val(p, PTR)
        p.expect(',')
        t = p.type()
        x, _ = self.val(p, t)
        p.expect(',')
        p.type()
        y, _ = self.val(p, t)
        o1 = p.next()[1]
        o2 = p.next()[1]
        return '%scmpxchg(S,%s,%s,%s,%d,%r,%r,%r)' % (self.D(res), a, x, y, store_size(t), o1, o2, bool(weak)), False

    def g_atomicrmw(self, p, res):
        p.accept('volatile')
        op = p.next()[1]
        p.type()
        a, _ = self.val(p, PTR)
        p.expect(',')
        t = p.type()
        v, _ = self.val(p, t)
        order = p.next()[1]
        return '%satomicrmw(S,%r,%s,%s,%d,%r)' % (self.D(res), op, a, v, store_size(t), order), False

    def g_fence(self, p, res):
        o = p.next()[1]
        if o == 'syncscope':
            p.next(); p.next(); p.next()
            o = p.next()[1]
        return 'fence(S,%r)' % o, False

    def g_unreachable(self, p, res):
        return 'raise PathEnd("unreachable", None)', True

    def g_ret(self, p, res):
        t = p.type()
        if t == VOID:
            return 'S.ret(None)', True
        v, _ = self.val(p, t)
        return 'S.ret(%s)' % v, True

    def g_br(self, p, res):
        blk = self.here[0]
        if p.accept('label'):
            return 'F.seg=%s' % self.target(blk, unq(p.next()[1])), True
        p.type()
        c, _ = self.val(p, ('i', 1))
        p.expect(',')
        p.expect('label')
        a = self.target(blk, unq(p.next()[1]))
        p.expect(',')
        p.expect('label')
        b = self.target(blk, unq(p.next()[1]))
        return 'c=%s;F.seg=(%s if c else %s) if c.__class__ is I else S.branch(c,%s,%s)' % (c, a, b, a, b), True

    def g_switch(self, p, res):
        blk = self.here[0]
        t = p.type()
        v, _ = self.val(p, t)
        p.expect(',')
        p.expect('label')
        d = self.target(blk, unq(p.next()[1]))
        p.expect('[')
        cases = {}
        while not p.accept(']'):
            p.type()
            c = const_int(self.prog, p, t)
            p.expect(',')
            p.expect('label')
            tgt = self.target(blk, unq(p.next()[1]))
            cases[c] = self.ns[tgt]
        k = self.konst(cases)
        return 'v=%s;F.seg=%s.get(v,%s) if v.__class__ is I else S.switch(v,%d,%s,%s)' % (v, k, d, t[1], k, d), True

    def g_landingpad(self, p, res):
        return '%s[S.env[("exc", S.cur)], 0]' % self.D(res), False

    def g_resume(self, p, res):
        t = p.type()
        v, _ = self.val(p, t)
        return 'S.resume(%s[0])' % v, True

    def g_invoke(self, p, res):
        blk, idx = self.here
        lab = [unq(v) for k, v in p.t[-5:] if k == 'loc']
        if p.t[-1][0] != 'loc' or len(lab) != 2:
            raise Unsupported('invoke: %s' % (p.t[-8:],))
        to = self.seg('\0%s\0%s' % (blk, lab[0]))
        to.unw = self.ns[self.target(blk, lab[1])]
        nxt = 'T%d' % id(to)
        self.ns[nxt] = to
        line, stop = self.g_call(p, res, nxt)
        return (line if stop else '%s;F.seg=%s' % (line, nxt)), True

    def g_call(self, p, res, nxt=None):
        self.skipattrs(p)
        t = p.type()
        if p.peek()[1] == '(':       # function type
            d = 0
            while True:
                x = p.next()[1]
                d += (x == '(') - (x == ')')
                if d == 0:
                    break
        k, v = p.peek()
        if v == 'asm':
            while p.peek()[0] != 'str':
                p.next()
            tmpl = p.next()[1]
            p.expect(',')
            p.next()
            args = self.args(p)
            if tmpl.strip('"') == '':
                return 'pass', False
            return '%sasm(S,%r,[%s])' % (self.D(res) if res else '', tmpl, ', '.join(a for a, _ in args)), False
        d = self.D(res) if res is not None else ''
        rr = self.reg(res) if res is not None else -1
        blk, idx = self.here
        if nxt is None:
            nxt = self.segname(blk, idx + 1)
        if k == 'loc':
            p.next()
            args = self.args(p)
            return 'S.icall(F,R[%d],[%s],%d,%s)' % (self.reg(unq(v)), ','.join(a for a, _ in args), rr, nxt), True
        if k != 'gl':
            a = const_int(self.prog, p, PTR)
            args = self.args(p)
            return 'S.icall(F,%d,[%s],%d,%s)' % (a, ','.join(x for x, _ in args), rr, nxt), True
        p.next()
        name = unq(v)
        if name.startswith('llvm.'):
            return self.intrinsic(p, res, name, t)
        args = self.args(p)
        argl = ','.join(a for a, _ in args)
        f = self.mod.funcs.get(name) or self.prog.fns.get(name)
        h, ctl = lookup_handler(self.prog, name, f)
        if h is not None:
            hn = 'H%d' % id(h)
            self.ns[hn] = h
            if ctl:
                return 'S.ctl(F,%s,[%s],%d,%s)' % (hn, argl, rr, nxt), True
            return '%s%s(S%s)' % (d, hn, ',' + argl if argl else ''), False
        if f is None:
            return 'S.undefined(%r,[%s])' % (name, argl), False
        fn = 'F%d' % id(f)
        self.ns[fn] = f
        return 'S.call(F,%s,[%s],%d,%s)' % (fn, argl, rr, nxt), True

    def args(self, p):
        p.expect('(')
        out = []
        while not p.accept(')'):
            if out:
                p.expect(',')
            t = p.type()
            if t == ('meta',):
                while p.peek()[1] not in (',', ')'):
                    p.next()
                out.append(('None', t))
                continue
            self.skipattrs(p)
            e, _ = self.val(p, t)
            out.append((e, t))
        return out

    def intrinsic(self, p, res, name, t):
        args = self.args(p)
        a = [x for x, _ in args]
        ts = [y for _, y in args]
        d = self.D(res) if res is not None else ''
        parts = name.split('.')
        n = parts[1]
        w = ts[0][1] if ts and ts[0][0] in ('i', 'f') else 0
        if n in ('lifetime', 'dbg', 'experimental', 'assume', 'invariant', 'prefetch', 'donothing'):
            if n == 'experimental':
                return 'pass', False
            return 'pass', False
        if n in ('memcpy', 'memmove'):
            return 'MC(S,%s,%s,%s)' % (a[0], a[1], a[2]), False
        if n == 'memset':
            return 'MS(S,%s,%s,%s)' % (a[0], a[1], a[2]), False
        if n == 'expect':
            return d + a[0], False
        if n == 'is' and parts[2] == 'constant':
            return d + '0', False
        if n in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and parts[2] == 'with':
            return '%sB_ovf(%r,%s,%s,%d)' % (d, n, a[0], a[1], w), False
        if n in ('uadd', 'usub', 'sadd', 'ssub') and parts[2] == 'sat':
            return '%ssat(%r,%s,%s,%d)' % (d, n, a[0], a[1], w), False
        if n in ('umin', 'umax', 'smin', 'smax'):
            return '%sminmax(%r,%s,%s,%d)' % (d, n, a[0], a[1], w), False
        if n in ('ucmp', 'scmp'):
            return '%scmp3(%r,%s,%s,%d,%d)' % (d, n, a[0], a[1], w, t[1]), False
        if n in ('ctlz', 'cttz', 'ctpop', 'bswap', 'bitreverse', 'abs'):
            return '%sbits(S,%r,%s,%d)' % (d, n, a[0], w), False
        if n in ('fshl', 'fshr'):
            return '%sfunnel(%r,%s,%s,%s,%d)' % (d, n, a[0], a[1], a[2], w), False
        if n == 'threadlocal':
            return '%stls(S,%s)' % (d, a[0]), False
        if n in ('fabs', 'sqrt', 'floor', 'ceil', 'trunc', 'rint', 'round', 'roundeven', 'nearbyint', 'log2', 'log', 'log10', 'exp', 'exp2'):
            return '%sf1(S,%r,%s,%d)' % (d, n, a[0], w), False
        if n in ('maxnum', 'minnum', 'maximum', 'minimum', 'maximumnum', 'minimumnum', 'copysign', 'pow'):
            return '%sf2(S,%r,%s,%s,%d)' % (d, n, a[0], a[1], w), False
        if n == 'powi':
            return '%sfpowi(S,%s,%s,%d)' % (d, a[0], a[1], w), False
        if n in ('fmuladd', 'fma'):
            return '%sfadd(S,fmul(S,%s,%s,%d),%s,%d)' % (d, a[0], a[1], w, a[2], w), False
        if n in ('fptoui', 'fptosi') and parts[2] == 'sat':
            return '%s%s_sat(S,%s,%d,%d)' % (d, n, a[0], w, t[1]), False
        if n == 'vector' and parts[2] == 'reduce':
            return '%svreduce(%r,%s,%d)' % (d, parts[3], a[0], ts[0][2][1]), False
        if n in ('trap', 'ubsantrap'):
            return 'raise PathEnd("abort", "trap")', True
        if n == 'x86':
            if 'pause' in name:
                return 'spin_hint(S)', False
            if 'pmovmskb' in name:
                return '%spmovmskb(%s)' % (d, a[0]), False
        if n == 'load' or n == 'returnaddress' or n == 'frameaddress':
            return d + '0', False
        raise Unsupported('intrinsic ' + name)


def zero_of(t):
    if t[0] in ('i', 'ptr'):
        return 0
    if t[0] == 'f':
        return 0.0
    if t[0] in ('a', 'v'):
        return [zero_of(t[2])] * t[1]
    if t[0] == 's':
        return [zero_of(x) for x in t[1]]
    raise Unsupported(str(t))


BIN = {'add': '(A+B)&M', 'sub': '(A-B)&M', 'mul': '(A*B)&M', 'udiv': 'A//B', 'urem': 'A%B', 'and': 'A&B', 'or': 'A|B', 'xor': 'A^B',
       'shl': '(A<<B)&M', 'lshr': 'A>>B', 'ashr': '', 'sdiv': '', 'srem': '',
       'fadd': '', 'fsub': '', 'fmul': '', 'fdiv': '', 'frem': ''}
CASTS = {k: 1 for k in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc', 'ptrtoaddr')}


# ------------------------------------------------------------------ solver

class Solver:
    def __init__(self, timeout_ms=60000):
        self.s = z3.Solver()
        self.timeout_ms = timeout_ms
        self.first_ms = min(50, timeout_ms)
        self.s.set('timeout', self.first_ms)
        self.stack = []
        self.linear = 0
        self.queries = 0
        self.time = 0.0
        self.sat = 0
        self.unsat = 0

    def fork(self):
        """after fork(): same solver object, fresh counters"""
        self.queries = self.sat = self.unsat = 0
        self.time = 0.0
        return self

    def sync(self, pc):
        st = self.stack
        i = 0
        n = min(len(st), len(pc))
        while i < n and st[i] is pc[i]:
            i += 1
        if len(st) > i:
            self.s.pop(len(st) - i)
            del st[i:]
        for c in pc[i:]:
            self.s.push()
            self.s.add(c)
            st.append(c)

    def check(self, pc, extra=None):
        """-> model or None"""
        t = time.time()
        self.sync(pc)
        self.queries += 1
        if extra is not None:
            self.s.push()
            self.s.add(extra)
        r = self.s.check()
        if r == z3.unknown and self.timeout_ms > self.first_ms:
            # slow to bit-blast: as linear integer arithmetic, if it is linear
            k, pins = lin.solve(pc + [extra] if extra is not None else pc, self.timeout_ms)
            self.linear += 1
            self.s.set('timeout', self.timeout_ms)
            if k == 'unsat':
                r = z3.unsat
            else:
                if k == 'sat':
                    self.s.push()
                    for p in pins:
                        self.s.add(p)
                    r = self.s.check()
                    if r != z3.sat:
                        r = z3.unknown
                if k == 'unknown' or r == z3.unknown:
                    r = self.s.check()
        m = self.s.model() if r == z3.sat else None
        if r != z3.unsat and self.timeout_ms > self.first_ms:
            while self.s.num_scopes() > len(self.stack) + (extra is not None):
                self.s.pop()
            self.s.set('timeout', self.first_ms)
        elif r == z3.unsat:
            self.s.set('timeout', self.first_ms)
        if extra is not None:
            self.s.pop()
        self.time += time.time() - t
        if r == z3.unknown:
            raise Inconclusive('solver: ' + self.s.reason_unknown())
        if m is None:
            self.unsat += 1
        else:
            self.sat += 1
        return m


# ------------------------------------------------------------------ state

class Thread:
    __slots__ = ('frames', 'tls', 'status', 'wait', 'tid', 'dtors')

    def __init__(self, tid):
        self.tid = tid
        self.frames = []
        self.tls = {}
        self.status = 'run'      # run | done | wait
        self.wait = None
        self.dtors = ()

    def copy(self):
        t = Thread(self.tid)
        t.frames = [f.copy() for f in self.frames]
        t.tls = dict(self.tls)
        t.status = self.status
        t.wait = self.wait
        t.dtors = self.dtors
        return t


class State:
    def __init__(self, eng):
        self.eng = eng
        self.mem = {}
        self.pc = []
        self.model = None
        self.pend = None
        self.pi = 0
        self.inputs = []
        self.log = []
        self.nid = 1 << 20
        self.n = 0
        self.threads = [Thread(0)]
        self.cur = 0
        self.frames = self.threads[0].frames
        self.token = object()
        self.env = {}           # copied shallowly at forks: values must be immutable (tuples, ints, frozen)
        self.prog = eng.prog
        self.par = None

    def clone(self):
        s = State.__new__(State)
        s.eng = self.eng
        s.prog = self.prog
        s.mem = dict(self.mem)
        s.pc = self.pc[:]
        s.model = self.model
        s.pend = None
        s.pi = 0
        s.inputs = self.inputs[:]
        s.log = self.log[:]
        s.nid = self.nid
        s.n = 0
        s.threads = [t.copy() for t in self.threads]
        s.cur = self.cur
        s.frames = s.threads[s.cur].frames
        s.env = dict(self.env)
        s.par = self.par
        # both copies must copy objects before writing to them
        s.token = object()
        self.token = object()
        return s

    # -- memory
    def new_obj(self, size, kind='', fill=0):
        i = self.nid
        self.nid += 1
        d = bytearray(size) if not fill else bytearray(bytes([fill]) * size)
        self.mem[i] = Obj(d, self.token, kind)
        return i << OB

    def robj(self, a):
        o = self.mem.get(a >> OB)
        if o is None:
            o = self.prog.base.get(a >> OB)
            if o is None:
                raise MemError('access to %s address %#x' % ('freed or unknown' if a >> OB else 'null-page', a))
        return o

    def wobj(self, a):
        i = a >> OB
        o = self.mem.get(i)
        if o is None:
            b = self.prog.base.get(i)
            if b is None:
                raise MemError('write to %s address %#x' % ('freed or unknown' if i else 'null-page', a))
            o = self.mem[i] = Obj(bytearray(b.data), self.token, b.kind, dict(b.sym) if b.sym else None)
        elif o.owner is not self.token:
            o = self.mem[i] = Obj(bytearray(o.data), self.token, o.kind, dict(o.sym) if o.sym else None, o.symsize)
        return o

    def sole(self, e):
        """the value of e where the path determines it"""
        if z3.is_expr(e):
            m = self.eng.solver.check(self.pc)
            if m is not None:
                v = m.eval(e, model_completion=True)
                if self.eng.solver.check(self.pc, e != v) is None:
                    return v.as_long()
        return e

    def conc(self, e):
        """a concrete value for e: forks over all feasible ones"""
        if e.__class__ is int:
            return e
        if self.pend is not None and self.pi < len(self.pend):
            v = self.pend[self.pi]
            self.pi += 1
            return v
        if B.isf(e):
            raise Unsupported('concretising a float')
        if isinstance(e, z3.BoolRef):
            raise Fork([(e, 1), (z3.Not(e), 0)], (self.pend or [])[:self.pi])
        vals = self.eng.values_of(self, e, self.eng.max_conc)
        raise Fork([(e == v, v) for v in vals], (self.pend or [])[:self.pi])

    def choose(self, alts):
        if self.pend is not None and self.pi < len(self.pend):
            v = self.pend[self.pi]
            self.pi += 1
            return v
        raise Fork(alts, (self.pend or [])[:self.pi])

    def decide(self, c):
        """0/1 for a boolean term, forking if both are possible"""
        if c.__class__ is int:
            return c
        return self.choose([(c, 1), (z3.Not(c), 0)])

    # -- control
    def call(self, F, f, args, retreg, nxt):
        F.seg = nxt
        fc = self.prog.fc.get(id(f)) or self.prog.code(f)
        G = Frame()
        G.fn = fc
        n = fc.nparams
        R = args
        if len(R) != n:
            R = (R + [0] * n)[:n]
        R = R + [None] * (len(fc.regs) - n)
        if fc.ssize:
            i = self.nid
            self.nid += 1
            self.mem[i] = Obj(bytearray(fc.ssize), self.token)
            R[fc.sp] = i << OB
            G.sid = i
        else:
            G.sid = 0
        G.R = R
        G.retreg = retreg
        G.mark = None
        G.seg = fc.entryseg
        self.frames.append(G)
        fc.f.ninst += 1
        if len(self.frames) > 2000:
            raise Inconclusive('call depth')

    def icall(self, F, a, args, retreg, nxt):
        if a.__class__ is not int:
            a = self.conc(a)
        f = self.prog.fbyaddr.get(a)
        if f is None:
            raise MemError('call through %#x' % a)
        name = f if isinstance(f, str) else f.name
        h, ctl = lookup_handler(self.prog, name, None if isinstance(f, str) else f)
        if h is not None:
            if ctl:
                return self.ctl(F, h, args, retreg, nxt)
            v = h(self, *args)
            if retreg >= 0:
                F.R[retreg] = v
            F.seg = nxt
            return
        if isinstance(f, str):
            self.undefined(f, args)
        self.call(F, f, args, retreg, nxt)

    def ctl(self, F, h, args, retreg, nxt):
        """handlers that manipulate control: they set F.seg / registers themselves through 'done'"""
        h(self, F, retreg, nxt, *args)

    def undefined(self, name, args):
        raise Unsupported('call to undefined function %s' % name)

    def ret(self, v):
        fr = self.frames
        G = fr.pop()
        if G.sid:
            del self.mem[G.sid]
        if G.mark is not None:
            self.eng.on_mark(self, G, v)
            return
        F = fr[-1]
        if G.retreg >= 0:
            F.R[G.retreg] = v

    def branch(self, c, a, b):
        eng = self.eng
        m = self.model
        if m is None:
            m = self.model = eng.solver.check(self.pc)
            if m is None:
                raise PathEnd('infeasible')
        side = z3.is_true(m.eval(c, model_completion=True))
        nc = z3.simplify(z3.Not(c))
        here, other = (c, nc) if side else (nc, c)
        om = eng.solver.check(self.pc, other)
        if om is None:
            # implied: no need to add
            return a if side else b
        s2 = self.clone()
        s2.pc.append(other)
        s2.model = om
        s2.frames[-1].seg = b if side else a
        eng.push(s2)
        self.pc.append(here)
        return a if side else b

    def switch(self, v, w, cases, default):
        eng = self.eng
        alts = []
        for k, t in cases.items():
            alts.append((v == k, t))
        alts.append((z3.And(*[v != k for k in cases]) if cases else z3.BoolVal(True), default))
        feas = []
        for c, t in alts:
            m = eng.solver.check(self.pc, c)
            if m is not None:
                feas.append((c, t, m))
        if not feas:
            raise PathEnd('infeasible')
        for c, t, m in feas[1:]:
            s2 = self.clone()
            s2.pc.append(c)
            s2.model = m
            s2.frames[-1].seg = t
            eng.push(s2)
        c, t, m = feas[0]
        if len(feas) > 1:
            self.pc.append(c)
            self.model = m
        return t

    def assume(self, c):
        if c.__class__ is int:
            if not c:
                raise PathEnd('assume')
            return
        if self.model is not None and z3.is_true(self.model.eval(c, model_completion=True)):
            self.pc.append(c)
            return
        m = self.eng.solver.check(self.pc, c)
        if m is None:
            raise PathEnd('assume')
        self.pc.append(c)
        self.model = m

    def getmodel(self):
        if self.model is None:
            self.model = self.eng.solver.check(self.pc)
            if self.model is None:
                raise PathEnd('infeasible')
        return self.model

    def fresh(self, name, w):
        return z3.BitVec('%s!%d' % (name, len(self.inputs)), w)

    def cstr(self, a):
        o = self.robj(a)
        off = a & OM
        e = o.data.index(0, off)
        return o.data[off:e].decode('utf-8', 'replace')

    def bytes_at(self, a, n):
        if n == 0:
            return b''
        o = self.robj(a)
        off = a & OM
        return bytes(o.data[off:off + n])



# ------------------------------------------------------------------ memory access

def LD(S, a, n):
    if a.__class__ is not int:
        if S.par is not None:
            v = S.par.sym_load(S, a, n)
            if v is not None:
                return v
        a = S.conc(a)
    o = S.mem.get(a >> 36)
    if o is None:
        o = S.prog.base.get(a >> 36)
        if o is None:
            raise MemError('read of %s address %#x' % ('freed or unknown' if a >> OB else 'null-page', a))
    off = a & OM
    e = off + n
    d = o.data
    if e > len(d):
        if o.kind is SHIM:
            return S.par.load(S, a, n)
        raise MemError('read of %d bytes at offset %d of a %d-byte object (%s)' % (n, off, len(d), o.kind))
    if o.sym:
        return load_slow(o, off, n)
    return int.from_bytes(d[off:e], 'little')


def load_slow(o, off, n):
    sym = o.sym
    x = sym.get(off)
    if x is not None and x[0] == n:
        return x[1]
    hit = None
    for k in range(off - 15, off + n):
        x = sym.get(k)
        if x is not None and k + x[0] > off:
            if hit is None:
                hit = []
            hit.append((k, x))
    if hit is None:
        return int.from_bytes(o.data[off:off + n], 'little')
    bs = list(o.data[off:off + n])
    for k, (m, v) in hit:
        for i in range(m):
            if off <= k + i < off + n:
                bs[k + i - off] = B.extract_byte(v, m, i)
    return B.concat_bytes(bs)


def unsym(o, off, n):
    """make the bytes [off,off+n) free of symbolic entries"""
    sym = o.sym
    for k in range(off - 15, off + n):
        x = sym.get(k)
        if x is not None and k + x[0] > off:
            del sym[k]
            m, v = x
            if k < off or k + m > off + n:
                for i in range(m):
                    if not off <= k + i < off + n:
                        b = B.extract_byte(v, m, i)
                        if b.__class__ is int:
                            o.data[k + i] = b
                        else:
                            sym[k + i] = (1, b)
    if not sym:
        o.sym = None


def SD(S, a, v, n):
    if a.__class__ is not int:
        if S.par is not None and S.par.sym_store(S, a, v, n):
            return
        a = S.conc(a)
    i = a >> 36
    o = S.mem.get(i)
    if o is None or o.owner is not S.token:
        if S.par is not None and S.par.shared(i):
            return S.par.store(S, a, v, n)
        o = S.wobj(a)
    off = a & OM
    if off + n > len(o.data):
        raise MemError('write of %d bytes at offset %d of a %d-byte object (%s)' % (n, off, len(o.data), o.kind))
    if o.sym:
        unsym(o, off, n)
    if v.__class__ is int:
        o.data[off:off + n] = v.to_bytes(n, 'little')
        return
    if o.sym is None:
        o.sym = {}
    if v.__class__ is float:
        o.data[off:off + n] = struct.pack('<d' if n == 8 else '<f', v)
        if not o.sym:
            o.sym = None
        return
    if isinstance(v, z3.BoolRef):
        v = B.zext(v, 1, 8 * n)
    o.sym[off] = (n, v)


def LT(S, a, t):
    k = t[0]
    if a.__class__ is not int:
        a = S.conc(a)
    if k in ('i', 'ptr'):
        n = store_size(t)
        v = LD(S, a, n)
        if k == 'i' and t[1] != 8 * n:
            v = B.trunc(v, 8 * n, t[1])
        return v
    if k == 'f':
        n = t[1] // 8
        v = LD(S, a, n)
        if v.__class__ is int:
            return struct.unpack('<d' if n == 8 else '<f' if n == 4 else '<e', v.to_bytes(n, 'little'))[0]
        if B.isf(v):
            return v
        raise Unsupported('float from symbolic bits')
    if k in ('a', 'v'):
        if k == 'v' and t[2] == ('i', 1):
            raise Unsupported('load of <n x i1>')
        s = size_align(t[2])[0]
        return [LT(S, a + i * s, t[2]) for i in range(t[1])]
    if k == 's':
        return [LT(S, a + field_offset(t, i), f) for i, f in enumerate(t[1])]
    raise Unsupported('load of %s' % (t,))


def STT(S, a, v, t):
    k = t[0]
    if a.__class__ is not int:
        a = S.conc(a)
    if k in ('i', 'ptr'):
        n = store_size(t)
        if k == 'i' and t[1] != 8 * n:
            v = B.zext(v, t[1], 8 * n)
        SD(S, a, v, n)
    elif k == 'f':
        SD(S, a, v, t[1] // 8)
    elif k in ('a', 'v'):
        s = size_align(t[2])[0]
        for i in range(t[1]):
            STT(S, a + i * s, v[i], t[2])
    elif k == 's':
        for i, f in enumerate(t[1]):
            STT(S, a + field_offset(t, i), v[i], f)
    else:
        raise Unsupported('store of %s' % (t,))


def MC(S, d, s, n):
    if n.__class__ is not int:
        # a copy of symbolic length only happens between blocks of symbolic size, whose contents are not modelled
        if d.__class__ is int and s.__class__ is int:
            od, os_ = S.mem.get(d >> OB), S.mem.get(s >> OB)
            if od is not None and os_ is not None and (od.symsize is not None or os_.symsize is not None):
                return
        n = S.conc(n)
    if n == 0:
        return
    if d.__class__ is not int:
        d = S.conc(d)
    if s.__class__ is not int:
        s = S.conc(s)
    if S.par is not None and (S.par.shared(d >> OB) or s >> OB in S.par.cells):
        return S.par.copy(S, d, s, n)
    o = S.robj(s)
    so = s & OM
    if so + n > len(o.data):
        raise MemError('memcpy reads %d bytes at offset %d of a %d-byte object (%s)' % (n, so, len(o.data), o.kind))
    buf = bytes(o.data[so:so + n])
    sy = None
    if o.sym:
        sy = []
        for k, (m, v) in list(o.sym.items()):
            if k + m > so and k < so + n:
                if k >= so and k + m <= so + n:
                    sy.append((k - so, m, v))
                else:
                    for i in range(m):
                        if so <= k + i < so + n:
                            b = B.extract_byte(v, m, i)
                            sy.append((k + i - so, 1, b))
    o = S.wobj(d)
    do = d & OM
    if do + n > len(o.data):
        raise MemError('memcpy writes %d bytes at offset %d of a %d-byte object (%s)' % (n, do, len(o.data), o.kind))
    if o.sym:
        if n > 64:
            for k, (m, v) in list(o.sym.items()):
                if k >= do and k + m <= do + n:
                    del o.sym[k]
            unsym(o, do, 16)
            if o.sym:
                unsym(o, do + n - 16, 16)
        else:
            unsym(o, do, n)
    o.data[do:do + n] = buf
    if sy:
        if o.sym is None:
            o.sym = {}
        for k, m, v in sy:
            if v.__class__ is int:
                o.data[do + k:do + k + m] = v.to_bytes(m, 'little')
            else:
                o.sym[do + k] = (m, v)
        if not o.sym:
            o.sym = None


def MS(S, d, v, n):
    if n.__class__ is not int:
        if d.__class__ is int and S.mem.get(d >> OB) is not None and S.mem[d >> OB].symsize is not None:
            return
        n = S.conc(n)
    if n == 0:
        return
    if d.__class__ is not int:
        d = S.conc(d)
    if v.__class__ is not int:
        raise Unsupported('memset with a symbolic byte')
    if S.par is not None and S.par.shared(d >> OB):
        while n:
            m = 8 if n >= 8 else 1
            SD(S, d, int.from_bytes(bytes([v]) * m, 'little'), m)
            d += m
            n -= m
        return
    o = S.wobj(d)
    off = d & OM
    if off + n > len(o.data):
        raise MemError('memset of %d bytes at offset %d of a %d-byte object (%s)' % (n, off, len(o.data), o.kind))
    if o.sym:
        for k, (m, x) in list(o.sym.items()):
            if k >= off and k + m <= off + n:
                del o.sym[k]
        unsym(o, off, min(n, 16))
        if o.sym:
            unsym(o, max(off, off + n - 16), min(n, 16))
        if not o.sym:
            o.sym = None
    o.data[off:off + n] = bytes([v]) * n


# ------------------------------------------------------------------ atomics (sequential semantics unless hooked)

def atomic_load(S, a, n, order):
    h = S.eng.atomic_hook
    if h is not None:
        return h(S, 'load', a, n, order)
    return LD(S, a, n)


def atomic_store(S, a, v, n, order):
    h = S.eng.atomic_hook
    if h is not None:
        return h(S, 'store', a, n, order, v)
    if v.__class__ is not int and isinstance(v, z3.BoolRef):
        v = B.zext(v, 1, 8 * n)
    SD(S, a, v, n)


def cmpxchg(S, a, x, y, n, o1, o2, weak):
    h = S.eng.atomic_hook
    if h is not None:
        return h(S, 'cmpxchg', a, n, o1, x, y, o2, weak)
    old = LD(S, a, n)
    eq = B.icmp('eq', old, x, 8 * n)
    if S.decide(eq):
        SD(S, a, y, n)
        return [old, 1]
    return [old, 0]


def rmw_val(op, old, v, w):
    if op == 'xchg':
        return v
    if op in ('add', 'sub', 'and', 'or', 'xor'):
        if old.__class__ is int and v.__class__ is int:
            m = B.mask(w)
            return (old + v) & m if op == 'add' else (old - v) & m if op == 'sub' else old & v if op == 'and' else old | v if op == 'or' else old ^ v
        return {'add': B.add, 'sub': B.sub, 'and': B.and_, 'or': B.or_, 'xor': B.xor}[op](old, v, w)
    if op in ('umax', 'umin', 'max', 'min'):
        return minmax({'umax': 'umax', 'umin': 'umin', 'max': 'smax', 'min': 'smin'}[op], old, v, w)
    if op == 'nand':
        return B.xor(B.and_(old, v, w), B.mask(w), w)
    raise Unsupported('atomicrmw ' + op)


def atomicrmw(S, op, a, v, n, order):
    h = S.eng.atomic_hook
    if h is not None:
        return h(S, 'rmw', a, n, order, op, v)
    old = LD(S, a, n)
    if op in ('umax', 'umin', 'max', 'min'):
        # as a loop of compare-exchanges would: a chain of choices between terms is hard on the solver
        if S.decide(B.icmp({'umin': 'ult', 'umax': 'ugt', 'min': 'slt', 'max': 'sgt'}[op], v, old, 8 * n)):
            SD(S, a, v, n)
        return old
    SD(S, a, rmw_val(op, old, v, 8 * n), n)
    return old


def fence(S, order):
    h = S.eng.atomic_hook
    if h is not None:
        h(S, 'fence', 0, 0, order)


def spin_hint(S):
    """a turn of a waiting loop.  Among threads explored one at a time (par.py) a turn that did nothing but read is the same as the thread being scheduled later: it counts
    against the bound on failed compare-exchanges"""
    ev = S.env.get('ev')
    if not ev or S.eng.atomic_hook is None:
        return
    e = ev[-1]
    if e.kind == 'R' and e.x is None:
        S.env['fails'] = n = S.env.get('fails', 0) + 1
        if n > S.par.F:
            raise PathEnd('assume')


# ------------------------------------------------------------------ misc value helpers

def gep(a, dyn, coff):
    r = B.add(a, coff & M64, 64)
    for e, w, sz in dyn:
        if e.__class__ is int:
            e = B.sext(e, w, 64) if w < 64 else e
            r = B.add(r, (e * sz) & M64, 64)
        else:
            if w < 64:
                e = B.sext(e, w, 64)
            r = B.add(r, B.mul(e, sz, 64), 64)
    return r


def sdiv_(S, a, b, w):
    if a.__class__ is not int:
        a = S.sole(a)
    if a.__class__ is int and b.__class__ is int:
        x, y = B.sgn(a, w), B.sgn(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & B.mask(w)
    return B.sdiv(a, b, w)


def srem_(S, a, b, w):
    if a.__class__ is not int:
        a = S.sole(a)
    if a.__class__ is int and b.__class__ is int:
        x, y = B.sgn(a, w), B.sgn(b, w)
        r = abs(x) % abs(y)
        return (r if x >= 0 else -r) & B.mask(w)
    return B.srem(a, b, w)


def ashr_(S, a, b, w):
    if a.__class__ is int and b.__class__ is int:
        return (B.sgn(a, w) >> b) & B.mask(w)
    return B.ashr(a, b, w)


def vbin(op, a, b, w):
    m = B.mask(w)
    f = {'add': lambda x, y: (x + y) & m, 'sub': lambda x, y: (x - y) & m, 'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y,
         'mul': lambda x, y: (x * y) & m, 'shl': lambda x, y: (x << y) & m, 'lshr': lambda x, y: x >> y}[op]
    g = {'add': B.add, 'sub': B.sub, 'and': B.and_, 'or': B.or_, 'xor': B.xor, 'mul': B.mul, 'shl': B.shl, 'lshr': B.lshr}[op]
    return [f(x, y) if x.__class__ is int and y.__class__ is int else g(x, y, w) for x, y in zip(a, b)]


def insval(a, b, ix):
    a = list(a)
    if len(ix) == 1:
        a[ix[0]] = b
    else:
        a[ix[0]] = insval(a[ix[0]], b, ix[1:])
    return a


def sel(S, c, a, b, w):
    if w and not B.isf(a) and not B.isf(b):
        if a.__class__ is int and b.__class__ is int and a == b:
            return a
        return B.ite(c, a, b, w)
    if S.decide(c):
        return a
    return b


def sat(op, a, b, w):
    r, o = B.ovf(op, a, b, w)
    if op == 'uadd':
        lim = B.mask(w)
    elif op == 'usub':
        lim = 0
    else:
        raise Unsupported('sat ' + op)
    if o.__class__ is int:
        return lim if o else r
    return B.ite(o, lim, r, w)


def minmax(op, a, b, w):
    p = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[op]
    c = B.icmp(p, a, b, w)
    if c.__class__ is int:
        return a if c else b
    return B.ite(c, a, b, w)


def cmp3(op, a, b, w, rw):
    s = op[0]
    lt = B.icmp(s + 'lt', a, b, w)
    gt = B.icmp(s + 'gt', a, b, w)
    if lt.__class__ is int and gt.__class__ is int:
        return (gt - lt) & B.mask(rw)
    return B.norm(z3.If(B.bo(lt), z3.BitVecVal(B.mask(rw), rw), z3.If(B.bo(gt), z3.BitVecVal(1, rw), z3.BitVecVal(0, rw))))


def bits(S, op, a, w):
    if a.__class__ is not int:
        if op == 'bswap':
            n = w // 8
            return B.concat_bytes([B.extract_byte(a, n, i) for i in reversed(range(n))])
        if op == 'abs':
            return B.norm(z3.If(a < 0, -a, a))
        r = z3.BitVecVal(w if op != 'ctpop' else 0, w)
        if op == 'ctlz':
            for i in range(w):
                r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(w - 1 - i, w), r)
            return B.norm(r)
        if op == 'cttz':
            for i in reversed(range(w)):
                r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(i, w), r)
            return B.norm(r)
        if op == 'ctpop':
            for i in range(w):
                r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, a))
            return B.norm(r)
        raise Unsupported('symbolic ' + op)
    if op == 'ctlz':
        return w - a.bit_length()
    if op == 'cttz':
        return w if a == 0 else (a & -a).bit_length() - 1
    if op == 'ctpop':
        return bin(a).count('1')
    if op == 'bswap':
        return int.from_bytes(a.to_bytes(w // 8, 'little'), 'big')
    if op == 'bitreverse':
        return int(bin(a)[2:].zfill(w)[::-1], 2)
    if op == 'abs':
        x = B.sgn(a, w)
        return abs(x) & B.mask(w)


def funnel(op, a, b, c, w):
    if c.__class__ is not int:
        raise Unsupported('funnel shift by a symbolic amount')
    c %= w
    if a.__class__ is int and b.__class__ is int:
        x = (a << w) | b
        return (x >> (w - c)) & B.mask(w) if op == 'fshl' else (x >> c) & B.mask(w)
    x = z3.Concat(B.bv(a, w), B.bv(b, w))
    return B.norm(z3.Extract(2 * w - 1 - c, w - c, x) if op == 'fshl' else z3.Extract(w - 1 + c, c, x))


def vreduce(op, v, w):
    r = v[0]
    for x in v[1:]:
        if r.__class__ is int and x.__class__ is int:
            r = {'and': r & x, 'or': r | x, 'add': (r + x) & B.mask(w), 'umax': max(r, x), 'umin': min(r, x)}[op]
        else:
            r = {'and': B.and_, 'or': B.or_, 'add': B.add}[op](r, x, w)
    return r


def pmovmskb(v):
    return sum(((x >> 7) & 1) << i for i, x in enumerate(v))


def bitcast(a, t, t2):
    if t == t2 or (t[0] == 'ptr' and t2[0] == 'ptr'):
        return a
    if t[0] == 'v' and t2[0] == 'i':
        w = t[2][1]
        if all(x.__class__ is int for x in a):
            return sum(x << (w * i) for i, x in enumerate(a))
        return B.norm(z3.Concat(*[B.bv(x, w) if w > 1 else z3.If(B.bo(x), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for x in reversed(a)]))
    if t[0] == 'i' and t2[0] == 'v':
        w = t2[2][1]
        if a.__class__ is int:
            return [(a >> (w * i)) & B.mask(w) for i in range(t2[1])]
        raise Unsupported('bitcast of a symbolic integer to a vector')
    if t[0] == 'f' and t2[0] == 'i':
        if a.__class__ is float:
            return int.from_bytes(struct.pack('<d' if t[1] == 64 else '<f', a), 'little')
        return a            # opaque: only good for storing and casting back
    if t[0] == 'i' and t2[0] == 'f':
        if a.__class__ is int:
            return struct.unpack('<d' if t2[1] == 64 else '<f', a.to_bytes(t2[1] // 8, 'little'))[0]
        if B.isf(a):
            return a
        raise Unsupported('float from symbolic bits')
    if t[0] == 'v' and t2[0] == 'v':
        return bitcast(bitcast(a, t, ('i', t[1] * t[2][1])), ('i', t[1] * t[2][1]), t2)
    raise Unsupported('bitcast %s %s' % (t, t2))


def tls(S, a):
    """address of a thread-local for the current thread"""
    T = S.threads[S.cur]
    x = T.tls.get(a)
    if x is None:
        o = S.prog.base[a >> OB]
        x = S.new_obj(len(o.data), o.kind)
        S.mem[x >> OB].data[:] = o.data
        T.tls[a] = x
    return x


def asm(S, tmpl, args):
    if 'cpuid' in tmpl:
        return [0, 0, 0, 0]
    raise Unsupported('asm ' + tmpl)


def atomically(f):
    """an operation that forks is executed again from its beginning: undo what it did to the bookkeeping before that"""
    def g(S, *a):
        env, npc, nin, nlog, nid = S.env, len(S.pc), len(S.inputs), len(S.log), S.nid
        keep = dict(env)
        try:
            return f(S, *a)
        except Fork:
            S.env = keep
            if len(S.pc) != npc:
                del S.pc[npc:]
            del S.inputs[nin:]
            del S.log[nlog:]
            S.nid = nid
            raise
    g.__name__ = getattr(f, '__name__', 'op')
    return g


HANDLERS = {}      # raw symbol or demangled name -> (function, is_control)


def handler(*names, ctl=False):
    def deco(f):
        for n in names:
            HANDLERS[n] = (atomically(f), ctl)
        return f
    return deco


def lookup_handler(prog, name, f):
    h = HANDLERS.get(name)
    if h is not None:
        return h
    if f is not None:
        h = HANDLERS.get(f.dem)
        if h is not None:
            return h
        k = (id(prog), name)
        hh = HCACHE.get(k)
        if hh is None:
            hh = (None, False)
            for rx, x in HANDLER_RX:
                if rx.search(f.dem):
                    hh = x(prog, f) if callable(x) else x
                    if hh[0] is not None:
                        hh = (atomically(hh[0]), hh[1])
                    break
            HCACHE[k] = hh
        return hh
    if 'no_alloc_shim_is_unstable' in name:
        return (lambda S, *a: 0, False)
    return (None, False)


HANDLER_RX = []
HCACHE = {}
GEN_NS = {}


def export_ns():
    from . import fl
    g = globals()
    for k in ('Fork', 'PathEnd', 'LD', 'SD', 'LT', 'STT', 'MC', 'MS', 'atomic_load', 'atomic_store', 'cmpxchg', 'atomicrmw', 'fence', 'gep', 'sdiv_', 'srem_', 'ashr_', 'vbin', 'insval',
              'sel', 'sat', 'minmax', 'cmp3', 'bits', 'funnel', 'vreduce', 'pmovmskb', 'bitcast', 'tls', 'asm', 'spin_hint'):
        GEN_NS[k] = g[k]
    for k in ('add', 'sub', 'mul', 'udiv', 'urem', 'and_', 'or_', 'xor', 'shl', 'lshr', 'icmp', 'zext', 'sext', 'trunc', 'ovf'):
        GEN_NS['B_' + k] = getattr(B, k)
    GEN_NS['I'] = int
    for k in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg', 'fcmp', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fptoui_sat', 'fptosi_sat', 'fptrunc', 'f1', 'f2', 'fpowi'):
        GEN_NS[k] = atomically(getattr(fl, k))


# ------------------------------------------------------------------ the engine

class Result:
    """what one exploration produced"""

    def __init__(self):
        self.paths = {}
        self.instrs = 0
        self.violations = []
        self.errors = []
        self.samples = []
        self.reached = 0
        self.checks = 0


class Engine:
    def __init__(self, prog, timeout_ms=60000, max_conc=64, deadline=None):
        if not GEN_NS:
            export_ns()
        self.prog = prog
        self.solver = Solver(timeout_ms)
        self.max_conc = max_conc
        self.work = []
        self.atomic_hook = None
        self.res = Result()
        self.deadline = deadline
        self.max_path_instrs = 50_000_000
        self.max_violations = 3
        self.on_end = None
        self.keep_paths = 4
        self.preset = None
        self.params = []
        self.reach = set()
        self.panics = {}
        self.parcells = {}
        self.parcache = {}
        self.parcfg = {}
        self.parinfo = []

    def push(self, s):
        self.work.append(s)

    def values_of(self, S, e, limit):
        vals = []
        extra = []
        while True:
            m = self.solver.check(S.pc, z3.And(*extra) if len(extra) > 1 else (extra[0] if extra else None))
            if m is None:
                break
            v = m.eval(e, model_completion=True).as_long()
            vals.append(v)
            if len(vals) > limit:
                raise Inconclusive('more than %d values for %s' % (limit, str(e)[:200]))
            extra.append(e != v)
        return vals

    def on_mark(self, S, G, v):
        G.mark(S, G, v)

    def start(self, name, args):
        S = State(self)
        f = self.prog.fns[name]
        S.frames.append(self.bottom())
        S.call(S.frames[0], f, list(args), -1, None)
        S.frames[-1].mark = lambda S, G, v: S.eng.finish(S, v)
        return S

    def bottom(self):
        F = Frame()
        F.fn = None
        F.R = []
        F.seg = None
        F.retreg = -1
        F.sid = 0
        F.mark = None
        return F

    def finish(self, S, v):
        raise PathEnd('ok', v)

    def step(self, S):
        """runs one state to its end"""
        r = self.res
        try:
            self.run(S)
        except PathEnd as e:
            self.end(S, e)
        except MemError as e:
            self.end(S, PathEnd('memory', str(e)))
        except (Unsupported, Inconclusive) as e:
            r.errors.append('%s: %s  at %s' % (e.__class__.__name__, e, self.where(S)))
        r.instrs += S.n

    def where(self, S):
        out = []
        for F in S.frames[1:][-6:]:
            out.append(F.fn.dem)
        return ' > '.join(out)

    def end(self, S, e):
        r = self.res
        r.paths[e.kind] = r.paths.get(e.kind, 0) + 1
        if self.on_end:
            self.on_end(S, e)

    def run(self, S):
        while True:
            try:
                while True:
                    F = S.frames[-1]
                    g = F.seg
                    (g.code or g.fc.compile(g))(S, F, F.R)
                    S.n += g.n
            except Fork as e:
                self.fork(S, e)
            if S.n > self.max_path_instrs:
                raise Inconclusive('path too long')

    def fork(self, S, e):
        F = S.frames[-1]
        g = F.seg
        # which instruction?
        tb = e.__traceback__
        k = None
        while tb is not None:
            if tb.tb_frame.f_code.co_filename == '<seg>':
                k = tb.tb_lineno - 2
                break
            tb = tb.tb_next
        if k is None:
            raise Unsupported('fork outside of an instruction')
        if not g.single:
            g = g.fc.seg(g.blk, g.start + k, True)
        alts = []
        m0 = S.model
        found0 = False
        for c, v in e.alts:
            if c is None or c is True:
                alts.append((None, v, S.model))
                continue
            if m0 is not None and not found0 and z3.is_true(m0.eval(c, model_completion=True)):
                alts.append((c, v, m0))
                found0 = True
                continue
            m = self.solver.check(S.pc, c)
            if m is not None:
                alts.append((c, v, m))
        if not alts:
            raise PathEnd('infeasible')
        for c, v, m in alts[1:]:
            s2 = S.clone()
            if c is not None:
                s2.pc.append(c)
            s2.model = m
            s2.pend = e.done + [v]
            s2.frames[-1].seg = g
            self.push(s2)
        c, v, m = alts[0]
        if c is not None and len(alts) > 1:
            S.pc.append(c)
        S.model = m
        S.pend = e.done + [v]
        F.seg = g

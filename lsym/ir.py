"""LLVM-IR text reader: lazy, only what rustc emits (no invoke: panic=abort; few phis)."""
import re, struct

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cstr>c"(?:[^"\\]|\\.)*")
 | (?P<gl>@(?:"(?:[^"\\]|\\.)*"|[-A-Za-z$._0-9]+))
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-A-Za-z$._0-9]+))
 | (?P<meta>![-A-Za-z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<num>-?[0-9]+\.[0-9]+(?:[eE][-+]?[0-9]+)?|f0x[0-9A-Fa-f]+|0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+)
 | (?P<id>[A-Za-z_][-A-Za-z$._0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[][(){}<>,=*|:])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i] == ';':
                break
            raise ValueError("token? %r in %r" % (s[i:i+20], s[:200]))
        i = m.end()
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
    return out


# ---- types: ('i',w) ('ptr',) ('f',w) ('a',n,t) ('s',[t],packed) ('v',n,t) ('void',) ('meta',)
PTR = ('ptr',)
VOID = ('void',)


class Mod:
    def __init__(self, name):
        self.name = name
        self.types = {}
        self.funcs = {}     # name -> Fn (defined)
        self.globals = {}   # name -> raw text
        self.aliases = {}


class Fn:
    __slots__ = ('name', 'mod', 'lines', 'params', 'ret', 'blocks', 'nregs', 'code', 'header', 'pidx', 'linkage', 'dem', 'ninst', 'cstart')

    def __init__(self, name, mod, header, linkage):
        self.name = name
        self.mod = mod
        self.header = header
        self.linkage = linkage
        self.lines = None
        self.code = None
        self.ninst = 0


GNAME = re.compile(r'@("(?:[^"\\]|\\.)*"|[-A-Za-z$._0-9]+)')


def unq(n):
    n = n[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return n


def read_module(path, name):
    m = Mod(name)
    with open(path) as f:
        txt = f.read()
    lines = txt.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        l = lines[i]
        if l.startswith('define'):
            g = GNAME.search(l)
            nm = unq(g.group())
            fn = Fn(nm, m, l, 'internal' if ' internal ' in l[:40] or ' private ' in l[:40] else 'external')
            j = i + 1
            while lines[j] != '}':
                j += 1
            fn.lines = (lines, i + 1, j)
            m.funcs[nm] = fn
            i = j
        elif l.startswith('@'):
            g = GNAME.match(l)
            nm = unq(g.group())
            m.globals[nm] = l[g.end():]
        elif l.startswith('%'):
            k, rest = l.split(' = type ', 1)
            m.types[unq(k)] = rest
        i += 1
    return m


class P:
    """token cursor with type/constant parsing"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ('eof', '')

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise ValueError("expected %s got %s at %s" % (v, x, self.t[max(0, self.i-6):self.i+4]))

    def type(self):
        k, v = self.next()
        if k == 'id':
            if v == 'ptr':
                # optional addrspace
                if self.accept('addrspace'):
                    self.expect('('); self.next(); self.expect(')')
                t = PTR
            elif v[0] == 'i' and v[1:].isdigit():
                t = ('i', int(v[1:]))
            elif v == 'double':
                t = ('f', 64)
            elif v == 'float':
                t = ('f', 32)
            elif v == 'half':
                t = ('f', 16)
            elif v == 'fp128':
                t = ('f', 128)
            elif v == 'void':
                t = VOID
            elif v == 'metadata':
                t = ('meta',)
            elif v == 'label':
                t = ('label',)
            else:
                raise ValueError('type? ' + v)
        elif v == '{':
            t = ('s', self._fields('}'), False)
        elif v == '<':
            if self.accept('{'):
                fs = self._fields('}')
                self.expect('>')
                t = ('s', fs, True)
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('v', n, e)
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('a', n, e)
        elif k == 'loc':
            nm = unq(v)
            d = self.mod.types[nm]
            if isinstance(d, str):
                d = P(tokenize(d), self.mod).type()
                self.mod.types[nm] = d
            t = d
        else:
            raise ValueError('type? %s' % v)
        return t

    def _fields(self, end):
        fs = []
        if self.accept(end):
            return fs
        while True:
            fs.append(self.type())
            if self.accept(end):
                return fs
            self.expect(',')


_sz = {}


def size_align(t):
    k = t[0]
    if k == 'i':
        w = t[1]
        b = (w + 7) // 8
        a = 1
        while a < b:
            a *= 2
        if a > 16:
            a = 16
        return (b + a - 1) // a * a, a
    if k == 'ptr':
        return 8, 8
    if k == 'f':
        return t[1] // 8, t[1] // 8
    if k == 'a':
        s, a = size_align(t[2])
        return s * t[1], a
    if k == 'v':
        s, a = size_align(t[2])
        n = s * t[1]
        if t[2] == ('i', 1):
            n = (t[1] + 7) // 8
        return n, max(1, n)
    if k == 's':
        off = 0
        al = 1
        for f in t[1]:
            s, a = size_align(f)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a + s
            al = max(al, a)
        return (off + al - 1) // al * al, al
    raise ValueError('size of %s' % (t,))


def field_offset(t, idx):
    off = 0
    for n, f in enumerate(t[1]):
        s, a = size_align(f)
        if t[2]:
            a = 1
        off = (off + a - 1) // a * a
        if n == idx:
            return off
        off += s
    raise IndexError


def store_size(t):
    if t[0] == 'i':
        return (t[1] + 7) // 8
    return size_align(t)[0]


def parse_float(tok, w):
    if tok.startswith('f0x'):
        bits = int(tok[3:], 16)
        return struct.unpack('<d', struct.pack('<Q', bits))[0] if w == 64 else struct.unpack('<f', struct.pack('<I', bits))[0] if w == 32 else struct.unpack('<e', struct.pack('<H', bits))[0]
    if tok.startswith('0xH'):
        return struct.unpack('<e', struct.pack('<H', int(tok[3:], 16)))[0]
    if tok.startswith('0x'):
        return struct.unpack('<d', struct.pack('<Q', int(tok[2:], 16)))[0]
    return float(tok)


def cstr_bytes(tok):
    s = tok[2:-1]
    if '\\' not in s:
        return s.encode('utf-8')
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c == '\\' and s[i + 1] == '\\':
            out.append(92)
            i += 2
        elif c == '\\':
            out.append(int(s[i+1:i+3], 16))
            i += 3
        else:
            out += c.encode('utf-8')
            i += 1
    return bytes(out)

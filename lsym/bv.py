"""Symbolic integer helpers.  A value of an iN is a Python int (0 <= v < 2^N) or a z3 BitVecRef;
an i1 is 0/1 or a z3 BoolRef."""
import z3

simp = z3.simplify
MASKS = {w: (1 << w) - 1 for w in (1, 8, 16, 24, 32, 40, 48, 56, 64, 128)}


def mask(w):
    m = MASKS.get(w)
    if m is None:
        m = MASKS[w] = (1 << w) - 1
    return m


class Unsupported(Exception):
    pass


class Inconclusive(Exception):
    pass


def isf(x):
    return x.__class__ is float or getattr(x, 'is_sf', False)


def bv(x, w):
    if x.__class__ is int:
        return z3.BitVecVal(x, w)
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if isinstance(x, z3.BitVecRef):
        return x
    raise Unsupported('not an integer value: %r' % (x,))


def bo(x):
    if x.__class__ is int:
        return z3.BoolVal(bool(x & 1))
    if isinstance(x, z3.BoolRef):
        return x
    raise Unsupported('not a boolean: %r' % (x,))


def norm(e):
    e = simp(e)
    if z3.is_bv_value(e):
        return e.as_long()
    return e


def normb(e):
    e = simp(e)
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def add(a, b, w):
    if w == 1:
        return xor(a, b, 1)
    return norm(bv(a, w) + bv(b, w))


def sub(a, b, w):
    if w == 1:
        return xor(a, b, 1)
    return norm(bv(a, w) - bv(b, w))


def mul(a, b, w):
    if w == 1:
        return and_(a, b, 1)
    return norm(bv(a, w) * bv(b, w))


def udiv(a, b, w):
    return norm(z3.UDiv(bv(a, w), bv(b, w)))


def urem(a, b, w):
    return norm(z3.URem(bv(a, w), bv(b, w)))


def sdiv(a, b, w):
    return norm(bv(a, w) / bv(b, w))


def srem(a, b, w):
    return norm(z3.SRem(bv(a, w), bv(b, w)))


def and_(a, b, w):
    if w == 1:
        return normb(z3.And(bo(a), bo(b)))
    return norm(bv(a, w) & bv(b, w))


def or_(a, b, w):
    if w == 1:
        return normb(z3.Or(bo(a), bo(b)))
    return norm(bv(a, w) | bv(b, w))


def xor(a, b, w):
    if w == 1:
        return normb(z3.Xor(bo(a), bo(b)))
    return norm(bv(a, w) ^ bv(b, w))


def shl(a, b, w):
    return norm(bv(a, w) << bv(b, w))


def lshr(a, b, w):
    return norm(z3.LShR(bv(a, w), bv(b, w)))


def ashr(a, b, w):
    return norm(bv(a, w) >> bv(b, w))


def zext(a, w1, w2):
    if a.__class__ is int:
        return a
    if w1 == 1:
        return norm(z3.If(bo(a), z3.BitVecVal(1, w2), z3.BitVecVal(0, w2)))
    return norm(z3.ZeroExt(w2 - w1, bv(a, w1)))


def sext(a, w1, w2):
    if a.__class__ is int:
        return a | (mask(w2) ^ mask(w1)) if a >> (w1 - 1) else a
    if w1 == 1:
        return norm(z3.If(bo(a), z3.BitVecVal(mask(w2), w2), z3.BitVecVal(0, w2)))
    return norm(z3.SignExt(w2 - w1, bv(a, w1)))


def trunc(a, w1, w2):
    if a.__class__ is int:
        return a & mask(w2)
    if isf(a):
        raise Unsupported('truncating the bits of a symbolic float')
    if w2 == 1:
        # the common pattern: an i1 stored as a byte
        if z3.is_app_of(a, z3.Z3_OP_ITE) and z3.is_bv_value(a.arg(1)) and z3.is_bv_value(a.arg(2)):
            x, y = a.arg(1).as_long() & 1, a.arg(2).as_long() & 1
            if x == y:
                return x
            return normb(a.arg(0) if x else z3.Not(a.arg(0)))
        return normb(z3.Extract(0, 0, a) == z3.BitVecVal(1, 1))
    while z3.is_app_of(a, z3.Z3_OP_ZERO_EXT) or z3.is_app_of(a, z3.Z3_OP_SIGN_EXT):
        x = a.arg(0)
        if x.size() < w2:
            break
        if x.size() == w2:
            return norm(x)
        a = x
    return norm(z3.Extract(w2 - 1, 0, a))


CMP = {
    'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b,
    'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE,
    'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b, 'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b,
}


def icmp(pred, a, b, w):
    if a.__class__ is int and b.__class__ is int:
        if pred[0] == 's':
            a, b = sgn(a, w), sgn(b, w)
        p = pred[-2:]
        if pred == 'eq':
            return int(a == b)
        if pred == 'ne':
            return int(a != b)
        return int(a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b)
    if w == 1:
        A, B = bo(a), bo(b)
        if pred == 'eq':
            return normb(A == B)
        if pred == 'ne':
            return normb(A != B)
        A, B = bv(a, 1), bv(b, 1)
        return normb(CMP[pred](A, B))
    return normb(CMP[pred](bv(a, w), bv(b, w)))


def ite(c, a, b, w):
    if w == 1:
        return normb(z3.If(c, bo(a), bo(b)))
    return norm(z3.If(c, bv(a, w), bv(b, w)))


def extract_byte(v, n, i):
    """byte i (little endian) of an n-byte value"""
    if v.__class__ is int:
        return (v >> (8 * i)) & 255
    if isf(v):
        raise Unsupported('bytes of a symbolic float')
    if isinstance(v, z3.BoolRef):
        v = bv(v, 8 * n)
    w = v.size()
    if 8 * i >= w:
        return 0
    return norm(z3.Extract(min(8 * i + 7, w - 1), 8 * i, v) if 8 * i + 7 < w else z3.ZeroExt(8 * i + 7 - (w - 1), z3.Extract(w - 1, 8 * i, v)))


def concat_bytes(bs):
    """little-endian list of bytes (int or BV8) -> value"""
    if all(b.__class__ is int for b in bs):
        return int.from_bytes(bytes(bs), 'little')
    return norm(z3.Concat(*[bv(b, 8) for b in reversed(bs)]) if len(bs) > 1 else bs[0])


# ---- overflow intrinsics: (result, flag)
def ovf(op, a, b, w):
    if a.__class__ is int and b.__class__ is int:
        m = mask(w)
        if op[0] == 's':
            x, y = sgn(a, w), sgn(b, w)
        else:
            x, y = a, b
        r = x + y if op[1:4] == 'add' else x - y if op[1:4] == 'sub' else x * y
        if op[0] == 's':
            return [r & m, int(not (-(1 << (w - 1)) <= r < (1 << (w - 1))))]
        return [r & m, int(not 0 <= r <= m)]
    A, B = bv(a, w), bv(b, w)
    o = op[1:4]
    if op[0] == 'u':
        if o == 'add':
            r = A + B
            return [norm(r), normb(z3.ULT(r, A))]
        if o == 'sub':
            return [norm(A - B), normb(z3.ULT(A, B))]
        if a.__class__ is int or b.__class__ is int:
            k, X = (a, B) if a.__class__ is int else (b, A)
            if k == 0:
                return [0, 0]
            return [norm(A * B), normb(z3.UGT(X, z3.BitVecVal(mask(w) // k, w)))]
        return [norm(A * B), normb(z3.Not(z3.BVMulNoOverflow(A, B, False)))]
    if o == 'add':
        return [norm(A + B), normb(z3.Not(z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B))))]
    if o == 'sub':
        return [norm(A - B), normb(z3.Not(z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True))))]
    return [norm(A * B), normb(z3.Not(z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B))))]

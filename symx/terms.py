"""Element-level terms: Python bool/int when concrete, z3 expressions otherwise.

Integers and floats are both carried as unsigned bit patterns of the dtype's width;
`bool` elements are Python bools / z3 BoolRef.  Every operation folds on concrete
arguments, so that only data-dependent computation reaches the solver.
"""
from __future__ import annotations

import sys

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402

Z = z3


def is_sym(x) -> bool:
    return isinstance(x, z3.ExprRef)


def mask(w: int) -> int:
    return (1 << w) - 1


_TRUE = z3.BoolVal(True)
_FALSE = z3.BoolVal(False)


def bt(x):
    """z3 term of a bool element."""
    if isinstance(x, z3.ExprRef):
        return x
    return _TRUE if x else _FALSE


def bv(x, w):
    if isinstance(x, z3.ExprRef):
        return x
    return z3.BitVecVal(int(x), w)


def norm_bool(x):
    if isinstance(x, z3.ExprRef):
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
        return x
    return bool(x)


def norm_bv(x):
    if isinstance(x, z3.BitVecNumRef):
        return x.as_long()
    return x


def Not(a):
    if not is_sym(a):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def And(*xs):
    out = []
    seen = set()
    for x in xs:
        if not is_sym(x):
            if not x:
                return False
            continue
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    for x in out:
        if z3.is_not(x) and x.arg(0).get_id() in seen:
            return False
    return z3.And(out)


def Or(*xs):
    out = []
    seen = set()
    for x in xs:
        if not is_sym(x):
            if x:
                return True
            continue
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    for x in out:
        if z3.is_not(x) and x.arg(0).get_id() in seen:
            return True
    return z3.Or(out)


def Xor(a, b):
    if not is_sym(a) and not is_sym(b):
        return bool(a) != bool(b)
    if not is_sym(a):
        return Not(b) if a else b
    if not is_sym(b):
        return Not(a) if b else a
    if a.eq(b):
        return False
    return z3.Xor(a, b)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    return Not(Xor(a, b))


def same(a, b) -> bool:
    if is_sym(a):
        return is_sym(b) and a.eq(b)
    if is_sym(b):
        return False
    return a == b


def ite(c, a, b, w):
    """w == 0 means boolean branches."""
    if not is_sym(c):
        return a if c else b
    if same(a, b):
        return a
    if w == 0:
        if not is_sym(a):
            return Or(c, b) if a else And(Not(c), b)
        if not is_sym(b):
            return Or(Not(c), a) if b else And(c, a)
        return z3.If(c, a, b)
    if z3.is_not(c):
        c, a, b = c.arg(0), b, a
    # collapse nested ITEs on the same guard
    if is_sym(a) and a.decl().kind() == z3.Z3_OP_ITE and a.arg(0).eq(c):
        a = norm_bv(a.arg(1))
    if is_sym(b) and b.decl().kind() == z3.Z3_OP_ITE and b.arg(0).eq(c):
        b = norm_bv(b.arg(2))
    if same(a, b):
        return a
    return z3.If(c, bv(a, w), bv(b, w))


_eq_memo: dict = {}


def eq(a, b, w):
    if w == 0:
        return Iff(a, b)
    if not is_sym(a) and not is_sym(b):
        return a == b
    if is_sym(a) and is_sym(b):
        if a.eq(b):
            return True
        return a == b
    if not is_sym(a):
        a, b = b, a
    return _eq_const(a, b, w)


def _eq_const(a, k, w):
    """a symbolic, k int.  Pushes the comparison through ITEs over constants."""
    key = (a.get_id(), k)
    r = _eq_memo.get(key)
    if r is not None:
        return r[0]
    kind = a.decl().kind()
    if kind == z3.Z3_OP_ITE:
        c, x, y = a.arg(0), a.arg(1), a.arg(2)
        x = norm_bv(x)
        y = norm_bv(y)
        if not is_sym(x) or not is_sym(y):
            ex = (x == k) if not is_sym(x) else _eq_const(x, k, w)
            ey = (y == k) if not is_sym(y) else _eq_const(y, k, w)
            res = ite(c, ex, ey, 0)
        else:
            res = a == z3.BitVecVal(k, w)
    elif kind == z3.Z3_OP_ZERO_EXT:
        inner = a.arg(0)
        iw = inner.size()
        if k > mask(iw):
            res = False
        else:
            res = _eq_const(inner, k, iw)
    else:
        res = a == z3.BitVecVal(k, w)
    _eq_memo[key] = (res, a)
    return res


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def ult(a, b, w):
    if not is_sym(a) and not is_sym(b):
        return a < b
    if not is_sym(b) and b == 0:
        return False
    if not is_sym(a) and a == mask(w):
        return False
    if same(a, b):
        return False
    if is_sym(a) and not is_sym(b):
        r = _ult_const(a, b, w, 0)
        if r is not None:
            return r
    return z3.ULT(bv(a, w), bv(b, w))


def _ult_const(a, k, w, depth):
    """ITE-of-constants pushing for a < k; None when not applicable."""
    if depth > 64:
        return None
    if a.decl().kind() != z3.Z3_OP_ITE:
        return None
    x, y = norm_bv(a.arg(1)), norm_bv(a.arg(2))
    ex = (x < k) if not is_sym(x) else _ult_const(x, k, w, depth + 1)
    if ex is None:
        return None
    ey = (y < k) if not is_sym(y) else _ult_const(y, k, w, depth + 1)
    if ey is None:
        return None
    return ite(a.arg(0), ex, ey, 0)


def ule(a, b, w):
    return Not(ult(b, a, w))


def slt(a, b, w):
    if not is_sym(a) and not is_sym(b):
        return sgn(a, w) < sgn(b, w)
    if same(a, b):
        return False
    return bv(a, w) < bv(b, w)


def sle(a, b, w):
    return Not(slt(b, a, w))


def add(a, b, w):
    if not is_sym(a) and not is_sym(b):
        return (a + b) & mask(w)
    if not is_sym(a):
        a, b = b, a
    if not is_sym(b):
        if b == 0:
            return a
        return _lift1(a, lambda t: (t + b) & mask(w), lambda t: t + z3.BitVecVal(b, w), w)
    return a + b if a.get_id() < b.get_id() else b + a


def _lift1(a, fc, fs, w, depth=0):
    """Push a unary op through an ITE whose leaves are constants (keeps indices small)."""
    if not is_sym(a):
        return fc(a)
    if depth < 12 and a.decl().kind() == z3.Z3_OP_ITE:
        x, y = norm_bv(a.arg(1)), norm_bv(a.arg(2))
        if not is_sym(x) or not is_sym(y):
            rx = _lift1(x, fc, fs, w, depth + 1)
            ry = _lift1(y, fc, fs, w, depth + 1)
            return ite(a.arg(0), rx, ry, w)
    return fs(a)


def sub(a, b, w):
    if not is_sym(a) and not is_sym(b):
        return (a - b) & mask(w)
    if not is_sym(b):
        return add(a, (-b) & mask(w), w)
    if same(a, b):
        return 0
    return bv(a, w) - bv(b, w)


def neg(a, w):
    if not is_sym(a):
        return (-a) & mask(w)
    return -a


def mul(a, b, w):
    if not is_sym(a) and not is_sym(b):
        return (a * b) & mask(w)
    if not is_sym(a):
        a, b = b, a
    if not is_sym(b):
        if b == 0:
            return 0
        if b == 1:
            return a
        return _lift1(a, lambda t: (t * b) & mask(w), lambda t: t * z3.BitVecVal(b, w), w)
    return a * b if a.get_id() < b.get_id() else b * a


def band(a, b, w):
    if not is_sym(a) and not is_sym(b):
        return a & b
    if not is_sym(a):
        a, b = b, a
    if not is_sym(b):
        if b == 0:
            return 0
        if b == mask(w):
            return a
        # low-bit masks become extract+zero-extend
        if (b & (b + 1)) == 0:
            k = b.bit_length()
            return _lift1(
                a, lambda t: t & b,
                lambda t: z3.ZeroExt(w - k, z3.Extract(k - 1, 0, t)), w)
        return _lift1(a, lambda t: t & b, lambda t: t & z3.BitVecVal(b, w), w)
    if a.eq(b):
        return a
    return a & b if a.get_id() < b.get_id() else b & a


def bor(a, b, w):
    if not is_sym(a) and not is_sym(b):
        return a | b
    if not is_sym(a):
        a, b = b, a
    if not is_sym(b):
        if b == 0:
            return a
        if b == mask(w):
            return b
        return _lift1(a, lambda t: t | b, lambda t: t | z3.BitVecVal(b, w), w)
    if a.eq(b):
        return a
    return a | b if a.get_id() < b.get_id() else b | a


def bxor(a, b, w):
    if not is_sym(a) and not is_sym(b):
        return a ^ b
    if not is_sym(a):
        a, b = b, a
    if not is_sym(b):
        if b == 0:
            return a
        return _lift1(a, lambda t: t ^ b, lambda t: _xor_const(t, b, w), w)
    if a.eq(b):
        return 0
    return _xor_build(a, b, w)


_xor_memo: dict = {}
XOR_MAX = 48


def _xor_parts(a):
    r = _xor_memo.get(a.get_id())
    return r[0] if r is not None else ({a.get_id(): a}, 0)


def _xor_const(a, c, w):
    p, k = _xor_parts(a)
    c ^= k
    if len(p) == 1 and not c:
        return next(iter(p.values()))
    t = None
    for i in sorted(p):
        t = p[i] if t is None else t ^ p[i]
    if c:
        t = t ^ z3.BitVecVal(c, w)
    _xor_memo[t.get_id()] = ((p, c), t)
    return t


def _xor_build(a, b, w):
    """Normal form of nested xors, so that differently ordered reductions give the same term."""
    (pa, ca), (pb, cb) = _xor_parts(a), _xor_parts(b)
    if len(pa) + len(pb) > XOR_MAX:
        return a ^ b
    p = {k: v for k, v in pa.items() if k not in pb}
    p.update({k: v for k, v in pb.items() if k not in pa})
    c = ca ^ cb
    if not p:
        return c
    t = None
    for k in sorted(p):
        t = p[k] if t is None else t ^ p[k]
    if c:
        t = t ^ z3.BitVecVal(c, w)
    if len(p) > 1 or c:
        _xor_memo[t.get_id()] = ((p, c), t)
    return t


def bnot(a, w):
    if not is_sym(a):
        return ~a & mask(w)
    return _lift1(a, lambda t: ~t & mask(w), lambda t: ~t, w)


def shl(a, b, w):
    if not is_sym(b):
        if b >= w:
            return 0
        if b == 0:
            return a
        if not is_sym(a):
            return (a << b) & mask(w)
    return bv(a, w) << bv(b, w)


def lshr(a, b, w):
    if not is_sym(b):
        if b >= w:
            return 0
        if b == 0:
            return a
        if not is_sym(a):
            return a >> b
    return z3.LShR(bv(a, w), bv(b, w))


def ashr(a, b, w):
    if not is_sym(b):
        b = min(b, w - 1) if b < (1 << w) else w - 1
        if not is_sym(a):
            return (sgn(a, w) >> b) & mask(w)
    return bv(a, w) >> bv(b, w)


def udiv(a, b, w):
    if not is_sym(a) and not is_sym(b):
        return a // b if b else mask(w)
    if not is_sym(b) and b == 1:
        return a
    return z3.UDiv(bv(a, w), bv(b, w))


def urem(a, b, w):
    if not is_sym(a) and not is_sym(b):
        return a % b if b else a
    if not is_sym(b) and b and (b & (b - 1)) == 0:
        return band(a, b - 1, w)
    return z3.URem(bv(a, w), bv(b, w))


def sdiv(a, b, w):
    if not is_sym(a) and not is_sym(b):
        x, y = sgn(a, w), sgn(b, w)
        if y == 0:
            return mask(w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return q & mask(w)
    return bv(a, w) / bv(b, w)


def srem(a, b, w):
    if not is_sym(a) and not is_sym(b):
        x, y = sgn(a, w), sgn(b, w)
        if y == 0:
            return a
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & mask(w)
    return z3.SRem(bv(a, w), bv(b, w))


def resize(a, w_from, w_to, signed):
    if w_from == w_to:
        return a
    if not is_sym(a):
        if w_to < w_from:
            return a & mask(w_to)
        return (sgn(a, w_from) & mask(w_to)) if signed else a
    if w_to < w_from:
        def fs(t):
            if t.decl().kind() == z3.Z3_OP_ZERO_EXT:
                inner = t.arg(0)
                iw = inner.size()
                if iw == w_to:
                    return inner
                if iw < w_to:
                    return z3.ZeroExt(w_to - iw, inner)
            return z3.Extract(w_to - 1, 0, t)
        return _lift1(a, lambda t: t & mask(w_to), fs, w_to)
    if signed:
        return _lift1(a, lambda t: sgn(t, w_from) & mask(w_to),
                      lambda t: z3.SignExt(w_to - w_from, t), w_to)
    def fz(t):
        if t.decl().kind() == z3.Z3_OP_ZERO_EXT:
            inner = t.arg(0)
            return z3.ZeroExt(w_to - inner.size(), inner)
        return z3.ZeroExt(w_to - w_from, t)
    return _lift1(a, lambda t: t, fz, w_to)


def extract(a, hi, lo, w):
    if not is_sym(a):
        return (a >> lo) & mask(hi - lo + 1)
    if lo == 0 and hi == w - 1:
        return a
    if a.decl().kind() == z3.Z3_OP_CONCAT:
        # concat args: most significant first
        pos = w
        for ch in a.children():
            pos -= ch.size()
            if pos == lo and ch.size() == hi - lo + 1:
                return norm_bv(ch)
    return z3.Extract(hi, lo, a)


def concat(parts):
    """parts: list of (value, width) most significant first."""
    if all(not is_sym(p) for p, _ in parts):
        r = 0
        for p, w in parts:
            r = (r << w) | p
        return r
    if len(parts) == 1:
        return parts[0][0]
    # recognise re-assembly of consecutive extracts of one term
    first = parts[0][0]
    if is_sym(first) and first.decl().kind() == z3.Z3_OP_EXTRACT:
        base = first.arg(0)
        hi, lo = first.params()
        ok = True
        cur = lo
        for p, w in parts[1:]:
            if (is_sym(p) and p.decl().kind() == z3.Z3_OP_EXTRACT and p.arg(0).eq(base)
                    and p.params()[0] == cur - 1):
                cur = p.params()[1]
            else:
                ok = False
                break
        if ok:
            if cur == 0 and hi == base.size() - 1:
                return base
            return z3.Extract(hi, cur, base)
    return z3.Concat([bv(p, w) for p, w in parts])


def popcount(a, w):
    if not is_sym(a):
        return bin(a).count("1")
    r = 0
    for i in range(w):
        r = add(r, resize(extract(a, i, i, w), 1, w, False), w)
    return r


def clz(a, w):
    if not is_sym(a):
        return w - a.bit_length()

    def fs(t):
        r = w
        for i in range(w):
            r = ite(eq(extract(t, i, i, w), 1, 1), w - 1 - i, r, w)
        return r
    return _lift1(a, lambda t: w - t.bit_length(), fs, w)


def b2i(c, w):
    return ite(c, 1, 0, w)


def count(bools, w=16):
    r = 0
    for c in bools:
        r = add(r, b2i(c, w), w)
    return r

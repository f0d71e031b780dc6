"""Bit-width helpers shared by the packing checks."""
from props.common import *  # noqa: F401,F403


def ranged(name, shape, dtype, bits):
    """Symbolic integers below 2**bits (a narrow variable each)."""
    w = width(np.dtype(dtype))
    if w == 0 or bits >= w:
        return Inp(name, shape, dtype)
    el = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        nm = name + "[" + ",".join(map(str, ix)) + "]"
        v = z3.ZeroExt(w - bits, z3.BitVec(nm, bits))
        if ix == ():
            return Inp(name, shape, dtype, el=X._scalar(v))
        el[ix] = v
    return Inp(name, shape, dtype, el=el)


def as_u32(e, w):
    """Element as a 32-bit term (bool -> 0/1)."""
    if w == 0:
        return T.ite(e, 1, 0, 32)
    if w == 32:
        return e
    if not T.is_sym(e):
        return int(e)
    return z3.ZeroExt(32 - w, e)


def same_vals(a, b):
    """Equal integer values, whatever the (unsigned or bool) widths."""
    fa, fb = a.flat(), b.flat()
    assert len(fa) == len(fb), (a.shape, b.shape)
    return T.And(*[T.eq(as_u32(x, a.w), as_u32(y, b.w), 32) for x, y in zip(fa, fb)])


def u_for(bits):
    return np.bool_ if bits == 1 else np.uint8 if bits <= 8 else np.uint16 if bits <= 16 else np.uint32

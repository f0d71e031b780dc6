"""to_uint8 / from_uint8: every in-range array survives, in the announced number of bytes."""
from props.pack_common import *  # noqa: F401,F403
from xtructure.core.xtructure_decorators.aggregate_bitpack.bitpack import (
    from_uint8, packed_num_bytes, to_uint8)

META = {
    "explanation": (
        "to_uint8 and from_uint8 are traced from the current tree for every width 1..32 and several array sizes and "
        "shapes around the block sizes; the solver shows that unpacking the packed stream gives back every element "
        "for all values of that width, that a value wider than its width never alters another element, and that a "
        "stream has exactly packed_num_bytes bytes."),
    "bounds": "widths 1..32 (all), sizes 1..block+2 values and 2-D/3-D shapes; bool, (u)int8/16/32 inputs",
    "assumptions": [],
}


def rt(bits, shape, dtype=None, wide=False, packed=None):
    dtype = dtype or u_for(bits)
    n = int(np.prod(shape)) if shape else 1
    name = f"b{bits}_{'x'.join(map(str, shape)) or 's'}_{np.dtype(dtype).name}" + ("_wide" if wide else "")
    inputs = [Inp("v", shape, dtype) if wide else ranged("v", shape, dtype, bits)]

    def fn(v):
        p = to_uint8(v, active_bits=bits)
        return {"p": p, "v": from_uint8(p, target_shape=shape, active_bits=bits)}

    def assume(I):
        return []

    def goals(I, O):
        want = packed_num_bytes(n, bits)
        g = [("the stream has packed_num_bytes bytes", O.p.shape == (want,)),
             ("uint8 stream", O.p.dtype == np.dtype(np.uint8)),
             ("the shape is restored", O.v.shape == shape)]
        m = T.mask(bits)
        vi, vo = I.v.flat(), O.v.flat()
        for k in range(n):
            a = as_u32(vi[k], I.v.w)
            if bits == 1:
                a = T.ite(T.Not(T.eq(a, 0, 32)), 1, 0, 32)
            elif wide:
                a = T.band(a, m, 32)
            g.append((f"element {k} survives", T.eq(a, as_u32(vo[k], O.v.w), 32)))
        return g
    return Harness(name, inputs, fn, goals, assume, n_random=1)


def sizes(bits):
    L = int(np.lcm(bits, 8))
    per = L // bits
    return sorted({1, 2, 3, per - 1, per, per + 1, per + 2, 2 * per, 2 * per + 1} - {0})


def group(bs, tier):
    hs = []
    for b in bs:
        for n in sizes(b):
            if n <= 40:
                hs.append(rt(b, (n,)))
        hs.append(rt(b, (2, 3)))
        hs.append(rt(b, ()))
        if tier == "thorough":
            for n in range(1, 36):
                hs.append(rt(b, (n,), np.uint32))
            hs.append(rt(b, (3, 2, 5)))
            hs.append(rt(b, (67,)))
    return hs


def wide_group(bs):
    hs = []
    for b in bs:
        per = int(np.lcm(b, 8)) // b
        dt = np.uint8 if b < 8 else np.uint16 if b < 16 else np.uint32
        if b == 1:
            hs += [rt(1, (9,), np.uint8, wide=True), rt(1, (9,), np.int32, wide=True)]
            continue
        if b in (8, 16, 32):
            dt = np.uint32
        hs.append(rt(b, (per + 1,), dt, wide=True))
        hs.append(rt(b, (per + 1,), np.uint32, wide=True))
    return hs


def empties(tier):
    hs = []
    for b in (1, 3, 4, 8, 12, 32):
        def fn(v, b=b):
            p = to_uint8(v.reshape((-1,))[:0], active_bits=b)
            return {"p": p, "v": from_uint8(p, target_shape=(2, 0), active_bits=b), "one": v}

        def goals(I, O, b=b):
            return [("no bytes for no values", O.p.shape == (0,) and packed_num_bytes(0, b) == 0),
                    ("empty shape is restored", O.v.shape == (2, 0)),
                    ("dtype of a non-empty unpack", O.v.dtype == np.dtype(
                        np.bool_ if b == 1 else np.uint8 if b <= 8 else np.uint32))]
        hs.append(Harness(f"empty_b{b}", [Inp("v", (1,), u_for(b))], fn, goals, n_random=1))
    return hs


def signed(tier):
    """Signed inputs that hold in-range values; full-width signed values come back bit for bit."""
    hs = []
    for b, dt in ((3, np.int8), (7, np.int8), (8, np.int8), (12, np.int16), (15, np.int16), (16, np.int16),
                  (20, np.int32), (31, np.int32), (32, np.int32)):
        w = width(np.dtype(dt))

        def fn(v, b=b, dt=dt):
            return {"v": from_uint8(to_uint8(v, active_bits=b), target_shape=(5,), active_bits=b).astype(dt)}

        def goals(I, O, w=w):
            return [(f"element {k} survives", T.eq(x, y, w)) for k, (x, y) in enumerate(zip(I.v.flat(), O.v.flat()))]
        hs.append(Harness(f"signed_b{b}_{np.dtype(dt).name}", [ranged("v", (5,), dt, b)], fn, goals, n_random=1))
    return hs


JOBS = {f"b{a}_{b}": dict(build=lambda t, a=a, b=b: group(range(a, b + 1), t), cost=10)
        for a, b in ((1, 4), (5, 8), (9, 12), (13, 16), (17, 20), (21, 24), (25, 28), (29, 32))}
JOBS["wide"] = dict(build=lambda t: wide_group(range(1, 33)), cost=10)
JOBS["misc"] = dict(build=lambda t: empties(t) + signed(t), cost=5)

"""packed_tensor fields: the logical view is what was written, other fields are untouched."""
from props.pack_common import *  # noqa: F401,F403

META = {
    "explanation": (
        "Classes with FieldDescriptor.packed_tensor fields of every width 1..32 are built; from_unpacked, "
        "set_unpacked, <field>_unpacked, replace, indexing and .at[].set are traced and the solver shows, for all "
        "values of the declared width, that the logical view equals what was last written element by element, that "
        "other fields and other rows keep their contents, and that a value too wide for its field alters no other "
        "element."),
    "bounds": "widths 1..32 (all), fields of 1..block+2 values and of 2-D shapes, batch shapes (), (2,), (2,2)",
    "assumptions": [],
}


def cls_of(bits, shape, dtype=None, name=None):
    ns = {"__module__": __name__, "__annotations__": {
        "pre": FieldDescriptor.scalar(dtype=jnp.uint8, default=0),
        "f": FieldDescriptor.packed_tensor(shape=shape, packed_bits=bits,
                                           **({"unpacked_dtype": dtype} if dtype is not None else {})),
        "g": FieldDescriptor.packed_tensor(shape=(3,), packed_bits=3),
    }}
    return xtructure_dataclass(type(f"PT{bits}", (), ns))


def rt(bits, shape, batch, dtype=None, wide=False):
    C = cls_of(bits, shape, dtype)
    vd = np.dtype(dtype) if dtype is not None else np.dtype(u_for(bits))
    full = batch + shape
    name = f"b{bits}_{'x'.join(map(str, shape))}_n{'x'.join(map(str, batch))}_{vd.name}" + ("_wide" if wide else "")
    mk = (lambda n, s, d, b: Inp(n, s, d)) if wide else ranged
    inputs = [mk("v", full, vd, bits), mk("w", full, vd, bits), ranged("g", batch + (3,), np.uint8, 3),
              Inp("pre", batch, np.uint8)]

    def fn(v, w, g, pre):
        x = C.from_unpacked(shape=batch, pre=pre, f=v, g=g)
        d = C.from_unpacked(shape=batch, f=v)
        y = x.set_unpacked(f=w)
        z = x.set_unpacked(g=g[..., ::-1])
        out = {"x": x.f_unpacked, "xg": x.g_unpacked, "xpre": x.pre, "d": d.f_unpacked,
               "y": y.f_unpacked, "yg": y.g_unpacked, "ypre": y.pre, "zf": z.f_unpacked, "zg": z.g_unpacked}
        if batch:
            out["row"] = x[batch[0] - 1].f_unpacked
            u = x.at[0].set(y[0])
            out["u"] = u.f_unpacked
            out["ug"] = u.g_unpacked
        return out

    def goals(I, O):
        vb = vd.itemsize * 8 if vd != np.bool_ else 0
        m = T.mask(bits)

        def same(what, got, want, b=bits, exact=True):
            g = [(f"{what}: shape", got.shape == want.shape)]
            if got.shape != want.shape:
                return g
            for k, (p, q) in enumerate(zip(got.flat(), want.flat())):
                q = as_u32(q, want.w)
                if wide:
                    q = T.ite(T.Not(T.eq(q, 0, 32)), 1, 0, 32) if bits == 1 else T.band(q, m, 32)
                g.append((f"{what}: element {k}", T.eq(as_u32(p, got.w), q, 32)))
            return g
        v, w, G = I.v, I.w, I.g
        grev = SArr(G.el[..., ::-1], G.dtype)

        def gs(what, got, want):
            return [(f"{what}: element {k}", T.eq(as_u32(p, got.w), as_u32(q, want.w), 32))
                    for k, (p, q) in enumerate(zip(got.flat(), want.flat()))]
        g = same("from_unpacked", O.x, v) + gs("from_unpacked, other packed field", O.xg, G)
        g += gs("from_unpacked, plain field", O.xpre, I.pre) + same("from_unpacked with defaults", O.d, v)
        g += same("set_unpacked", O.y, w) + gs("set_unpacked leaves other fields", O.yg, G)
        g += gs("set_unpacked leaves plain fields", O.ypre, I.pre)
        g += same("set_unpacked of another field", O.zf, v) + gs("set_unpacked g", O.zg, grev)
        if batch:
            g += same("indexing", O.row, SArr(v.el[batch[0] - 1], v.dtype))
            ue = np.array(v.el, copy=True)
            ue[0] = w.el[0]
            g += same("at[0].set", O.u, SArr(ue, v.dtype)) + gs("at[0].set other field", O.ug, G)
        if not wide:
            want = vd if dtype is not None else np.dtype(
                np.bool_ if bits == 1 else np.uint8 if bits <= 8 else np.uint32)
            g.append(("declared dtype of the logical view", O.x.dtype == want))
        return g
    return Harness(name, inputs, fn, goals, n_random=1)


def group(bs, tier):
    hs = []
    for b in bs:
        per = int(np.lcm(b, 8)) // b
        hs += [rt(b, (1,), (2,)), rt(b, (per,), ()), rt(b, (per + 1,), (2,)), rt(b, (2, 3), (2, 2))]
        dt = np.uint8 if b < 8 else np.uint16 if b < 16 else np.uint32
        hs.append(rt(b, (per + 1,), (2,), dt, wide=True))
        if tier == "thorough":
            hs += [rt(b, (n,), (3,)) for n in range(2, 20)] + [rt(b, (3, 2, 4), (2,))]
    return hs


def dtypes(tier):
    return [rt(1, (9,), (2,), np.uint8), rt(3, (9,), (2,), np.int32), rt(7, (5,), (2,), np.int8),
            rt(12, (3,), (2,), np.int16), rt(16, (3,), (2,), np.uint16), rt(20, (3,), (), np.int32),
            rt(32, (3,), (2,), np.uint32), rt(5, (54,), ()), rt(3, (6, 9), (2,))]


JOBS = {f"b{a}_{b}": dict(build=lambda t, a=a, b=b: group(range(a, b + 1), t), cost=10)
        for a, b in ((1, 4), (5, 8), (9, 12), (13, 16), (17, 20), (21, 24), (25, 28), (29, 32))}
JOBS["dtypes"] = dict(build=lambda t: dtypes(t), cost=5)

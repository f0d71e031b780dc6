"""Aggregate bitpacking: packing loses nothing, single-field decoding agrees, fields do not bleed."""
from props.pack_common import *  # noqa: F401,F403

META = {
    "explanation": (
        "Classes decorated with aggregate_bitpack=True are built for every width 1..32 at several bit offsets, for "
        "mixed and nested layouts and for every stored-words/tail shape (0, 1, 2 tail bytes, no words at all). "
        "packed, unpacked, unpack, as_original and unpack_field (all values, dotted paths, slices, a symbolic index "
        "vector) are traced; the solver shows for all in-range values that every way of decoding returns the packed "
        "values in the original shapes and dtypes, that the XLA and the Pallas packing agree, that two records pack to equal "
        "storage only if they are equal, and that a value too wide for its field alters no other field."),
    "bounds": "widths 1..32 (all) with leading fields of 1..7 bits, 2-3 values per field, up to 9 fields, batch "
              "shapes (), (2,), (2,2); Pallas word tiles 1, 2, 4",
    "assumptions": ["the Pallas kernel is checked as traced, not the TPU compiler"],
}


def agg(fields, name="A", nested=None):
    """fields: [(name, bits, shape, dtype)] or (name, class)."""
    ann = {}
    for f in fields:
        if len(f) == 2:
            ann[f[0]] = FieldDescriptor.scalar(dtype=f[1])
        else:
            n, b, s, d = f
            ann[n] = FieldDescriptor.tensor(dtype=d, shape=s, bits=b, fill_value=0) if s else \
                FieldDescriptor.scalar(dtype=d, bits=b, default=0)
    C = type(name, (), {"__module__": __name__, "__annotations__": ann})
    return xtructure_dataclass(C, aggregate_bitpack=True)


def leaves(fields, pre=""):
    out = []
    for f in fields:
        if len(f) == 2:
            out += leaves(SPECS[f[1]], pre + f[0] + ".")
        else:
            out.append((pre + f[0], f[1], f[2], np.dtype(f[3])))
    return out


SPECS = {}


def mk(fields, name="A"):
    C = agg(fields, name)
    SPECS[C] = fields
    return C


def inst(fields, C, vals, pre=""):
    kw = {}
    for f in fields:
        if len(f) == 2:
            kw[f[0]] = inst(SPECS[f[1]], f[1], vals, pre + f[0] + ".")
        else:
            kw[f[0]] = vals[pre + f[0]]
    return C(**kw)


def get(o, path):
    for p in path.split("."):
        o = getattr(o, p)
    return o


def default_dt(bits):
    return np.dtype(np.bool_ if bits == 1 else np.uint8 if bits <= 8 else np.uint32)


def declared(fields_leaf):
    n, b, s, d = fields_leaf
    return d


def rt(name, fields, batch, what, wide=None):
    """what: unpack | field | inject | wide"""
    C = mk(fields)
    L = leaves(fields)
    def leaf_inputs(tag):
        ins = []
        for n, b, s, d in L:
            if wide == n:
                ins.append(Inp(tag + n, batch + s, d))
            else:
                ins.append(ranged(tag + n, batch + s, d, b))
        return ins
    inputs = leaf_inputs("")
    if what == "inject":
        inputs += leaf_inputs("o.")
    k = len(L)
    idx_leaf = [(n, b, s, d) for n, b, s, d in L if s]
    if what == "field":
        for n, b, s, d in idx_leaf:
            nv = int(np.prod(s))
            inputs.append(Inp("i." + n, (2,), np.int32, dom=nv))

    def fn(*a):
        vals = {l[0]: x for l, x in zip(L, a)}
        x = inst(fields, C, vals)
        p = x.packed
        out = {}
        if what == "inject":
            y = inst(fields, C, {l[0]: x for l, x in zip(L, a[k:])}).packed
            return {"p": {"w": p.words, "t": p.tail}, "q": {"w": y.words, "t": y.tail}}
        if what in ("unpack", "wide"):
            u, v, o = p.unpacked, p.unpack(), p.as_original()
            for l in L:
                out["u/" + l[0].replace(".", "/")] = get(u, l[0])
                out["v/" + l[0].replace(".", "/")] = get(v, l[0])
                out["o/" + l[0].replace(".", "/")] = get(o, l[0])
            if batch:
                r = p[batch[0] - 1].unpacked
                for l in L:
                    out["r/" + l[0].replace(".", "/")] = get(r, l[0])
            return out
        for j, l in enumerate(L):
            q = l[0].replace(".", "/")
            out["f/" + q] = p.unpack_field(l[0])
            out["d/" + q] = p.unpack_field(l[0], dtype_policy="declared")
        for j, l in enumerate(idx_leaf):
            q = l[0].replace(".", "/")
            nv = int(np.prod(l[2]))
            out["i/" + q] = p.unpack_field(l[0], indices=a[k + j])
            out["one/" + q] = p.unpack_field(l[0], indices=nv - 1)
            out["sl/" + q] = p.unpack_field(l[0], indices=slice(1, None))
            out["neg/" + q] = p.unpack_field(l[0], indices=slice(-1, None))
            out["rev/" + q] = p.unpack_field(l[0], indices=slice(None, None, -1))
            out["ovr/" + q] = p.unpack_field(l[0], indices=slice(0, nv + 5))
            out["lst/" + q] = p.unpack_field(l[0], indices=[0, nv - 1])
        return out

    def goals(I, O):
        g = []
        if what == "inject":
            same = T.And(*[T.eq(x, y, I[l[0]].w) for l in L
                           for x, y in zip(I[l[0]].flat(), I["o." + l[0]].flat())])
            eqp = [T.eq(x, y, O["p." + f].w) for f in "wt" for x, y in zip(O["p." + f].flat(), O["q." + f].flat())]
            return [("equal storage only for equal records", T.Iff(same, T.And(*eqp)))]
        nb = len(batch)

        def put(what, got, want_el, want_shape, w, dt=None):
            g.append((f"{what}: shape", got.shape == tuple(want_shape)))
            if dt is not None:
                g.append((f"{what}: dtype {got.dtype}", got.dtype == dt))
            if got.shape == tuple(want_shape):
                flat = np.asarray(want_el, dtype=object).reshape(-1)
                for j, (x, y) in enumerate(zip(got.flat(), flat)):
                    g.append((f"{what}: value {j}", T.eq(as_u32(x, got.w), as_u32(y, w), 32)))
        for n, b, s, d in L:
            a = I[n]
            q = n.replace(".", "/")
            el = np.array(a.el, dtype=object) if a.shape else a.el
            if what in ("unpack", "wide"):
                if wide == n:
                    continue
                put(f"unpacked.{n}", O["u/" + q], el, batch + s, a.w, default_dt(b))
                put(f"unpack().{n}", O["v/" + q], el, batch + s, a.w, default_dt(b))
                put(f"as_original().{n}", O["o/" + q], el, batch + s, a.w, d)
                if batch:
                    put(f"row of packed, {n}", O["r/" + q], el[batch[0] - 1], batch[1:] + s, a.w)
                continue
            put(f"unpack_field({n})", O["f/" + q], el, batch + s, a.w, default_dt(b))
            put(f"unpack_field({n}, declared)", O["d/" + q], el, batch + s, a.w, d)
            if not s:
                continue
            nv = int(np.prod(s))
            fl = el.reshape(batch + (nv,))
            ii = I["i." + n].flat()
            sel = np.empty(batch + (2,), dtype=object)
            for ix in np.ndindex(*batch):
                for t in range(2):
                    r = fl[ix + (nv - 1,)]
                    for c in reversed(range(nv - 1)):
                        r = T.ite(T.eq(ii[t], c, 32), fl[ix + (c,)], r, a.w)
                    sel[ix + (t,)] = r
            put(f"unpack_field({n}, symbolic indices)", O["i/" + q], sel, batch + (2,), a.w)
            put(f"unpack_field({n}, last)", O["one/" + q], fl[..., nv - 1:], batch + (1,), a.w)
            put(f"unpack_field({n}, 1:)", O["sl/" + q], fl[..., 1:], batch + (nv - 1,), a.w)
            put(f"unpack_field({n}, -1:)", O["neg/" + q], fl[..., -1:], batch + (1,), a.w)
            put(f"unpack_field({n}, ::-1)", O["rev/" + q], fl[..., ::-1], batch + (nv,), a.w)
            put(f"unpack_field({n}, :{nv + 5})", O["ovr/" + q], fl, batch + (nv,), a.w)
            put(f"unpack_field({n}, list)", O["lst/" + q], np.stack([fl[..., 0], fl[..., nv - 1]], -1),
                batch + (2,), a.w)
        return g
    return Harness(f"{name}_n{'x'.join(map(str, batch))}_{what}{wide or ''}", inputs, fn, goals, n_random=1)


u8, u16, u32, i8, i32, bo = np.uint8, np.uint16, np.uint32, np.int8, np.int32, np.bool_


def width_group(bs, tier):
    hs = []
    for b in bs:
        dt = u_for(b)
        pre = b % 7 + 1
        fs = [("p", pre, (), u_for(pre)), ("a", b, (3,), dt), ("z", 1, (), bo)]
        hs.append(rt(f"w{b}", fs, (2,), "unpack"))
        hs.append(rt(f"w{b}", fs, (), "field"))
        hs.append(rt(f"w{b}", fs, (2,), "wide", wide="a") if b not in (1, 8, 16, 32) else
                  rt(f"w{b}", [("p", pre, (), u_for(pre)), ("a", b, (3,), u32), ("z", 1, (), bo)], (2,), "wide",
                     wide="a"))
        hs.append(rt(f"solo{b}", [("a", b, (2,), dt)], (2,), "unpack"))
        if tier == "thorough":
            for pre in range(1, 32):
                fs = [("p", pre, (), u_for(pre)), ("a", b, (2,), dt), ("z", 1, (), bo)]
                hs.append(rt(f"w{b}p{pre}", fs, (), "unpack"))
    return hs


MIX = [("h", 3, (2, 2), u8), ("flag", 1, (5,), bo), ("c", 12, (2,), u16), ("w", 32, (), u32), ("s", 7, (), i8),
       ("t", 17, (), u32)]


def mixes(tier):
    hs = []
    inner = [("x", 5, (2,), u8), ("y", 1, (), bo)]

    def nest():
        I = mk(inner, "Inn")
        return [("a", 9, (), u16), ("i", I), ("b", 4, (3,), u8), ("j", I)]
    for what in ("unpack", "field", "inject"):
        hs.append(rt("mix", MIX, (2,), what))
        hs.append(rt("nest", nest(), (2,), what))
        hs.append(rt("nest", nest(), (), what))
        hs.append(rt("mix", MIX, (2, 2), what))
    for n, b, s, d in MIX:
        if b not in (1, 32):
            hs.append(rt("mix", [(m, c, t, u32 if m == n else e) for m, c, t, e in MIX], (2,), "wide", wide=n))
    # every layout of the stored words: total bits r modulo 32
    for tot in (1, 7, 8, 9, 16, 17, 24, 25, 31, 32, 33, 40, 41, 48, 49, 56, 57, 63, 64, 65, 72, 80, 81):
        fs = [("b", 1, (tot,), bo)]
        hs.append(rt(f"bits{tot}", fs, (2,), "unpack"))
        hs.append(rt(f"bits{tot}", fs, (2,), "inject"))
    return hs


def long_words(tier):
    """Word counts around and beyond the Pallas tile: multiples of it and not."""
    hs = []
    for n in (2, 3, 4, 5, 6, 7, 8, 9, 13):
        fs = [("a", 32, (n,), u32), ("b", 7, (), u8)]
        hs.append(rt(f"long{n}", fs, (2,), "unpack"))
        hs.append(rt(f"long{n}", fs, (), "inject"))
    for n in (7, 11, 21):
        hs.append(rt(f"odd{n}", [("p", 3, (), u8), ("a", 17, (n,), u32), ("f", 1, (n,), bo)], (2,), "unpack"))
    return hs


JOBS = {f"w{a}_{b}": dict(build=lambda t, a=a, b=b: width_group(range(a, b + 1), t), cost=20)
        for a, b in ((1, 4), (5, 8), (9, 12), (13, 16), (17, 20), (21, 24), (25, 28), (29, 32))}
JOBS["mix"] = dict(build=lambda t: mixes(t), cost=25)
JOBS["long"] = dict(build=long_words, cost=15)
for tile in (1, 2, 4):
    JOBS[f"pallas{tile}"] = dict(build=lambda t: mixes(t)[:9] + long_words(t) + [h for h in width_group((5, 31), "quick")],
                                 env={"XV_WORLD": "tpu", "XTRUCTURE_AGG_BITPACK_PACK_WORD_TILE": str(tile)}, cost=20)
JOBS["pallas_gpu"] = dict(build=lambda t: mixes(t)[:9] + long_words(t),
                          env={"XV_WORLD": "gpu", "XTRUCTURE_AGG_BITPACK_PACK_BACKEND": "pallas"}, cost=15)

"""Record hashing: every hash entry point and mode agrees, and the hashed form identifies the record."""
import os

from props.pack_common import *  # noqa: F401,F403

META = {
    "explanation": (
        "hash, hash_pair, hash_with_uint32ed, hash_pair_with_uint32ed, uint32ed and bytes of classes covering every "
        "field dtype, odd byte counts, empty and nested fields are traced under each XTRUCTURE_HASH_STREAM / "
        "XTRUCTURE_HASH_AGG_MODE setting; the solver shows for all field values and seeds that all entry points "
        "and all streaming modes return the same hashes, alone or under vmap, and that two records have the same uint32ed "
        "(and bytes) exactly when they are equal; so equal records always hash equally."),
    "bounds": "classes of 1-10 words; every seed; records with bool, (u)int8/16/32, float16/bfloat16/float32 fields",
    "assumptions": ["NaN fields excluded from the equality part (a NaN equals nothing)"],
}

DT = {"bool": np.bool_, "u8": np.uint8, "i8": np.int8, "u16": np.uint16, "i16": np.int16, "u32": np.uint32,
      "i32": np.int32, "f32": np.float32, "f16": np.float16, "bf16": jnp.bfloat16}


def mk(fields, stream=None, thr=None, agg=None, bits=None, name="H"):
    """fields: [(name, dtype key or class, shape)]"""
    env = {"XTRUCTURE_HASH_STREAM": stream, "XTRUCTURE_HASH_STREAM_THRESHOLD_U32": thr,
           "XTRUCTURE_HASH_AGG_MODE": agg}
    old = {k: os.environ.get(k) for k in env}
    for k, v in env.items():
        os.environ.pop(k, None)
        if v is not None:
            os.environ[k] = str(v)
    try:
        ann = {}
        for n, d, s in fields:
            if isinstance(d, str):
                kw = {"bits": bits[n]} if bits else {}
                ann[n] = FieldDescriptor.tensor(dtype=DT[d], shape=s, fill_value=0, **kw) if s else \
                    FieldDescriptor.scalar(dtype=DT[d], default=0, **kw)
            else:
                ann[n] = FieldDescriptor.scalar(dtype=d)
        C = type(name, (), {"__module__": __name__, "__annotations__": ann})
        return xtructure_dataclass(C, aggregate_bitpack=bool(bits))
    finally:
        for k, v in old.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v


LAYOUTS = {
    "word": [("a", "u32", ())],
    "bytes5": [("a", "u8", (5,))],
    "odd": [("f", "bool", (3,)), ("a", "u8", (2,)), ("h", "u16", (3,)), ("w", "u32", ())],
    "ints": [("a", "i8", (3,)), ("b", "i16", ()), ("c", "i32", (2,)), ("d", "bool", ())],
    "floats": [("x", "f32", ()), ("h", "f16", (3,)), ("b", "bf16", (2,))],
    "nested": [("i", "IN", ()), ("t", "u16", ())],
    "hollow": [("e", "u32", (0,)), ("a", "u16", (3,)), ("z", "u8", (0,))],
    "wide": [("a", "u32", (5,)), ("b", "u8", (7,)), ("c", "u16", (5,))],
    "grid": [("a", "u8", (2, 3)), ("b", "u16", (2, 2))],
}
for _d in DT:     # every dtype as the first, middle and last field, with even, odd and padded lengths
    LAYOUTS["dt_" + _d] = [("a", _d, (2,)), ("b", "u8", ()), ("c", _d, (3,)), ("d", _d, ()), ("e", _d, (2, 2))]
LAYOUTS["mixed"] = [("a", "i16", (2,)), ("b", "i8", (4,)), ("c", "bf16", (3,)), ("d", "i32", ()), ("e", "i16", (3,)),
                    ("f", "f16", (2,)), ("g", "bool", (5,))]
INNER = [("p", "u8", ()), ("q", "u32", (2,))]
MODES = {"off": ("off", None), "on": ("on", None), "auto": (None, None), "auto1": ("auto", 1), "on0": ("on", 0)}


def layout_cls(lay, stream, thr):
    inn = mk(INNER, stream, thr, name="IN")
    return mk([(n, inn if d == "IN" else d, s) for n, d, s in LAYOUTS[lay]], stream, thr)


def leaf_list(lay):
    out = []
    for n, d, s in LAYOUTS[lay]:
        if d == "IN":
            out += [(f"{n}.{m}", DT[e], t) for m, e, t in INNER]
        else:
            out.append((n, DT[d], s))
    return out


def ins(prefix, lay, batch=()):
    return [Inp(prefix + n, batch + s, d) for n, d, s in leaf_list(lay)]


def inst(C, lay, arrs, batch=()):
    it = iter(arrs)
    kw = {}
    for n, d, s in LAYOUTS[lay]:
        if d == "IN":
            I = type(getattr(C.default(), n))
            kw[n] = I(**{m: next(it) for m, _, _ in INNER})
        else:
            kw[n] = next(it)
    return C(**kw)


def modes_h(lay):
    """Every entry point and every mode: one value."""
    Cs = {m: layout_cls(lay, *a) for m, a in MODES.items()}
    inputs = ins("x.", lay) + [Inp("seed", (), np.uint32)]

    def fn(*a):
        out = {}
        for m, C in Cs.items():
            x, s = inst(C, lay, a[:-1]), a[-1]
            out[m] = {"h": x.hash(s), "hu": x.hash_with_uint32ed(s)[0], "p": x.hash_pair(s),
                      "pu": x.hash_pair_with_uint32ed(s)[0], "u": x.uint32ed,
                      "u1": x.hash_with_uint32ed(s)[1], "u2": x.hash_pair_with_uint32ed(s)[1]}
        return out

    def goals(I, O):
        g = []
        eqv = lambda a, b: T.And(a.shape == b.shape, *[T.eq(x, y, 32) for x, y in zip(a.flat(), b.flat())])
        for m in Cs:
            g.append((f"{m}: hash and hash_with_uint32ed agree", eqv(O[m + ".h"], O[m + ".hu"])))
            for k in "01":
                g.append((f"{m}: hash_pair and hash_pair_with_uint32ed agree [{k}]",
                          eqv(O[f"{m}.p.{k}"], O[f"{m}.pu.{k}"])))
                g.append((f"{m}: same pair as mode off [{k}]", eqv(O[f"{m}.p.{k}"], O[f"off.p.{k}"])))
            g.append((f"{m}: same hash as mode off", eqv(O[m + ".h"], O["off.h"])))
            g.append((f"{m}: uint32ed consistent", T.And(eqv(O[m + ".u"], O[m + ".u1"]),
                                                         eqv(O[m + ".u"], O[m + ".u2"]),
                                                         eqv(O[m + ".u"], O["off.u"]))))
        return g
    return Harness(f"modes_{lay}", inputs, fn, goals, n_random=2, chunk="each")


def vmap_h(lay, mode, N=2):
    """A batched hash is the hash of each row."""
    C = layout_cls(lay, *MODES[mode])
    inputs = ins("x.", lay, (N,)) + [Inp("seed", (), np.uint32)]

    def fn(*a):
        s = a[-1]
        x = inst(C, lay, a[:-1])
        out = {"b": jax.vmap(lambda r: r.hash(s))(x), "bp": jax.vmap(lambda r: r.hash_pair(s))(x),
               "bu": jax.vmap(lambda r: r.hash_pair_with_uint32ed(s))(x)}
        for k in range(N):
            out[f"r{k}"] = {"h": x[k].hash(s), "p": x[k].hash_pair(s), "u": x[k].uint32ed}
        return out

    def goals(I, O):
        g = []
        for k in range(N):
            g.append((f"row {k}: hash", T.eq(O.b.el[k], O[f"r{k}.h"].flat()[0], 32)))
            for q in "01":
                g.append((f"row {k}: pair {q}", T.eq(O[f"bp.{q}"].el[k], O[f"r{k}.p.{q}"].flat()[0], 32)))
                g.append((f"row {k}: pair with uint32ed {q}", T.eq(O[f"bu.0.{q}"].el[k], O[f"r{k}.p.{q}"].flat()[0], 32)))
            g.append((f"row {k}: uint32ed", T.And(*[T.eq(a, b, 32) for a, b in
                                                   zip(O["bu.1"].el[k], O[f"r{k}.u"].flat())])))
        return g
    return Harness(f"vmap_{lay}_{mode}", inputs, fn, goals, n_random=1, chunk="each")


def ident_h(lay):
    """Same uint32ed (bytes) exactly for equal records."""
    C = layout_cls(lay, None, None)
    inputs = ins("x.", lay) + ins("y.", lay)
    n = len(inputs) // 2

    def fn(*a):
        x, y = inst(C, lay, a[:n]), inst(C, lay, a[n:])
        return {"u": x.uint32ed, "v": y.uint32ed, "b": x.bytes, "c": y.bytes, "eq": jnp.all(jnp.asarray(x == y))}

    def goals(I, O):
        bits, vals, nan = [], [], []
        for nm, d, s in leaf_list(lay):
            a, b = I["x." + nm], I["y." + nm]
            for p, q in zip(a.flat(), b.flat()):
                bits.append(T.eq(p, q, a.w))
                if X.is_float(a.dtype):
                    nan.append(T.Or(X.f_isnan(p, a.dtype), X.f_isnan(q, a.dtype)))
                    vals.append(X.f_eq(p, q, a.dtype))
                else:
                    vals.append(T.eq(p, q, a.w))
        samebits, same, nan = T.And(*bits), T.And(*vals), T.Or(*nan) if nan else False
        su = T.And(O.u.shape == O.v.shape, *[T.eq(p, q, 32) for p, q in zip(O.u.flat(), O.v.flat())])
        sb = T.And(O.b.shape == O.c.shape, *[T.eq(p, q, 8) for p, q in zip(O.b.flat(), O.c.flat())])
        return [("identical records have identical uint32ed", T.Implies(samebits, su)),
                ("identical bytes exactly for identical records", T.Iff(samebits, sb)),
                ("equal records have identical uint32ed", T.Or(nan, T.Implies(same, su))),
                ("identical uint32ed only for equal records", T.Or(nan, T.Implies(su, same)))]
    return Harness(f"ident_{lay}", inputs, fn, goals, n_random=1, chunk="each")


AGG = {
    "tail1": ([("a", "u8", (3,)), ("f", "bool", (2,)), ("c", "u16", ())], {"a": 3, "f": 1, "c": 12}),
    "tail0": ([("w", "u32", ()), ("a", "u8", (4,)), ("h", "u16", ())], {"w": 32, "a": 5, "h": 12}),
    "tail2": ([("w", "u32", (2,)), ("h", "u16", ())], {"w": 32, "h": 13}),
    "nowords": [[("a", "u8", ()), ("f", "bool", ())], {"a": 5, "f": 1}],
}


def agg_h(lay, mode, stream):
    fields, bits = AGG[lay]
    C = mk(fields, stream, 1 if stream == "auto" else None, mode, bits)
    pk = lambda pre: [ranged(pre + n, s, DT[d], bits[n]) for n, d, s in fields]
    inputs = pk("x.") + pk("y.") + [Inp("seed", (), np.uint32)]
    n = len(fields)

    def fn(*a):
        x = C(**{f[0]: v for f, v in zip(fields, a[:n])})
        y = C(**{f[0]: v for f, v in zip(fields, a[n:2 * n])})
        s = a[-1]
        return {"u": x.uint32ed, "v": y.uint32ed, "b": x.bytes, "c": y.bytes, "h": x.hash(s),
                "hu": x.hash_with_uint32ed(s), "p": x.hash_pair(s), "pu": x.hash_pair_with_uint32ed(s)}

    def goals(I, O):
        same = T.And(*[T.eq(p, q, I["x." + f[0]].w) for f in fields
                       for p, q in zip(I["x." + f[0]].flat(), I["y." + f[0]].flat())])
        su = T.And(*[T.eq(p, q, 32) for p, q in zip(O.u.flat(), O.v.flat())])
        sb = T.And(*[T.eq(p, q, 8) for p, q in zip(O.b.flat(), O.c.flat())])
        eqv = lambda a, b: T.And(a.shape == b.shape, *[T.eq(x, y, 32) for x, y in zip(a.flat(), b.flat())])
        return [("identical uint32ed exactly for equal records", T.Iff(same, su)),
                ("identical bytes exactly for equal records", T.Iff(same, sb)),
                ("hash and hash_with_uint32ed agree", eqv(O.h, O["hu.0"])),
                ("pair and pair_with_uint32ed agree", T.And(eqv(O["p.0"], O["pu.0.0"]), eqv(O["p.1"], O["pu.0.1"]))),
                ("uint32ed consistent", T.And(eqv(O.u, O["hu.1"]), eqv(O.u, O["pu.1"])))]
    return Harness(f"agg_{lay}_{mode}_{stream}", inputs, fn, goals, n_random=1, chunk="each")


JOBS = {}
for lay in LAYOUTS:
    JOBS["modes_" + lay] = dict(build=lambda t, l=lay: [modes_h(l)], cost=6)
    JOBS["ident_" + lay] = dict(build=lambda t, l=lay: [ident_h(l)], cost=3)
JOBS["vmap_a"] = dict(build=lambda t: [vmap_h(l, m) for l in ("odd", "nested") for m in ("off", "on", "auto1")], cost=8)
JOBS["vmap_b"] = dict(build=lambda t: [vmap_h(l, m) for l in ("bytes5", "floats", "wide") for m in ("on", "auto")], cost=8)
JOBS["agg"] = dict(build=lambda t: [agg_h(l, m, s) for l in AGG for m in ("packed", "raw")
                                    for s in ("off", "on", "auto")], cost=8)
JOBS["agg_tpu"] = dict(build=lambda t: [agg_h(l, "auto", s) for l in AGG for s in ("off", "auto")],
                       env={"XV_WORLD": "tpu"}, cost=8)

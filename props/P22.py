"""Comparisons, casts and fills act on every element of every field of a record, and on nothing else."""
from props.move_common import *  # noqa: F401,F403

META = {
    "explanation": (
        "==, !=, xnp.equal, not_equal, isclose, allclose (functions and methods), astype, full_like, zeros_like, "
        "ones_like and default are traced on symbolic records. The solver shows for all contents that == is true "
        "exactly if every element of every field is equal (IEEE equality for floats) and != is its negation, that the "
        "element-wise functions give for each field exactly what jax.numpy gives for that field (float arithmetic is "
        "an uninterpreted function applied identically on both sides), and that fills and defaults put exactly the "
        "declared or given value everywhere with the declared dtype and shape."),
    "bounds": "batch shapes (), (0,), (1,), (3,), (2,2); 6 record classes over bool, u/int8-32, float16/32, bfloat16",
    "assumptions": ["both operands have the same batch shape, or one is a single value where documented"],
}


@xtructure_dataclass
class VF:
    """Float fields of every format."""
    h: FieldDescriptor.tensor(dtype=jnp.float16, shape=(2,))
    f: FieldDescriptor.scalar(dtype=jnp.float32)
    g: FieldDescriptor.scalar(dtype=jnp.bfloat16)


ALL = [VA, VB, Nested, VT, VS, VF]
BATCHES = [(), (1,), (3,), (2, 2), (0,)]


def elem_eq(x, y, dt, w):
    return X.f_eq(x, y, dt) if X.is_float(dt) else T.eq(x, y, w)


def pair(cls, b, b2=None):
    specs = [("x", b), ("y", b if b2 is None else b2)]
    return specs, [i for p, s in specs for i in mk_inputs(p, cls, s)]


def eqs(cls, I, b):
    """[per-element equality] of x and y over all fields."""
    out = []
    for path, intr, dt, _ in fields_of(cls):
        x, y = I[f"x.{path}"], I[f"y.{path}"]
        out.append([elem_eq(p, q, np.dtype(dt), width(np.dtype(dt))) for p, q in zip(x.flat(), y.flat())])
    return out


def scalar_goal(what, got, want):
    if tuple(got.shape) != () or got.dtype != np.bool_:
        return [(f"{what} is one boolean", False)]
    return [(what, T.eq(got.flat()[0], want, 0))]


def ops(tier):
    hs = []
    for cls in ALL:
        for b in BATCHES:
            specs, inputs = pair(cls, b)

            def fn(*arrays, specs=specs, cls=cls):
                (x, y), _ = args_of(specs, cls, arrays)
                return {"eq": x == y, "ne": x != y, "refl": x == x}

            def goals(I, O, cls=cls, b=b):
                e = T.And(*[t for l in eqs(cls, I, b) for t in l])
                nan = T.Not(T.And(*[elem_eq(p, p, i[2], 32) for i in fields_of(cls) if X.is_float(i[2])
                                    for p in I[f"x.{i[0]}"].flat()]))
                return scalar_goal("== is true exactly if every element is equal", O["eq"], e) + \
                    scalar_goal("!= is the negation of ==", O["ne"], T.Not(e)) + \
                    scalar_goal("a record without NaN equals itself", O["refl"], T.Not(nan))
            hs.append(Harness(f"ops_{cls.__name__}_{bstr(b)}", inputs, fn, goals, n_random=1))

            def fn2(*arrays, specs=specs, cls=cls):
                (x, y), _ = args_of(specs, cls, arrays)
                r = {"f": xnp.equal(x, y), "g": xnp.not_equal(x, y), "mf": x.equal(y), "mg": x.not_equal(y)}
                assert all(type(v) is cls for v in r.values())
                return r

            def goals2(I, O, cls=cls, b=b):
                g = []
                for (path, intr, dt, _), es in zip(fields_of(cls), eqs(cls, I, b)):
                    want = np.empty(len(es), dtype=object)
                    want[:] = es
                    neg = np.empty(len(es), dtype=object)
                    neg[:] = [T.Not(t) for t in es]
                    for pre, w, n in (("f", want, "equal"), ("mf", want, "x.equal"), ("g", neg, "not_equal"),
                                      ("mg", neg, "x.not_equal")):
                        g += leaf_goal(f"{n}: {path}", O[f"{pre}.{path}"], w.reshape(b + intr), np.bool_)
                return g
            hs.append(Harness(f"elementwise_{cls.__name__}_{bstr(b)}", inputs, fn2, goals2, n_random=1))
    return hs


def leafmap(f, *xs):
    ls = [jax.tree_util.tree_leaves(x) for x in xs]
    return [f(*v) for v in zip(*ls)]


def same_as(cls, b, what, call, ref, batches=None, expect=None, extra=(), reduce_all=False):
    """call(instances, *extra) must equal, leaf by leaf, ref(leaves, *extra)."""
    specs = [(n, s) for n, s in zip("xyz", batches or [b])]
    inputs = [i for p, s in specs for i in mk_inputs(p, cls, s)] + list(extra)

    def fn(*arrays):
        xs, rest = args_of(specs, cls, arrays)
        got = call(xs, *rest)
        if not reduce_all:
            assert type(got) is cls, type(got)
        return {"got": jax.tree_util.tree_leaves(got), "ref": leafmap(lambda *v: ref(*v, *rest), *xs)}

    def goals(I, O):
        n = len(fields_of(cls))
        refs = [O[f"ref.{k}"] for k in range(n)]
        if reduce_all:
            want = T.And(*[t for r in refs for t in r.flat()])
            return scalar_goal(what, O["got.0"], want)
        if f"got.{n - 1}" not in O or f"got.{n}" in O:
            return [(f"{what}: one result per field", False)]
        g = []
        for k, (path, _, _, _) in enumerate(fields_of(cls)):
            g += leaf_goal(f"{what}: {path}", O[f"got.{k}"], refs[k].el, refs[k].dtype)
        return g
    return Harness(f"{what}_{cls.__name__}_{'_'.join(bstr(s) for _, s in specs)}".replace(" ", ""), inputs, fn, goals,
                   n_random=1)


def close(tier):
    hs = []
    classes = [VA, VS, VF, VT, Nested] if tier == "thorough" else [VA, VF, Nested, VS]
    for cls in classes:
        for b in [(), (2,), (2, 2)] if cls is not VF else [(), (2,)]:
            for kw in ({}, dict(rtol=0.5, atol=2.0), dict(equal_nan=True), dict(rtol=0.0, atol=1.0, equal_nan=True)):
                nm = "".join(f"_{k}{v}" for k, v in kw.items())
                hs.append(same_as(cls, b, "isclose" + nm, lambda xs, kw=kw: xnp.isclose(*xs, **kw),
                                  lambda p, q, kw=kw: jnp.isclose(p, q, **kw), [b, b]))
                hs.append(same_as(cls, b, "x.isclose" + nm, lambda xs, kw=kw: xs[0].isclose(xs[1], **kw),
                                  lambda p, q, kw=kw: jnp.isclose(p, q, **kw), [b, b]))
                hs.append(same_as(cls, b, "allclose" + nm, lambda xs, kw=kw: xnp.allclose(*xs, **kw),
                                  lambda p, q, kw=kw: jnp.isclose(p, q, **kw), [b, b], reduce_all=True))
                hs.append(same_as(cls, b, "x.allclose" + nm, lambda xs, kw=kw: xs[0].allclose(xs[1], **kw),
                                  lambda p, q, kw=kw: jnp.isclose(p, q, **kw), [b, b], reduce_all=True))
    return hs


def casts(tier):
    hs = []
    for cls in ALL:
        for b in ((), (3,), (2, 2)):
            for d in (jnp.uint8, jnp.int32, jnp.float32, jnp.bool_, jnp.uint32, jnp.int16, jnp.float16):
                n = np.dtype(d).name
                hs.append(same_as(cls, b, f"astype_{n}", lambda xs, d=d: xnp.astype(xs[0], d), lambda p, d=d: p.astype(d)))
                if b == (3,):
                    hs.append(same_as(cls, b, f"x.astype_{n}", lambda xs, d=d: xs[0].astype(d), lambda p, d=d: p.astype(d)))
    return hs


def fills(tier):
    hs = []
    for cls in ALL:
        for b in BATCHES:
            hs.append(same_as(cls, b, "zeros_like", lambda xs: xnp.zeros_like(xs[0]), lambda p: jnp.zeros_like(p)))
            hs.append(same_as(cls, b, "ones_like", lambda xs: xnp.ones_like(xs[0]), lambda p: jnp.ones_like(p)))
            for d in (np.uint8, np.int32, np.bool_, np.float32):
                hs.append(same_as(cls, b, f"full_like_{np.dtype(d).name}", lambda xs, v: xnp.full_like(xs[0], v),
                                  lambda p, v: jnp.full_like(p, v), extra=[Inp("v", (), d)]))
            hs.append(same_as(cls, b, "full_like_7", lambda xs: xnp.full_like(xs[0], 7), lambda p: jnp.full_like(p, 7)))
    return hs


def fac(shape, dtype):
    return jnp.arange(int(np.prod(shape)), dtype=dtype).reshape(shape) if shape else jnp.asarray(9, dtype)


@xtructure_dataclass
class D1:
    """Every way to declare a default."""
    u: FieldDescriptor.scalar(dtype=jnp.uint16)
    i: FieldDescriptor.scalar(dtype=jnp.int8)
    f: FieldDescriptor.tensor(dtype=jnp.float32, shape=(2,))
    b: FieldDescriptor.scalar(dtype=jnp.bool_)
    z: FieldDescriptor.scalar(dtype=jnp.uint32, default=0)
    n: FieldDescriptor.tensor(dtype=jnp.int32, shape=(2, 2), fill_value=-7)
    h: FieldDescriptor.scalar(dtype=jnp.float16, default=0.5)
    w: FieldDescriptor.scalar(dtype=jnp.uint8, bits=3)
    t: FieldDescriptor.tensor(dtype=jnp.bool_, shape=(3,), fill_value=True)
    k: FieldDescriptor.tensor(dtype=jnp.int32, shape=(3,), fill_value_factory=fac)
    v: FieldDescriptor[jnp.uint8, (2,), 4]


@xtructure_dataclass
class D2:
    """Nested defaults, scalar and repeated."""
    a: FieldDescriptor.scalar(dtype=D1)
    c: FieldDescriptor.tensor(dtype=Inner, shape=(2,))
    p: FieldDescriptor.packed_tensor(shape=(5,), packed_bits=3)


WANT1 = dict(u=((), np.uint16, 65535), i=((), np.int8, 0), f=((2,), np.float32, np.inf), b=((), np.bool_, False),
             z=((), np.uint32, 0), n=((2, 2), np.int32, -7), h=((), np.float16, 0.5), w=((), np.uint8, 7),
             t=((3,), np.bool_, True), k=((3,), np.int32, None), v=((2,), np.uint8, 4))


def want_default(cls, b):
    """{path: expected array}"""
    if cls is D1:
        return {n: (np.full(b + s, v, dtype=d) if v is not None else np.asarray(fac(b + s, d)))
                for n, (s, d, v) in WANT1.items()}
    out = {"a." + k: v for k, v in want_default(D1, b).items()}
    out["c.p"] = np.full(b + (2,), 255, np.uint8)
    out["c.q"] = np.full(b + (2, 2), 2 ** 32 - 1, np.uint32)
    out["p"] = np.zeros(b + (3,), np.uint8)
    return out


def defaults(tier):
    hs = []
    for cls in (D1, D2):
        for b in [(), (0,), (1,), (3,), (2, 3), (1, 2, 2)]:
            def fn(z, cls=cls, b=b):
                return {"d": cls.default(b), "e": cls.default(shape=b)} | ({"n": cls.default()} if b == () else {})

            def goals(I, O, cls=cls, b=b):
                g = []
                for pre in ("d", "e") + (("n",) if b == () else ()):
                    for path, w in want_default(cls, b).items():
                        if f"{pre}.{path}" not in O:
                            g.append((f"default has field {path}", False))
                            continue
                        g += leaf_goal(f"default: {path}", O[f"{pre}.{path}"], lift(w).el, w.dtype)
                return g
            hs.append(Harness(f"default_{cls.__name__}_{bstr(b)}", [Inp("z", (), np.uint8)], fn, goals, n_random=1))
    return hs


JOBS = {
    "ops": dict(build=ops, cost=40, mem_gb=8),
    "close": dict(build=close, cost=60, mem_gb=8),
    "casts": dict(build=casts, cost=60, mem_gb=8),
    "fills": dict(build=fills, cost=40, mem_gb=8),
    "defaults": dict(build=defaults, cost=10, mem_gb=8),
}

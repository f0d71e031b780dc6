"""save followed by load gives back the same instance, bit for bit."""
import os
import sys
import tempfile

from props.pack_common import *  # noqa: F401,F403
from xtructure import io as xio

META = {
    "explanation": (
        "save and load are traced end to end with symbolic field contents; only the .npz container itself is replaced "
        "by a model (a dictionary that, like numpy's format, keeps extended dtypes as raw bytes). The solver shows for "
        "all contents that every leaf of the loaded instance has the saved dtype, shape and bits, for packed and "
        "unpacked saving. The model is validated against real files: every witness and random input is saved to and "
        "loaded from a scratch directory and compared with the encoding."),
    "bounds": "declared widths 1..32, dtypes bool, u/int 8-32, float16/32, bfloat16; nested (two levels), packed_tensor "
              "and aggregate-packed classes; batch shapes (), (0,), (1,), (3,), (2,2)",
    "assumptions": ["values fit the declared width of their field", "the zip container of .npz is outside the check",
                    "field names are keyword arguments numpy.savez accepts"],
}

KEEP = ("asarray", "array", "asanyarray", "ascontiguousarray", "copy", "atleast_1d", "squeeze", "ravel", "reshape")
_np = {k: getattr(np, k) for k in KEEP + ("load", "savez_compressed", "savez")}
NATIVE = "?bhilqBHILQefdgFD"


class RawBytes:
    """What .npz gives back for an extended dtype: its bytes without a type."""

    def __init__(self, v):
        self.v, self.shape, self.ndim = v, v.shape, v.ndim
        self.dtype = np.dtype(f"V{np.dtype(v.dtype).itemsize}")

    def view(self, dt):
        dt = np.dtype(dt)
        if dt.itemsize != self.dtype.itemsize:
            raise ValueError("itemsize")
        return self.v if dt == self.v.dtype else jax.lax.bitcast_convert_type(self.v, dt)

    def reshape(self, *s):
        return RawBytes(self.v.reshape(*s))


class Npz(dict):
    @property
    def files(self):
        return list(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def is_tr(x):
    return isinstance(x, (jax.core.Tracer, RawBytes))


@contextlib.contextmanager
def memory_files():
    store = {}

    def keep(f, name):
        def g(a, *p, **k):
            if not is_tr(a):
                return f(a, *p, **k)
            if name in ("reshape", "ravel", "squeeze", "atleast_1d"):
                return getattr(jnp, name)(a, *p, **k)
            dt = k.get("dtype", p[0] if p else None)
            if isinstance(a, RawBytes) or dt is None:
                return a
            return a.astype(dt)
        return g

    def where(f):
        return os.path.realpath(os.fspath(getattr(f, "name", f)))

    def savez(path, *a, **kw):
        assert not a
        kw.pop("allow_pickle", None)
        store[where(path)] = Npz({k: RawBytes(v) if isinstance(v, jax.core.Tracer) and np.dtype(v.dtype).char not in NATIVE
                                  else v if is_tr(v) else np.asarray(v) for k, v in kw.items()})
        if not hasattr(path, "write"):
            open(path, "wb").close()

    def load(path, *a, **k):
        return store[where(path)]

    def get(x):
        return jax.tree_util.tree_map(lambda v: v if is_tr(v) else _get(v), x, is_leaf=is_tr)

    _get = jax.device_get
    try:
        for k in KEEP:
            setattr(np, k, keep(_np[k], k))
        np.savez_compressed = np.savez = savez
        np.load = load
        jax.device_get = get
        with tempfile.TemporaryDirectory() as d:
            yield os.path.join(d, "new")
    finally:
        for k, v in _np.items():
            setattr(np, k, v)
        jax.device_get = _get


def reg(name, C):
    """Classes are found again by module and name."""
    C.__module__, C.__name__, C.__qualname__ = __name__, name, name
    setattr(sys.modules[__name__], name, C)
    return C


def mkc(name, ann, **kw):
    return reg(name, xtructure_dataclass(type(name, (), {"__module__": __name__, "__annotations__": ann}), **kw))


def rtrip(name, C, batch, bits=None, packed=True, direct=False):
    """bits: {leaf path: width} for values limited to their width."""
    bits = bits or {}
    inputs = [ranged(i.name, i.shape, i.dtype, bits[i.name[2:]]) if i.name[2:] in bits else i
              for i in mk_inputs("x", C, batch)]

    def fn(*arrays):
        x = build(C, batch, arrays)
        if any(isinstance(a, jax.core.Tracer) for a in arrays):
            with memory_files() as d:
                p = os.path.join(d, "x.npz")
                x.save(p, packed=packed)
                y = xio.load(p) if direct else C.load(p)
        else:
            with tempfile.TemporaryDirectory() as d:
                p = os.path.join(d, "new", "x.npz")
                if direct:
                    xio.save(p, x, packed=packed)
                    y = xio.load(p)
                else:
                    x.save(p, packed=packed)
                    y = C.load(p)
        assert type(y) is C, type(y)
        return {"r": y}

    def goals(I, O):
        g = []
        for i in inputs:
            got, want = O.get("r" + i.name[1:]), I[i.name]
            if got is None:
                return [(f"{i.name[2:]} is loaded", False)]
            if tuple(got.shape) != tuple(want.shape) or got.dtype != want.dtype:
                g.append((f"{i.name[2:]}: {want.dtype}{want.shape} expected, got {got.dtype}{got.shape}", False))
                continue
            g.append((i.name[2:], T.And(*[T.eq(p, q, got.w) for p, q in zip(got.flat(), want.flat())])))
        return g
    return Harness(name, inputs, fn, goals, eager=True, n_random=2)


BATCHES = ((), (3,), (2, 2), (0,), (1,))


def widths(bs, tier):
    hs = []
    for b in bs:
        dts = [np.uint8 if b <= 8 else np.uint16 if b <= 16 else np.uint32]
        if b == 1:
            dts.append(np.bool_)
        dts.append(np.int8 if b < 8 else np.int16 if b < 16 else np.int32 if b < 32 else np.uint32)
        if b <= 16:
            dts.append(np.uint32)
        for dt in dict.fromkeys(dts):
            for k, shp in enumerate(((3,), ())):
                nm = f"W{b}_{np.dtype(dt).name}_{k}"
                ann = {"a": FieldDescriptor.tensor(dtype=dt, shape=shp, bits=b) if shp else FieldDescriptor.scalar(dtype=dt, bits=b),
                       "z": FieldDescriptor.scalar(dtype=jnp.uint8)}
                C = mkc(nm, ann)
                for bt in (BATCHES if tier == "thorough" else ((3,), ()) if k else ((3,), (0,), (2, 2))):
                    hs.append(rtrip(f"{nm}_{bt}".replace(" ", ""), C, bt, {"a": b}))
    return hs


def plain(tier):
    hs = []
    for dt in (np.bool_, np.uint8, np.uint16, np.uint32, np.int8, np.int16, np.int32, np.float32, jnp.float16, jnp.bfloat16):
        d = np.dtype(dt)
        C = mkc(f"D_{d.name}", {"a": FieldDescriptor.tensor(dtype=dt, shape=(2, 2), fill_value=1),
                                "b": FieldDescriptor.scalar(dtype=dt, default=0)})
        for bt in BATCHES:
            for pk in (True, False):
                hs.append(rtrip(f"D_{d.name}_{bt}_{pk}".replace(" ", ""), C, bt, packed=pk, direct=pk))
    return hs


def structured(tier):
    hs = []
    In = mkc("SIn", {"p": FieldDescriptor.scalar(dtype=jnp.uint8, bits=3), "q": FieldDescriptor.tensor(dtype=jnp.uint32, shape=(2,)),
                     "h": FieldDescriptor.scalar(dtype=jnp.bfloat16)})
    Mid = mkc("SMid", {"i": FieldDescriptor.scalar(dtype=In), "p": FieldDescriptor.scalar(dtype=jnp.uint16, bits=12)})
    Out = mkc("SOut", {"m": FieldDescriptor.scalar(dtype=Mid), "i": FieldDescriptor.tensor(dtype=In, shape=(2,)),
                       "p": FieldDescriptor.scalar(dtype=jnp.bool_, bits=1)})
    PT = mkc("SPT", {"f": FieldDescriptor.packed_tensor(shape=(5,), packed_bits=3),
                     "g": FieldDescriptor.packed_tensor(shape=(2, 3), packed_bits=12), "n": FieldDescriptor.scalar(dtype=In)})
    AG = mkc("SAG", {"a": FieldDescriptor.tensor(dtype=jnp.uint8, shape=(3,), bits=5, fill_value=0),
                     "b": FieldDescriptor.scalar(dtype=jnp.uint32, bits=30, default=0),
                     "c": FieldDescriptor.tensor(dtype=jnp.bool_, shape=(2,), bits=1, fill_value=False)}, aggregate_bitpack=True)
    ONE = mkc("SOne", {"only": FieldDescriptor.scalar(dtype=jnp.uint32)})
    VAL = mkc("SVal", {"a": FieldDescriptor.scalar(dtype=jnp.uint8, bits=4), "t": FieldDescriptor.tensor(dtype=jnp.int32, shape=(2,))},
              validate=True)
    for bt in BATCHES:
        for pk in (True, False):
            t = f"{bt}_{pk}".replace(" ", "")
            hs.append(rtrip(f"nested1_{t}", Mid, bt, {"i.p": 3, "p": 12}, packed=pk))
            hs.append(rtrip(f"nested2_{t}", Out, bt, {"m.i.p": 3, "m.p": 12, "i.p": 3}, packed=pk, direct=not pk))
            hs.append(rtrip(f"packed_tensor_{t}", PT, bt, {"n.p": 3}, packed=pk))
            hs.append(rtrip(f"aggregate_{t}", AG, bt, {"a": 5, "b": 30}, packed=pk))
            hs.append(rtrip(f"one_{t}", ONE, bt, packed=pk))
            hs.append(rtrip(f"validated_{t}", VAL, bt, {"a": 4}, packed=pk))
    P = AG.Packed if hasattr(AG, "Packed") else None
    if P is not None and tier == "never":
        hs.append(rtrip("agg_storage", P, (2,)))
    return hs


def large(tier):
    """Lengths that need more than one byte, or two, to write down."""
    hs = []
    for nm, shape, batch in (("t300", (300,), ()), ("b260", (), (260,)), ("t2x257", (2, 257), ()), ("b2x256", (), (2, 256))):
        C = mkc("L" + nm, {"a": FieldDescriptor.tensor(dtype=np.uint8, shape=shape, bits=3, fill_value=0) if shape else
                           FieldDescriptor.scalar(dtype=np.uint8, bits=3, default=0)})
        hs.append(rtrip("large_" + nm, C, batch, {"a": 3}))

    for n in (40000, 70000):
        C = mkc(f"L{n}", {"a": FieldDescriptor.tensor(dtype=np.bool_, shape=(n,), bits=1, fill_value=False)})

        def fn(k, C=C, n=n):
            z = jnp.zeros((n,), np.bool_)
            x = C(a=jnp.concatenate([k[:2], z[4:], k[2:]]))
            if isinstance(k, jax.core.Tracer):
                with memory_files() as d:
                    p = os.path.join(d, "m.npz")
                    x.save(p)
                    y = C.load(p)
            else:
                with tempfile.TemporaryDirectory() as tmp:
                    p = os.path.join(tmp, "m.npz")
                    x.save(p)
                    y = C.load(p)
            return {"a": jnp.concatenate([y.a[:2], y.a[-2:]]), "mid": y.a[2:-2].any(),
                    "n": jnp.uint32(y.a.shape[0])}

        def goals(I, O, n=n):
            return [("length", T.eq(O.n.flat()[0], n, 32)), ("the rest stays zero", T.Not(O.mid.flat()[0])),
                    ("ends", T.And(*[T.Iff(p, q) for p, q in zip(O.a.flat(), I.k.flat())]))]
        hs.append(Harness(f"large_{n}", [Inp("k", (4,), np.bool_)], fn, goals, eager=True, n_random=1))
    return hs


def defaults(tier):
    """A default instance survives the round trip whatever its declared width."""
    hs = []
    for b in range(1, 33):
        for dt in dict.fromkeys((np.uint8 if b <= 8 else np.uint16 if b <= 16 else np.uint32, np.uint32)):
            C = mkc(f"Df{b}_{np.dtype(dt).name}", {"a": FieldDescriptor.scalar(dtype=dt, bits=b),
                                                   "t": FieldDescriptor.tensor(dtype=dt, shape=(3,), bits=b)})

            def fn(k, C=C):
                x = C.default((2,))
                x = x.replace(a=x.a.at[0].set(k))     # one symbolic value beside the defaults
                d = C.default((2,))
                if isinstance(k, jax.core.Tracer):
                    with memory_files() as d2:
                        p = os.path.join(d2, "m.npz")
                        x.save(p)
                        y = C.load(p)
                else:
                    with tempfile.TemporaryDirectory() as tmp:
                        p = os.path.join(tmp, "m.npz")
                        x.save(p)
                        y = C.load(p)
                return {"a": y.a, "t": y.t, "da": d.a, "dt": d.t}

            def goals(I, O):
                return [("symbolic value", T.eq(O.a.el[0], I.k.flat()[0], O.a.w)), ("default scalar", T.eq(O.a.el[1], O.da.el[1], O.a.w)),
                        ("default tensor", T.And(*[T.eq(p, q, O.t.w) for p, q in zip(O.t.flat(), O.dt.flat())]))]
            hs.append(Harness(f"default_{b}_{np.dtype(dt).name}", [ranged("k", (), dt, b)], fn, goals, eager=True, n_random=1))
    return hs


JOBS = {f"b{a}_{b}": dict(build=lambda t, a=a, b=b: widths(range(a, b + 1), t), cost=20)
        for a, b in ((1, 4), (5, 8), (9, 14), (15, 20), (21, 26), (27, 32))}
JOBS.update(plain=dict(build=plain, cost=15), structured=dict(build=structured, cost=15), defaults=dict(build=defaults, cost=10), large=dict(build=large, cost=15))

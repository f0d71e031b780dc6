"""Oracle for operations that only move records: numpy on an array of record numbers."""
from props.common import *  # noqa: F401,F403

from xtructure import numpy as xnp


@xtructure_dataclass
class VS:
    """Scalar fields only."""
    a: FieldDescriptor.scalar(dtype=jnp.uint32)
    f: FieldDescriptor.scalar(dtype=jnp.float32)
    b: FieldDescriptor.scalar(dtype=jnp.bool_)


@xtructure_dataclass
class VT:
    """Wider tensor fields, one of batch-like size."""
    m: FieldDescriptor.tensor(dtype=jnp.int16, shape=(2, 3))
    s: FieldDescriptor.scalar(dtype=jnp.int32, default=-5)
    v: FieldDescriptor.tensor(dtype=jnp.uint8, shape=(3,))


def fields_of(cls):
    """[(path, intrinsic shape, dtype, default row elements)]"""
    inst = cls.default(())
    return [(jax.tree_util.keystr(p).strip("."), l.shape, l.dtype, lift(np.asarray(l)).el)
            for p, l in jax.tree_util.tree_flatten_with_path(inst)[0]]


def lift(a):
    return X.lift(a)


class Src:
    """All records of the given instances, numbered; the last one is the default record."""

    def __init__(self, I, cls, specs):
        self.cls, self.ids, self.tab = cls, {}, {}
        base = 0
        for pre, batch in specs:
            n = int(np.prod(batch))
            self.ids[pre] = np.arange(base, base + n).reshape(batch)
            base += n
        self.dflt = base
        self.fs = fields_of(cls)
        for path, intr, dt, d in self.fs:
            rows = np.empty((base + 1,) + intr, dtype=object)
            k = 0
            for pre, batch in specs:
                n = int(np.prod(batch))
                rows[k:k + n] = I[f"{pre}.{path}"].el.reshape((n,) + intr)
                k += n
            rows[base] = d if intr else d[()]
            self.tab[path] = rows

    def goals(self, O, pre, ids, what, dtypes=None):
        """ids: numpy array of record numbers the result must hold."""
        ids = np.asarray(ids)
        g = []
        for path, intr, dt, _ in self.fs:
            got = O.get(f"{pre}.{path}")
            if got is None:
                return [(f"{what}: field {path} present", False)]
            want = self.tab[path][ids]
            if not isinstance(want, np.ndarray):
                want = X._scalar(want)
            g += leaf_goal(f"{what}: {path}", got, want, dt)
        return g

    def goals_sym(self, O, pre, pick, shape, what, valid=None):
        """pick(pos) -> [(condition, record number)], exhaustive; the last condition is ignored."""
        g = []
        for path, intr, dt, _ in self.fs:
            got = O.get(f"{pre}.{path}")
            if got is None:
                return [(f"{what}: field {path} present", False)]
            want = np.empty(tuple(shape) + intr, dtype=object)
            w = width(np.dtype(dt))
            for pos in np.ndindex(*shape):
                opts = pick(pos)
                for q in np.ndindex(*intr):
                    r = self.tab[path][(opts[-1][1],) + q]
                    for c, i in reversed(opts[:-1]):
                        r = T.ite(c, self.tab[path][(i,) + q], r, w)
                    if pos + q == ():
                        want = X._scalar(r)
                    else:
                        want[pos + q] = r
            g += leaf_goal(f"{what}: {path}", got, want, dt)
        return g


def leaf_goal(what, got, want, dt):
    dt = np.dtype(dt)
    if tuple(got.shape) != tuple(want.shape):
        return [(f"{what}: shape {tuple(want.shape)} expected, got {tuple(got.shape)}", False)]
    if got.dtype != dt:
        return [(f"{what}: dtype {dt} expected, got {got.dtype}", False)]
    return [(what, T.And(*[T.eq(x, y, got.w) for x, y in zip(got.flat(), want.reshape(-1))]))]


def args_of(specs, cls, arrays):
    """Rebuild the instances from the flat argument list; returns (instances, remaining)."""
    out, k = [], 0
    for _, batch in specs:
        n = len(leaves_spec(cls, batch))
        out.append(build(cls, batch, arrays[k:k + n]))
        k += n
    return out, arrays[k:]


def move(name, cls, batches, call, oracle, extra=(), assume=None, n_out=1, eager=False, **kw):
    """call(instances, *extra) -> instance(s); oracle(id arrays, default id) -> id array(s)."""
    specs = [(f"x{i}", b) for i, b in enumerate(batches)]
    inputs = [x for pre, b in specs for x in mk_inputs(pre, cls, b)] + list(extra)

    def fn(*arrays):
        xs, rest = args_of(specs, cls, arrays)
        r = call(xs, *rest)
        if n_out != 1:
            r = list(r)
            assert len(r) == n_out, (len(r), n_out)
            for e in r:
                assert type(e) is cls
            return {f"r{i}": e for i, e in enumerate(r)}
        assert type(r) is cls, type(r)
        return {"r0": r}

    def goals(I, O):
        s = Src(I, cls, specs)
        want = oracle([s.ids[p] for p, _ in specs], s.dflt)
        want = want if n_out != 1 else [want]
        g = []
        for i, ids in enumerate(want):
            g += s.goals(O, f"r{i}", ids, f"result {i}" if n_out != 1 else "result")
        return g
    return Harness(name, inputs, fn, goals, assume=assume, n_random=1, eager=eager, **kw)


def bstr(b):
    return "x".join(map(str, b)) or "1rec"

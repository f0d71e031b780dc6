"""Stand-ins for arrays whose dimensions are symbolic, for executing the Python source of /repo symbolically."""
from props.common import *  # noqa: F401,F403
from symx import pysym as PS
from symx.pysym import PyHarness, SymInt, SymNum, conj, eq, patched, z3  # noqa: F401


class Leaf:
    """An array of which only shape and dtype exist."""
    __hash__ = None

    def __init__(self, shape, dtype):
        self.shape = tuple(shape)
        self.dtype = np.dtype(dtype)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        n = 1
        for d in self.shape:
            n = n * d
        return n

    def __len__(self):
        raise PS.Unsupported("len of a symbolic array")

    def __array__(self, *a, **k):
        raise PS.Unsupported("values of a symbolic array")


def sym_shape(s):
    return any(isinstance(d, SymNum) for d in (s if isinstance(s, (tuple, list)) else (s,)))


class JnpShim:
    """jax.numpy, except that arrays of symbolic shape become Leafs."""

    def __getattr__(self, k):
        return getattr(jnp, k)

    def asarray(self, x, *a, **k):
        return x if isinstance(x, Leaf) else jnp.asarray(x, *a, **k)

    array = asarray

    def shape(self, x):
        return x.shape if isinstance(x, Leaf) else jnp.shape(x)

    def ndim(self, x):
        return x.ndim if isinstance(x, Leaf) else jnp.ndim(x)

    def _mk(name):  # noqa: N805
        def f(self, shape, *a, dtype=None, **k):
            if not sym_shape(shape) and (PS.CTX is None or np.prod(np.array(shape, dtype=float)) <= 1 << 16):
                return getattr(jnp, name)(shape, *a, **(dict(k, dtype=dtype) if dtype is not None else k))
            d = dtype if dtype is not None else (a[-1] if a and name != "full" else jnp.float32)
            return Leaf(shape if isinstance(shape, (tuple, list)) else (shape,), jnp.dtype(d))
        return f

    zeros, ones, empty, full = _mk("zeros"), _mk("ones"), _mk("empty"), _mk("full")


SHIM = JnpShim()


def real_array(shape, dtype):
    n = int(np.prod(shape)) if shape else 1
    return jnp.zeros(shape, dtype) if n <= 1 << 20 else np.broadcast_to(np.zeros((), dtype), shape)


def mk_leaf(shape, dtype):
    return Leaf(shape, dtype) if sym_shape(tuple(shape)) or PS.CTX is not None else real_array(tuple(shape), dtype)


def unwrapped(mod):
    """{name: undecorated function} for the jitted functions of a module."""
    return {k: v.__wrapped__ for k, v in vars(mod).items()
            if hasattr(v, "__wrapped__") and hasattr(v, "lower") and callable(v)}

"""Shared value classes, contexts and oracle helpers for the property harnesses."""
import contextlib

import jax
import jax.numpy as jnp
import numpy as np

from symx import interp as X
from symx import terms as T
from symx.harness import Bag, Harness, Inp  # noqa: F401
from symx.interp import SArr, width
from symx.terms import z3  # noqa: F401

from xtructure import FieldDescriptor, xtructure_dataclass

TIER, SEED = "quick", 1


def setup(tier, seed):
    global TIER, SEED
    TIER, SEED = tier, seed


@xtructure_dataclass
class VA:
    """Two fields of different rank: a mis-paired field shows."""
    a: FieldDescriptor.scalar(dtype=jnp.uint32)
    b: FieldDescriptor.tensor(dtype=jnp.uint8, shape=(2,))


@xtructure_dataclass
class V8:
    a: FieldDescriptor.scalar(dtype=jnp.uint8)


@xtructure_dataclass
class VB:
    x: FieldDescriptor.tensor(dtype=jnp.int16, shape=(2,))
    f: FieldDescriptor.scalar(dtype=jnp.bool_)


@xtructure_dataclass
class Inner:
    p: FieldDescriptor.scalar(dtype=jnp.uint8)
    q: FieldDescriptor.tensor(dtype=jnp.uint32, shape=(2,))


@xtructure_dataclass
class Nested:
    i: FieldDescriptor.scalar(dtype=Inner)
    t: FieldDescriptor.scalar(dtype=jnp.uint16)


def leaves_spec(cls, batch):
    """[(path, shape, dtype)] of a default instance of cls with this batch shape."""
    inst = cls.default(batch)
    out = []
    for path, leaf in jax.tree_util.tree_flatten_with_path(inst)[0]:
        out.append((jax.tree_util.keystr(path).strip("."), leaf.shape, leaf.dtype))
    return out


def mk_inputs(prefix, cls, batch, dom=None):
    """Symbolic inputs for one instance of cls."""
    return [Inp(f"{prefix}.{p}", s, d, dom=dom) for p, s, d in leaves_spec(cls, batch)]


def build(cls, batch, arrays):
    inst = cls.default(batch)
    td = jax.tree_util.tree_structure(inst)
    return jax.tree_util.tree_unflatten(td, list(arrays))


def unpack_leaves(inst):
    return {jax.tree_util.keystr(p).strip("."): l
            for p, l in jax.tree_util.tree_flatten_with_path(inst)[0]}


def rows_of(I, prefix, cls, n_batch_dims=1):
    """Per-row tuples of elements of a batched instance, as (elements, widths)."""
    pre = prefix + "."
    leaves = [(k, v) for k, v in I.items() if k.startswith(pre)]
    n = leaves[0][1].shape[0]
    rows = []
    for r in range(n):
        row = []
        for k, v in leaves:
            e = v.el[r]
            row += list(e.reshape(-1)) if isinstance(e, np.ndarray) else [e]
        rows.append(row)
    return rows


def widths_of(I, prefix):
    pre = prefix + "."
    ws = []
    for k, v in I.items():
        if k.startswith(pre):
            n = int(np.prod(v.shape[1:])) if v.ndim else 1
            ws += [v.w] * n
    return ws


def row1(I, prefix):
    """Elements of an unbatched instance."""
    pre = prefix + "."
    out = []
    for k, v in I.items():
        if k.startswith(pre):
            out += v.flat()
    return out


def rows_eq(a, b, ws):
    assert len(a) == len(b) == len(ws), (len(a), len(b), len(ws))
    return T.And(*[T.eq(x, y, w) for x, y, w in zip(a, b, ws)])


def select_row(rows, idx, iw, ws, lo=0):
    """rows[idx] for a possibly symbolic index (0-based, in range)."""
    r = list(rows[-1])
    for k in reversed(range(len(rows) - 1)):
        c = T.eq(idx, k, iw)
        r = [T.ite(c, x, y, w) for x, y, w in zip(rows[k], r, ws)]
    return r


def ite_row(c, a, b, ws):
    return [T.ite(c, x, y, w) for x, y, w in zip(a, b, ws)]


@contextlib.contextmanager
def patched(obj, name, val):
    old = getattr(obj, name)
    setattr(obj, name, val)
    try:
        yield
    finally:
        setattr(obj, name, old)


@contextlib.contextmanager
def fresh_trace():
    jax.clear_caches()
    try:
        yield
    finally:
        jax.clear_caches()


def ones(w):
    return T.mask(w)

"""shape, batch shape, structured type, len and ndim describe the instance for every combination of field shapes."""
from props.py_common import *  # noqa: F401,F403
import importlib
import itertools
from xtructure.core.structuredtype import StructuredType

SH = importlib.import_module("xtructure.core.xtructure_decorators.shape")

META = {
    "explanation": (
        "The Python source of the shape, batch_shape, structured_type, ndim and len accessors is executed symbolically: "
        "every dimension of every field of an instance is an unbounded integer variable, branches fork, and for every "
        "path the solver shows that the reported batch shape is b exactly if every field (nested ones included) has "
        "shape b followed by its declared shape, that instances without such a b are reported UNSTRUCTURED (batch "
        "shape -1, len and ndim raise TypeError), and that len and ndim are those of b."),
    "bounds": "up to 4 leaf fields in 7 record classes, two levels of nesting; up to 2 (quick) or 3 batch dimensions "
              "per field; dimensions unbounded",
    "assumptions": ["field values are not reassigned in place after the first look at shape"],
}


@xtructure_dataclass
class One:
    a: FieldDescriptor.scalar(dtype=jnp.uint32)


@xtructure_dataclass
class OneT:
    v: FieldDescriptor.tensor(dtype=jnp.uint8, shape=(3,))


@xtructure_dataclass
class Mix:
    a: FieldDescriptor.scalar(dtype=jnp.uint32)
    v: FieldDescriptor.tensor(dtype=jnp.float32, shape=(3,))
    m: FieldDescriptor.tensor(dtype=jnp.int8, shape=(2, 3))


@xtructure_dataclass
class TT:
    m: FieldDescriptor.tensor(dtype=jnp.int8, shape=(3, 3))
    v: FieldDescriptor.tensor(dtype=jnp.float32, shape=(3,))


@xtructure_dataclass
class In:
    p: FieldDescriptor.scalar(dtype=jnp.uint8)
    q: FieldDescriptor.tensor(dtype=jnp.uint8, shape=(2,))


@xtructure_dataclass
class NS:
    n: FieldDescriptor.scalar(dtype=In)
    x: FieldDescriptor.scalar(dtype=jnp.uint32)


@xtructure_dataclass
class NT:
    x: FieldDescriptor.scalar(dtype=jnp.uint32)
    n: FieldDescriptor.tensor(dtype=In, shape=(2,))


@xtructure_dataclass
class NNS:
    o: FieldDescriptor.tensor(dtype=NS, shape=(3,))


def tree(cls, pre=()):
    """[(path, total intrinsic shape, dtype)], nested structure."""
    out = []
    for name, fd in cls.__xtructure_field_descriptors__.items() if hasattr(cls, "__xtructure_field_descriptors__") \
            else _descr(cls):
        intr = tuple(fd.intrinsic_shape)
        if hasattr(fd.dtype, "is_xtructed"):
            out.append((name, intr, tree(fd.dtype)))
        else:
            out.append((name, intr, np.dtype(fd.dtype)))
    return out


def _descr(cls):
    from xtructure.core.field_descriptors import get_field_descriptors
    return get_field_descriptors(cls).items()


def leaves(t, pre="", intr=()):
    for name, i, d in t:
        if isinstance(d, list):
            yield from leaves(d, pre + name + ".", intr + i)
        else:
            yield pre + name, intr + i, d


def make(cls, t, shapes, pre=""):
    kw = {}
    for name, i, d in t:
        if isinstance(d, list):
            from xtructure.core.field_descriptors import get_field_descriptors
            kw[name] = make(get_field_descriptors(cls)[name].dtype, d, shapes, pre + name + ".")
        else:
            kw[name] = mk_leaf(shapes[pre + name], d)
    return cls(**kw)


def accessors(x, modlen):
    def tryit(f):
        try:
            return f()
        except TypeError as e:
            return "TypeError"
    return {"shape": x.shape, "batch_shape": x.batch_shape, "structured": x.structured_type.name,
            "ndim": tryit(lambda: x.ndim), "len": tryit(lambda: modlen(x)), "again": x.shape,
            "dtype": tuple(str(d) if not isinstance(d, tuple) else tuple(map(str, d)) for d in x.dtype)
            if all(not hasattr(d, "_fields") for d in x.dtype) else ()}


def want_fields(t):
    out = []
    for name, i, d in t:
        out.append((i,) + tuple(want_fields(d)) if isinstance(d, list) else i)
    return out


def harness(cls, ranks):
    t = tree(cls)
    lv = list(leaves(t))
    names = {p: [f"{p}_{k}" for k in range(r)] for (p, _, _), r in zip(lv, ranks)}
    vs = [n for ns in names.values() for n in ns]

    def shapes(V):
        return {p: tuple(V[n] for n in ns) for p, ns in names.items()}

    def call(V):
        return accessors(make(cls, t, shapes(V)), len)

    def symcall(V):
        with patched([SH], jnp=SHIM):
            return accessors(make(cls, t, shapes(V)), lambda x: type(x).__len__(x))

    def spec(V, out):
        kind, o = out
        if kind == "exc":
            return [(f"shape accessors raise {type(o).__name__}: {str(o)[:100]}", False)]
        s = shapes(V)
        # candidate batch shapes: from the first leaf's rank
        intr0 = lv[0][1]
        r0 = len(s[lv[0][0]]) - len(intr0)
        fits = False
        b = ()
        if r0 >= 0:
            b = s[lv[0][0]][:r0]
            fits = conj([eq(s[p], b + intr) for p, intr, _ in lv])
        fits = fits if isinstance(fits, bool) else fits

        def imp(cond, then):
            if cond is True:
                return then
            if cond is False:
                return True
            return z3.Implies(cond, then if z3.is_expr(then) else z3.BoolVal(bool(then)))

        def neg(c):
            return (not c) if isinstance(c, bool) else z3.Not(c)
        kindname = "SINGLE" if b == () else "BATCHED"
        g = [("shape.batch is the common batch shape", imp(fits, eq_batch(o["shape"].batch, b))),
             ("batch_shape is shape.batch", imp(fits, eq_batch(o["batch_shape"], b))),
             ("shape entries are the declared shapes", imp(fits, eq(tuple(o["shape"])[1:], tuple(want_fields(t))))),
             ("repeated shape is the same", eq(tuple(o["shape"]), tuple(o["again"]))),
             ("structured_type of a structured instance", imp(fits, o["structured"] == kindname)),
             ("ndim counts the batch dimensions", imp(fits, o["ndim"] == len(b) and type(o["ndim"]) is int)),
             ("len is the first batch dimension", imp(fits, eq(o["len"], b[0] if b else 1))),
             ("fields that do not fit one batch shape are UNSTRUCTURED",
              imp(neg(fits), o["structured"] == "UNSTRUCTURED")),
             ("unstructured instances have batch -1",
              imp(neg(fits), type(o["shape"].batch) is int and o["shape"].batch == -1
                  and type(o["batch_shape"]) is int and o["batch_shape"] == -1)),
             ("len and ndim of an unstructured instance raise TypeError",
              imp(neg(fits), o["len"] == "TypeError" and o["ndim"] == "TypeError"))]
        if o["dtype"]:
            g.append(("dtype lists the field dtypes", o["dtype"] == tuple(str(d) for _, _, d in lv)))
        return g

    return PyHarness(f"{cls.__name__}_{'_'.join(map(str, ranks))}", vs, call, spec, symcall=symcall,
                     assume=lambda V: [v.e >= 0 for v in V.values()], small=4, view=lambda out: (out[0], flat(out[1])),
                     replay_ok=lambda v: True)


def eq_batch(got, b):
    return eq(tuple(got), tuple(b)) if isinstance(got, tuple) else False


def flat(o):
    """Plain tuples only."""
    if isinstance(o, dict):
        return {k: flat(v) for k, v in o.items()}
    if isinstance(o, tuple):
        return tuple(flat(e) for e in o)
    return o


def job(classes):
    def build(tier):
        hs = []
        for cls in classes:
            lv = list(leaves(tree(cls)))
            top = 3 if tier == "thorough" else 2
            opts = [range(max(0, len(i) - 1), len(i) + top + 1) for _, i, _ in lv]
            for ranks in itertools.product(*opts):
                hs.append(harness(cls, ranks))
        return hs
    return build


JOBS = {
    "flat": dict(build=job([One, OneT, Mix, TT]), cost=30, mem_gb=6),
    "nested": dict(build=job([NS, NT]), cost=60, mem_gb=6),
    "deep": dict(build=job([NNS]), cost=60, mem_gb=6),
}

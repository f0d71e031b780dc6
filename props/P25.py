"""validate=True accepts exactly the instances whose fields have the declared dtypes and trailing shapes."""
from props.py_common import *  # noqa: F401,F403
from props.P23 import Mix, leaves, mk_leaf, tree
import importlib
import itertools

VAL = importlib.import_module("xtructure.core.xtructure_decorators.validation")

META = {
    "explanation": (
        "The Python source of check_invariants and of the validating constructor is executed symbolically: every "
        "dimension of every field value is an unbounded integer variable and dtypes are enumerated. For every path the "
        "solver shows that construction succeeds exactly when every field has its declared dtype and ends in its "
        "declared shape (and the custom validator accepts), raises TypeError or ValueError otherwise, and that an "
        "accepted instance holds exactly the values passed in."),
    "bounds": "classes with up to 3 fields (scalar, tensor, nested, custom validators on each kind, an instance of another class); up to 2 batch dimensions and one "
              "missing dimension per field; dtypes: declared, same-size other kind, narrower; dimensions unbounded",
    "assumptions": ["field values are arrays"],
}


def small_first(v):
    if v.ndim and v.shape[0] > 4:
        raise RuntimeError("too many rows")


@xtructure_dataclass(validate=True)
class Sc:
    a: FieldDescriptor.scalar(dtype=jnp.uint32)


@xtructure_dataclass(validate=True)
class Ten:
    v: FieldDescriptor.tensor(dtype=jnp.float32, shape=(3,))
    m: FieldDescriptor.tensor(dtype=jnp.int8, shape=(2, 3))


@xtructure_dataclass(validate=True)
class Three:
    a: FieldDescriptor.scalar(dtype=jnp.bool_)
    v: FieldDescriptor.tensor(dtype=jnp.uint8, shape=(3,))
    w: FieldDescriptor.tensor(dtype=jnp.float16, shape=(2,))


@xtructure_dataclass(validate=True)
class Cust:
    a: FieldDescriptor.scalar(dtype=jnp.uint32, validator=small_first)
    v: FieldDescriptor.tensor(dtype=jnp.uint8, shape=(3,))


@xtructure_dataclass(validate=True)
class Nest:
    n: FieldDescriptor.scalar(dtype=Ten)
    x: FieldDescriptor.scalar(dtype=jnp.int32)


def small_nested(t):
    if t.v.shape and t.v.shape[0] > 4:
        raise RuntimeError("too many rows")


@xtructure_dataclass(validate=True)
class CustN:
    n: FieldDescriptor.scalar(dtype=Ten, validator=small_nested)
    x: FieldDescriptor.scalar(dtype=jnp.int32)


@xtructure_dataclass(validate=True)
class CustT:
    v: FieldDescriptor.tensor(dtype=jnp.uint8, shape=(3,), validator=small_first)


@xtructure_dataclass(validate=True)
class Ten2:
    """The fields of Ten under another name."""
    v: FieldDescriptor.tensor(dtype=jnp.float32, shape=(3,))
    m: FieldDescriptor.tensor(dtype=jnp.int8, shape=(2, 3))


RULED = {(Cust, "a"), (CustN, "n.v"), (CustT, "v")}    # at most 4 rows

OTHER = {np.dtype(np.uint32): [jnp.int32, jnp.uint8], np.dtype(np.float32): [jnp.float16, jnp.int32],
         np.dtype(np.int8): [jnp.uint8, jnp.int32], np.dtype(np.bool_): [jnp.uint8],
         np.dtype(np.uint8): [jnp.bool_, jnp.int8, jnp.uint32], np.dtype(np.float16): [jnp.bfloat16, jnp.float32],
         np.dtype(np.int32): [jnp.uint32]}


def build_kw(cls, t, vals, pre=""):
    kw = {}
    for name, i, d in t:
        kw[name] = cls.__annotations__[name].dtype(**build_kw(cls.__annotations__[name].dtype, d, vals, pre + name + ".")) \
            if isinstance(d, list) else vals[pre + name]
    return kw


def get(x, path):
    for p in path.split("."):
        x = getattr(x, p)
    return x


def harness(cls, ranks, dts, how):
    """how: init | check (check_invariants on a non-validating twin) | replace (one field of a valid instance)."""
    t = tree(cls)
    lv = list(leaves(t))
    names = {p: [f"{p}_{k}" for k in range(r)] for (p, _, _), r in zip(lv, ranks)}

    def values(V):
        return {p: mk_leaf(tuple(V[n] for n in names[p]), dts[k]) for k, (p, _, _) in enumerate(lv)}

    def call(V):
        vals = values(V)
        if how == "replace":
            x = cls.default(())
            for name in [n for n, _, _ in t]:
                x = x.replace(**{name: vals[name]})
        else:
            kw = build_kw(cls, t, vals)
            if how == "wrongclass":
                kw["n"] = Ten2(v=kw["n"].v, m=kw["n"].m)
            x = cls(**kw)
            if how == "check":
                x.check_invariants()
        return {p: (tuple(get(x, p).shape), str(get(x, p).dtype)) for p, _, _ in lv}

    def symcall(V):
        with patched([VAL], jnp=SHIM):
            return call(V)

    def accept(V):
        c = [how != "wrongclass"]
        for k, (p, intr, d) in enumerate(lv):
            s = tuple(V[n] for n in names[p])
            if p.count(".") and how == "check" and False:
                continue
            c.append(np.dtype(dts[k]) == d)
            c.append(eq(s[len(s) - len(intr):], intr) if len(s) >= len(intr) else False)
            if (cls, p) in RULED and s:
                c.append(s[0] <= 4)
        return conj(c)

    def spec(V, out):
        kind, o = out
        a = accept(V)
        if kind == "exc":
            ok = isinstance(o, (TypeError, ValueError)) or any(c is cls for c, _ in RULED) and isinstance(o, RuntimeError)
            g = [(f"a valid instance is rejected: {type(o).__name__}: {str(o)[:80]}",
                  (not a) if isinstance(a, bool) else z3.Not(a)),
                 (f"rejection raises TypeError or ValueError, not {type(o).__name__}", ok)]
            return g
        g = [("an instance with a wrong field is accepted", a)]
        for k, (p, _, _) in enumerate(lv):
            g.append((f"{p} is stored as given", conj([eq(o[p][0], tuple(V[n] for n in names[p])),
                                                       o[p][1] == str(np.dtype(dts[k]))])))
        return g
    nm = "_".join(map(str, ranks)) + "_" + "_".join(str(np.dtype(d)) for d in dts)
    return PyHarness(f"{cls.__name__}_{how}_{nm}", [n for ns in names.values() for n in ns], call, spec, symcall=symcall,
                     assume=lambda V: [v.e >= 0 for v in V.values()], small=6,
                     view=lambda out: (out[0], type(out[1]).__name__ if out[0] == "exc" else out[1]))


def job(classes, hows):
    def build(tier):
        hs = []
        for cls in classes:
            lv = list(leaves(tree(cls)))
            top = 3 if tier == "thorough" else 2 if len(lv) < 3 else 1
            opts = [range(max(0, len(i) - 1), len(i) + top + 1) for _, i, _ in lv]
            good = [d for _, _, d in lv]
            for how in hows:
                if how == "replace" and any("." in p for p, _, _ in lv):
                    continue
                for ranks in itertools.product(*opts):
                    hs.append(harness(cls, ranks, good, how))
                base = [len(i) + 1 for _, i, _ in lv]
                for k, d in enumerate(good):
                    for o in OTHER[d]:
                        dts = list(good)
                        dts[k] = o
                        for r in (base, [len(i) for _, i, _ in lv]):
                            hs.append(harness(cls, r, dts, how))
        return hs
    return build


JOBS = {
    "init": dict(build=job([Sc, Ten, Three, Cust, CustT], ["init", "replace"]), cost=60, mem_gb=6),
    "nested": dict(build=job([Nest, CustN], ["init", "wrongclass"]), cost=60, mem_gb=6),
}

"""Instances and containers pass unchanged through JAX transformations, tree operations, replace and tuples."""
from props.move_common import *  # noqa: F401,F403
from xtructure import BGPQ, HashTable, Queue, Stack

META = {
    "explanation": (
        "jit, vmap, scan, cond, switch, while/fori loops, tree flatten/unflatten/map (with and without paths), replace, "
        "to_tuple/from_tuple and the generated instance methods are traced on symbolic records and containers. The "
        "solver shows for all contents that every field arrives in its own place with its own values, that cond and "
        "switch give exactly the chosen instance, that instance methods equal the xnp functions, and that the static "
        "fields of containers survive and keep differently sized containers apart."),
    "bounds": "6 record classes, batch shapes (), (3,), (2,3); containers of two sizes each",
    "assumptions": [],
}


@xtructure_dataclass
class Zed:
    """Field order is not alphabetical and dtypes repeat, so a permuted field shows."""
    z: FieldDescriptor.scalar(dtype=jnp.uint32)
    a: FieldDescriptor.scalar(dtype=jnp.uint32)
    m: FieldDescriptor.scalar(dtype=Inner)
    b: FieldDescriptor.scalar(dtype=jnp.uint32)


@xtructure_dataclass
class One:
    z: FieldDescriptor.tensor(dtype=jnp.uint8, shape=(3,))


ALL = [VA, VB, Nested, VT, VS, Zed, One]


def ident(name, f, b=(3,)):
    return [move(f"{name}_{cls.__name__}_{bstr(b)}", cls, [b], lambda xs: f(xs[0]), lambda i, d: i[0]) for cls in ALL]


def tree_paths(x):
    """Rebuild every leaf by its path: a path that names another field's value shows."""
    flat, td = jax.tree_util.tree_flatten_with_path(x)
    for p, l in flat:
        v = x
        for k in p:
            v = getattr(v, k.name)
        assert v is l, f"path {p} names another leaf"
    assert [l is m for (_, l), m in zip(flat, jax.tree_util.tree_leaves(x))] == [True] * len(flat)
    return jax.tree_util.tree_unflatten(td, [l for _, l in flat])


def looked(x):
    x.shape, x.dtype, x.structured_type, x.batch_shape   # caches are not part of the tree
    return x


def transforms(tier):
    hs = []
    for b in ((), (3,), (2, 3)):
        hs += ident("jit", lambda x: jax.jit(lambda y: y)(x), b)
        hs += ident("tree", lambda x: jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(x),
                                                                   jax.tree_util.tree_leaves(x)), b)
        hs += ident("tree_map", lambda x: jax.tree_util.tree_map(lambda l: l, looked(x)), b)
        hs += ident("tree_paths", tree_paths, b)
        hs += ident("jit_shape_used", lambda x: looked(jax.jit(lambda y: looked(jax.tree_util.tree_map(lambda l: l, looked(y))))(looked(x))), b)
        hs += ident("tuple", lambda x: type(x).from_tuple(x.to_tuple()), b)
        hs += ident("replace_nothing", lambda x: x.replace(), b)
    hs += ident("vmap", lambda x: jax.vmap(lambda r: r)(x))
    hs += ident("vmap2", lambda x: jax.vmap(jax.vmap(lambda r: looked(r)))(x), (2, 3))
    hs += ident("scan", lambda x: jax.lax.scan(lambda c, r: (c, r), 0, x)[1])
    hs += ident("map", lambda x: jax.lax.map(lambda r: looked(r), looked(x)))
    hs += ident("fori", lambda x: jax.lax.fori_loop(0, 3, lambda k, r: looked(r), looked(x)))
    for cls in ALL:
        n = cls.__name__
        hs.append(move(f"scan_shift_{n}", cls, [(3,)],
                       lambda xs: _shift(xs[0]), lambda i, d: i[0]))
        hs.append(move(f"fori_swap_{n}", cls, [(2,), (2,)],
                       lambda xs: jax.lax.fori_loop(0, 3, lambda k, p: (p[1], p[0]), (xs[0], xs[1])),
                       lambda i, d: [i[1], i[0]], n_out=2))
        hs.append(move(f"vmap_stack_{n}", cls, [(3,)], lambda xs: jax.vmap(lambda r: xnp.stack([r, r]))(xs[0]),
                       lambda i, d: np.stack([i[0], i[0]], 1)))
        hs.append(move(f"vmap_axis1_{n}", cls, [(2, 3)],
                       lambda xs: jax.vmap(lambda r: r[::-1], in_axes=1, out_axes=1)(xs[0]), lambda i, d: i[0][::-1]))
        hs.append(choice(cls))
        hs += replaced(cls)
    return hs


def _shift(x):
    last, rest = jax.lax.scan(lambda c, r: (r, c), x[0], x[1:])
    return xnp.concat([rest, xnp.expand_dims(last, 0)])


def choice(cls):
    specs = [("x", (2,)), ("y", (2,)), ("z", (2,))]
    inputs = [i for p, s in specs for i in mk_inputs(p, cls, s)] + [Inp("c", (), np.bool_), Inp("k", (), np.int32, dom=3)]

    def fn(*arrays):
        (x, y, z), (c, k) = args_of(specs, cls, arrays)
        return {"cond": jax.lax.cond(c, lambda: x, lambda: y),
                "switch": jax.lax.switch(k, [lambda: x, lambda: y, lambda: z]),
                "sel": jax.lax.cond(c, lambda p, q: q, lambda p, q: p, x, y)}

    def goals(I, O):
        g = []
        c, k = I["c"].flat()[0], I["k"].flat()[0]
        for path, intr, dt, _ in fields_of(cls):
            w = width(np.dtype(dt))
            x, y, z = (I[f"{p}.{path}"] for p in "xyz")

            def mix(f):
                r = np.empty(x.el.shape, dtype=object)
                for ix in np.ndindex(*x.el.shape):
                    r[ix] = f(x.el[ix], y.el[ix], z.el[ix])
                return r
            g += leaf_goal(f"cond: {path}", O[f"cond.{path}"], mix(lambda p, q, r: T.ite(c, p, q, w)), dt)
            g += leaf_goal(f"cond with operands: {path}", O[f"sel.{path}"], mix(lambda p, q, r: T.ite(c, q, p, w)), dt)
            g += leaf_goal(f"switch: {path}", O[f"switch.{path}"],
                           mix(lambda p, q, r: T.ite(T.eq(k, 0, 32), p, T.ite(T.eq(k, 1, 32), q, r, w), w)), dt)
        return g
    return Harness(f"choice_{cls.__name__}", inputs, fn, goals, n_random=1)


def replaced(cls):
    """replace(field=v) changes that field only."""
    hs = []
    for name in cls.__annotations__:
        specs = [("x", (2,)), ("y", (2,))]
        inputs = [i for p, s in specs for i in mk_inputs(p, cls, s)]

        def fn(*arrays, name=name):
            (x, y), _ = args_of(specs, cls, arrays)
            looked(x)
            r = x.replace(**{name: getattr(y, name)})
            assert r.shape.batch == (2,) and type(r) is cls
            return {"r": r, "x": x}

        def goals(I, O, name=name):
            g = []
            for path, intr, dt, _ in fields_of(cls):
                src = "y" if path.split(".")[0] == name else "x"
                g += leaf_goal(f"replace({name}): {path}", O[f"r.{path}"], I[f"{src}.{path}"].el, dt)
                g += leaf_goal(f"replace({name}) leaves the original alone: {path}", O[f"x.{path}"], I[f"x.{path}"].el, dt)
            return g
        hs.append(Harness(f"replace_{cls.__name__}_{name}", inputs, fn, goals, n_random=1))
    return hs


METHODS = [("reshape", [(6,)], {}), ("reshape", [(3, 2)], {}), ("reshape", [(-1,)], {}), ("flatten", [], {}),
           ("transpose", [], {}), ("transpose", [], {"axes": (1, 0)}), ("swapaxes", [0, 1], {}), ("swapaxes", [-1, -2], {}),
           ("moveaxis", [0, 1], {}), ("moveaxis", [1, 0], {}), ("expand_dims", [], {"axis": 0}),
           ("expand_dims", [], {"axis": 1}), ("roll", [1], {}), ("roll", [-1], {"axis": 1}), ("flip", [], {}),
           ("flip", [], {"axis": 0}), ("flip", [], {"axis": 1}), ("rot90", [], {}), ("rot90", [2], {}),
           ("rot90", [], {"k": 3, "axes": (1, 0)}), ("broadcast_to", [(2, 2, 3)], {}),
           ("pad", [((1, 0), (0, 2))], {}), ("pad", [1], {}), ("pad", [((0, 1), (0, 0))], {"mode": "edge"})]


def methods(tier):
    """x.op(...) is numpy's op on records (the same oracle as P18, reached through the instance)."""
    hs = []
    for cls in ALL:
        for name, args, kw in METHODS:
            if name in ("roll", "flip") and "axis" not in kw and cls is not VS:
                continue    # the flattening forms act per field, as documented
            nm = f"{name}_{'_'.join(map(str, args))}_{'_'.join(f'{k}{v}' for k, v in kw.items())}_{cls.__name__}".replace(" ", "")

            def oracle(i, d, name=name, args=args, kw=kw):
                a = i[0]
                if name == "flatten":
                    return a.reshape(-1)
                if name == "pad":
                    return np.pad(a, *args, **(kw or {"constant_values": d}))
                return getattr(np, name)(a, *args, **kw)
            hs.append(move(f"method_{nm}", cls, [(2, 3)],
                           lambda xs, name=name, args=args, kw=kw: getattr(xs[0], name)(*args, **kw), oracle))
        hs.append(move(f"method_squeeze_{cls.__name__}", cls, [(1, 3)], lambda xs: xs[0].squeeze(), lambda i, d: i[0][0]))
        hs.append(move(f"method_squeeze_ax_{cls.__name__}", cls, [(1, 1, 3)], lambda xs: xs[0].squeeze(axis=1),
                       lambda i, d: i[0][:, 0]))
    return hs


def container(kind, cls, size):
    if kind == "Stack":
        return Stack.build(size, cls)
    if kind == "Queue":
        return Queue.build(size, cls)
    if kind == "BGPQ":
        return BGPQ.build(size * 2, 2, cls)
    return HashTable.build(cls, size, size * 4, bucket_size=2)


def containers(tier):
    hs = []
    for kind in ("Stack", "Queue", "BGPQ", "HashTable"):
        for cls in (Zed, VT, Nested):
            conts = {s: container(kind, cls, s) for s in (2, 3)}
            lv = {s: [(jax.tree_util.keystr(p).strip("."), l) for p, l in jax.tree_util.tree_flatten_with_path(c)[0]]
                  for s, c in conts.items()}
            static = {s: {k: v for k, v in vars(c).items() if isinstance(v, int)} for s, c in conts.items()}
            inputs = [Inp(f"c{s}.{p}", l.shape, l.dtype) for s in conts for p, l in lv[s]]

            def fn(*arrays, conts=conts, static=static, lv=lv):
                out, k = {}, 0
                f = jax.jit(lambda c: looked_c(c))
                for s, c in conts.items():
                    n = len(lv[s])
                    c = jax.tree_util.tree_unflatten(jax.tree_util.tree_structure(c), arrays[k:k + n])
                    k += n
                    for how, g in (("jit", f), ("map", lambda c: jax.tree_util.tree_map(lambda l: l, c)),
                                   ("fori", lambda c: jax.lax.fori_loop(0, 2, lambda i, d: d, c)),
                                   ("replace", lambda c: c.replace())):
                        r = g(c)
                        assert type(r) is type(c)
                        for name, v in static[s].items():
                            assert getattr(r, name) == v, f"static field {name} became {getattr(r, name)}, was {v}"
                        out[f"{how}{s}"] = jax.tree_util.tree_leaves(r)
                return out

            def goals(I, O, lv=lv):
                g = []
                for s in lv:
                    for how in ("jit", "map", "fori", "replace"):
                        for k, (p, l) in enumerate(lv[s]):
                            g += leaf_goal(f"{how}: {p}", O[f"{how}{s}.{k}"], I[f"c{s}.{p}"].el, l.dtype)
                return g
            hs.append(Harness(f"container_{kind}_{cls.__name__}", inputs, fn, goals, n_random=1))
    return hs


def looked_c(c):
    return jax.tree_util.tree_map(lambda l: l, c)


JOBS = {
    "transforms": dict(build=transforms, cost=60, mem_gb=8),
    "methods": dict(build=methods, cost=60, mem_gb=8),
    "containers": dict(build=containers, cost=30, mem_gb=8),
}

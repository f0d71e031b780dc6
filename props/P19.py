"""where / conditional updates pick whole records by their flag; the first True update wins."""
from props.move_common import *  # noqa: F401,F403

META = {
    "explanation": (
        "xnp.where, xnp.where_no_broadcast, xnp.update_on_condition and .at[...].set_as_condition are traced with "
        "symbolic records, flags, values and indices. The solver shows for all of them that where takes each record "
        "(or each element, for full-shape flags) from x where the flag is set and from y elsewhere, and that a "
        "conditional update leaves a record alone unless some flagged update names it, in which case it becomes "
        "entirely the value of the first such update; indices outside the batch are dropped."),
    "bounds": "batch shapes (3,), (2,3), (4,), (130,), (257,), (66000,); up to 4 updates with unrestricted 8-, 16- and 32-bit "
              "indices; slices; 5 record classes",
    "assumptions": ["multi-dimensional flags are combined with scalar values only, as the code requires"],
}

ALL = [VA, VB, Nested, VT, VS]


def leaf_el(I, pre, path, pos, q):
    e = I[f"{pre}.{path}"].el
    r = e[pos + q]
    return r[()] if isinstance(r, np.ndarray) else r


def where_h(cls, b, cshape, ykind):
    """cshape: () | batch; ykind: batch | single | scalar."""
    fs = fields_of(cls)
    yb = b if ykind == "batch" else ()
    name = f"where_{cls.__name__}_{bstr(b)}_c{bstr(cshape) if cshape else 'scalar'}_{ykind}"
    specs = [("x", b)] + ([("y", yb)] if ykind != "scalar" else [])
    inputs = [i for p, s in specs for i in mk_inputs(p, cls, s)] + [Inp("c", cshape, np.bool_)]

    def fn(*arrays):
        xs, (c,) = args_of(specs, cls, arrays)
        y = xs[1] if ykind != "scalar" else 1
        return {"r": xnp.where(c, xs[0], y)}

    def goals(I, O):
        g = []
        for path, intr, dt, _ in fs:
            w = width(np.dtype(dt))
            odt = np.dtype(dt) if ykind != "scalar" else np.dtype(jnp.result_type(jnp.dtype(dt), jnp.asarray(1).dtype))
            got = O[f"r.{path}"]
            if tuple(got.shape) != b + intr:
                return [(f"where: shape of {path}", False)]
            ts = []
            for pos in np.ndindex(*b):
                c = I.c.el[pos] if cshape else I.c.flat()[0]
                for q in np.ndindex(*intr):
                    x = leaf_el(I, "x", path, pos, q)
                    e = got.el[pos + q] if pos + q else got.flat()[0]
                    if ykind == "scalar":
                        # promoted to the common type
                        one = int(X.to_elems(np.asarray(1, odt))[()])
                        ts.append((c, x, e, one))
                        continue
                    y = leaf_el(I, "y", path, pos if yb else (), q)
                    ts.append(T.eq(e, T.ite(c, x, y, w), w))
            if ykind == "scalar":
                if odt != got.dtype:
                    return [(f"where: dtype of {path}", False)]
                if odt == np.dtype(dt):
                    g.append((f"where: {path}", T.And(*[T.eq(e, T.ite(c, x, one, w), w) for c, x, e, one in ts])))
                else:
                    g.append((f"where: {path} scalar side", T.And(*[T.Implies(T.Not(c), T.eq(e, one, got.w))
                                                                  for c, x, e, one in ts])))
                continue
            if got.dtype != np.dtype(dt):
                return [(f"where: dtype of {path}", False)]
            g.append((f"where: {path}", T.And(*ts)))
        return g
    return Harness(name, inputs, fn, goals, n_random=1)


def where_nb(cls, b):
    """Flags given as a dataclass of full-shape flags."""
    fs = fields_of(cls)
    name = f"where_no_broadcast_{cls.__name__}_{bstr(b)}"
    specs = [("x", b), ("y", b)]
    inputs = [i for p, s in specs for i in mk_inputs(p, cls, s)]
    n = len(leaves_spec(cls, b))
    inputs += [Inp(f"c.{p}", s, np.bool_) for p, s, _ in leaves_spec(cls, b)]

    def fn(*arrays):
        xs, cs = args_of(specs, cls, arrays)
        td = jax.tree_util.tree_structure(xs[0])
        return {"r": xnp.where_no_broadcast(jax.tree_util.tree_unflatten(td, list(cs)), xs[0], xs[1])}

    def goals(I, O):
        g = []
        for path, intr, dt, _ in fs:
            got = O[f"r.{path}"]
            x, y, c = I[f"x.{path}"], I[f"y.{path}"], I[f"c.{path}"]
            if tuple(got.shape) != b + intr or got.dtype != np.dtype(dt):
                return [(f"where_no_broadcast: shape or dtype of {path}", False)]
            g.append((path, T.And(*[T.eq(e, T.ite(k, p, q, got.w), got.w) for e, k, p, q in
                                    zip(got.flat(), c.flat(), x.flat(), y.flat())])))
        return g
    return Harness(name, inputs, fn, goals, n_random=1)


def wheres(tier):
    hs = []
    for cls in ALL:
        for b in ((3,), (2, 3), (2, 2), (1,)):
            for c in ((), b):
                for y in ("batch", "single", "scalar"):
                    hs.append(where_h(cls, b, c, y))
        hs.append(where_h(cls, (), (), "batch"))
        hs += [where_nb(cls, (3,)), where_nb(cls, (2, 3)), where_nb(cls, ())]
    return hs


def upd(cls, b, m, vkind, how, idt=np.int32, ishape=None):
    """1-D batch uses an index vector, 2-D batch a tuple of vectors."""
    fs = fields_of(cls)
    ishape = (m,) if ishape is None else ishape
    nd = len(b)
    vb = ishape if vkind == "batch" else ()
    name = f"{how}_{cls.__name__}_{bstr(b)}_m{bstr(ishape)}_{vkind}_{np.dtype(idt).name}"
    specs = [("x", b)] + ([("v", vb)] if vkind in ("batch", "single") else [])
    inputs = [i for p, s in specs for i in mk_inputs(p, cls, s)]
    inputs += [Inp(f"i{k}", ishape, idt) for k in range(nd)] + [Inp("c", ishape, np.bool_)]
    w = width(np.dtype(idt))

    def fn(*arrays):
        xs, rest = args_of(specs, cls, arrays)
        ix, c = rest[:nd], rest[nd]
        ix = ix[0] if nd == 1 else tuple(ix)
        v = xs[1] if vkind in ("batch", "single") else 1
        r = xnp.update_on_condition(xs[0], ix, c, v) if how == "update" else xs[0].at[ix].set_as_condition(c, v)
        assert type(r) is cls
        return {"r": r}

    def goals(I, O):
        g = []
        ups = list(np.ndindex(*ishape))
        for path, intr, dt, _ in fs:
            got = O[f"r.{path}"]
            if tuple(got.shape) != b + intr or got.dtype != np.dtype(dt):
                return [(f"{how}: shape or dtype of {path}", False)]
            one = int(X.to_elems(np.asarray(1).astype(dt))[()])
            ts = []
            for pos in np.ndindex(*b):
                fits = all(p < (1 << (w - (np.dtype(idt).kind == "i"))) for p in pos)
                for q in np.ndindex(*intr):
                    r = leaf_el(I, "x", path, pos, q)
                    for u in reversed(ups):
                        hit = fits and T.And(_at(I.c, u), *[T.eq(_at(I[f"i{k}"], u), pos[k], w) for k in range(nd)])
                        v = one if vkind == "scalar" else leaf_el(I, "v", path, u if vb else (), q)
                        r = T.ite(hit, v, r, got.w)
                    ts.append(T.eq(got.el[pos + q], r, got.w))
            g.append((f"{how}: {path}", T.And(*ts)))
        return g
    return Harness(name, inputs, fn, goals, n_random=2, chunk="each")


def _at(s, u):
    return s.el[u] if u else s.flat()[0]


def updates(how):
    def f(tier):
        hs = []
        for cls in ALL:
            for vk in ("batch", "single", "scalar"):
                hs.append(upd(cls, (3,), 3, vk, how))
                hs.append(upd(cls, (2, 3), 2, vk, how))
                hs.append(upd(cls, (3,), 1, vk, how))
            hs.append(upd(cls, (2, 2), 3, "scalar", how))
            hs.append(upd(cls, (4,), 4, "batch", how, np.uint32))
            hs.append(upd(cls, (3,), None, "scalar", how, ishape=(2, 2)))
            hs.append(upd(cls, (3,), None, "single", how, ishape=()))
            for dt in (np.uint8, np.int8, np.int16):
                hs.append(upd(cls, (3,), 2, "batch", how, dt))
                hs.append(upd(cls, (2, 2), 2, "batch", how, dt))
        for dt, n in ((np.int8, 130), (np.uint8, 257), (np.int8, 128), (np.uint8, 256)):
            hs.append(upd(V8, (n,), 2, "batch", how, dt))
            hs.append(upd(V8, (n,), 1, "scalar", how, dt))
        if tier == "thorough":
            for cls in ALL:
                hs.append(upd(cls, (5,), 6, "batch", how))
                hs.append(upd(cls, (2, 3), 4, "batch", how))
        return hs
    return f


SLICES = [slice(0, 2), slice(None), slice(1, None, 2), slice(None, None, -1), slice(-2, None), slice(2, 2)]


def slices(tier):
    hs = []
    for cls in ALL:
        fs = fields_of(cls)
        for b, sl in [((4,), s) for s in SLICES] + [((2, 3), slice(0, 1)), ((2, 3), (slice(None), slice(1, 3))),
                                                      ((2, 3), (1, slice(0, 2)))]:
            ids = np.arange(int(np.prod(b))).reshape(b)
            sel = ids[sl]
            for ck in ("scalar", "each"):
                for vk in ("batch", "single", "scalar"):
                    cs = () if ck == "scalar" else sel.shape
                    specs = [("x", b)] + ([("v", sel.shape if vk == "batch" else ())] if vk != "scalar" else [])
                    inputs = [i for p, s in specs for i in mk_inputs(p, cls, s)] + [Inp("c", cs, np.bool_)]

                    def fn(*arrays, sl=sl, specs=specs, vk=vk, cls=cls):
                        xs, (c,) = args_of(specs, cls, arrays)
                        return {"r": xs[0].at[sl].set_as_condition(c, xs[1] if vk != "scalar" else 1)}

                    def goals(I, O, b=b, sel=sel, ck=ck, vk=vk, fs=fs, ids=ids):
                        g = []
                        where = {int(sel[p]): p for p in np.ndindex(*sel.shape)}
                        for path, intr, dt, _ in fs:
                            got = O[f"r.{path}"]
                            if tuple(got.shape) != b + intr or got.dtype != np.dtype(dt):
                                return [(f"slice: shape or dtype of {path}", False)]
                            one = int(X.to_elems(np.asarray(1).astype(dt))[()])
                            ts = []
                            for pos in np.ndindex(*b):
                                u = where.get(int(ids[pos]))
                                for q in np.ndindex(*intr):
                                    r = leaf_el(I, "x", path, pos, q)
                                    if u is not None:
                                        c = I.c.flat()[0] if ck == "scalar" else I.c.el[u]
                                        v = one if vk == "scalar" else leaf_el(I, "v", path, u if vk == "batch" else (), q)
                                        r = T.ite(c, v, r, got.w)
                                    ts.append(T.eq(got.el[pos + q], r, got.w))
                            g.append((f"slice: {path}", T.And(*ts)))
                        return g
                    hs.append(Harness(f"slice_{cls.__name__}_{bstr(b)}_{sl}_{ck}_{vk}".replace(" ", "").replace("None", ""),
                                      inputs, fn, goals, n_random=1))
    return hs


def large(tier):
    """More records than 16 bits count; concrete positions, symbolic flags and contents."""
    hs = []
    for m, n, pos in ((2, 66000, [1, 65537]), (4, 600, [300, 44, 300, 600])):
        pos = np.array(pos)
        for how in ("update", "set_as_condition"):
            for dt in (np.int32, np.uint32)[m == 2 and how == "update":][:1]:
                name = f"large_{how}_{n}_m{m}_{np.dtype(dt).name}"
                inputs = [Inp("x.a", (n,), np.uint8), Inp("v.a", (m,), np.uint8), Inp("c", (m,), np.bool_)]

                def fn(x, v, c, how=how, dt=dt, pos=pos):
                    x, v, ix = V8(x), V8(v), jnp.asarray(pos, dt)
                    return {"r": xnp.update_on_condition(x, ix, c, v) if how == "update"
                            else x.at[ix].set_as_condition(c, v)}

                def goals(I, O, pos=pos, n=n):
                    got = O["r.a"]
                    if tuple(got.shape) != (n,):
                        return [("shape", False)]
                    g, hit = [], set(pos.tolist())
                    for p in sorted(hit - {n}):
                        r = I["x.a"].el[p]
                        for u in reversed(range(len(pos))):
                            if pos[u] == p:
                                r = T.ite(I.c.el[u], I["v.a"].el[u], r, 8)
                        g.append((f"record {p}", T.eq(got.el[p], r, 8)))
                    g.append(("other records", T.And(*[T.eq(got.el[p], I["x.a"].el[p], 8)
                                                       for p in range(n) if p not in hit])))
                    return g
                hs.append(Harness(name, inputs, fn, goals, n_random=1))
    return hs


JOBS = {"large": dict(build=large, cost=60, mem_gb=6), "where": dict(build=wheres, cost=20), "update": dict(build=updates("update"), cost=60),
        "set_as_condition": dict(build=updates("set_as_condition"), cost=60),
        "slice": dict(build=slices, cost=30)}

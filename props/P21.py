"""Indexing a batch selects whole records; .at[].set replaces exactly the selected records."""
from props.move_common import *  # noqa: F401,F403

META = {
    "explanation": (
        "x[i] and x.at[i].set(v) are traced for integer, slice, tuple, mask and array indices, with symbolic records, "
        "values and (for integers and arrays) symbolic positions. The solver shows that indexing returns exactly the "
        "selected records in all fields, nested ones included, and that set replaces the selected records entirely by "
        "the corresponding value records and changes no other record."),
    "bounds": "batch shapes (3,), (4,), (2,3), (2,1,2), (300,), (2,270), (270,2); up to 2-3 positions per array index; 5 record classes",
    "assumptions": ["array indices passed to set name distinct records", "indexing is in bounds; set may be out of "
                    "bounds and is then dropped, as in jax"],
}

ALL = [VA, VB, Nested, VT, VS]
CASES = [((4,), s) for s in (0, 3, -1, slice(1, 3), slice(None, None, 2), slice(None, None, -1), slice(2, 2), slice(-3, None),
                             np.array([2, 0]), np.array([-1, 1]), np.array([True, False, True, True]), None, Ellipsis)] + \
        [((2, 3), s) for s in (1, -1, (1, 2), (-1, 0), slice(0, 1), (slice(None), 1), (slice(None), slice(1, 3)),
                               (0, slice(None, None, -1)), (np.array([0, 1]), np.array([2, 0])), np.array([1, 0]),
                               (slice(None), np.array([2, 1])), (np.array([1]), slice(0, 2)),
                               np.array([[True, False, True], [False, True, False]]))] + \
        [((2, 1, 2), s) for s in (1, (1, 0), (0, 0, 1), (slice(None), 0), (1, slice(None), 1))]


def istr(s):
    return str(s).replace(" ", "").replace("\n", "").replace("None", "").replace("array", "")


def as_j(s):
    if isinstance(s, np.ndarray) and s.dtype != np.bool_:
        return jnp.asarray(s)
    if isinstance(s, tuple):
        return tuple(as_j(e) for e in s)
    return s


def static_get(tier, ALL=ALL, CASES=CASES):
    hs = []
    for cls in ALL:
        for b, s in CASES:
            if s is None or s is Ellipsis:
                continue    # numpy-style None/Ellipsis act on the raw fields
            hs.append(move(f"get_{cls.__name__}_{bstr(b)}_{istr(s)}", cls, [b], lambda xs, s=s: xs[0][as_j(s)],
                           lambda i, d, s=s: i[0][s]))
        hs.append(move(f"len_{cls.__name__}", cls, [(4,)], lambda xs: xnp.stack([xs[0][k] for k in range(len(xs[0]))]),
                       lambda i, d: i[0]))
    return hs


def static_set(tier, ALL=ALL, CASES=CASES):
    hs = []
    for cls in ALL:
        fs = fields_of(cls)
        for b, s in CASES:
            if s is None or s is Ellipsis:
                continue
            ids = np.arange(int(np.prod(b))).reshape(b)
            sel = ids[s]
            for vk in ("batch", "single", "scalar"):
                vb = np.shape(sel)
                if vk == "batch" and vb == ():
                    continue
                specs = [("x", b)] + ([("v", vb if vk == "batch" else ())] if vk != "scalar" else [])
                inputs = [i for p, q in specs for i in mk_inputs(p, cls, q)]

                def fn(*arrays, s=s, specs=specs, vk=vk, cls=cls):
                    xs, _ = args_of(specs, cls, arrays)
                    r = xs[0].at[as_j(s)].set(xs[1] if vk != "scalar" else 1)
                    assert type(r) is cls
                    return {"r": r, "x": xs[0]}

                def goals(I, O, b=b, sel=sel, vk=vk, fs=fs, ids=ids):
                    g = []
                    where = {int(np.asarray(sel)[p]): p for p in np.ndindex(*np.shape(sel))}
                    for path, intr, dt, _ in fs:
                        got = O[f"r.{path}"]
                        if tuple(got.shape) != b + intr or got.dtype != np.dtype(dt):
                            return [(f"set: shape or dtype of {path}", False)]
                        one = int(X.to_elems(np.asarray(1).astype(dt))[()])
                        ts = []
                        for pos in np.ndindex(*b):
                            u = where.get(int(ids[pos]))
                            for q in np.ndindex(*intr):
                                if u is None:
                                    r = _el(I, "x", path, pos + q)
                                else:
                                    r = one if vk == "scalar" else _el(I, "v", path, (u if vk == "batch" else ()) + q)
                                ts.append(T.eq(got.el[pos + q], r, got.w))
                        g.append((f"set: {path}", T.And(*ts)))
                        keep = O[f"x.{path}"]
                        g.append((f"set leaves the original instance: {path}",
                                  T.And(*[T.eq(x, y, got.w) for x, y in zip(keep.flat(), I[f"x.{path}"].flat())])))
                    return g
                hs.append(Harness(f"set_{cls.__name__}_{bstr(b)}_{istr(s)}_{vk}", inputs, fn, goals, n_random=1))
    return hs


def _el(I, pre, path, pos):
    r = I[f"{pre}.{path}"].el[pos]
    return r[()] if isinstance(r, np.ndarray) else r


def sym_get(tier):
    hs = []
    for cls in ALL:
        for b, nix, s, dt in (((4,), 1, (), np.int32), ((4,), 1, (2,), np.int32), ((3,), 1, (2, 2), np.int32),
                              ((2, 3), 1, (), np.int32), ((2, 3), 2, (), np.int32), ((2, 3), 2, (2,), np.int32),
                              ((2, 3), 1, (2,), np.uint8), ((4,), 1, (2,), np.int8), ((4,), 1, (2,), np.uint32)):
            specs = [("x", b)]
            w = width(np.dtype(dt))
            inputs = mk_inputs("x", cls, b) + [Inp(f"i{k}", s, dt) for k in range(nix)]
            signed = np.dtype(dt).kind == "i"

            def fn(*arrays, cls=cls, specs=specs, nix=nix):
                xs, ix = args_of(specs, cls, arrays)
                return {"r": xs[0][tuple(ix) if nix > 1 else ix[0]]}

            def assume(I, nix=nix, b=b, w=w, signed=signed):
                return [T.And(T.sle(-b[k] & T.mask(w), e, w), T.slt(e, b[k], w)) if signed else T.ult(e, b[k], w)
                        for k in range(nix) for e in I[f"i{k}"].flat()]

            def goals(I, O, cls=cls, specs=specs, nix=nix, b=b, s=s, w=w, signed=signed):
                src = Src(I, cls, specs)
                ids = src.ids["x"]

                def pick(pos):
                    u, rest = pos[:len(s)], pos[len(s):]
                    opts = []
                    for t in np.ndindex(*b[:nix]):
                        c = True
                        for k in range(nix):
                            e = I[f"i{k}"].el[u] if u else I[f"i{k}"].flat()[0]
                            h = T.eq(e, t[k], w)
                            if signed:
                                h = T.Or(h, T.eq(e, (t[k] - b[k]) & T.mask(w), w))
                            c = T.And(c, h)
                        opts.append((c, int(ids[t + rest])))
                    return opts
                return src.goals_sym(O, "r", pick, s + b[nix:], "index")
            hs.append(Harness(f"getsym_{cls.__name__}_{bstr(b)}_{nix}_{bstr(s)}_{np.dtype(dt).name}", inputs, fn, goals,
                              assume=assume, n_random=1))
    return hs


def sym_set(tier):
    hs = []
    for cls in ALL:
        fs = fields_of(cls)
        for b, nix, s, dt, vk in (((4,), 1, (), np.int32, "single"), ((4,), 1, (2,), np.int32, "batch"),
                                  ((4,), 1, (2,), np.int32, "single"), ((4,), 1, (2,), np.int32, "scalar"),
                                  ((2, 3), 2, (), np.int32, "single"), ((2, 3), 2, (2,), np.int32, "batch"),
                                  ((2, 3), 1, (), np.int32, "batch"), ((4,), 1, (2,), np.uint8, "batch")):
            w = width(np.dtype(dt))
            signed = np.dtype(dt).kind == "i"
            vb = s + b[nix:] if vk == "batch" else ()
            specs = [("x", b)] + ([("v", vb)] if vk != "scalar" else [])
            inputs = [i for p, q in specs for i in mk_inputs(p, cls, q)] + [Inp(f"i{k}", s, dt) for k in range(nix)]

            def fn(*arrays, cls=cls, specs=specs, nix=nix, vk=vk):
                xs, rest = args_of(specs, cls, arrays)
                ix = tuple(rest) if nix > 1 else rest[0]
                return {"r": xs[0].at[ix].set(xs[1] if vk != "scalar" else 1)}

            def names(I, u, t, nix=nix, b=b, w=w, signed=signed):
                c = True
                for k in range(nix):
                    e = I[f"i{k}"].el[u] if u else I[f"i{k}"].flat()[0]
                    h = T.eq(e, t[k], w)
                    if signed:
                        h = T.Or(h, T.eq(e, (t[k] - b[k]) & T.mask(w), w))
                    c = T.And(c, h)
                return c

            def assume(I, s=s, b=b, nix=nix, names=names):
                if s == ():
                    return []
                return [T.Not(T.And(names(I, (0,), t), names(I, (1,), t))) for t in np.ndindex(*b[:nix])]

            def goals(I, O, fs=fs, b=b, s=s, nix=nix, vk=vk, names=names, vb=vb):
                g = []
                for path, intr, dt_, _ in fs:
                    got = O[f"r.{path}"]
                    if tuple(got.shape) != b + intr or got.dtype != np.dtype(dt_):
                        return [(f"set: shape or dtype of {path}", False)]
                    one = int(X.to_elems(np.asarray(1).astype(dt_))[()])
                    ts = []
                    for pos in np.ndindex(*b):
                        t, rest = pos[:nix], pos[nix:]
                        for q in np.ndindex(*intr):
                            r = _el(I, "x", path, pos + q)
                            for u in np.ndindex(*s):
                                v = one if vk == "scalar" else _el(I, "v", path, (u + rest if vk == "batch" else ()) + q)
                                r = T.ite(names(I, u, t), v, r, got.w)
                            ts.append(T.eq(got.el[pos + q], r, got.w))
                    g.append((f"set: {path}", T.And(*ts)))
                return g
            hs.append(Harness(f"setsym_{cls.__name__}_{bstr(b)}_{nix}_{bstr(s)}_{np.dtype(dt).name}_{vk}", inputs, fn, goals,
                              assume=assume, n_random=2))
    return hs


BIG = [((300,), s) for s in (299, -1, 257, slice(250, 290), slice(None, None, -7), np.array([299, 3, 256, 255, 0]),
                             np.arange(299, -1, -1), np.arange(300) % 3 == 0)] + \
      [((2, 270), s) for s in ((1, 269), (slice(None), slice(256, 262)), (np.array([1, 0]), np.array([260, 4])))] + \
      [((270, 2), s) for s in ((269, 1), (slice(255, 258), 0), np.array([256, 1]))]


def large(tier):
    return static_get(tier, [VA, Nested], BIG) + static_set(tier, [VA, Nested], BIG)


JOBS = {"large": dict(build=large, cost=30),
        "get": dict(build=static_get, cost=20), "set": dict(build=static_set, cost=40),
        "get_symbolic": dict(build=sym_get, cost=20), "set_symbolic": dict(build=sym_set, cost=20)}

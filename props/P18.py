"""xnp structural operations move whole records exactly as numpy moves array elements."""
from props.move_common import *  # noqa: F401,F403
import itertools

META = {
    "explanation": (
        "Every structural xnp operation is traced on symbolic records (scalar, tensor and nested fields) and the "
        "solver shows, for all record contents and all index/shift values, that each record of the result is "
        "entirely one source record - the one numpy's operation of the same name puts there when applied to an "
        "array of record numbers - or the default/fill record for padding, with unchanged dtypes and the batch "
        "shape numpy gives."),
    "bounds": "batch shapes (), (0,), (1,), (3,), (2,3), (2,1,3), and 260-600 records; up to 3 operands; 4 record classes (8 leaf "
              "shapes/dtypes); index and shift values symbolic",
    "assumptions": ["operations documented as field-wise (tile, *stack, block, atleast_*, axis=None forms) are "
                    "compared on classes whose fields are scalars, where field-wise and record-wise agree"],
}

ALL = [VA, VB, Nested, VT, VS]
MAIN = [VA, Nested, VT]


def concat(tier):
    hs = []
    for cls in (ALL if tier == "thorough" else MAIN):
        n = cls.__name__
        for axis, bs in ((0, [(2,), (3,)]), (-1, [(2,), (1,)]), (0, [(0,), (2,)]), (0, [(1,), (2,), (3,)]),
                         (0, [(1, 3), (2, 3)]), (1, [(2, 1), (2, 2)]), (-1, [(2, 1), (2, 2)]),
                         (-2, [(1, 3), (2, 3)]), (1, [(2, 1, 3), (2, 2, 3)]), (-1, [(2, 1, 2), (2, 1, 1)])):
            hs.append(move(f"concat_{n}_{'_'.join(map(bstr, bs))}_ax{axis}", cls, bs,
                           lambda xs, a=axis: xnp.concat(xs, axis=a), lambda i, d, a=axis: np.concatenate(i, axis=a)))
        hs.append(move(f"concatenate_{n}", cls, [(2,), (3,)], lambda xs: xnp.concatenate(xs),
                       lambda i, d: np.concatenate(i)))
        hs.append(move(f"concatenate_{n}_ax1", cls, [(2, 1), (2, 2)], lambda xs: xnp.concatenate(xs, axis=1),
                       lambda i, d: np.concatenate(i, axis=1)))
        hs.append(move(f"concat_{n}_single_records", cls, [(), ()], lambda xs: xnp.concat(xs), lambda i, d: np.stack(i)))
        hs.append(move(f"concat_{n}_one", cls, [(3,)], lambda xs: xnp.concat(xs), lambda i, d: i[0]))
        for bs in ([(), ()], [(3,), (3,)], [(2, 3), (2, 3)], [(3,)], [(2,), (2,), (2,)], [(2, 1)]):
            nd = len(bs[0])
            for axis in list(range(nd + 1)) + list(range(-nd - 1, 0)):
                hs.append(move(f"stack_{n}_{'_'.join(map(bstr, bs))}_ax{axis}", cls, bs,
                               lambda xs, a=axis: xnp.stack(xs, axis=a), lambda i, d, a=axis: np.stack(i, axis=a)))
    return hs


def pads(tier):
    hs = []
    for cls in (ALL if tier == "thorough" else MAIN):
        n = cls.__name__
        for b, pw in (((3,), 1), ((3,), (1, 2)), ((3,), ((0, 2),)), ((3,), ((2, 0),)), ((1,), 2), ((0,), (1, 1)),
                      ((2, 3), ((1, 0), (0, 2))), ((2, 3), 1), ((2, 3), ((0, 0), (1, 1))), ((2, 1, 2), ((1, 0), (0, 1), (0, 0))),
                      ((3,), 0), ((2, 3), ((0, 0), (0, 0)))):
            nm = f"{n}_{bstr(b)}_{str(pw).replace(' ', '')}"
            npw = pw if not (isinstance(pw, int)) else [(pw, pw)] * len(b)
            hs.append(move(f"pad_{nm}", cls, [b], lambda xs, p=pw: xnp.pad(xs[0], p),
                           lambda i, d, p=npw: np.pad(i[0], p, constant_values=d)))
            if b == (0,) or pw == 2:
                continue
            for mode in ("edge", "wrap", "reflect", "symmetric"):
                if mode == "reflect" and 1 in b:
                    continue
                hs.append(move(f"pad_{mode}_{nm}", cls, [b], lambda xs, p=pw, m=mode: xnp.pad(xs[0], p, mode=m),
                               lambda i, d, p=npw, m=mode: np.pad(i[0], p, mode=m)))
        for pw in (1, (0, 2), (2, 0), (1, 1)):
            hs.append(move(f"pad_{n}_single_{pw}".replace(" ", ""), cls, [()], lambda xs, p=pw: xnp.pad(xs[0], p),
                           lambda i, d, p=pw: np.pad(i[0].reshape(1), p, constant_values=d)))
            hs.append(move(f"pad_edge_{n}_single_{pw}".replace(" ", ""), cls, [()],
                           lambda xs, p=pw: xnp.pad(xs[0], p, mode="edge"),
                           lambda i, d, p=pw: np.pad(i[0].reshape(1), p, mode="edge")))
    return hs


def shapes(tier):
    hs = []
    for cls in (ALL if tier == "thorough" else MAIN):
        n = cls.__name__

        def add(nm, bs, call, orc, **kw):
            hs.append(move(f"{nm}_{n}", cls, bs, call, orc, **kw))
        for b, s in (((6,), (2, 3)), ((2, 3), (3, 2)), ((2, 3), (6,)), ((2, 3), (-1,)), ((6,), (2, -1)),
                     ((2, 3), (3, 1, 2)), ((2, 3), (1, -1, 1)), ((3,), (3,)), ((1,), (1, 1)), ((2, 1, 3), (3, 2))):
            add(f"reshape_{bstr(b)}_{s}".replace(" ", ""), [b], lambda xs, s=s: xnp.reshape(xs[0], s),
                lambda i, d, s=s: i[0].reshape(s))
            add(f"reshape_method_{bstr(b)}_{s}".replace(" ", ""), [b], lambda xs, s=s: xs[0].reshape(s),
                lambda i, d, s=s: i[0].reshape(s))
        add("reshape_int", [(2, 3)], lambda xs: xnp.reshape(xs[0], 6), lambda i, d: i[0].reshape(6))
        add("reshape_args", [(2, 3)], lambda xs: xs[0].reshape(3, 2), lambda i, d: i[0].reshape(3, 2))
        for b in ((3,), (2, 3), (2, 1, 3)):
            add(f"flatten_{bstr(b)}", [b], lambda xs: xnp.flatten(xs[0]), lambda i, d: i[0].reshape(-1))
            add(f"ravel_{bstr(b)}", [b], lambda xs: xnp.ravel(xs[0]), lambda i, d: i[0].reshape(-1))
            add(f"flatten_method_{bstr(b)}", [b], lambda xs: xs[0].flatten(), lambda i, d: i[0].reshape(-1))
            add(f"transpose_{bstr(b)}", [b], lambda xs: xnp.transpose(xs[0]), lambda i, d: i[0].transpose())
            for ax in itertools.permutations(range(len(b))):
                add(f"transpose_{bstr(b)}_{''.join(map(str, ax))}", [b], lambda xs, ax=ax: xnp.transpose(xs[0], ax),
                    lambda i, d, ax=ax: i[0].transpose(ax))
            for a1, a2 in itertools.product(range(-len(b), len(b)), repeat=2):
                if tier != "thorough" and a1 > a2:
                    continue
                add(f"swapaxes_{bstr(b)}_{a1}_{a2}", [b], lambda xs, a1=a1, a2=a2: xnp.swapaxes(xs[0], a1, a2),
                    lambda i, d, a1=a1, a2=a2: i[0].swapaxes(a1, a2))
            for s in range(len(b)):
                for t in range(len(b)):
                    add(f"moveaxis_{bstr(b)}_{s}_{t}", [b], lambda xs, s=s, t=t: xnp.moveaxis(xs[0], s, t),
                        lambda i, d, s=s, t=t: np.moveaxis(i[0], s, t))
        add("moveaxis_seq", [(2, 1, 3)], lambda xs: xnp.moveaxis(xs[0], (0, 1), (1, 2)),
            lambda i, d: np.moveaxis(i[0], (0, 1), (1, 2)))
        for b in ((), (3,), (2, 3)):
            for ax in range(len(b) + 1):
                add(f"expand_dims_{bstr(b)}_{ax}", [b], lambda xs, a=ax: xnp.expand_dims(xs[0], a),
                    lambda i, d, a=ax: np.expand_dims(i[0], a))
        add("expand_dims_tuple", [(3,)], lambda xs: xnp.expand_dims(xs[0], (0, 2)), lambda i, d: np.expand_dims(i[0], (0, 2)))
        for b, ax in (((1,), 0), ((1, 3), 0), ((2, 1, 3), 1), ((1, 2, 1), (0, 2))):
            add(f"squeeze_{bstr(b)}_{ax}".replace(" ", ""), [b], lambda xs, a=ax: xnp.squeeze(xs[0], axis=a),
                lambda i, d, a=ax: np.squeeze(i[0], axis=a))
        for b, s in (((), (2,)), ((), (2, 2)), ((3,), (2, 3)), ((1,), (4,)), ((2, 1), (2, 3)), ((1, 3), (2, 2, 3)), ((3,), (3,))):
            add(f"broadcast_to_{bstr(b)}_{bstr(s)}", [b], lambda xs, s=s: xnp.broadcast_to(xs[0], s),
                lambda i, d, s=s: np.broadcast_to(i[0], s))
        add("broadcast_arrays", [(2, 1), (1, 3)], lambda xs: xnp.broadcast_arrays(*xs),
            lambda i, d: np.broadcast_arrays(*i), n_out=2)
        add("broadcast_arrays3", [(1,), (3,), (3,)], lambda xs: xnp.broadcast_arrays(*xs),
            lambda i, d: np.broadcast_arrays(*i), n_out=3)
        for b, s, ax, k in (((6,), 3, 0, 3), ((5,), (1, 4), 0, 3), ((2, 4), 2, 1, 2), ((4, 2), (3,), 0, 2),
                            ((2, 3), (1, 1), 1, 3)):
            add(f"split_{bstr(b)}_{s}_{ax}".replace(" ", ""), [b], lambda xs, s=s, a=ax: xnp.split(xs[0], s, axis=a)
                if isinstance(s, int) else xnp.split(xs[0], list(s), axis=a),
                lambda i, d, s=s, a=ax: np.split(i[0], s, axis=a), n_out=k)
    return hs


def spatial(tier):
    hs = []
    for cls in (ALL if tier == "thorough" else MAIN):
        n = cls.__name__

        def add(nm, bs, call, orc, **kw):
            hs.append(move(f"{nm}_{n}", cls, bs, call, orc, **kw))
        for b, r, ax in (((3,), 2, 0), ((2, 3), 3, 1), ((2, 3), 2, 0), ((3,), 0, 0), ((3,), (1, 0, 2), 0), ((2, 2), (2, 1), 1)):
            tot = None if isinstance(r, int) else sum(r)
            add(f"repeat_{bstr(b)}_{r}_{ax}".replace(" ", ""), [b],
                lambda xs, r=r, a=ax: xnp.repeat(xs[0], r if isinstance(r, int) else np.array(r), axis=a),
                lambda i, d, r=r, a=ax: np.repeat(i[0], r, axis=a))
        for b, s, ax in (((3,), 1, 0), ((3,), -4, 0), ((2, 3), 2, 1), ((2, 3), (1, 2), (0, 1))):
            add(f"roll_{bstr(b)}_{s}_{ax}".replace(" ", ""), [b], lambda xs, s=s, a=ax: xnp.roll(xs[0], s, axis=a),
                lambda i, d, s=s, a=ax: np.roll(i[0], s, axis=a))
        for b, ax in (((3,), 0), ((2, 3), 0), ((2, 3), 1), ((2, 3), (0, 1))):
            add(f"flip_{bstr(b)}_{ax}".replace(" ", ""), [b], lambda xs, a=ax: xnp.flip(xs[0], axis=a),
                lambda i, d, a=ax: np.flip(i[0], axis=a))
        for k in (0, 1, 2, 3, -1, 5):
            for axes in ((0, 1), (1, 0)):
                add(f"rot90_{k}_{axes}".replace(" ", ""), [(2, 3)], lambda xs, k=k, a=axes: xnp.rot90(xs[0], k=k, axes=a),
                    lambda i, d, k=k, a=axes: np.rot90(i[0], k=k, axes=a))
        add("rot90_3d", [(2, 1, 3)], lambda xs: xnp.rot90(xs[0], axes=(0, 2)), lambda i, d: np.rot90(i[0], axes=(0, 2)))
    cls = VS
    for b in ((), (3,), (2, 3)):
        for k, f in enumerate(("atleast_1d", "atleast_2d", "atleast_3d")):
            hs.append(move(f"{f}_{bstr(b)}", cls, [b], lambda xs, f=f: getattr(xnp, f)(xs[0]),
                           lambda i, d, f=f: getattr(np, f)(i[0])))
            hs.append(move(f"{f}_{bstr(b)}_two", cls, [b, (2,)], lambda xs, f=f: getattr(xnp, f)(*xs),
                           lambda i, d, f=f: [getattr(np, f)(e) for e in i], n_out=2))
        for r in (2, (2,), (2, 1), (1, 3), (2, 1, 2)):
            hs.append(move(f"tile_{bstr(b)}_{r}".replace(" ", ""), cls, [b], lambda xs, r=r: xnp.tile(xs[0], r),
                           lambda i, d, r=r: np.tile(i[0], r)))
    for f in ("vstack", "hstack", "dstack", "column_stack"):
        for bs in ([(3,), (3,)], [(2, 3), (2, 3)], [(), ()], [(2, 1), (2, 1), (2, 1)]):
            hs.append(move(f"{f}_{'_'.join(map(bstr, bs))}", cls, bs, lambda xs, f=f: getattr(xnp, f)(xs),
                           lambda i, d, f=f: getattr(np, f)(i)))
    hs.append(move("vstack_mixed", cls, [(1, 3), (2, 3)], lambda xs: xnp.vstack(xs), lambda i, d: np.vstack(i)))
    hs.append(move("hstack_mixed", cls, [(1,), (2,)], lambda xs: xnp.hstack(xs), lambda i, d: np.hstack(i)))
    hs.append(move("column_stack_mixed", cls, [(3,), (3, 2)], lambda xs: xnp.column_stack(xs), lambda i, d: np.column_stack(i)))
    hs.append(move("block_2x2", cls, [(1, 2), (1, 1), (2, 2), (2, 1)],
                   lambda xs: xnp.block([[xs[0], xs[1]], [xs[2], xs[3]]]),
                   lambda i, d: np.block([[i[0], i[1]], [i[2], i[3]]])))
    hs.append(move("block_row", cls, [(2,), (1,), (3,)], lambda xs: xnp.block(xs), lambda i, d: np.block(i)))
    for b in ((3,), (2, 3)):
        hs.append(move(f"flip_none_{bstr(b)}", cls, [b], lambda xs: xnp.flip(xs[0]), lambda i, d: np.flip(i[0])))
        hs.append(move(f"roll_none_{bstr(b)}", cls, [b], lambda xs: xnp.roll(xs[0], 2), lambda i, d: np.roll(i[0], 2)))
        hs.append(move(f"repeat_none_{bstr(b)}", cls, [b], lambda xs: xnp.repeat(xs[0], 2), lambda i, d: np.repeat(i[0], 2)))
        hs.append(move(f"concat_none_{bstr(b)}", cls, [b, (2,)], lambda xs: xnp.concat(xs, axis=None),
                       lambda i, d: np.concatenate(i, axis=None)))
    hs.append(move("squeeze_none", cls, [(1, 3, 1)], lambda xs: xnp.squeeze(xs[0]), lambda i, d: np.squeeze(i[0])))
    return hs


def sym_take(tier):
    hs = []
    # (batch, index shape, axis, mode, index dtype)
    cases = [((3,), (), 0, None, np.int32), ((3,), (2,), 0, None, np.int32), ((3,), (2, 2), 0, None, np.int32),
             ((2, 3), (2,), 0, None, np.int32), ((2, 3), (2,), 1, None, np.int32), ((2, 3), (), 1, None, np.int32),
             ((3,), (2,), 0, "clip", np.int32), ((3,), (2,), 0, "wrap", np.int32), ((3,), (2,), 0, None, np.uint8),
             ((3,), (2,), None, None, np.int32), ((2, 3), (2,), None, "clip", np.int32)]
    for cls in (ALL if tier == "thorough" else MAIN):
        for b, s, ax, mode, dt in cases:
            a = 0 if ax is None else ax
            n = b[a]
            name = f"take_{cls.__name__}_{bstr(b)}_i{bstr(s)}_ax{ax}_{mode}_{np.dtype(dt).name}"
            specs = [("x", b)]
            inputs = mk_inputs("x", cls, b) + [Inp("i", s, dt)]

            def fn(*arrays, b=b, ax=ax, mode=mode, cls=cls, specs=specs):
                (x,), (i,) = args_of(specs, cls, arrays)
                kw = {} if mode is None else {"mode": mode}
                return {"r": xnp.take(x, i, axis=ax, **kw) if ax is not None else xnp.take(x, i, **kw)}

            w = width(np.dtype(dt))

            def assume(I, mode=mode, n=n, w=w, dt=dt):
                lo = 0 if np.dtype(dt).kind == "u" else -n
                if mode is not None:
                    return []
                return [T.And(T.sle(lo & T.mask(w), e, w), T.slt(e, n, w)) if np.dtype(dt).kind == "i"
                        else T.ult(e, n, w) for e in I.i.flat()]

            def goals(I, O, b=b, s=s, a=a, n=n, mode=mode, w=w, cls=cls, specs=specs, dt=dt):
                src = Src(I, cls, specs)
                ids = src.ids["x"]
                out_shape = b[:a] + s + b[a + 1:]

                def pick(pos):
                    e = I.i.el[pos[a:a + len(s)]]
                    if isinstance(e, np.ndarray):
                        e = e[()]
                    opts = []
                    for k in range(n):
                        rec = int(ids[pos[:a] + (k,) + pos[a + len(s):]])
                        if mode == "clip":
                            c = T.sle(e, 0, w) if k == 0 else T.eq(e, k, w)
                        elif mode == "wrap":
                            v = e
                            c = floormod_is(v, n, k, w)
                        else:
                            c = T.eq(e, k, w)
                            if np.dtype(dt).kind == "i":
                                c = T.Or(c, T.eq(e, (k - n) & T.mask(w), w))
                        opts.append((c, rec))
                    return opts
                return src.goals_sym(O, "r", pick, out_shape, "take")
            hs.append(Harness(name, inputs, fn, goals, assume=assume, n_random=1))
        for b, s, ax in (((3,), (3,), 0), ((3,), (2,), 0), ((2, 3), (2, 3), 1), ((2, 3), (2, 3), 0), ((2, 3), (2, 1), 1),
                         ((2, 3), (1, 3), 0), ((2, 1, 3), (2, 1, 2), 2)):
            name = f"take_along_axis_{cls.__name__}_{bstr(b)}_i{bstr(s)}_ax{ax}"
            n = b[ax]
            specs = [("x", b)]
            inputs = mk_inputs("x", cls, b) + [Inp("i", s, np.int32)]

            def fn(*arrays, ax=ax, cls=cls, specs=specs):
                (x,), (i,) = args_of(specs, cls, arrays)
                return {"r": xnp.take_along_axis(x, i, ax)}

            def assume(I, n=n):
                return [T.And(T.sle(-n & T.mask(32), e, 32), T.slt(e, n, 32)) for e in I.i.flat()]

            def goals(I, O, b=b, s=s, ax=ax, n=n, cls=cls, specs=specs):
                src = Src(I, cls, specs)
                ids = src.ids["x"]

                def pick(pos):
                    e = I.i.el[tuple(p if s[k] > 1 else 0 for k, p in enumerate(pos))]
                    return [(T.Or(T.eq(e, k, 32), T.eq(e, (k - n) & T.mask(32), 32)),
                             int(ids[pos[:ax] + (k,) + pos[ax + 1:]])) for k in range(n)]
                out = tuple(s[k] if k == ax else b[k] for k in range(len(b)))
                return src.goals_sym(O, "r", pick, out, "take_along_axis")
            hs.append(Harness(name, inputs, fn, goals, assume=assume, n_random=1))
        for b, ax in (((3,), 0), ((2, 3), 1), ((2, 3), 0)):
            name = f"roll_sym_{cls.__name__}_{bstr(b)}_ax{ax}"
            n = b[ax]
            specs = [("x", b)]
            inputs = mk_inputs("x", cls, b) + [Inp("k", (), np.int32)]

            def fn(*arrays, ax=ax, cls=cls, specs=specs):
                (x,), (k,) = args_of(specs, cls, arrays)
                return {"r": xnp.roll(x, k, axis=ax)}

            def assume(I, n=n):
                return [T.And(T.sle(-4 * n & T.mask(32), I.k.flat()[0], 32), T.sle(I.k.flat()[0], 4 * n, 32))]

            def goals(I, O, b=b, ax=ax, n=n, cls=cls, specs=specs):
                src = Src(I, cls, specs)
                ids = src.ids["x"]
                e = I.k.flat()[0]

                def pick(pos):
                    opts = []
                    for r in range(n):
                        rec = int(ids[pos[:ax] + ((pos[ax] - r) % n,) + pos[ax + 1:]])
                        opts.append((T.Or(*[T.eq(e, v & T.mask(32), 32) for v in range(-4 * n, 4 * n + 1) if v % n == r]), rec))
                    return opts
                return src.goals_sym(O, "r", pick, b, "roll")
            hs.append(Harness(name, inputs, fn, goals, assume=assume, n_random=1))
    return hs


def floormod_is(v, n, k, w):
    """floor-mod of a signed value by n equals k."""
    if not T.is_sym(v):
        s = v - (1 << w) if v >> (w - 1) else v
        return s % n == k
    r = z3.SRem(v, z3.BitVecVal(n, w))
    r = z3.If(r < 0, r + n, r)
    return r == k


def fills(tier):
    hs = []
    for cls in ALL:
        fs = fields_of(cls)
        for b in ((), (3,), (2, 3)):
            specs = [("x", b)]

            def fn(*arrays, cls=cls, specs=specs):
                (x,), _ = args_of(specs, cls, arrays)
                return {"z": xnp.zeros_like(x), "o": xnp.ones_like(x), "f": xnp.full_like(x, 7)}

            def goals(I, O, cls=cls, b=b, fs=fs):
                g = []
                for tag, v in (("z", 0), ("o", 1), ("f", 7)):
                    for path, intr, dt, _ in fs:
                        want = X.to_elems(np.full(b + intr, v).astype(dt))
                        g += leaf_goal(f"{tag}: {path}", O[f"{tag}.{path}"], want, dt)
                return g
            hs.append(Harness(f"like_{cls.__name__}_{bstr(b)}", mk_inputs("x", cls, b), fn, goals, n_random=1))
    return hs


def large(tier):
    """Batches and positions beyond one byte."""
    hs = []
    perm = (np.arange(300) * 77) % 300
    for cls in (VA, Nested):
        n = cls.__name__

        def add(nm, bs, call, orc, **kw):
            hs.append(move(f"large_{nm}_{n}", cls, bs, call, orc, **kw))
        add("take", [(300,)], lambda xs: xnp.take(xs[0], jnp.asarray(perm), axis=0), lambda i, d: i[0][perm])
        add("take_ax1", [(2, 270)], lambda xs: xnp.take(xs[0], jnp.asarray([269, 3, 256]), axis=1),
            lambda i, d: i[0][:, [269, 3, 256]])
        add("concat", [(300,), (5,)], lambda xs: xnp.concat(xs), lambda i, d: np.concatenate(i))
        add("stack", [(270,), (270,)], lambda xs: xnp.stack(xs, axis=1), lambda i, d: np.stack(i, axis=1))
        add("pad", [(3,)], lambda xs: xnp.pad(xs[0], (260, 300)), lambda i, d: np.pad(i[0], (260, 300), constant_values=d))
        add("roll", [(300,)], lambda xs: xnp.roll(xs[0], 260, axis=0), lambda i, d: np.roll(i[0], 260))
        add("flip", [(300,)], lambda xs: xnp.flip(xs[0], axis=0), lambda i, d: np.flip(i[0], 0))
        add("reshape", [(300,)], lambda xs: xnp.reshape(xs[0], (2, -1)), lambda i, d: i[0].reshape(2, -1))
        add("transpose", [(2, 270)], lambda xs: xnp.transpose(xs[0]), lambda i, d: i[0].T)
        add("repeat", [(3,)], lambda xs: xnp.repeat(xs[0], 130, axis=0), lambda i, d: np.repeat(i[0], 130, axis=0))
        add("split", [(600,)], lambda xs: xnp.split(xs[0], [270, 300], axis=0), lambda i, d: np.split(i[0], [270, 300]),
            n_out=3)
        add("broadcast_to", [(1, 2)], lambda xs: xnp.broadcast_to(xs[0], (270, 2)),
            lambda i, d: np.broadcast_to(i[0], (270, 2)))
    return hs


JOBS = {
    "large": dict(build=large, cost=30),
    "concat": dict(build=concat, cost=30), "pad": dict(build=pads, cost=40),
    "shape": dict(build=shapes, cost=60), "spatial": dict(build=spatial, cost=40),
    "take": dict(build=sym_take, cost=40), "fill": dict(build=fills, cost=5),
}

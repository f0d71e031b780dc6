"""unique_mask keeps exactly the cheapest valid row of every distinct record."""
from props.move_common import *  # noqa: F401,F403

META = {
    "explanation": (
        "xnp.unique_mask is traced on symbolic batches with symbolic costs (float and integer), symbolic filled flags "
        "and custom key functions, for records of 1 to 7 hash columns and for aggregate-packed records. The solver "
        "shows for all of them that the mask marks, for every distinct valid record, exactly its cheapest row (the "
        "first one on ties) and nothing else, that the returned indices are exactly the marked rows, each once, and "
        "that the inverse maps every valid row to the marked row of its record - also when the internal 128-bit hash "
        "collides."),
    "bounds": "2-4 rows (5 in thorough); records of 1..7 uint32 columns; columns of hashed records (5 and more) range "
              "over values built from their low and top bits; 280-300 rows with fixed contents",
    "assumptions": ["float costs are not NaN unless stated (NaN counts as invalid)", "no NaN fields"],
}


@xtructure_dataclass
class U1:
    a: FieldDescriptor.scalar(dtype=jnp.uint32)


@xtructure_dataclass
class UF:
    f: FieldDescriptor.scalar(dtype=jnp.float32)
    b: FieldDescriptor.tensor(dtype=jnp.uint8, shape=(2,))


@xtructure_dataclass
class U6:
    t: FieldDescriptor.tensor(dtype=jnp.uint32, shape=(6,))


@xtructure_dataclass
class U5:
    t: FieldDescriptor.tensor(dtype=jnp.uint32, shape=(5,))


def aggc(*fields):
    ann = {n: FieldDescriptor.tensor(dtype=d, shape=s, bits=b, fill_value=0) if s
           else FieldDescriptor.scalar(dtype=d, bits=b, default=0) for n, b, s, d in fields}
    return xtructure_dataclass(type("A", (), {"__module__": __name__, "__annotations__": ann}), aggregate_bitpack=True)


AGG = {
    "tail_only": aggc(("a", 8, (), jnp.uint8)),
    "word_tail": aggc(("a", 32, (), jnp.uint32), ("b", 8, (), jnp.uint8)),
    "word": aggc(("a", 20, (), jnp.uint32), ("b", 12, (), jnp.uint16)),
    "mixed": aggc(("a", 5, (3,), jnp.uint8), ("b", 30, (), jnp.uint32), ("c", 1, (2,), jnp.bool_)),
}
AGGBITS = {"tail_only": {"a": 8}, "word_tail": {"a": 32, "b": 8}, "word": {"a": 20, "b": 12},
           "mixed": {"a": 5, "b": 30, "c": 1}}


def twobit(name, shape, bits=(31, 0)):
    """uint32 values whose only free bits are the given ones."""
    el = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        v = 0
        for k, b in enumerate(bits):
            v = T.bor(v, T.shl(z3.ZeroExt(31, z3.BitVec(f"{name}{list(ix)}b{b}", 1)), b, 32), 32)
        el[ix] = v
    return Inp(name, shape, np.uint32, el=el)


def rangedb(name, shape, dtype, bits):
    w = width(np.dtype(dtype))
    if w == 0 or bits >= w:
        return Inp(name, shape, dtype)
    el = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        v = z3.ZeroExt(w - bits, z3.BitVec(f"{name}{list(ix)}", bits))
        if ix == ():
            return Inp(name, shape, dtype, el=X._scalar(v))
        el[ix] = v
    return Inp(name, shape, dtype, el=el)


def uniq(name, cls, n, cost=None, filled=False, ret=False, inputs=None, key_fn=None, key_cols=None, timeout=300,
         keyval=None, given=False):
    specs = [("x", (n,))]
    inp = inputs if inputs is not None else mk_inputs("x", cls, (n,))
    nx = len(inp)
    fl_in = [i.name for i in inp if X.is_float(i.dtype)]
    inp = list(inp)
    if cost is not None and not given:
        inp.append(Inp("cost", (n,), cost, dom=None))
    if filled and not given:
        inp.append(Inp("fill", (n,), np.bool_))

    def fn(*arrays):
        xs, rest = args_of(specs, cls, arrays)
        kw = {}
        k = 0
        if cost is not None:
            kw["key"] = rest[k]
            k += 1
        if filled:
            kw["filled"] = rest[k]
        if key_fn is not None:
            kw["key_fn"] = key_fn
        if ret:
            m, i, v = xnp.unique_mask(xs[0], return_index=True, return_inverse=True, **kw)
            m2 = xnp.unique_mask(xs[0], **kw)
            return {"m": m, "i": i, "v": v, "m2": m2}
        return {"m": xnp.unique_mask(xs[0], **kw)}

    def assume(I):
        a = []
        for nm in fl_in:
            a += [T.Not(X.f_isnan(e, I[nm].dtype)) for e in I[nm].flat()]
        return a

    def goals(I, O):
        cols = key_cols(I) if key_cols else rows_of(I, "x", cls)
        ws = None if key_cols else widths_of(I, "x")
        fl = []
        if not key_cols:
            for k, v in I.items():
                if k.startswith("x."):
                    fl += [X.is_float(v.dtype)] * int(np.prod(v.shape[1:], dtype=int))
        else:
            ws = [32] * len(cols[0])
            fl = [False] * len(cols[0])

        def same(i, j):
            return T.And(*[X.f_eq(p, q, np.float32) if f else T.eq(p, q, w) for p, q, w, f in zip(cols[i], cols[j], ws, fl)])

        def less(i, j):
            if cost is None:
                return False
            a, b, w = I.cost.el[i], I.cost.el[j], I.cost.w
            return X.f_lt(a, b, I.cost.dtype) if X.is_float(I.cost.dtype) else \
                (T.slt(a, b, w) if np.dtype(cost).kind == "i" else T.ult(a, b, w))
        valid = []
        for i in range(n):
            v = I.fill.el[i] if filled else True
            if cost is not None and X.is_float(np.dtype(cost)):
                inf = int(X.to_elems(np.asarray(np.inf, np.dtype(cost)))[()])
                v = T.And(v, X.f_lt(I.cost.el[i], inf, I.cost.dtype))
            valid.append(v)
        want = []
        for i in range(n):
            better = [T.And(valid[j], same(i, j), T.Or(less(j, i), T.And(T.Not(less(i, j)), j < i)))
                      for j in range(n) if j != i and same(i, j) is not False]
            want.append(T.And(valid[i], T.Not(T.Or(*better))))
        g = [("shape", O.m.shape == (n,))]
        if O.m.shape != (n,):
            return g
        for i in range(n):
            g.append((f"mask[{i}]", T.Iff(O.m.el[i], want[i])))
        if ret:
            iw = O.i.w
            for i in range(n):
                g.append((f"mask[{i}] is the same with and without indices", T.Iff(O.m.el[i], O.m2.el[i])))
                hits = [T.eq(e, i, iw) for e in O.i.flat()]
                g.append((f"row {i} is in the index exactly when marked", T.Iff(T.Or(*hits), want[i])))
                live = [h for h in hits if h is not False]
                for p in range(len(live)):
                    for q in range(p):
                        g.append((f"row {i} is indexed once", T.Not(T.And(live[p], live[q]))))
                rep = []
                for j in range(n):
                    if want[j] is False or same(i, j) is False:
                        continue
                    at = T.Or(*[T.And(T.eq(O.v.el[i], p, O.v.w), T.eq(O.i.el[p], j, iw)) for p in range(O.i.shape[0])])
                    rep.append(T.And(at, want[j], same(i, j)))
                g.append((f"inverse of row {i}", T.Implies(valid[i], T.Or(*rep))))
        return g
    return Harness(name, inp, fn, goals, assume=assume, n_random=2, timeout=timeout)


def big(name, n, **v):
    """Many rows with fixed records and costs (index widths)."""
    a = (np.arange(n, dtype=np.uint32) * 7) % (n // 2 + 3)
    inp = [Inp("x.a", (n,), np.uint32, value=a)]
    C = v.pop("cost", None)
    F = v.pop("filled", False)
    if C is not None:
        inp.append(Inp("cost", (n,), C, value=((np.arange(n) * 13) % 11).astype(C)))
    if F:
        inp.append(Inp("fill", (n,), np.bool_, value=np.arange(n) % 5 != 2))
    return uniq(name, U1, n, inputs=inp, cost=C, filled=F, given=True, **v)


def large(tier):
    return [big("large_300", 300, ret=True), big("large_300_cost", 300, cost=np.float32, filled=True),
            big("large_280_intcost", 280, cost=np.int32, ret=True)]


VARI = [dict(), dict(filled=True), dict(cost=np.float32), dict(cost=np.float32, filled=True),
        dict(cost=np.int32), dict(cost=np.uint32, filled=True), dict(ret=True),
        dict(ret=True, filled=True), dict(ret=True, cost=np.float32, filled=True), dict(ret=True, cost=np.int32)]


def vn(v):
    return "_".join(([f"cost{np.dtype(v['cost']).name}"] if "cost" in v else []) + [k for k in ("filled", "ret") if v.get(k)]) or "plain"


def direct(tier):
    hs = []
    for cls, n in ((U1, 4), (VA, 3), (UF, 3), (VB, 3)):
        for v in VARI:
            hs.append(uniq(f"{cls.__name__}_{n}_{vn(v)}", cls, n, **v))
            if tier == "thorough":
                hs.append(uniq(f"{cls.__name__}_{n + 1}_{vn(v)}", cls, n + 1, timeout=600, **v))
    for v in VARI:
        hs.append(uniq(f"U1_1_{vn(v)}", U1, 1, **v))
        hs.append(uniq(f"U1_2_{vn(v)}", U1, 2, **v))
    for k in (lambda r: r.a, lambda r: r.a.reshape(1)):
        hs.append(uniq("keyfn_a" if k(U1.default()).ndim == 0 else "keyfn_a1", VA, 3, cost=np.float32, ret=True, key_fn=k,
                       key_cols=lambda I: [[I["x.a"].el[i]] for i in range(3)]))
    return hs


def hashed(tier):
    hs = []
    for v in VARI:
        for n, C, bits in ((2, U5, (31, 0)), (2, U6, (31, 0)), (3, U5, (31,)), (3, U6, (31,))):
            k = 5 if C is U5 else 6
            hs.append(uniq(f"{C.__name__}_{n}_bits{'_'.join(map(str, bits))}_{vn(v)}", C, n,
                           inputs=[twobit("x.t", (n, k), bits)], **v))
        if tier == "thorough":
            hs.append(uniq(f"U5_3_bits31_0_{vn(v)}", U5, 3, inputs=[twobit("x.t", (3, 5))], timeout=800, **v))
            hs.append(uniq(f"U5_4_bits31_{vn(v)}", U5, 4, inputs=[twobit("x.t", (4, 5), (31,))], timeout=800, **v))
        if tier == "thorough" or not v:
            hs.append(uniq(f"U5_3_bits0_{vn(v)}", U5, 3, inputs=[twobit("x.t", (3, 5), (0,))], **v))
    return hs


def packed(tier):
    hs = []
    for nm, cls in AGG.items():
        for v in (VARI if tier == "thorough" else VARI[:4] + VARI[8:9]):
            n = 3
            inp = [rangedb(i.name, i.shape, i.dtype, AGGBITS[nm][i.name[2:]]) for i in mk_inputs("x", cls, (n,))]
            hs.append(uniq(f"agg_{nm}_{vn(v)}", cls, n, inputs=inp, **v))
    return hs


JOBS = {"direct": dict(build=direct, cost=60), "hashed": dict(build=hashed, cost=80),
        "packed": dict(build=packed, cost=30),
        "large": dict(build=large, cost=60)}

"""In-batch duplicates: exactly one representative per distinct record, the cheapest, then the first."""
from props.ht_common import *  # noqa: F401,F403

META = {
    "explanation": (
        "Symbolic execution of HashTable.parallel_insert with unique_key as traced from the current tree, in every "
        "dedupe mode and sort backend (they are read from the environment at import): for any batch, with any pattern "
        "of equal rows, masked rows and hash collisions, exactly one row per distinct filled record is flagged "
        "unique, it is the one with the smallest cost and among those the smallest position, only it can be inserted, "
        "and every duplicate reports the index of that representative. In approx mode the records are assumed to have "
        "distinct hash pairs, as documented. Wide records reach the signature path, whose collisions the payload "
        "domain contains (two flipped top bits cancel in all four words of the signature)."),
    "bounds": "2x2 and 4x1 tables, batches of 2-4, costs -1, 0, 1, +inf and absent, float32 and int32 costs; modes "
              "safe, exact, approx x stable_argsort, lax_stable, lax_unstable; rows of 3 and of 12 words; "
              "large: 300 rows with concrete keys, float32 and int32 costs, every mode but exact",
    "assumptions": ["costs are not NaN"],
}


def j(build, **kw):
    return dict(build=build, **kw)


def ok(hs):
    return hs() if state_ok() else []


@xtructure_dataclass
class Wide:
    p: FieldDescriptor.scalar(dtype=jnp.uint32)
    s: FieldDescriptor.scalar(dtype=jnp.uint32)
    w: FieldDescriptor.tensor(dtype=jnp.uint32, shape=(10,))


Wide.hash_pair = lambda x, seed=0: (x.p, x.s)
Wide.hash_pair_with_uint32ed = lambda x, seed=0: ((x.p, x.s), x.uint32ed)


def wide_h(name, N, ukey, timeout=700):
    """Rows that differ only in top bits of some words: the signature path and its collisions."""
    d = Dom(2, 2, pb=0, sb=1)
    ps = []
    for f in "ps":      # hashes 0 and all ones: the latter is also what masked rows sort as
        pe = np.empty((N,), dtype=object)
        for i in range(N):
            pe[i] = z3.If(z3.Bool(f"{f}[{i}]"), z3.BitVecVal(T.mask(32), 32), z3.BitVecVal(0, 32))
        ps.append(Inp("x." + f, (N,), np.uint32, el=pe))
    el = np.empty((N, 10), dtype=object)
    for i in range(N):
        for k in range(10):
            if k in (1, 4, 8):
                el[i, k] = z3.Concat(z3.BitVec(f"w[{i}][{k}]", 1), z3.BitVecVal(k, 31))
            else:
                el[i, k] = k * 77
    inputs = ps + [Inp("x.w", (N, 10), np.uint32, el=el), Inp("fm", (N,), np.bool_)]
    if ukey:
        inputs.append(fkey("uk", N))

    def fn(p, s, w, fm, *uk):
        t = HashTable.build(Wide, 7, 4, bucket_size=2, hash_size_multiplier=1)
        t2, ins, uniq, idx = t.parallel_insert(Wide(p=p, s=s, w=w), fm, *uk)
        qi, qf = t2.lookup_parallel(Wide(p=p, s=s, w=w))
        return {"ins": ins, "uniq": uniq, "idx": idx.index, "qf": qf, "qi": qi.index}

    def goals(I, O):
        rows = [[I["x.p"].el[i], I["x.s"].el[i]] + list(I["x.w"].el[i]) for i in range(N)]
        fm = list(I.fm.el)
        same_ = lambda a, b: rows_eq(a, b, [32] * 12)
        uk = list(I.uk.el) if ukey else None

        def better(a, b):
            if uk is None:
                return a < b
            lt = X.f_lt(uk[a], uk[b], np.dtype(np.float32))
            return T.Or(lt, T.And(X.f_eq(uk[a], uk[b], np.dtype(np.float32)), a < b))

        g = []
        for i in range(N):
            rep = T.And(fm[i], *[T.Not(T.And(fm[k], same_(rows[i], rows[k]), better(k, i)))
                                 for k in range(N) if k != i])
            g.append((f"row {i}: unique exactly when it represents its record", T.Iff(O.uniq.el[i], rep)))
            g.append((f"row {i}: inserted exactly when representative", T.Iff(O.ins.el[i], rep)))
            g.append((f"row {i}: found afterwards exactly when some copy was filled", T.Iff(
                O.qf.el[i], T.Or(*[T.And(fm[k], same_(rows[i], rows[k])) for k in range(N)]))))
            g.append((f"row {i}: its index is where it is found", T.Implies(fm[i], T.eq(
                O.idx.el[i], O.qi.el[i], 32))))
        return g

    def covers(I, O):
        return [("signature collision between different rows", T.And(
            I.fm.el[0], I.fm.el[1], T.eq(I["x.p"].el[0], I["x.p"].el[1], 32),
            T.eq(I["x.s"].el[0], I["x.s"].el[1], 32), O.uniq.el[0], O.uniq.el[1]))]

    c = ctx(d)
    return Harness(name, inputs, fn, goals, covers=covers, trace_ctx=c, run_ctx=c, timeout=timeout,
                   bounds=f"empty 2x2 table, any batch of {N} 12-word rows differing in three top bits and the hash")


def approx_h(name, C, B, N, what, **kw):
    """approx mode: hash pairs identify records."""
    h = batch_h(name, C, B, N, what, vb=0, **kw)
    return h


def plain_h(name, N, kdt, kels, keyvals=None, timeout=600):
    """Hash of a plain record class, costs of any dtype, records over {0, all ones}."""
    kdt = np.dtype(kdt)
    kw_ = width(kdt)
    inputs = []
    for f, dt, w in (("p", np.uint32, 32), ("s", np.uint32, 32)):
        el = np.empty((N,), dtype=object)
        for i in range(N):
            b = z3.Bool(f"{f}[{i}]")
            el[i] = z3.If(b, z3.BitVecVal(T.mask(w) if (f == "s" or keyvals == "ones") else 1, w), z3.BitVecVal(0, w))
        inputs.append(Inp("x." + f, (N,), dt, el=el))
    el = np.empty((N, 4), dtype=object)
    for i in range(N):
        el[i, 0] = el[i, 1] = el[i, 2] = el[i, 3] = z3.If(z3.Bool(f"v[{i}]"), z3.BitVecVal(255, 8), z3.BitVecVal(0, 8))
    inputs += [Inp("x.v", (N, 4), np.uint8, el=el), Inp("fm", (N,), np.bool_), Inp("uk", (N,), kdt, el=kels(N))]
    sgn = kdt.kind == "i"

    def fn(p, s, v, fm, uk):
        t = HashTable.build(RKP, 7, 4, bucket_size=2, hash_size_multiplier=1)
        t2, ins, uniq, idx = t.parallel_insert(RKP(p=p, s=s, v=v), fm, uk)
        return {"ins": ins, "uniq": uniq, "idx": idx.index}

    def goals(I, O):
        rows = [keyrow(I, "x", i) for i in range(N)]
        fm, uk = list(I.fm.el), list(I.uk.el)

        def better(a, b):
            if kdt.kind == "f":
                lt, eq_ = X.f_lt(uk[a], uk[b], kdt), X.f_eq(uk[a], uk[b], kdt)
            else:
                lt, eq_ = (T.slt if sgn else T.ult)(uk[a], uk[b], kw_), T.eq(uk[a], uk[b], kw_)
            return T.Or(lt, T.And(eq_, a < b))

        g = []
        for i in range(N):
            rep = T.And(fm[i], *[T.Not(T.And(fm[k], same(rows[i], rows[k]), better(k, i)))
                                 for k in range(N) if k != i])
            g.append((f"row {i}: unique exactly when it represents its record", T.Iff(O.uniq.el[i], rep)))
            g.append((f"row {i}: inserted exactly when representative", T.Iff(O.ins.el[i], rep)))
        return g

    return Harness(name, inputs, fn, goals, timeout=timeout,
                   bounds=f"empty 2x2 table, any batch of {N} over records of zeros and ones, {kdt} costs")


@xtructure_dataclass
class RKP:
    p: FieldDescriptor.scalar(dtype=jnp.uint32)
    s: FieldDescriptor.scalar(dtype=jnp.uint32)
    v: FieldDescriptor.tensor(dtype=jnp.uint8, shape=(4,))


def icost(lo_bits, base, w):
    def f(N):
        el = np.empty((N,), dtype=object)
        for i in range(N):
            q = z3.BitVec(f"uk[{i}]", lo_bits)
            el[i] = z3.ZeroExt(w - lo_bits, q) + z3.BitVecVal(base, w)
        return el
    return f


ENVS = {
    "safe": {}, "exact": {"XTRUCTURE_HASHTABLE_DEDUPE_MODE": "exact"},
    "fast": {"XTRUCTURE_HASHTABLE_DEDUPE_MODE": "fast"},
    "lax_stable": {"XTRUCTURE_HASHTABLE_SORT_BACKEND": "lax_stable"},
    "lax_unstable": {"XTRUCTURE_HASHTABLE_SORT_BACKEND": "lax_unstable"},
}
JOBS = {}
for m, env in ENVS.items():
    un = m == "lax_unstable"
    JOBS[f"cost_{m}"] = j(lambda t, m=m, un=un: ok(lambda: [
        batch_h(f"{m}_cost", 2, 2, 3, "flags", ukey=True, nondet=un),
        batch_h(f"{m}_first", 2, 2, 3, "flags", nondet=un)]), env=env, cost=40)
    JOBS[f"idx_{m}"] = j(lambda t, m=m, un=un: ok(lambda: [
        batch_h(f"{m}_index", 2, 2, 3, "index", ukey=True, nondet=un)]), env=env, cost=40)
    JOBS[f"wide_{m}"] = j(lambda t, m=m: [wide_h(f"wide_{m}", 3, False), wide_h(f"wide_cost_{m}", 2, True)],
                          env=env, cost=60)
ap = {"XTRUCTURE_HASHTABLE_DEDUPE_MODE": "approx"}
JOBS["approx"] = j(lambda t: ok(lambda: [approx_h("approx_flags", 2, 2, 3, "flags", ukey=True),
                                         approx_h("approx_index", 2, 2, 3, "index", ukey=True),
                                         approx_h("approx_set", 2, 2, 2, "set", ukey=True)]), env=ap, cost=40)
JOBS["approx_lax"] = j(lambda t: ok(lambda: [approx_h("approx_lax_flags", 2, 2, 3, "flags", ukey=True)]),
                       env={**ap, "XTRUCTURE_HASHTABLE_SORT_BACKEND": "lax_stable"}, cost=40)
JOBS["scalar"] = j(lambda t: ok(lambda: [batch_h("cost_scalar_mask", 2, 2, 2, "flags", ukey=True, fmode="scalar"),
                                         batch_h("cost_no_mask", 2, 2, 3, "flags", ukey=True, fmode="none")]), cost=30)
JOBS["n4"] = j(lambda t: ok(lambda: [batch_h("cost_n4", 2, 2, 4, "flags", ukey=True, timeout=3000)]), cost=80,
               tier="thorough")
JOBS["wide4"] = j(lambda t: [wide_h("wide_n4", 4, True, timeout=3000)], cost=80, tier="thorough")
for m in ("safe", "exact"):
    JOBS[f"intcost_{m}"] = j(lambda t, m=m: [
        plain_h(f"int32_cost_{m}", 3, np.int32, icost(2, (1 << 25) - 2, 32)),
        plain_h(f"int32_cost_neg_{m}", 2, np.int32, icost(2, (1 << 32) - 2, 32)),
        plain_h(f"int32_cost_max_{m}", 3, np.int32, icost(2, (1 << 31) - 4, 32)),
        plain_h(f"uint32_cost_{m}", 2, np.uint32, icost(2, (1 << 32) - 4, 32)),
        plain_h(f"float_cost_ones_{m}", 3, np.float32, lambda N: fkey("uk", N).el, "ones")], env=ENVS[m], cost=30)
for m in ("safe", "fast", "lax_stable", "lax_unstable"):
    JOBS[f"large_{m}"] = j(lambda t, m=m: [large_h(f"large_{m}", 64, 8, 300, ("flags", "index"), cost=c)
                                           for c in (np.float32, np.int32)], env=ENVS[m], cost=30)

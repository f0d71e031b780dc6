"""Merge backends: every implementation is the stable merge of two ascending arrays."""
from props.bgpq_common import *  # noqa: F401,F403
import importlib

MP = importlib.import_module("xtructure.bgpq.merge_split")
MSS = importlib.import_module("xtructure.bgpq._merge").merge_sort_split
PAR = importlib.import_module("xtructure.bgpq.merge_split.parallel")

META = {
    "explanation": (
        "Symbolic execution of every merge implementation as traced from the current tree, Pallas kernels included "
        "(grid programs over refs, with obligations that no two programs touch the same cell and that every access "
        "is in bounds): for all ascending inputs the output is ascending, is a permutation, carries each key's own "
        "index or value record, and resolves ties in favour of the first array. Priority-queue steps are repeated "
        "under each backend selection. Counterexamples are replayed on the real kernels under Pallas's interpreter."),
    "bounds": "arrays of 0..5 keys each (thorough 8), all block sizes 1..8 and the default, unrolled and looped "
              "kernels, all value packings; every float16 key except NaN; queue steps at 4x2 and 3x3; "
              "150+131 concrete keys with symbolic values for every backend",
    "assumptions": ["keys are not NaN", "grid programs are checked race-free, so any schedule equals grid order",
                    "the accelerator executes the traced kernel (Triton/Mosaic lowering is trusted)"],
}


@xtructure_dataclass
class V3:
    a: FieldDescriptor.scalar(dtype=jnp.uint32)
    b: FieldDescriptor.tensor(dtype=jnp.uint8, shape=(3,))
    c: FieldDescriptor.tensor(dtype=jnp.uint16, shape=(2, 3))


def asc(keys, dt):
    return [f_le(keys[i], keys[i + 1], dt) for i in range(len(keys) - 1)]


def merge_h(name, which, n, m, dt=np.float16, bits=16):
    dt = np.dtype(dt)
    inputs = [Inp("a", (n,), dt), Inp("b", (m,), dt)]
    isf = X.is_float(dt)

    def le_(x, y):
        return f_le(x, y, dt) if isf else T.sle(x, y, 32)

    def lt_(x, y):
        return f_lt(x, y, dt) if isf else T.slt(x, y, 32)

    def fn(a, b):
        f = {"parallel": MP.merge_arrays_parallel, "sort": MP.merge_sort_split_idx,
             "loop": MP.merge_arrays_indices_loop}[which]
        k, i = f(a, b)
        return {"k": k, "i": i}

    def assume(I):
        a, b = I.a.flat(), I.b.flat()
        out = [le_(s[i], s[i + 1]) for s in (a, b) for i in range(len(s) - 1)]
        if isf:
            out += [T.Not(f_isnan(x, dt)) for x in a + b]
        if dt == np.float32:
            # XLA:CPU flushes denormals in the replay
            out += [T.Or(T.eq(T.band(x, 0x7F800000, 32), 0, 32) if False else T.Not(
                T.eq(T.band(x, 0x7F800000, 32), 0, 32)), T.eq(x, 0, 32)) for x in a + b]
        return out

    def goals(I, O):
        cat = I.a.flat() + I.b.flat()
        w = width(dt)
        k, ix = O.k.flat(), O.i.flat()
        g = [("length", len(k) == n + m)]
        for p in range(n + m):
            g.append((f"index {p} in range", T.ult(ix[p], n + m, 32)))
            g.append((f"key {p} is the key at its index", T.Implies(
                T.ult(ix[p], n + m, 32), T.Or(*[T.And(T.eq(ix[p], q, 32), T.eq(k[p], cat[q], w))
                                                for q in range(n + m)]))))
        for p in range(n + m - 1):
            g.append((f"ascending at {p}", le_(k[p], k[p + 1])))
            g.append((f"ties keep the first array first at {p}",
                      T.Or(lt_(k[p], k[p + 1]), T.ult(ix[p], ix[p + 1], 32))))
        return g

    return Harness(name, inputs, fn, goals, assume=assume, timeout=500,
                   bounds=f"{n}+{m} keys, every {dt} value except NaN")


def split_kv(ak, av, bk, bv):
    """merge_sort_split, put together again."""
    k1, v1, k2, v2 = MSS(ak, av, bk, bv)
    assert k1.shape == ak.shape and k2.shape == bk.shape, (k1.shape, k2.shape)
    return jnp.concatenate([k1, k2]), jax.tree_util.tree_map(lambda p, q: jnp.concatenate([p, q]), v1, v2)


def kv_h(name, n, m, split=False):
    inputs = [Inp("a", (n,), F16), Inp("b", (m,), F16)] + mk_inputs("u", V3, (n,)) + mk_inputs("v", V3, (m,))

    def fn(a, b, *vs):
        L = len(vs) // 2
        f = split_kv if split else PAR.merge_arrays_parallel_kv
        k, v = f(a, build(V3, (n,), vs[:L]), b, build(V3, (m,), vs[L:]))
        return {"k": k, "v": v}

    def assume(I):
        return asc(I.a.flat(), F16) + asc(I.b.flat(), F16) + [T.Not(f_isnan(x, F16)) for x in I.a.flat() + I.b.flat()]

    def goals(I, O):
        g = []
        k = O.k.flat()
        a, b = I.a.flat(), I.b.flat()
        ws = widths_of(I, "u") if n else widths_of(I, "v")
        A = rows_of(I, "u", V3) if n else []
        B_ = rows_of(I, "v", V3) if m else []
        R = rows_of(O, "v", V3)
        g.append(("length", len(k) == n + m and len(R) == n + m))
        # the merged position of each entry, by definition of a stable merge
        pos = []
        for i in range(n):
            pos.append(T.add(i, T.count([f_lt(y, a[i], F16) for y in b], 8), 8))
        for j in range(m):
            pos.append(T.add(j, T.count([f_le(x, b[j], F16) for x in a], 8), 8))
        for e, (key, row) in enumerate(zip(a + b, A + B_)):
            for p in range(n + m):
                g.append((f"entry {e} at merged position {p} with its value",
                          T.Implies(T.eq(pos[e], p, 8), T.And(T.eq(k[p], key, 16), rows_eq(R[p], row, ws)))))
        return g

    return Harness(name, inputs, fn, goals, assume=assume, timeout=500,
                   bounds=f"{n}+{m} keys with symbolic records of three fields")


def bigmerge_h(name, which, n, m, dt=np.float32, sym=((-2,), ())):
    """Lengths past the narrow index types: most keys concrete, a few symbolic (tied or not), values symbolic."""
    dt = np.dtype(dt)
    pat = lambda v: int(X.to_elems(np.asarray(v).astype(dt))[()])

    def keys(nm, cnt, off, at):
        el = np.empty((cnt,), dtype=object)
        for i in range(cnt):
            el[i] = pat(4 * i + off)
        for i in at:
            i %= cnt
            el[i] = z3.If(z3.BitVec(f"{nm}{i}", 1) == 1, z3.BitVecVal(pat(4 * i + 2), width(dt)),
                          z3.BitVecVal(pat(4 * i + off), width(dt)))
        return Inp(nm, (cnt,), dt, el=el)
    kv = which in ("kv", "split")
    inputs = [keys("a", n, 0, sym[0]), keys("b", m, 2 if kv else 1, sym[1])]
    if kv:
        inputs += mk_inputs("u", VA, (n,)) + mk_inputs("v", VA, (m,))

    def fn(a, b, *vs):
        if kv:
            f = split_kv if which == "split" else PAR.merge_arrays_parallel_kv
            k, v = f(a, build(VA, (n,), vs[:2]), b, build(VA, (m,), vs[2:]))
            return {"k": k, "v": v}
        f = {"parallel": MP.merge_arrays_parallel, "sort": MP.merge_sort_split_idx,
             "loop": MP.merge_arrays_indices_loop}[which]
        k, i = f(a, b)
        return {"k": k, "i": i}

    def goals(I, O):
        a, b = I.a.flat(), I.b.flat()
        lt, le_ = (lambda x, y: f_lt(x, y, dt)), (lambda x, y: f_le(x, y, dt))
        k = O.k.flat()
        g = [("length", len(k) == n + m)]
        if len(k) != n + m:
            return g
        pos = []
        near = lambda i, c: range(max(0, i - 2), min(c, i + 3))     # keys further away never tie or cross
        for i in range(n):
            lo = min(max(0, i - 2), m)
            pos.append(T.add(i + lo, T.count([lt(b[j], a[i]) for j in near(i, m)], 12), 12) if lo < m else i + m)
        for j in range(m):
            lo = min(max(0, j - 2), n)
            pos.append(T.add(j + lo, T.count([le_(a[i], b[j]) for i in near(j, n)], 12), 12) if lo < n else j + n)
        rows = (rows_of(I, "u", VA) + rows_of(I, "v", VA)) if kv else None
        R = rows_of(O, "v", VA) if kv else None
        for e, key in enumerate(a + b):
            for p in range(n + m):
                at = T.eq(pos[e], p, 12)
                if at is False:
                    continue
                own = rows_eq(R[p], rows[e], [32, 8, 8]) if kv else T.eq(O.i.flat()[p], e, 32)
                g.append((f"entry {e} at its merged position", T.Implies(at, T.And(T.eq(k[p], key, width(dt)), own))))
        return g

    return Harness(name, inputs, fn, goals, timeout=500, n_random=1,
                   bounds=f"{n}+{m} {dt} keys, some symbolic (tied or not)" + (", every value" if kv else ""))


def j(build, env=None, **kw):
    e = {"XV_WORLD": "gpu"}
    e.update(env or {})
    return dict(build=build, env=e, **kw)


def mset(which, sizes, tag):
    return lambda t: [merge_h(f"{which}_{tag}_{n}_{m}", which, n, m) for n, m in sizes]


SM = [(2, 2), (1, 3), (3, 1), (2, 1), (3, 2), (0, 2), (2, 0), (0, 0)]
JOBS = {
    "sort": j(mset("sort", SM + [(4, 3)], "xla")),
    "loop": j(mset("loop", [(2, 2), (1, 3), (3, 2), (4, 3), (0, 2), (2, 0)], "loop")),
}
for bs in (1, 2, 3, 4):
    JOBS[f"par_b{bs}"] = j(mset("parallel", SM, f"b{bs}"), {"XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE": bs}, cost=5)
    JOBS[f"par_b{bs}_loop"] = j(mset("parallel", [(2, 2), (1, 3), (3, 2)], f"b{bs}loop"), {
        "XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE": bs, "XTRUCTURE_BGPQ_MERGE_UNROLL_MAX": 0}, cost=5)
JOBS["par_default"] = j(mset("parallel", [(2, 2), (3, 2), (0, 2), (2, 0)], "auto"), cost=5)
JOBS["par_5_4"] = j(mset("parallel", [(5, 4), (4, 4)], "b3"), {"XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE": 3}, cost=30)
JOBS["par_int"] = j(lambda t: [merge_h("parallel_int32", "parallel", 3, 3, dt=np.int32),
                               merge_h("parallel_f32", "parallel", 3, 2, dt=np.float32)],
                    {"XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE": 2}, cost=20)
JOBS["par_8_8"] = j(mset("parallel", [(8, 7), (6, 8)], "b4"), {"XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE": 4}, cost=60,
                    tier="thorough")
for pk in ("auto", "pad", "scalar", "shard"):
    JOBS[f"kv_{pk}"] = j(lambda t, pk=pk: [kv_h(f"kv_{pk}_{n}_{m}", n, m) for n, m in [(2, 2), (3, 1), (1, 2)]], {
        "XTRUCTURE_BGPQ_MERGE_VALUE_PACKING": pk, "XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE": 2}, cost=8)
JOBS["kv_empty"] = j(lambda t: [kv_h("kv_empty_2_0", 2, 0), kv_h("kv_empty_0_2", 0, 2), kv_h("kv_empty_1_0", 1, 0)],
                     {"XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE": 2}, cost=8)
JOBS["kv_auto_loop"] = j(lambda t: [kv_h("kv_auto_loop", 3, 2)], {
    "XTRUCTURE_BGPQ_MERGE_UNROLL_MAX": 0, "XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE": 3}, cost=8)
CFG = {"par": {"XTRUCTURE_BGPQ_MERGE_BACKEND": "parallel", "XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE": 2},
       "kv": {"XTRUCTURE_BGPQ_MERGE_VALUE_BACKEND": "on", "XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE": 2},
       "kvbuf": {"XTRUCTURE_BGPQ_MERGE_VALUE_BACKEND_BUFFER": "on", "XTRUCTURE_BGPQ_MERGE_BACKEND": "sort",
                 "XTRUCTURE_BGPQ_MERGE_BLOCK_SIZE": 3},
       "concat": {"XTRUCTURE_BGPQ_VALUE_REORDER": "concat", "XTRUCTURE_BGPQ_MERGE_BACKEND": "sort"},
       "unstable": {"XTRUCTURE_BGPQ_SORT_STABLE": "false", "XTRUCTURE_BGPQ_MERGE_BACKEND": "sort"}}
for c, env in CFG.items():
    JOBS[f"q_{c}_ins"] = j(lambda t, c=c: [ins_h(f"{c}_insert_{w}", 3, 2, 5, w, full=f)
                                           for w, f in (("order", None), ("conserve", False), ("evict", True))],
                           env, cost=25)
    JOBS[f"q_{c}_del"] = j(lambda t, c=c: [del_h(f"{c}_delete_{w}", 4, 2, 5, w) for w in ("order", "conserve")],
                           env, cost=25)
    if c in ("par", "kv"):
        JOBS[f"q_{c}_b1"] = j(lambda t, c=c: [ins_h(f"{c}_insert_b1", 3, 1, 5, "conserve", full=False),
                                              del_h(f"{c}_delete_b1", 3, 1, 5, "order")], env, cost=8)
JOBS["large_split"] = j(lambda t: [bigmerge_h("large_split", "split", 150, 131, sym=((), ()))], cost=20)
for c, env in [("sort", {"XTRUCTURE_BGPQ_MERGE_BACKEND": "sort"})] + list(CFG.items())[:4]:
    JOBS[f"split_{c}"] = j(lambda t, c=c: [kv_h(f"split_{c}_{n}_{m}", n, m, split=True)
                                           for n, m in ((2, 2), (3, 2), (2, 3), (1, 1))], env, cost=8)
JOBS["large_sort"] = j(lambda t: [bigmerge_h("large_sort", "sort", 150, 131, sym=((70, -2), (3,)))], cost=20)
JOBS["large_par"] = j(lambda t: [bigmerge_h("large_par", "parallel", 150, 131)], cost=20)
JOBS["large_loop"] = j(lambda t: [bigmerge_h("large_loop", "loop", 150, 131)], cost=20)
JOBS["large_kv"] = j(lambda t: [bigmerge_h("large_kv", "kv", 150, 131)], cost=20)

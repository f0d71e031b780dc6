"""Hash table: arbitrary reachable states, any hash function, oracles and harnesses.

The key record carries its own hash pair (fields p and s), so a symbolic key means a symbolic
hash function: any placement, any collision of index, step, fingerprint or the whole pair.
Equality, storage and the uint32 row are the real generated ones."""
from props.common import *  # noqa: F401,F403
import importlib

from xtructure import HashTable

HU = importlib.import_module("xtructure.hashtable.hash_utils")
USED = {"hash": 0, "mix": 0}
SHIFT = 0


def _weak_mix(primary, secondary, length=0):
    """A stand-in fingerprint that depends on all three arguments and collides often."""
    USED["mix"] += 1
    u = lambda x: jnp.asarray(x, dtype=jnp.uint32)
    return (u(primary) >> jnp.uint32(SHIFT)) ^ ((u(secondary) & jnp.uint32(2)) << jnp.uint32(7)) \
        ^ (u(length) << jnp.uint32(12))


def _mk_key(extra=None, name="HK"):
    # default 0: empty slots hold a record that is itself a possible key
    ns = {"p": FieldDescriptor.scalar(dtype=jnp.uint32, default=0), "s": FieldDescriptor.scalar(dtype=jnp.uint32, default=0),
          "v": FieldDescriptor.tensor(dtype=jnp.uint8, shape=(2,), fill_value=0)}
    if extra:
        ns["w"] = extra
    cls = xtructure_dataclass(type(name, (), {"__annotations__": ns, "__module__": __name__}))
    orig = cls.hash_pair_with_uint32ed

    def pair(x, seed=0):
        USED["hash"] += 1
        return x.p, x.s

    def pair32(x, seed=0):
        USED["hash"] += 1
        return (x.p, x.s), x.uint32ed

    cls.hash_pair, cls.hash_pair_with_uint32ed = pair, pair32
    cls.hash = lambda x, seed=0: x.p
    cls.hash_with_uint32ed = lambda x, seed=0: (x.p, x.uint32ed)
    return cls


HK = _mk_key()


@contextlib.contextmanager
def patched():
    """Weak fingerprints, and no stale traces."""
    jax.clear_caches()
    old = getattr(HU, "_mix_fingerprint", None)
    if old is not None:
        HU._mix_fingerprint = _weak_mix
    try:
        yield
    finally:
        if old is not None:
            HU._mix_fingerprint = old
        jax.clear_caches()


FP_PATCHED = hasattr(HU, "_mix_fingerprint")


class Dom:
    """Geometry and key domain of one harness."""

    def __init__(self, C, B, pb=1, sb=1, vb=1, mp=None, conc=False):
        # pb: fingerprint bits of p above the index bits; s: step bits; v: distinguishes equal hashes
        self.C, self.B, self.mp, self.conc = C, B, mp, conc
        self.reach = C if mp is None else min(C, -(-mp // B))
        self.ib = (C - 1).bit_length()
        self.pbits, self.sbits, self.vbits = self.ib + pb, max(sb, min(2, self.ib)), vb

    def keys(self, prefix, shape):
        out = []
        for f, bits, w, sh, dt in (("p", self.pbits, 32, (), np.uint32), ("s", self.sbits, 32, (), np.uint32),
                                   ("v", self.vbits, 8, (2,), np.uint8)):
            el = np.empty(tuple(shape) + sh, dtype=object)
            for ix in np.ndindex(*shape):
                v = z3.ZeroExt(w - bits, z3.BitVec(f"{prefix}.{f}" + "".join(f"[{i}]" for i in ix), bits)) \
                    if bits else 0
                if f == "v":
                    el[ix + (0,)] = v
                    el[ix + (1,)] = T.add(v, T.shl(v, 3, 8), 8)   # an injective function of v: enough to tell
                    # records apart, a torn record equals no key, and the all-zero default record is a key
                elif ix == ():
                    el = X._scalar(v)
                else:
                    el[ix] = v
            out.append(Inp(f"{prefix}.{f}", tuple(shape) + sh, dt, el=el))
        return out

    def bounds(self):
        return (f"{self.C} buckets x {self.B} slots, keys with {self.pbits}-bit primary, {self.sbits}-bit secondary "
                f"hash and {self.vbits}-bit payload: every hash function and key set over that domain"
                + (f", max_probes {self.mp}" if self.mp is not None else ""))


CW = 12         # width of counters in the oracle
W3 = [32, 32, 8, 8]


def keyrow(I, prefix, ix=None):
    p, s, v = I[prefix + ".p"], I[prefix + ".s"], I[prefix + ".v"]
    if ix is None:
        return [p.item(), s.item(), v.el[0], v.el[1]]
    return [p.el[ix], s.el[ix], v.el[ix][0] if v.el.ndim == 1 else v.el[ix, 0], v.el[ix, 1]]


def same(a, b):
    return rows_eq(a, b, W3)


def mk_key(p, s, v):
    return HK(p=p, s=s, v=v)


def state_inputs(d):
    n = d.C * d.B
    fl = np.empty((d.C,), dtype=object)
    fb = d.B.bit_length()
    for i in range(d.C):
        fl[i] = z3.ZeroExt(32 - fb, z3.BitVec(f"fill[{i}]", fb))
        if d.conc:
            q = z3.BitVec(f"fill[{i}]", 2)
            e = z3.BitVecVal(d.B, 32)
            for k in range(1, 4):
                e = z3.If(q == k, z3.BitVecVal(d.B - k, 32), e)
            fl[i] = e
    if d.conc:      # distinct concrete keys, all at home in bucket 0 with the same hash
        v = np.arange(n)
        keys = [Inp("t.p", (n,), np.uint32, value=np.zeros(n)), Inp("t.s", (n,), np.uint32, value=np.zeros(n)),
                Inp("t.v", (n, 2), np.uint8, value=np.stack([v, (v + (v << 3)) & 255], -1))]
    else:
        keys = d.keys("t", (n,))
    return keys + [Inp("fill", (d.C,), np.uint32, el=fl)]


def mk_table(d, tp, ts, tv, fill, multiplier=1, **kw):
    """A HashTable in the state given by the stored keys and fill levels."""
    C, B = d.C, d.B
    if d.mp is not None:
        kw["max_probes"] = d.mp
    t = HashTable.build(HK, 7, C * B, bucket_size=B, hash_size_multiplier=multiplier, **kw)
    assert t._capacity == C, (t._capacity, C)
    slot = jnp.arange(C * B)
    on = (slot % B) < fill[slot // B].astype(jnp.int32)
    z = HK.default((B,))
    cat = lambda a, dflt: jnp.concatenate([jnp.where(on.reshape((-1,) + (1,) * (a.ndim - 1)), a,
                                                     jnp.broadcast_to(dflt[:1], a.shape)), dflt])
    tab = HK(p=cat(tp, z.p), s=cat(ts, z.s), v=cat(tv, z.v))
    fps = jnp.where(on, _weak_mix(tp, ts, 0), jnp.uint32(0))
    full = jnp.concatenate([fill, jnp.zeros((1,), jnp.uint32)])
    occ = (jnp.uint32(1) << full) - jnp.uint32(1)
    if B >= 32:
        occ = jnp.where(full >= 32, jnp.uint32(0xFFFFFFFF), occ)
    if B > 32:
        occ = jnp.zeros_like(occ)
    return t.replace(table=tab, bucket_fill_levels=full.astype(t.bucket_fill_levels.dtype),
                     bucket_occupancy=occ.astype(t.bucket_occupancy.dtype),
                     fingerprints=jnp.concatenate([fps, jnp.zeros((B,), jnp.uint32)]),
                     size=jnp.sum(fill, dtype=jnp.uint32).astype(jnp.asarray(t.size).dtype))


def state_ok():
    """The fields the arbitrary-state harnesses set exist and the hash is reached through the record."""
    t = HashTable.build(HK, 7, 2, bucket_size=1, hash_size_multiplier=1)
    need = ("table", "bucket_fill_levels", "bucket_occupancy", "fingerprints", "size", "_capacity")
    if not FP_PATCHED or any(not hasattr(t, f) for f in need):
        return False
    with patched():
        n, m = USED["hash"], USED["mix"]
        jax.make_jaxpr(lambda k: t.insert(k)[1])(HK.default())
        return USED["hash"] > n and USED["mix"] > m


def cells(I, d, pre="t", fill="fill", C=None):
    """[(filled?, row, flat index)]"""
    f = I[fill].el
    return [(T.ult(k % d.B, f[k // d.B], 32), keyrow(I, pre, k), k) for k in range(d.C * d.B)]


def probe_orders(d, row):
    """[(condition, bucket order)] over all home/step combinations of a key."""
    out = []
    for h in range(d.C):
        steps = sorted({(s & (d.C - 1)) | 1 for s in range(max(1, d.C))}) if d.C > 1 else [1]
        for st in steps:
            c = T.And(T.eq(T.band(row[0], d.C - 1, 32), h, 32),
                      T.eq(T.bor(T.band(row[1], d.C - 1, 32), 1, 32), st, 32))
            out.append((c, [(h + k * st) % d.C for k in range(d.C)]))
    return out


def reach(I, d, pre="t", fill="fill"):
    """Every stored key lies on its own probe path behind full buckets only."""
    f = I[fill].el
    out = []
    for on, row, k in cells(I, d, pre, fill):
        b = k // d.B
        for c, order in probe_orders(d, row):
            before = order[:order.index(b)]
            if len(before) >= d.reach:
                out.append(T.Not(T.And(on, c)))
            elif before:
                out.append(T.Implies(T.And(on, c), T.And(*[T.eq(f[x], d.B, 32) for x in before])))
    return out


def assume_state(I, d):
    f = I.fill.el
    out = [T.ule(f[b], d.B, 32) for b in range(d.C)] + reach(I, d)
    cs = cells(I, d)
    for i in range(0 if d.conc else len(cs)):
        for j in range(i):
            out.append(T.Not(T.And(cs[i][0], cs[j][0], same(cs[i][1], cs[j][1]))))
    return out


def cnt(bools):
    return T.count(list(bools), CW)


def eq8(a32, b8):
    return T.eq(a32, T.resize(b8, CW, 32, False), 32)


def out_table(t, pre):
    return {pre: t.table, pre + "fill": t.bucket_fill_levels, pre + "occ": t.bucket_occupancy,
            pre + "fp": t.fingerprints, pre + "size": t.size}


def inv(O, d, pre):
    """Representation invariant of a result state (kind inv: only counts through its consequences)."""
    f, occ, fp = O[pre + "fill"].el, O[pre + "occ"].el, O[pre + "fp"].el
    g = []
    for b in range(d.C):
        g.append((f"fill {b} within the bucket", T.ule(f[b], d.B, 32)))
        if d.B <= 32:
            want = T.sub(T.shl(1, f[b], 32), 1, 32) if d.B < 32 else None
            if want is not None:
                g.append((f"occupancy {b} is the fill prefix", T.eq(occ[b], want, 32)))
    g.append(("spare bucket stays empty", T.eq(f[d.C], 0, 32)))
    for k in range(d.C * d.B):
        row = keyrow(O, pre, k)
        on = T.ult(k % d.B, f[k // d.B], 32)
        want = T.bxor(T.lshr(row[0], SHIFT, 32), T.shl(T.band(row[1], 2, 32), 7, 32), 32)
        g.append((f"fingerprint {k}", T.Implies(on, T.eq(fp[k], want, 32))))
    big = Bag({"fill": SArr(f[:d.C], np.uint32)})
    big.update({k: v for k, v in O.items()})
    g += [(f"reachable {i}", t) for i, t in enumerate(reach(big, d, pre))]
    return [(l, t, "inv") for l, t in g]


def at_index(O, pre, d, idx, row):
    """The record the table holds at flat index idx equals row."""
    n = O[pre + ".p"].shape[0]
    return T.Or(*[T.And(T.eq(idx, k, 32), same(keyrow(O, pre, k), row)) for k in range(n)])


def ctx(d):
    @contextlib.contextmanager
    def c():
        global SHIFT
        old, SHIFT = SHIFT, d.ib
        try:
            with patched():
                yield
        finally:
            SHIFT = old
    return c


def with_shift(d, f):
    """goals are evaluated outside the trace context: pin SHIFT for them too"""
    def g(*a):
        global SHIFT
        old, SHIFT = SHIFT, d.ib
        try:
            return f(*a)
        finally:
            SHIFT = old
    return g


def ht_harness(name, d, inputs, fn, goals, assume, extra="", **kw):
    c = ctx(d)
    return Harness(name, inputs, fn, with_shift(d, goals), assume=with_shift(d, assume), trace_ctx=c, run_ctx=c,
                   bounds=d.bounds() + extra, **kw)


# ------------------------------------------------------------------ one insert


def insert_h(name, C, B, what, timeout=600, **dk):
    # mp=: custom max_probes
    d = Dom(C, B, **dk)
    inputs = state_inputs(d) + d.keys("x", ()) + (d.keys("q", ()) if what == "set" else [])

    def fn(tp, ts, tv, fill, xp, xs, xv, *q):
        t = mk_table(d, tp, ts, tv, fill)
        x = mk_key(xp, xs, xv)
        t2, ins, idx = t.insert(x)
        out = {"ins": ins, "idx": idx.index, **out_table(t2, "n")}
        if q:
            qi, qf = t2.lookup(mk_key(*q))
            out.update(qi=qi.index, qf=qf)
            i0, f0 = t.lookup(x)
            out.update(i0=i0.index, f0=f0, got=t2[idx])
        return out

    def goals(I, O):
        cs = cells(I, d)
        x = keyrow(I, "x")
        present = T.Or(*[T.And(on, same(r, x)) for on, r, _ in cs])
        free = T.Or(*[T.And(c, T.Or(*[T.ult(I.fill.el[b], d.B, 32) for b in order[:d.reach]]))
                      for c, order in probe_orders(d, x)])
        ins = O.ins.item()
        g = [("inserted exactly when new and a slot is free", T.Iff(ins, T.And(T.Not(present), free)))]
        if what == "set":
            q = keyrow(I, "q")
            had = T.Or(*[T.And(on, same(r, q)) for on, r, _ in cs])
            g.append(("lookup before: found exactly when present", T.Iff(O.f0.item(), present)))
            g.append(("lookup before: index holds the key", T.Or(T.Not(O.f0.item()), *[
                T.And(on, same(r, x), T.eq(O.i0.item(), k, 32)) for on, r, k in cs])))
            g.append(("lookup after: found exactly when stored or just inserted", T.Iff(
                O.qf.item(), T.Or(had, T.And(ins, same(q, x))))))
            g.append(("lookup after: index holds the key", T.Implies(
                O.qf.item(), at_index(O, "n", d, O.qi.item(), q))))
            g.append(("lookup after: keys keep their index", T.And(*[T.Implies(
                T.And(on, same(r, q)), T.eq(O.qi.item(), k, 32)) for on, r, k in cs])))
            ok = T.Or(ins, present)
            g.append(("returned index holds the key", T.Implies(ok, at_index(O, "n", d, O.idx.item(), x))))
            g.append(("table[idx] returns the key", T.Implies(ok, same(
                [O["got.p"].item(), O["got.s"].item(), O["got.v"].el[0], O["got.v"].el[1]], x))))
        else:
            g.append(("size", T.eq(O.nsize.item(), T.resize(T.add(cnt([on for on, _, _ in cs]),
                                                                 T.ite(ins, 1, 0, CW), CW), CW, 32, False), 32)))
            for on, r, k in cs:
                g.append((f"stored record {k} is untouched", T.Implies(on, same(keyrow(O, "n", k), r))))
            g.append(("a new key takes a free slot", T.Implies(ins, T.And(*[T.Implies(
                on, T.Not(T.eq(O.idx.item(), k, 32))) for on, _, k in cs]))))
            g.append(("a present key reports its own slot", T.And(*[T.Implies(
                T.And(on, same(r, x)), T.eq(O.idx.item(), k, 32)) for on, r, k in cs])))
            g += inv(O, d, "n")
        return g

    def covers(I, O):
        cs = cells(I, d)
        x = keyrow(I, "x")
        if what == "set":
            return [("collision with a different key", T.And(O.ins.item(), T.Or(*[
                T.And(on, T.eq(r[0], x[0], 32), T.eq(r[1], x[1], 32)) for on, r, _ in cs])))]
        out = [("overflow to another bucket", T.And(O.ins.item(), T.eq(I.fill.el[0], d.B, 32),
                                                   T.eq(T.band(x[0], d.C - 1, 32), 0, 32)))] if C > 1 else []
        return out + [("full", T.And(*[on for on, _, _ in cs]))]

    return ht_harness(name, d, inputs, fn, goals, lambda I: assume_state(I, d), ", any reachable table",
                      covers=covers, timeout=timeout)


# ------------------------------------------------------------------ batch insert


def fkey(name, n, bits=2):
    """float32 costs over a few values (also +inf for the top one)."""
    el = np.empty((n,), dtype=object)
    vals = [0x00000000, 0x3F800000, 0xBF800000, 0x7F800000][:1 << bits]
    for i in range(n):
        v = z3.BitVec(f"{name}[{i}]", bits)
        e = z3.BitVecVal(vals[-1], 32)
        for k in range(len(vals) - 1):
            e = z3.If(v == k, z3.BitVecVal(vals[k], 32), e)
        el[i] = e
    return Inp(name, (n,), np.float32, el=el)


def reps(I, N, filled, ukey):
    """rep[i][j]: row j represents row i (smallest cost, then smallest position)."""
    rows = [keyrow(I, "x", i) for i in range(N)]
    eqm = [[True if i == j else same(rows[i], rows[j]) for j in range(N)] for i in range(N)]

    def better(a, b):   # a beats b, given equal records
        if ukey is None:
            return a < b
        ka, kb = ukey[a], ukey[b]
        lt = X.f_lt(ka, kb, np.dtype(np.float32))
        tie = X.f_eq(ka, kb, np.dtype(np.float32))
        return T.Or(lt, T.And(tie, a < b))

    return [[T.And(filled[i], filled[j], eqm[i][j], *[
        T.Not(T.And(filled[k], eqm[j][k], better(k, j))) for k in range(N) if k != j])
        for j in range(N)] for i in range(N)]


def batch_h(name, C, B, N, what, ukey=False, fmode="mask", timeout=800, chunk=None, nondet=False, **dk):
    d = Dom(C, B, **dk)
    inputs = state_inputs(d) + d.keys("x", (N,))
    if fmode == "mask":
        inputs.append(Inp("fm", (N,), np.bool_))
    elif fmode == "scalar":
        inputs.append(Inp("fm", (), np.bool_))
    if ukey:
        inputs.append(fkey("uk", N))
    if what in ("set", "setp"):
        inputs += d.keys("q", () if what == "set" else (2,))

    def fn(tp, ts, tv, fill, xp, xs, xv, *r):
        r = list(r)
        t = mk_table(d, tp, ts, tv, fill)
        x = mk_key(xp, xs, xv)
        kw = {}
        if fmode in ("mask", "scalar"):
            kw["filled"] = r.pop(0)
        if ukey:
            kw["unique_key"] = r.pop(0)
        t2, ins, uniq, idx = t.parallel_insert(x, **kw)
        out = {"ins": ins, "uniq": uniq, "idx": idx.index, **out_table(t2, "n")}
        if what == "set":
            qi, qf = t2.lookup(mk_key(*r))
            out.update(qi=qi.index, qf=qf)
        if what == "setp":
            qi, qf = t2.lookup_parallel(mk_key(*r))
            out.update(qi=qi.index, qf=qf)
        return out

    def goals(I, O):
        cs = cells(I, d)
        rows = [keyrow(I, "x", i) for i in range(N)]
        fm = [True] * N if fmode == "none" else ([I.fm.item()] * N if fmode == "scalar" else list(I.fm.el))
        rp = reps(I, N, fm, list(I.uk.el) if ukey else None)
        present = [T.Or(*[T.And(on, same(r, x)) for on, r, _ in cs]) for x in rows]
        new = [T.And(rp[i][i], T.Not(present[i])) for i in range(N)]
        ins, uniq, idx = list(O.ins.el), list(O.uniq.el), list(O.idx.el)
        nfull = cnt([on for on, _, _ in cs])
        room = T.sub(d.C * d.B, nfull, CW)
        enough = T.ule(cnt(new), room, CW)
        g = []
        if what == "flags" and d.mp is not None:
            for i in range(N):
                g.append((f"row {i}: inserted only when new and representative", T.Implies(ins[i], new[i])))
            g.append(("size grows by the number inserted", T.eq(O.nsize.item(), T.resize(
                T.add(nfull, cnt(ins), CW), CW, 32, False), 32)))
            g += inv(O, d, "n")
        elif what == "flags":
            for i in range(N):
                g.append((f"row {i}: unique exactly when it represents its record", T.Iff(uniq[i], rp[i][i])))
                g.append((f"row {i}: inserted only when new and representative", T.Implies(ins[i], new[i])))
                g.append((f"row {i}: inserted when there is room for all", T.Implies(
                    T.And(enough, new[i]), ins[i])))
            g.append(("as many are inserted as there is room for", T.eq(cnt(ins), T.ite(
                enough, cnt(new), room, CW), CW)))
            g.append(("size grows by the number inserted", T.eq(O.nsize.item(), T.resize(
                T.add(nfull, cnt(ins), CW), CW, 32, False), 32)))
            for on, r, k in cs:
                g.append((f"stored record {k} is untouched", T.Implies(on, same(keyrow(O, "n", k), r))))
            g += inv(O, d, "n")
        elif what == "index":
            for i in range(N):
                known = T.And(fm[i], T.Or(present[i], *[T.And(rp[i][j], ins[j]) for j in range(N)]))
                g.append((f"row {i}: index holds the record", T.Implies(known, at_index(
                    O, "n", d, idx[i], rows[i]))))
                g.append((f"row {i}: a stored record reports its slot", T.And(*[T.Implies(
                    T.And(fm[i], on, same(r, rows[i])), T.eq(idx[i], k, 32)) for on, r, k in cs])))
                g.append((f"row {i}: a new record takes a free slot", T.Implies(ins[i], T.And(*[
                    T.Implies(on, T.Not(T.eq(idx[i], k, 32))) for on, _, k in cs]))))
                for j in range(i):
                    g.append((f"rows {j},{i}: new records take different slots", T.Implies(
                        T.And(ins[i], ins[j]), T.Not(T.eq(idx[i], idx[j], 32)))))
        else:
            qs = [keyrow(I, "q")] if what == "set" else [keyrow(I, "q", 0), keyrow(I, "q", 1)]
            for n, q in enumerate(qs):
                qi = O.qi.item() if what == "set" else O.qi.el[n]
                qf = O.qf.item() if what == "set" else O.qf.el[n]
                had = T.Or(*[T.And(on, same(r, q)) for on, r, _ in cs])
                got = T.Or(*[T.And(ins[i], same(rows[i], q)) for i in range(N)])
                g.append((f"lookup {n} after: found exactly when stored or just inserted", T.Iff(qf, T.Or(had, got))))
                g.append((f"lookup {n} after: index holds the key", T.Implies(qf, at_index(O, "n", d, qi, q))))
                g.append((f"lookup {n} after: keys keep their index", T.And(*[T.Implies(
                    T.And(on, same(r, q)), T.eq(qi, k, 32)) for on, r, k in cs])))
                g.append((f"lookup {n} after: agrees with the returned index", T.And(*[T.Implies(
                    T.And(ins[i], same(rows[i], q)), T.eq(qi, idx[i], 32)) for i in range(N)])))
        return g

    def covers(I, O):
        ins = list(O.ins.el)
        c = [("all inserted", T.And(*ins)) if d.C * d.B >= N else ("one inserted", T.Or(*ins))]
        if N > 1:
            c.append(("two rows, same start bucket, both inserted elsewhere", T.And(ins[0], ins[1], T.eq(
                I["x.p"].el[0], I["x.p"].el[1], 32), T.eq(I["x.s"].el[0], I["x.s"].el[1], 32))))
        return c

    return ht_harness(name, d, inputs, fn, goals, lambda I: assume_state(I, d),
                      f", any reachable table, any batch of {N}" + (", any costs" if ukey else ""),
                      covers=covers, timeout=timeout, chunk=chunk, unstable_nondet=nondet)


# ------------------------------------------------------------------ histories from build()


def hist_h(name, C, B, ops, d=None, timeout=800, chunk=None, build_kw=None, **dk):
    """ops: s = insert, p<n> = parallel_insert of n with a mask, l = lookup, L<n> = lookup_parallel."""
    d = d or Dom(C, B, **dk)
    inputs = []
    for n, (o, k) in enumerate(ops):
        inputs += d.keys(f"x{n}", () if o in "sl" else (k,))
        if o in "pL":
            inputs.append(Inp(f"fm{n}", (k,), np.bool_))

    def fn(*a):
        a = list(a)
        t = HashTable.build(HK, 7, C * B, bucket_size=B, hash_size_multiplier=1, **(build_kw or {}))
        out = {}
        for n, (o, k) in enumerate(ops):
            x = mk_key(a.pop(0), a.pop(0), a.pop(0))
            if o == "s":
                t, ins, idx = t.insert(x)
                out[f"f{n}"], out[f"i{n}"] = ins, idx.index
            elif o == "p":
                t, ins, uniq, idx = t.parallel_insert(x, a.pop(0))
                out[f"f{n}"], out[f"i{n}"], out[f"u{n}"] = ins, idx.index, uniq
            elif o == "l":
                idx, f = t.lookup(x)
                out[f"f{n}"], out[f"i{n}"] = f, idx.index
            else:
                idx, f = t.lookup_parallel(x, a.pop(0))
                out[f"f{n}"], out[f"i{n}"] = f, idx.index
            out[f"size{n}"] = t.size
        out["n"] = t.table
        return out

    def goals(I, O):
        g = []
        ents = []                # [row, in?, index]
        for n, (o, k) in enumerate(ops):
            rows = [keyrow(I, f"x{n}")] if o in "sl" else [keyrow(I, f"x{n}", i) for i in range(k)]
            m = len(rows)
            fm = [True] * m if o in "sl" else list(I[f"fm{n}"].el)
            fl = [O[f"f{n}"].item()] if o in "sl" else list(O[f"f{n}"].el)
            ix = [O[f"i{n}"].item()] if o in "sl" else list(O[f"i{n}"].el)
            have = [T.Or(*[T.And(a, same(r, x)) for r, a, _ in ents]) for x in rows]
            if o in "sp":
                first = [T.And(fm[i], *[T.Not(T.And(fm[j], same(rows[i], rows[j]))) for j in range(i)])
                         for i in range(m)]
                new = [T.And(first[i], T.Not(have[i])) for i in range(m)]
                used = cnt([a for _, a, _ in ents])
                room = T.sub(d.C * d.B, used, CW)
                enough = T.ule(cnt(new), room, CW)
                for i in range(m):
                    g.append((f"op {n} row {i}: inserted only when new", T.Implies(fl[i], new[i])))
                    g.append((f"op {n} row {i}: inserted when there is room", T.Implies(
                        T.And(enough, new[i]), fl[i])))
                    for r, a, k_ in ents:
                        g.append((f"op {n} row {i}: present record keeps its index", T.Implies(
                            T.And(fm[i], a, same(r, rows[i])), T.eq(ix[i], k_, 32))))
                        g.append((f"op {n} row {i}: new record gets a fresh slot", T.Implies(
                            T.And(fl[i], a), T.Not(T.eq(ix[i], k_, 32)))))
                    for j in range(i):
                        g.append((f"op {n} rows {j},{i}: one slot per new record", T.Implies(
                            T.And(fl[i], fl[j]), T.Not(T.eq(ix[i], ix[j], 32)))))
                        g.append((f"op {n} rows {j},{i}: duplicates share the index", T.Implies(
                            T.And(fm[i], fm[j], same(rows[i], rows[j]), T.Or(have[j], fl[j])),
                            T.eq(ix[i], ix[j], 32))))
                g.append((f"op {n}: room is used", T.eq(cnt(fl), T.ite(enough, cnt(new), room, CW), CW)))
                ents += [(rows[i], fl[i], ix[i]) for i in range(m)]
            else:
                for i in range(m):
                    g.append((f"op {n} row {i}: found exactly when inserted before", T.Iff(
                        fl[i], T.And(fm[i], have[i]))))
                    g.append((f"op {n} row {i}: found at the index it was inserted at", T.And(*[T.Implies(
                        T.And(fm[i], a, same(r, rows[i])), T.eq(ix[i], k_, 32)) for r, a, k_ in ents])))
            g.append((f"op {n}: size", eq8(O[f"size{n}"].item(), cnt([a for _, a, _ in ents]))))
        for e, (r, a, k_) in enumerate(ents):
            g.append((f"entry {e} is still stored at its index", T.Implies(a, at_index(O, "n", d, k_, r))))
        return g

    def assume(I):
        return []

    return ht_harness(name, d, inputs, fn, goals, assume,
                      ", history " + " ".join(o + (str(k) if o in "pL" else "") for o, k in ops) + " from build()",
                      timeout=timeout, chunk=chunk)


# ------------------------------------------------------------------ lookups agree


def agree_h(name, C, B, N, fmode="mask", timeout=600, **dk):
    d = Dom(C, B, **dk)
    inputs = state_inputs(d) + d.keys("x", (N,))
    if fmode == "mask":
        inputs.append(Inp("fm", (N,), np.bool_))
    elif fmode == "scalar":
        inputs.append(Inp("fm", (), np.bool_))

    def fn(tp, ts, tv, fill, xp, xs, xv, *r):
        t = mk_table(d, tp, ts, tv, fill)
        x = mk_key(xp, xs, xv)
        pi, pf = t.lookup_parallel(x, *r)
        out = {"pi": pi.index, "pf": pf}
        for i in range(N):
            si, sf = t.lookup(x[i])
            bi, bf, _ = t.lookup_bucket(x[i])
            out[f"si{i}"], out[f"sf{i}"], out[f"bf{i}"] = si.index, sf, bf
            out[f"bb{i}"], out[f"bs{i}"] = bi.index, bi.slot_index.astype(jnp.uint32)
        out["got"] = t[pi]
        return out

    def goals(I, O):
        cs = cells(I, d)
        fm = [True] * N if fmode == "none" else ([I.fm.item()] * N if fmode == "scalar" else list(I.fm.el))
        g = []
        for i in range(N):
            x = keyrow(I, "x", i)
            present = T.Or(*[T.And(on, same(r, x)) for on, r, _ in cs])
            pf, pi = O.pf.el[i], O.pi.el[i]
            sf, si = O[f"sf{i}"].item(), O[f"si{i}"].item()
            g.append((f"row {i}: found exactly when asked for and stored", T.Iff(pf, T.And(fm[i], present))))
            g.append((f"row {i}: batch and single lookup agree on found", T.Implies(fm[i], T.Iff(pf, sf))))
            g.append((f"row {i}: batch and single lookup agree on the index", T.Implies(pf, T.eq(pi, si, 32))))
            g.append((f"row {i}: table[index] is the record", T.Implies(pf, same(
                [O["got.p"].el[i], O["got.s"].el[i], O["got.v"].el[i, 0], O["got.v"].el[i, 1]], x))))
            g.append((f"row {i}: bucket lookup agrees", T.And(T.Iff(O[f"bf{i}"].item(), sf), T.Implies(sf, T.eq(
                si, T.add(T.mul(O[f"bb{i}"].item(), d.B, 32), O[f"bs{i}"].item(), 32), 32)))))
        return g

    def covers(I, O):
        c = [("all found", T.And(*O.pf.el))]
        return c

    return ht_harness(name, d, inputs, fn, goals, lambda I: assume_state(I, d),
                      f", any reachable table, any {N} queries", covers=covers, timeout=timeout)


# ------------------------------------------------------------------ the real hash


@xtructure_dataclass
class RK:
    a: FieldDescriptor.scalar(dtype=jnp.uint32)
    b: FieldDescriptor.tensor(dtype=jnp.uint8, shape=(2,))


def realhash_h(name, C, B, ops, bits=2, seed=7, timeout=600, cls=None):
    """A history from build() with the generated hash functions untouched (small key domain)."""
    inputs = []
    for n, (o, k) in enumerate(ops):
        sh = () if o in "sl" else (k,)
        a = np.empty(sh, dtype=object)
        b = np.empty(sh + (2,), dtype=object)
        for ix in np.ndindex(*sh):
            v = z3.BitVec(f"x{n}" + "".join(f"[{i}]" for i in ix), bits)
            if ix == ():
                a = X._scalar(z3.ZeroExt(32 - bits, v))
            else:
                a[ix] = z3.ZeroExt(32 - bits, v)
            b[ix + (0,)], b[ix + (1,)] = z3.ZeroExt(8 - bits, v), 5
        inputs += [Inp(f"x{n}.a", sh, np.uint32, el=a), Inp(f"x{n}.b", sh + (2,), np.uint8, el=b)]

    def fn(*a):
        a = list(a)
        t = HashTable.build(RK, seed, C * B, bucket_size=B, hash_size_multiplier=1)
        out = {}
        for n, (o, k) in enumerate(ops):
            x = RK(a=a.pop(0), b=a.pop(0))
            if o == "s":
                t, f, idx = t.insert(x)
            elif o == "p":
                t, f, _, idx = t.parallel_insert(x)
            elif o == "l":
                idx, f = t.lookup(x)
            else:
                idx, f = t.lookup_parallel(x)
            out[f"f{n}"], out[f"i{n}"], out[f"size{n}"] = f, idx.index, t.size
        return out

    def goals(I, O):
        g, ents = [], []
        for n, (o, k) in enumerate(ops):
            m = 1 if o in "sl" else k
            rows = I[f"x{n}.a"].flat()
            fl, ix = O[f"f{n}"].flat(), O[f"i{n}"].flat()
            have = [T.Or(*[T.And(a, T.eq(r, x, 32)) for r, a, _ in ents]) for x in rows]
            if o in "sp":
                new = [T.And(T.Not(have[i]), *[T.Not(T.eq(rows[i], rows[q], 32)) for q in range(i)])
                       for i in range(m)]
                used = cnt([a for _, a, _ in ents])
                room = T.sub(C * B, used, CW)
                enough = T.ule(cnt(new), room, CW)
                for i in range(m):
                    g.append((f"op {n} row {i}: inserted only when new", T.Implies(fl[i], new[i])))
                    g.append((f"op {n} row {i}: inserted when there is room", T.Implies(
                        T.And(enough, new[i]), fl[i])))
                ents += [(rows[i], fl[i], ix[i]) for i in range(m)]
            else:
                for i in range(m):
                    g.append((f"op {n} row {i}: found exactly when inserted before", T.Iff(fl[i], have[i])))
                    g.append((f"op {n} row {i}: same index", T.And(*[T.Implies(
                        T.And(a, T.eq(r, rows[i], 32)), T.eq(ix[i], k_, 32)) for r, a, k_ in ents])))
            g.append((f"op {n}: size", eq8(O[f"size{n}"].item(), cnt([a for _, a, _ in ents]))))
        return g

    return Harness(name, inputs, fn, goals, timeout=timeout, bounds=(
        f"{C}x{B} table, generated hash untouched, {1 << bits} possible keys, history "
        + " ".join(o + str(k) for o, k in ops)))


# ------------------------------------------------------------------ large batches


def large_h(name, C, B, N, parts, timeout=600, cost=None):
    """A batch past the narrow index types: hashes, mask and repetitions concrete, payloads symbolic."""
    d = Dom(C, B)
    dup = {N - 40: 3, N - 10: N - 42, N - 1: 0, 5: 4}            # row -> earlier row it repeats
    off = {7, N - 43, N - 20, 4}                                 # rows masked out (4 is repeated by row 5)
    old = [9, N - 41]                                            # rows stored before
    root = [dup.get(i, i) for i in range(N)]
    syms = [[z3.BitVec(f"v{i}_{k}", 8) for k in range(2)] for i in range(N)]
    hp = [(i * 0x9E3779B1) & 0xFFFFFFFF for i in range(N)]

    def batch(pre, ix):
        el = np.empty((len(ix), 2), dtype=object)
        for a, i in enumerate(ix):
            el[a, 0], el[a, 1] = syms[root[i]]
        return [Inp(f"{pre}.p", (len(ix),), np.uint32, value=np.array([hp[root[i]] for i in ix], dtype=np.uint32)),
                Inp(f"{pre}.s", (len(ix),), np.uint32, value=np.array([root[i] * 5 for i in ix], dtype=np.uint32)),
                Inp(f"{pre}.v", (len(ix), 2), np.uint8, el=el)]
    single = [0, 3, 4, 6, 7, N - 42, N - 3]
    inputs = batch("o", old) + batch("x", list(range(N))) + [Inp("z.v", (2,), np.uint8)]
    fmv = np.array([i not in off for i in range(N)])
    costs = None if cost is None else np.arange(2 * N, N, -1).astype(cost)      # later is cheaper
    if costs is not None:
        costs[N - 1] = costs[0]                                                  # a tie: the first wins

    def fn(op, os_, ov, xp, xs, xv, zv):
        t = HashTable.build(HK, 7, C * B, bucket_size=B, hash_size_multiplier=1)
        t, oins, _, oidx = t.parallel_insert(mk_key(op, os_, ov))
        x = mk_key(xp, xs, xv)
        fm = jnp.asarray(fmv)
        t2, ins, uniq, idx = t.parallel_insert(x, fm, **({} if costs is None else {"unique_key": jnp.asarray(costs)}))
        pi, pf = t2.lookup_parallel(x, fm)
        z = mk_key(xp[N - 2], xs[N - 2], zv)
        zi, zf = t2.lookup(z)
        zpi, zpf = t2.lookup_parallel(jax.tree_util.tree_map(lambda a: a[None], z))
        out = {"ins": ins, "uniq": uniq, "idx": idx.index, "pi": pi.index, "pf": pf, "oins": oins, "oidx": oidx.index,
               "size": t2.size, "size0": t.size, "zf": zf, "zpf": zpf, "got": t2[idx]}
        for i in single:
            si, sf = t2.lookup(x[i])
            out[f"si{i}"], out[f"sf{i}"] = si.index, sf
        return out

    def goals(I, O):
        ins, uniq, idx, pi, pf = (list(O[k].el) for k in ("ins", "uniq", "idx", "pi", "pf"))
        had = {root[i] for i in old}
        seen, rep = set(), {}
        g = [("flags", len(ins) == N and len(uniq) == N)]
        for i in range(N):
            if i not in off and (root[i] not in rep or (costs is not None and costs[i] < costs[rep[root[i]]])):
                rep[root[i]] = i
        for i in range(N):
            first = rep.get(root[i]) == i
            seen.add(root[i]) if first else None
            new = first and root[i] not in had
            if "flags" in parts:
                g.append((f"row {i}: unique flag", T.Iff(uniq[i], first)))
                g.append((f"row {i}: inserted flag", T.Iff(ins[i], new)))
        stored = seen | had
        for i in range(N):
            row = keyrow(I, "x", i)
            if "flags" in parts and i not in off:
                g.append((f"row {i}: reports the index of its record", T.eq(idx[i], idx[rep[root[i]]], 32)))
            if "index" in parts and i not in off:
                g.append((f"row {i}: table[index] is the record", same(
                    [O["got.p"].el[i], O["got.s"].el[i], O["got.v"].el[i, 0], O["got.v"].el[i, 1]], row)))
                g.append((f"row {i}: index within the storage", T.ult(idx[i], C * B, 32)))
            if "lookup" in parts:
                g.append((f"row {i}: batched lookup found", T.Iff(pf[i], i not in off)))
                if i not in off:
                    g.append((f"row {i}: batched lookup index", T.eq(pi[i], idx[i], 32)))
        if "index" in parts:
            vals = [idx[rep[r]] for r in sorted(rep)]
            for a, i in enumerate(vals):
                for j in vals[:a]:
                    t = T.eq(i, j, 32)
                    if t is not False:
                        g.append(("distinct records have distinct indices", T.Not(t)))
            g.append(("size", T.eq(O["size"].item(), len(stored), 32)))
            g.append(("size before", T.eq(O["size0"].item(), len(had), 32)))
            for k, i in enumerate(old):
                g.append((f"record stored before keeps its index {i}", T.eq(O.oidx.el[k], idx[i], 32)))
        if "lookup" in parts:
            for i in single:
                sf = O[f"sf{i}"].item()
                g.append((f"row {i}: single lookup found", T.Iff(sf, root[i] in stored)))
                if i not in off:
                    g.append((f"row {i}: single lookup index", T.eq(O[f"si{i}"].item(), idx[i], 32)))
            hit = T.And(*[T.eq(a, b, 8) for a, b in zip(I["z.v"].flat(), keyrow(I, "x", N - 2)[2:])])
            g.append(("a record with the same hash is found only if equal", T.Iff(O.zf.item(), hit)))
            g.append(("batched lookup of it agrees", T.Iff(O.zpf.el[0], hit)))
        return g

    return ht_harness(name, d, inputs, fn, goals, lambda I: [], f", one batch of {N} rows, any payloads",
                      timeout=timeout, n_random=1)

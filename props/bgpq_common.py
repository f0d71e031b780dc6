"""Priority queue: arbitrary valid states, oracles and harnesses."""
from props.common import *  # noqa: F401,F403
from symx.interp import f_isfinite, f_isnan, f_le, f_lt, f_eq
from xtructure import BGPQ

F16 = np.dtype(np.float16)


def key_el(name, shape, bits=5):
    """Keys over 2^bits float16 patterns in numeric order; the last one is +inf.

    bits=5: 0, then the 30 positive powers of two, then +inf (exponent field symbolic)."""
    el = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        v = z3.BitVec(name + "[" + ",".join(map(str, ix)) + "]", bits)
        if bits == 5:
            e = z3.Concat(z3.BitVecVal(0, 1), v, z3.BitVecVal(0, 10))
        elif bits == 16:
            e = v
        else:  # few values: spread over the exponent, top one = inf
            e = z3.Concat(z3.BitVecVal(0, 1), z3.If(v == (1 << bits) - 1, z3.BitVecVal(31, 5),
                          z3.ZeroExt(5 - bits, v)), z3.BitVecVal(0, 10))
        el[ix] = e
    return el


def kinp(name, shape, bits):
    return Inp(name, shape, F16, el=key_el(name, shape, bits))


def fin(k):
    return f_isfinite(k, F16)


def le(a, b):
    if CHEAP:
        return T.ule(a, b, 16)
    return f_le(a, b, F16)


CHEAP = False


def tags(n, base):
    """Concrete, pairwise distinct values: the code must carry them without looking."""
    a = np.arange(base, base + n, dtype=np.uint32) * 7 + 3
    b = np.stack([(np.arange(base, base + n) * 5 + 1) % 251, (np.arange(base, base + n) * 11 + 2) % 241],
                 -1).astype(np.uint8)
    return a, b


def val_const(shape, base):
    n = int(np.prod(shape))
    a, b = tags(n, base)
    return build(VA, shape, [jnp.asarray(a.reshape(shape)), jnp.asarray(b.reshape(shape + (2,)))])


def state_inputs(br, B, bits):
    return [kinp("hk", (br, B), bits), kinp("bk", (B - 1,), bits),
            Inp("hs", (), np.uint32, el=X._scalar(z3.ZeroExt(25, z3.BitVec("hs", 7))))]


def mk_state(br, B, hk, bk, hs):
    h = BGPQ.build(br * B, B, VA, jnp.float16)
    return h.replace(key_store=hk, key_buffer=bk, heap_size=hs,
                     buffer_size=jnp.sum(jnp.isfinite(bk), dtype=jnp.uint32),
                     val_store=val_const((br, B), 0), val_buffer=val_const((B - 1,), br * B))


def out_state(h, p):
    return {p + "hk": h.key_store, p + "bk": h.key_buffer, p + "hs": h.heap_size,
            p + "bs": h.buffer_size, p + "hv": h.val_store, p + "bv": h.val_buffer, p + "size": h.size}


def slots(O, p, br, B):
    """[(key, tag row)] of every cell of a queue state."""
    out = []
    for i in range(br):
        for j in range(B):
            out.append((O[p + "hk"].el[i, j],
                        [O[p + "hv.a"].el[i, j]] + list(O[p + "hv.b"].el[i, j])))
    for j in range(B - 1):
        out.append((O[p + "bk"].el[j], [O[p + "bv.a"].el[j]] + list(O[p + "bv.b"].el[j])))
    return out


TW = [32, 8, 8]


def tag_row(t):
    a, b = tags(1, t)
    return [int(a[0]), int(b[0][0]), int(b[0][1])]


def nfin(keys):
    return T.count([fin(k) for k in keys], 8)


def inv(hk, bk, hs, bs, br, B, order=True, fill=True):
    """The representation invariant, as (label, term)."""
    out = []
    if order:
        for i in range(br):
            for j in range(B - 1):
                out.append((f"node {i} sorted at {j}", le(hk[i, j], hk[i, j + 1])))
        for i in range(1, br):
            out.append((f"heap order at node {i}", le(hk[(i - 1) // 2, B - 1], hk[i, 0])))
        for j in range(B - 2):
            out.append((f"buffer sorted at {j}", le(bk[j], bk[j + 1])))
        if B > 1:
            out.append(("buffer not below root", le(hk[0, B - 1], bk[0])))
    if fill:
        out.append(("heap_size in range", T.ule(hs, br - 1, 32)))
        for i in range(1, br):
            for j in range(B):
                out.append((f"node {i} occupied iff counted", T.Iff(fin(hk[i, j]), T.ule(i, hs, 32))))
        for j in range(B):
            out.append(("root full when nodes below it",
                        T.Implies(T.ult(0, hs, 32), fin(hk[0, j]))))
        if bs is not None:
            out.append(("buffer_size counts the buffer", T.eq(T.resize(nfin(bk), 8, 32, False), bs, 32)))
        if B > 1:
            out.append(("buffer used only over a full root", T.Implies(fin(bk[0]), fin(hk[0, B - 1]))))
    return out


def valid_key(k):
    """not NaN, not -inf"""
    return T.Not(T.Or(f_isnan(k, F16), T.eq(k, 0xFC00, 16)))


def assume_state(I, br, B):
    a = [t for _, t in inv(I.hk.el, I.bk.el, I.hs.item(), None, br, B)]
    if not CHEAP:
        a += [valid_key(k) for k in I.hk.flat() + I.bk.flat()]
    return a


def in_cells(I, br, B, extra=()):
    """[(key, tag)] of everything that goes in."""
    ks = I.hk.flat() + I.bk.flat()
    out = [(k, tag_row(t)) for t, k in enumerate(ks)]
    base = len(ks)
    for k in extra:
        out.append((k, tag_row(base)))
        base += 1
    return out


def n_state(br, B):
    return br * B + B - 1


def conserve(ins, outs, prefix):
    """Every finite input (key, value) pair is found exactly once among the outputs, and nothing else."""
    goals = []
    n_in = T.count([fin(k) for k, _ in ins], 8)
    n_out = T.count([fin(k) for k, _ in outs], 8)
    goals.append((prefix + ": entry count", T.eq(n_in, n_out, 8)))
    for n, (k, t) in enumerate(ins):
        hits = [T.And(T.eq(ok, k, 16), rows_eq(ot, t, TW)) for ok, ot in outs]
        goals.append((f"{prefix}: entry {n} kept with its own value", T.Implies(fin(k), T.Or(*hits))))
    return goals


def key_conserve(ins, outs, prefix):
    return conserve(ins, outs, prefix)


def size_of(ks, hs, B):
    """Spec of size for a valid state: number of finite keys."""
    return T.resize(nfin(ks), 8, 32, False)


# ------------------------------------------------------------------ confirmation by draining


def drain_check(vals, br, B, op, block=None):
    """Run the real queue from the concrete pre-state, drain it, compare with a sorted reference."""
    hk, bk = np.asarray(vals["hk"]), np.asarray(vals["bk"])
    h = mk_state(br, B, jnp.asarray(hk), jnp.asarray(bk), jnp.asarray(vals["hs"]))
    entries = [(float(k), t) for t, k in enumerate(list(hk.reshape(-1)) + list(bk.reshape(-1)))
               if np.isfinite(k)]
    a_all = {int(tags(1, t)[0][0]): t for t in range(n_state(br, B) + 4 * B)}
    out = []
    if block is not None:
        nk = np.asarray(vals[block])
        base = n_state(br, B)
        was_full = int(vals["hs"]) >= br - 1
        h = h.insert(jnp.asarray(nk), val_const((B,), base))
        entries += [(float(k), base + j) for j, k in enumerate(nk) if np.isfinite(k)]
        if int(h.size) != len(entries) and not was_full:
            return f"size {int(h.size)} but {len(entries)} entries are in the queue"
    else:
        was_full = False
    remaining = sorted(entries)
    got = 0
    for _ in range(br + 3):
        h, k, v = h.delete_mins()
        k = np.asarray(k, dtype=np.float64)
        va = np.asarray(v.a)
        fk = [(float(x), int(y)) for x, y in zip(k, va) if np.isfinite(x)]
        if not was_full:
            want = [x for x, _ in remaining[got:got + B]]
            if [x for x, _ in fk] != want:
                return f"delete_mins returned {[x for x, _ in fk]}, the minimum batch is {want}"
        elif sorted(x for x, _ in fk) != [x for x, _ in fk]:
            return f"delete_mins returned an unsorted batch {fk}"
        for x, y in fk:
            if (x, a_all.get(y)) not in entries:
                return f"delete_mins returned key {x} with a foreign value {y}"
            entries.remove((x, a_all[y]))
        got += len(fk)
    if not was_full and got != len(remaining):
        return f"drained {got} of {len(remaining)} entries"
    return None


# ------------------------------------------------------------------ harnesses


def ins_h(name, br, B, bits, what, n_new=None, env_ctx=None, tier="quick", timeout=600, chunk=None,
          full=None, extra_assume=None):
    """One insert from an arbitrary valid state."""
    n_new = B if n_new is None else n_new
    inputs = state_inputs(br, B, bits) + [kinp("nk", (n_new,), bits)]

    def fn(hk, bk, hs, nk):
        h = mk_state(br, B, hk, bk, hs)
        k, v = nk, val_const((n_new,), n_state(br, B))
        if n_new < B:
            k, v = h.make_batched_like(k, v)
        h2 = h.insert(k, v)
        return {"pre_size": h.size, **out_state(h2, "p")}

    def parts(I):
        hs = I.hs.item()
        is_full = T.eq(hs, br - 1, 32)
        cnt_buf_new = T.add(T.add(nfin(I.nk.flat()), nfin(I.bk.flat()), 8), 0, 8)
        # an overflow needs a full root afterwards and B more entries than the root/buffer hold
        root_n = nfin(list(I.hk.el[0]))
        spill = T.sub(T.add(T.add(root_n, nfin(I.bk.flat()), 8), nfin(I.nk.flat()), 8), B, 8)
        over = T.And(T.Not(T.slt(spill, B, 8)))
        return is_full, over

    def assume(I):
        a = assume_state(I, br, B)
        if not CHEAP:
            a += [valid_key(k) for k in I.nk.flat()]
        is_full, over = parts(I)
        if full is True:
            a += [is_full, over]
        elif full is False:
            a += [T.Not(T.And(is_full, over))]
        if extra_assume:
            a += extra_assume(I)
        return a

    def goals(I, O):
        is_full, over = parts(I)
        hs = I.hs.item()
        ins = in_cells(I, br, B, I.nk.flat())
        outs = slots(O, "p", br, B)
        g = []
        phk, pbk, phs, pbs = O.phk.el, O.pbk.el, O.phs.item(), O.pbs.item()
        total_in = T.count([fin(k) for k, _ in ins], 8)
        if what == "order":
            # observable now: the next minimum batch (root) is a true minimum batch
            for j in range(B):
                for n, (k, _) in enumerate(outs[B:]):
                    g.append((f"next batch item {j} is not above entry {n}",
                              T.Implies(fin(k), le(phk[0, j], k))))
            g += [(l, t, "inv") for l, t in inv(phk, pbk, phs, pbs, br, B, fill=False)]
        if what == "conserve":
            g += conserve(ins, outs, "insert")
            g.append(("size counts what was inserted",
                      T.eq(O.psize.item(), T.resize(total_in, 8, 32, False), 32)))
            g.append(("size before", T.eq(O.pre_size.item(), size_of(I.hk.flat() + I.bk.flat(), hs, B), 32)))
            g += [(l, t, "inv") for l, t in inv(phk, pbk, phs, pbs, br, B, order=False)]
        if what == "evict":
            cap = br * B
            out_n = T.count([fin(k) for k, _ in outs], 8)
            g.append(("exactly one batch discarded", T.eq(out_n, T.sub(total_in, B, 8), 8)))
            g.append(("size agrees", T.eq(O.psize.item(), T.resize(out_n, 8, 32, False), 32)))
            # nothing invented: each finite output pair is one of the inputs, and no tag twice
            for n, (k, t) in enumerate(outs):
                g.append((f"cell {n} holds an entry that was put in", T.Implies(fin(k), T.Or(*[
                    T.And(T.eq(k, ik, 16), rows_eq(t, it, TW)) for ik, it in ins]))))
            for n in range(len(outs)):
                for m in range(n):
                    g.append((f"cells {m},{n} are different entries", T.Or(
                        T.Not(fin(outs[n][0])), T.Not(fin(outs[m][0])),
                        T.Not(T.eq(outs[n][1][0], outs[m][1][0], 32)))))
            # an entry that is gone is not below any of the batch returned next
            for n, (k, t) in enumerate(ins):
                gone = T.And(fin(k), *[T.Not(T.And(fin(ok), T.eq(ot[0], t[0], 32))) for ok, ot in outs])
                g.append((f"discarded entry {n} is not below the minimum batch",
                          T.Implies(gone, le(phk[0, B - 1], k))))
            g += [(l, t, "inv") for l, t in inv(phk, pbk, phs, pbs, br, B)]
        return g

    def covers(I, O):
        is_full, over = parts(I)
        if full is True:
            return [("a pre-existing entry is discarded", T.Or(*[T.And(fin(k), *[
                T.Not(T.eq(ot[0], t[0], 32)) for _, ot in slots(O, "p", br, B)])
                for k, t in in_cells(I, br, B)]))]
        if extra_assume:
            return []
        return [("overflow", over), ("grows", T.ult(I.hs.item(), O.phs.item(), 32)) if br > 1 else
                ("nonempty", fin(I.hk.el[0, 0]))]

    return Harness(name, inputs, fn, goals, assume=assume, covers=covers, timeout=timeout, chunk=chunk,
                   trace_ctx=env_ctx, run_ctx=env_ctx,
                   confirm=lambda v, m=None: drain_check(v, br, B, "insert", "nk") if n_new == B else None,
                   bounds=f"{br} nodes x batch {B}, any valid state, any block of {n_new} keys "
                          f"({bits}-bit key patterns)")


def del_h(name, br, B, bits, what, timeout=600, chunk=None, env_ctx=None, extra_assume=None):
    inputs = state_inputs(br, B, bits)

    def fn(hk, bk, hs):
        h = mk_state(br, B, hk, bk, hs)
        h2, k, v = h.delete_mins()
        return {"mk": k, "mv": v, "pre_size": h.size, **out_state(h2, "p")}

    def assume(I):
        return assume_state(I, br, B) + (extra_assume(I) if extra_assume else [])

    def goals(I, O):
        ins = in_cells(I, br, B)
        outs = slots(O, "p", br, B)
        mk = O.mk.flat()
        mv = [[O["mv.a"].el[j]] + list(O["mv.b"].el[j]) for j in range(B)]
        phk, pbk, phs, pbs = O.phk.el, O.pbk.el, O.phs.item(), O.pbs.item()
        g = []
        if what == "order":
            for j in range(B - 1):
                g.append((f"returned keys ascending at {j}", le(mk[j], mk[j + 1])))
            for j in range(B):
                for n, (k, _) in enumerate(outs):
                    g.append((f"returned item {j} not above remaining entry {n}",
                              T.Implies(fin(k), le(mk[j], k))))
                for n, (k, _) in enumerate(outs[B:]):
                    g.append((f"next batch item {j} is not above entry {n}",
                              T.Implies(fin(k), le(phk[0, j], k))))
            for j in range(B):
                g.append((f"returned pair {j} is a stored pair", T.Implies(fin(mk[j]), T.Or(*[
                    T.And(T.eq(mk[j], k, 16), rows_eq(mv[j], t, TW)) for k, t in ins]))))
            g += [(l, t, "inv") for l, t in inv(phk, pbk, phs, pbs, br, B, fill=False)]
        else:
            g += conserve(ins, outs + list(zip(mk, mv)), "delete")
            g.append(("a full batch is returned while that many entries are stored", T.Implies(
                T.Not(T.ult(nfin([k for k, _ in ins]), B, 8)), T.And(*[fin(k) for k in mk]))))
            g.append(("size drops by what was returned", T.eq(O.psize.item(), T.resize(
                T.sub(nfin([k for k, _ in ins]), nfin(mk), 8), 8, 32, False), 32)))
            g.append(("size before", T.eq(O.pre_size.item(),
                                          T.resize(nfin([k for k, _ in ins]), 8, 32, False), 32)))
            g += [(l, t, "inv") for l, t in inv(phk, pbk, phs, pbs, br, B, order=False)]
        return g

    def covers(I, O):
        if extra_assume:
            return []
        c = [("entries remain", fin(O.phk.el[0, 0]))]
        if br > 3:
            c.append(("sift two levels", T.And(T.eq(I.hs.item(), br - 1, 32),
                                              T.Not(T.eq(O.phk.el[(br - 2 - 1) // 2, 0],
                                                         I.hk.el[(br - 2 - 1) // 2, 0], 16)))))
        return c

    return Harness(name, inputs, fn, goals, assume=assume, covers=covers, timeout=timeout, chunk=chunk,
                   trace_ctx=env_ctx, run_ctx=env_ctx,
                   confirm=lambda v, m=None: drain_check(v, br, B, "delete"),
                   bounds=f"{br} nodes x batch {B}, any valid state ({bits}-bit key patterns)")


def hist_h(name, br, B, ops, what="order", bits=5, timeout=600, env_ctx=None, chunk=None, partial_n=None):
    """A whole history through the public API from build(): I = insert, D = delete_mins, P = padded insert."""
    n_new = {"I": B, "P": partial_n or max(1, B - 1)}
    inputs = [kinp(f"k{t}", (n_new[o],), bits) for t, o in enumerate(ops) if o in "IP"]

    def fn(*ks):
        ks = list(ks)
        h = BGPQ.build(br * B, B, VA, jnp.float16)
        out, base = {}, 0
        for t, o in enumerate(ops):
            if o in "IP":
                k, v = ks.pop(0), val_const((n_new[o],), base)
                base += n_new[o]
                if o == "P":
                    k, v = BGPQ.make_batched(k, v, B)
                h = h.insert(k, v)
            else:
                h, mk, mv = h.delete_mins()
                out[f"mk{t}"], out[f"mv{t}"] = mk, mv
            out[f"size{t}"] = h.size
        return out

    def assume(I):
        if bits == 5:
            return []
        return [valid_key(k) for n in I for k in I[n].flat()]

    def goals(I, O):
        g, ents = [], []          # ents: [key, tag, alive]
        base = 0
        for t, o in enumerate(ops):
            if o in "IP":
                for k in I[f"k{t}"].flat():
                    ents.append([k, tag_row(base), fin(k)])
                    base += 1
            else:
                mk = O[f"mk{t}"].flat()
                mv = [[O[f"mv{t}.a"].el[j]] + list(O[f"mv{t}.b"].el[j]) for j in range(B)]
                n_al = T.count([e[2] for e in ents], 8)
                hit = [[T.And(fin(mk[j]), T.eq(mk[j], e[0], 16), rows_eq(mv[j], e[1], TW)) for j in range(B)]
                       for e in ents]
                if what == "order":
                    for j in range(B - 1):
                        g.append((f"op {t}: returned keys ascend at {j}", le(mk[j], mk[j + 1])))
                    for n, e in enumerate(ents):
                        g.append((f"op {t}: entry {n} left behind is not below the batch", T.Or(
                            T.Not(e[2]), T.Or(*hit[n]), T.And(*[T.Implies(fin(k), le(k, e[0])) for k in mk]))))
                    for j in range(B):
                        g.append((f"op {t}: pair {j} is a live entry", T.Or(T.Not(fin(mk[j])), *[
                            T.And(e[2], hit[n][j]) for n, e in enumerate(ents)])))
                else:
                    for n, e in enumerate(ents):
                        g.append((f"op {t}: entry {n} returned at most once", T.ule(T.count(hit[n], 4), 1, 4)))
                    g.append((f"op {t}: a full batch, or all there is", T.eq(
                        nfin(mk), T.ite(T.ult(n_al, B, 8), n_al, B, 8), 8)))
                for n, e in enumerate(ents):
                    e[2] = T.And(e[2], T.Not(T.Or(*hit[n])))
            if what == "conserve":
                g.append((f"op {t}: size", T.eq(O[f"size{t}"].item(), T.resize(
                    T.count([e[2] for e in ents], 8), 8, O[f"size{t}"].w, False), O[f"size{t}"].w)))
        return g

    return Harness(name, inputs, fn, goals, assume=assume, timeout=timeout, trace_ctx=env_ctx, run_ctx=env_ctx,
                   chunk=chunk, bounds=f"history {ops} from build(), {br} nodes x batch {B}, every key value "
                                       f"({bits}-bit patterns)")


# ------------------------------------------------------------------ sizes past the narrow index types


def big_h(name, br, B, hs, nbuf, ops, parts=("order", "conserve"), seed=1, timeout=600, partial=0):
    """A large queue: concrete float32 keys (all distinct, a few ulps apart), every value symbolic.

    ops: I = insert of B keys, P = padded insert of `partial` keys, D = delete_mins."""
    rng = np.random.RandomState(seed)
    blocks = list(rng.permutation(hs + 1))
    import heapq
    heapq.heapify(blocks)
    key = lambda rank: np.float32(1.0) + np.asarray(rank, np.float32) * np.float32(2.0 ** -22)
    hk = np.full((br, B), np.inf, np.float32)
    for i, b in enumerate(blocks):
        hk[i] = key(2 * (int(b) * B + np.arange(B)))
    bk = np.full((B - 1,), np.inf, np.float32)
    lim = 2 * (hs + 1) * B
    bk[:nbuf] = key(2 * lim + 2 * np.arange(nbuf))
    n_ins = [B if o == "I" else partial for o in ops if o in "IP"]
    odd = rng.permutation(lim // 2)[:sum(n_ins)] * 2 + 1
    news, at = [], 0
    for n in n_ins:
        news.append(key(odd[at:at + n]))
        at += n
    specs = [("h", (br, B)), ("w", (B - 1,))] + [(f"n{k}", (n,)) for k, n in enumerate(n_ins)]
    inputs = [i for p, s in specs for i in mk_inputs(p, VA, s)]

    def fn(*arr):
        arr = list(arr)
        xs = [build(VA, s, [arr.pop(0), arr.pop(0)]) for _, s in specs]
        h = BGPQ.build(br * B, B, VA, jnp.float32)
        h = h.replace(key_store=jnp.asarray(hk), key_buffer=jnp.asarray(bk),
                      heap_size=jnp.asarray(hs, h.heap_size.dtype),
                      buffer_size=jnp.asarray(nbuf, h.buffer_size.dtype), val_store=xs[0], val_buffer=xs[1])
        out, k = {"size": h.size}, 0
        for t, o in enumerate(ops):
            if o in "IP":
                kk, vv = jnp.asarray(news[k]), xs[2 + k]
                if o == "P":
                    kk, vv = h.make_batched_like(kk, vv)
                h = h.insert(kk, vv)
                k += 1
            else:
                h, mk, mv = h.delete_mins()
                out[f"mk{t}"], out[f"mv{t}"] = mk, mv
            out[f"size{t}"] = h.size
        out.update(ek=h.key_store, ev=h.val_store, bk=h.key_buffer, bv=h.val_buffer)
        return out

    def goals(I, O):
        def vals(pre, X_):
            return [[a] + list(b) for a, b in zip(X_[pre + ".a"].el.reshape(-1), X_[pre + ".b"].el.reshape(-1, 2))]

        def asf(el):
            a = np.array([int(e) if isinstance(e, (int, np.integer)) else -1 for e in np.asarray(el).reshape(-1)],
                         dtype=np.int64)
            return None if (a < 0).any() else a.astype(np.uint32).view(np.float32)
        hold = {}
        for ks, pre in ((hk, "h"), (bk, "w")):
            for kv, row in zip(ks.reshape(-1), vals(pre, I)):
                if np.isfinite(kv):
                    hold[float(kv)] = row
        g = [("size of the state", T.eq(O["size"].item(), len(hold), 32))]
        k, dropped = 0, 0
        cap = br * B
        ws = [32, 8, 8]
        for t, o in enumerate(ops):
            if o in "IP":
                for kv, row in zip(news[k], vals(f"n{k}", I)):
                    hold[float(kv)] = row
                k += 1
                if len(hold) - dropped > cap + B - 1:
                    dropped += B
            else:
                mk = asf(O[f"mk{t}"].el)
                if mk is None:
                    return g + [("returned keys are the keys put in", False)]
                want = sorted(hold)[:B]
                got = [float(v) for v in mk if np.isfinite(v)]
                rows = vals(f"mv{t}", O)
                if "order" in parts:
                    g.append((f"op {t}: exactly the smallest batch, ascending", got == want))
                    for j, kv in enumerate(got):
                        g.append((f"op {t}: key {j} comes with its own value", kv in hold and rows_eq(rows[j], hold[kv], ws)))
                for kv in got:
                    hold.pop(kv, None)
            if "conserve" in parts:
                g.append((f"op {t}: size", T.eq(O[f"size{t}"].item(), len(hold) - dropped, 32)))
        if "conserve" in parts:
            ek, eb = asf(O.ek.el), asf(O.bk.el)
            if ek is None or eb is None:
                return g + [("stored keys are the keys put in", False)]
            left = dict(hold)
            for kv, row in list(zip(ek, vals("ev", O))) + list(zip(eb, vals("bv", O))):
                if not np.isfinite(kv):
                    continue
                r = left.pop(float(kv), None)
                g.append((f"stored entry {float(kv)} is one that was put in", r is not None and rows_eq(row, r, ws)))
            g.append(("entries lost are one dropped batch per overflow", len(left) == dropped))
            if dropped and ops[-1] != "D":
                first = sorted(set(hold) - set(left))[:B]
                g.append(("no lost entry is below the next batch", not left or min(left) >= max(first)))
        return g

    return Harness(name, inputs, fn, goals, timeout=timeout, n_random=1,
                   bounds=f"{br} nodes x batch {B}, {ops}: concrete distinct float32 keys, every value")

"""Queue: FIFO order, non-destructive peek, exact size, clear."""
from props.common import *  # noqa: F401,F403
from xtructure import Queue

META = {
    "explanation": "Queue build/enqueue/dequeue/peek/clear/[] are traced from /repo and executed "
                   "symbolically. Inductive step from an arbitrary queue (any head, any tail, any "
                   "contents); bounded histories from build() with symbolic operation selectors.",
    "bounds": "capacity 4 (and 6 thorough); batch sizes 0(scalar),1,2,3; histories of 4 (6) operations; "
              "batches of 300 and 66000 records at concrete sizes",
    "assumptions": ["cumulative enqueues since the last clear never exceed max_size and dequeues "
                    "never exceed size (undocumented otherwise)"],
}


def pre_inputs(cls, cap):
    return [Inp("head", (), np.uint32), Inp("tail", (), np.uint32)] + mk_inputs("s", cls, (cap,))


def mk_queue(cls, cap, head, tail, arrays):
    return Queue.build(cap, cls).replace(head=head, tail=tail, val_store=build(cls, (cap,), arrays))


def contents(q, cap):
    """The live contents through the public index operator."""
    xs = [q[jnp.uint32(i)] for i in range(cap)]
    return jax.tree_util.tree_map(lambda *x: jnp.stack(x), *xs)


def live(I, cap):
    h, t = I.head.item(), I.tail.item()
    return T.And(T.ule(h, t, 32), T.ule(t, cap, 32))


def enq_h(cls, cap, k):
    n = 1 if k is None else k
    ins = pre_inputs(cls, cap) + mk_inputs("it", cls, () if k is None else (k,))
    nl = len(leaves_spec(cls, ()))

    def fn(head, tail, *arr):
        q = mk_queue(cls, cap, head, tail, arr[:nl])
        q2 = q.enqueue(build(cls, () if k is None else (k,), arr[nl:]))
        return {"size": q2.size, "old": contents(q, cap), "c": contents(q2, cap),
                "max": jnp.int32(q2.max_size), "clear": q2.clear().size}

    def assume(I):
        return [T.ule(I.head.item(), I.tail.item(), 32), T.ule(I.tail.item(), cap - n, 32)]

    def goals(I, O):
        h, sz = I.head.item(), T.sub(I.tail.item(), I.head.item(), 32)
        rows, ws = rows_of(I, "s", cls), widths_of(I, "s")
        it = [row1(I, "it")] if k is None else rows_of(I, "it", cls)
        c, old = rows_of(O, "c", cls), rows_of(O, "old", cls)
        out = [("size grows by the enqueued count", T.eq(O.size.item(), T.add(sz, n, 32), 32)),
               ("capacity is unchanged", T.eq(O["max"].item(), cap, 32)),
               ("clear empties", T.eq(O["clear"].item(), 0, 32))]
        for i in range(cap):
            alive = T.ult(i, sz, 32)
            out.append((f"item {i} readable before", T.Implies(alive, rows_eq(
                old[i], select_row(rows, T.add(h, i, 32), 32, ws), ws))))
            out.append((f"item {i} unchanged by enqueue", T.Implies(alive, rows_eq(c[i], old[i], ws))))
            for j in range(n):
                out.append((f"position {i} holds enqueued item {j}", T.Implies(
                    T.eq(T.add(sz, j, 32), i, 32), rows_eq(c[i], it[j], ws))))
        return out

    return Harness(f"enqueue_{cls.__name__}_cap{cap}_k{k}", ins, fn, goals, assume=assume,
                   covers=lambda I, O: [("full, head moved", T.And(
                       T.eq(I.tail.item(), cap - n, 32), T.eq(I.head.item(), cap - n, 32)))],
                   bounds=f"capacity {cap}, any head<=tail, {n} item(s)")


def deq_h(cls, cap, n):
    ins = pre_inputs(cls, cap)

    def fn(head, tail, *arr):
        q = mk_queue(cls, cap, head, tail, arr)
        pk = q.peek(n)
        q2, d = q.dequeue(n)
        return {"size": q2.size, "c": contents(q2, cap), "pk": pk, "d": d, "clear": q2.clear().size,
                "reuse": q.clear().enqueue(q[jnp.uint32(0)]).peek(1)}

    def assume(I):
        return [live(I, cap), T.ule(n, T.sub(I.tail.item(), I.head.item(), 32), 32)]

    def goals(I, O):
        h, sz = I.head.item(), T.sub(I.tail.item(), I.head.item(), 32)
        rows, ws = rows_of(I, "s", cls), widths_of(I, "s")
        c = rows_of(O, "c", cls)
        pk = [row1(O, "pk")] if n == 1 else rows_of(O, "pk", cls)
        d = [row1(O, "d")] if n == 1 else rows_of(O, "d", cls)
        nsz = T.sub(sz, n, 32)
        out = [("size shrinks by the dequeued count", T.eq(O.size.item(), nsz, 32)),
               ("clear empties", T.eq(O["clear"].item(), 0, 32)),
               ("usable after clear", rows_eq(row1(O, "reuse"), select_row(rows, h, 32, ws), ws))]
        for j in range(n):
            want = select_row(rows, T.add(h, j, 32), 32, ws)
            out.append((f"peek item {j}", rows_eq(pk[j], want, ws)))
            out.append((f"dequeued item {j}", rows_eq(d[j], want, ws)))
        for i in range(cap):
            out.append((f"remaining item {i}", T.Implies(T.ult(i, nsz, 32), rows_eq(
                c[i], select_row(rows, T.add(h, i + n, 32), 32, ws), ws))))
        return out

    return Harness(f"dequeue_{cls.__name__}_cap{cap}_n{n}", ins, fn, goals, assume=assume,
                   covers=lambda I, O: [("emptied", T.eq(O.size.item(), 0, 32))],
                   bounds=f"capacity {cap}, any head<=tail, dequeue {n}")


def hist_h(cls, cap, steps):
    ins = [Inp("op", (steps,), np.int32, dom=5)] + mk_inputs("it", cls, (steps * 2,))

    def fn(op, *arr):
        items = build(cls, (steps * 2,), arr)
        q = Queue.build(cap, cls)
        pk = []
        for t in range(steps):
            q = jax.lax.switch(op[t], [
                lambda q=q: q.enqueue(items[2 * t]),
                lambda q=q: q.enqueue(items[2 * t:2 * t + 2]),
                lambda q=q: q.dequeue(1)[0],
                lambda q=q: q.dequeue(2)[0],
                lambda q=q: q.clear(),
            ])
            pk.append(q.peek(1))
        return {"size": q.size, "c": contents(q, cap),
                "pk": jax.tree_util.tree_map(lambda *x: jnp.stack(x), *pk)}

    def model(I):
        ws = widths_of(I, "it")
        it = rows_of(I, "it", cls)
        cells = [[0] * len(ws) for _ in range(cap)]
        n, room, ok, fronts = 0, cap, True, []   # logical list cells[0..n), room left
        for t in range(steps):
            e1, e2, d1, d2, cl = (T.eq(I.op.el[t], k, 32) for k in range(5))
            ok = T.And(ok, T.Implies(e1, T.ule(1, room, 32)), T.Implies(e2, T.ule(2, room, 32)),
                       T.Implies(d1, T.ule(1, n, 32)), T.Implies(d2, T.ule(2, n, 32)))
            new = []
            for i in range(cap):
                put0 = T.And(T.Or(e1, e2), T.eq(n, i, 32))
                put1 = T.And(e2, T.eq(T.add(n, 1, 32), i, 32))
                r = ite_row(put0, it[2 * t], ite_row(put1, it[2 * t + 1], cells[i], ws), ws)
                if i + 1 < cap:
                    r = ite_row(d1, cells[i + 1], r, ws)
                if i + 2 < cap:
                    r = ite_row(d2, cells[i + 2], r, ws)
                new.append(r)
            cells = new
            dn = T.ite(e1, 1, T.ite(e2, 2, T.ite(d1, T.mask(32), T.mask(32) - 1, 32), 32), 32)
            n = T.ite(cl, 0, T.add(n, dn, 32), 32)
            room = T.ite(cl, cap, T.ite(T.Or(e1, e2), T.sub(room, dn, 32), room, 32), 32)
            fronts.append((n, cells[0]))
        return ok, n, cells, fronts, ws

    def assume(I):
        return [model(I)[0]]

    def goals(I, O):
        ok, n, cells, fronts, ws = model(I)
        c, pk = rows_of(O, "c", cls), rows_of(O, "pk", cls)
        out = [("size after history", T.eq(O.size.item(), n, 32))]
        for i in range(cap):
            out.append((f"item {i} after history", T.Implies(T.ult(i, n, 32), rows_eq(c[i], cells[i], ws))))
        for t, (sz, fr) in enumerate(fronts):
            out.append((f"front after step {t}", T.Implies(T.ult(0, sz, 32), rows_eq(pk[t], fr, ws))))
        return out

    return Harness(f"history_{cls.__name__}_cap{cap}_len{steps}", ins, fn, goals, assume=assume,
                   covers=lambda I, O: [("nonempty end", T.eq(O.size.item(), 2, 32))],
                   bounds=f"capacity {cap}, every sequence of {steps} operations in "
                          "{enqueue 1, enqueue 2, dequeue 1, dequeue 2, clear}")


def ind(tier):
    for cls in (VA, Nested) if tier == "thorough" else (VA,):
        for cap in (4, 6) if tier == "thorough" else (4,):
            for k in (None, 1, 2, 3):
                yield enq_h(cls, cap, k)
            for n in (1, 2, 3):
                yield deq_h(cls, cap, n)


def hist(tier):
    yield hist_h(VA, 4, 4)
    if tier == "thorough":
        yield hist_h(VA, 5, 6)
        yield hist_h(Nested, 4, 4)


def large_h(cls, n, extra=3):
    """Batches past every narrow index type: concrete sizes, symbolic contents."""
    cap = 2 * n + extra + 2
    ins = mk_inputs("it", cls, (n,)) + mk_inputs("x", cls, (extra,))
    nl = len(leaves_spec(cls, ()))

    def fn(*arr):
        items, x = build(cls, (n,), arr[:nl]), build(cls, (extra,), arr[nl:])
        q = Queue.build(cap, cls).enqueue(x).enqueue(items)
        fr = q.peek(n)
        q2, got = q.dequeue(n)
        q3, rest = q2.enqueue(items).dequeue(n + extra)
        q4 = q3.clear().enqueue(items)
        return {"size": q.size, "size2": q2.size, "size3": q3.size, "size4": q4.size, "front": fr,
                "got": got, "rest": rest, "again": q4.peek(n), "last": q[jnp.uint32(n + extra - 1)]}

    def goals(I, O):
        ws, it, x = widths_of(I, "it"), rows_of(I, "it", cls), rows_of(I, "x", cls)
        allr = x + it
        out = [("size after enqueues", T.eq(O.size.item(), n + extra, 32)),
               ("size after dequeue", T.eq(O.size2.item(), extra, 32)),
               ("size after draining", T.eq(O.size3.item(), 0, 32)),
               ("size after clear and refill", T.eq(O.size4.item(), n, 32)),
               ("[] reads the last record", rows_eq(row1(O, "last"), it[-1], ws))]
        for nm, want in (("front", allr[:n]), ("got", allr[:n]), ("rest", allr[n:] + it), ("again", it)):
            got = rows_of(O, nm, cls)
            out.append((nm + " returns every record", len(got) == len(want)))
            out += [(f"{nm} record {k}", rows_eq(g, w, ws)) for k, (g, w) in enumerate(zip(got, want))]
        return out

    return Harness(f"large_{cls.__name__}_n{n}", ins, fn, goals, n_random=1,
                   bounds=f"one enqueue and one dequeue of {n} records")


def large(tier):
    yield large_h(VA, 300)
    yield large_h(V8, 66000)


JOBS = {"large": {"build": large, "cost": 50}, "inductive": {"build": ind}, "history": {"build": hist}}

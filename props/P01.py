"""Stack: LIFO order, non-destructive peek, exact size, untouched other cells."""
import itertools

from props.common import *  # noqa: F401,F403
from xtructure import Stack

META = {
    "explanation": "Stack build/push/pop/peek/[] are traced from /repo and executed symbolically. "
                   "Inductive step: one operation from an arbitrary stack (any size, any contents); "
                   "bounded histories from build() with a symbolic choice of operation at each step.",
    "bounds": "capacity 4 and 6; batch sizes 0(scalar),1,2,3; histories of 4 operations; two value classes; batches of 300 and 66000 records at concrete sizes",
    "assumptions": ["push never exceeds max_size and pop/peek never exceeds size (undocumented otherwise)"],
}


def stack_rows(I, cls):
    return rows_of(I, "s", cls), widths_of(I, "s")


def pre_inputs(cls, cap):
    return [Inp("size", (), np.uint32)] + mk_inputs("s", cls, (cap,))


def mk_stack(cls, cap, size, arrays):
    base = Stack.build(cap, cls)
    return base.replace(size=size, val_store=build(cls, (cap,), arrays))


def push_h(cls, cap, k, tier="quick"):
    """k = None: single un-batched item."""
    n = 1 if k is None else k
    ins = pre_inputs(cls, cap) + mk_inputs("it", cls, () if k is None else (k,))
    nl = len(leaves_spec(cls, ()))

    def fn(size, *arr):
        s = mk_stack(cls, cap, size, arr[:nl])
        s2 = s.push(build(cls, () if k is None else (k,), arr[nl:]))
        top = s2.peek(n)
        s3, popped = s2.pop(n)
        return {"size": s2.size, "n": s2.val_store, "top": top, "pop": popped, "size3": s3.size,
                "n3": s3.val_store, "at": s2[jnp.uint32(0)], "max": jnp.int32(s2.max_size)}

    def assume(I):
        return [T.ule(I.size.item(), cap - n, 32)]

    def goals(I, O):
        sz = I.size.item()
        rows, ws = stack_rows(I, cls)
        it = [row1(I, "it")] if k is None else rows_of(I, "it", cls)
        nr = rows_of(O, "n", cls)
        n3 = rows_of(O, "n3", cls)
        out = [("push adds exactly the pushed count to size", T.eq(O.size.item(), T.add(sz, n, 32), 32)),
               ("pop removes exactly that count", T.eq(O.size3.item(), sz, 32)),
               ("capacity is unchanged", T.eq(O["max"].item(), cap, 32)),
               ("s[0] is the bottom element", rows_eq(row1(O, "at"), nr[0], ws))]
        for i in range(cap):
            below = T.ult(i, sz, 32)
            out.append((f"cell {i} below the old size survives push",
                        T.Implies(below, rows_eq(nr[i], rows[i], ws))))
            out.append((f"cell {i} below the old size survives pop",
                        T.Implies(below, rows_eq(n3[i], rows[i], ws))))
            for j in range(n):
                out.append((f"cell {i} holds pushed item {j}",
                            T.Implies(T.eq(T.add(sz, j, 32), i, 32), rows_eq(nr[i], it[j], ws))))
        top = [row1(O, "top")] if n == 1 else rows_of(O, "top", cls)
        pop = [row1(O, "pop")] if n == 1 else rows_of(O, "pop", cls)
        out.append(("peek count", len(top) == n))
        for j in range(n):
            out.append((f"peek returns pushed item {j} in push order", rows_eq(top[j], it[j], ws)))
            out.append((f"pop returns pushed item {j} in push order", rows_eq(pop[j], it[j], ws)))
        return out

    return Harness(f"push_{cls.__name__}_cap{cap}_k{k}", ins, fn, goals, assume=assume,
                   covers=lambda I, O: [("full after push", T.eq(O.size.item(), cap, 32))],
                   bounds=f"capacity {cap}, any size, {n} item(s)")


def pop_h(cls, cap, n):
    ins = pre_inputs(cls, cap) + [Inp("idx", (), np.uint32)]

    def fn(size, *arr):
        s = mk_stack(cls, cap, size, arr[:-1])
        top = s.peek(n)
        s2, popped = s.pop(n)
        return {"size": s2.size, "n": s2.val_store, "top": top, "pop": popped, "at": s[arr[-1]]}

    def assume(I):
        return [T.ule(n, I.size.item(), 32), T.ule(I.size.item(), cap, 32),
                T.ult(I.idx.item(), I.size.item(), 32)]

    def goals(I, O):
        sz = I.size.item()
        rows, ws = stack_rows(I, cls)
        nr = rows_of(O, "n", cls)
        top = [row1(O, "top")] if n == 1 else rows_of(O, "top", cls)
        pop = [row1(O, "pop")] if n == 1 else rows_of(O, "pop", cls)
        out = [("size after pop", T.eq(O.size.item(), T.sub(sz, n, 32), 32)),
               ("indexing reads the logical position",
                rows_eq(row1(O, "at"), select_row(rows, I.idx.item(), 32, ws), ws))]
        for j in range(n):
            want = select_row(rows, T.sub(sz, n - j, 32), 32, ws)
            out.append((f"peek item {j}", rows_eq(top[j], want, ws)))
            out.append((f"pop item {j}", rows_eq(pop[j], want, ws)))
        for i in range(cap):
            out.append((f"cell {i} below the new size survives", T.Implies(
                T.ult(i, T.sub(sz, n, 32), 32), rows_eq(nr[i], rows[i], ws))))
        return out

    return Harness(f"pop_{cls.__name__}_cap{cap}_n{n}", ins, fn, goals, assume=assume,
                   covers=lambda I, O: [("empty after pop", T.eq(O.size.item(), 0, 32))],
                   bounds=f"capacity {cap}, any size, pop {n}")


def hist_h(cls, cap, steps):
    """build() then `steps` operations chosen by symbolic selectors; then drain."""
    ins = [Inp("op", (steps,), np.int32, dom=4)] + mk_inputs("it", cls, (steps * 2,))

    def fn(op, *arr):
        items = build(cls, (steps * 2,), arr)
        s = Stack.build(cap, cls)
        peeks = []
        for t in range(steps):
            two = items[2 * t:2 * t + 2]
            s = jax.lax.switch(op[t], [
                lambda s=s: s.push(items[2 * t]),
                lambda s=s: s.push(two),
                lambda s=s: s.pop(1)[0],
                lambda s=s: s.pop(2)[0],
            ])
            peeks.append(s.peek(1))
        return {"size": s.size, "st": s.val_store,
                "pk": jax.tree_util.tree_map(lambda *x: jnp.stack(x), *peeks)}

    def model(I):
        """size and cell contents as terms, plus validity and the top after each step."""
        ws = widths_of(I, "it")
        it = rows_of(I, "it", cls)
        zero = [0] * len(ws)
        cells = [list(zero) for _ in range(cap)]
        size, ok, tops = 0, True, []
        for t in range(steps):
            o = I.op.el[t]
            p1, p2, q1, q2 = (T.eq(o, k, 32) for k in range(4))
            ok = T.And(ok, T.Implies(p1, T.ule(size, cap - 1, 32)), T.Implies(p2, T.ule(size, cap - 2, 32)),
                       T.Implies(q1, T.ule(1, size, 32)), T.Implies(q2, T.ule(2, size, 32)))
            for i in range(cap):
                at0 = T.And(T.Or(p1, p2), T.eq(size, i, 32))
                at1 = T.And(p2, T.eq(T.add(size, 1, 32), i, 32))
                cells[i] = ite_row(at0, it[2 * t], ite_row(at1, it[2 * t + 1], cells[i], ws), ws)
            d = T.ite(p1, 1, T.ite(p2, 2, T.ite(q1, T.mask(32), T.mask(32) - 1, 32), 32), 32)
            size = T.add(size, d, 32)
            tops.append((size, [list(c) for c in cells]))
        return ok, size, cells, tops, ws

    def assume(I):
        return [model(I)[0]]

    def goals(I, O):
        ok, size, cells, tops, ws = model(I)
        st = rows_of(O, "st", cls)
        pk = rows_of(O, "pk", cls)
        out = [("size after history", T.eq(O.size.item(), size, 32))]
        for i in range(cap):
            out.append((f"element {i} after history", T.Implies(T.ult(i, size, 32),
                                                                rows_eq(st[i], cells[i], ws))))
        for t, (sz, cs) in enumerate(tops):
            out.append((f"top after step {t}", T.Implies(T.ult(0, sz, 32), rows_eq(
                pk[t], select_row(cs, T.sub(sz, 1, 32), 32, ws), ws))))
        return out

    return Harness(f"history_{cls.__name__}_cap{cap}_len{steps}", ins, fn, goals, assume=assume,
                   covers=lambda I, O: [("nonempty end", T.eq(O.size.item(), 2, 32))],
                   bounds=f"capacity {cap}, every sequence of {steps} operations in "
                          "{push 1, push 2, pop 1, pop 2}")


def ind(tier):
    for cls in (VA, Nested) if tier == "thorough" else (VA,):
        for cap in (4, 6) if tier == "thorough" else (4,):
            for k in (None, 1, 2, 3):
                yield push_h(cls, cap, k)
            for n in (1, 2, 3):
                yield pop_h(cls, cap, n)


def hist(tier):
    yield hist_h(VA, 4, 4)
    if tier == "thorough":
        yield hist_h(VA, 5, 6)
        yield hist_h(Nested, 4, 4)


def large_h(cls, n, extra=3):
    """Batches past every narrow index type: concrete sizes, symbolic contents."""
    cap = n + extra + 2
    ins = mk_inputs("it", cls, (n,)) + mk_inputs("x", cls, (extra,))
    nl = len(leaves_spec(cls, ()))

    def fn(*arr):
        items, x = build(cls, (n,), arr[:nl]), build(cls, (extra,), arr[nl:])
        s = Stack.build(cap, cls).push(x).push(items)
        top = s.peek(n)
        s2, popped = s.pop(n)
        s3, rest = s2.push(items).pop(n + extra)
        return {"size": s.size, "size2": s2.size, "size3": s3.size, "top": top, "pop": popped,
                "rest": rest, "last": s[jnp.uint32(n + extra - 1)]}

    def goals(I, O):
        ws, it, x = widths_of(I, "it"), rows_of(I, "it", cls), rows_of(I, "x", cls)
        top, pop, rest = (rows_of(O, k, cls) for k in ("top", "pop", "rest"))
        out = [("size after pushes", T.eq(O.size.item(), n + extra, 32)),
               ("size after pop", T.eq(O.size2.item(), extra, 32)),
               ("size after draining", T.eq(O.size3.item(), 0, 32)),
               ("[] reads the last record", rows_eq(row1(O, "last"), it[-1], ws))]
        for nm, got, want in (("peek", top, it), ("pop", pop, it), ("drain", rest, x + it)):
            out.append((nm + " returns every record", len(got) == len(want)))
            out += [(f"{nm} record {k}", rows_eq(g, w, ws)) for k, (g, w) in enumerate(zip(got, want))]
        return out

    return Harness(f"large_{cls.__name__}_n{n}", ins, fn, goals, n_random=1,
                   bounds=f"one push and one pop of {n} records")


def large(tier):
    yield large_h(VA, 300)
    yield large_h(V8, 66000)


JOBS = {"large": {"build": large, "cost": 50}, "inductive": {"build": ind}, "history": {"build": hist}}

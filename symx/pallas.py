"""Symbolic execution of pallas_call: grid programs over refs.

Default: programs run in grid order, with obligations that no program touches a cell another
one writes (so any parallel order gives the same result) and that no access is out of bounds.
Kernels that use atomics on a ref are run concurrently instead: every access to that ref is an
event with a symbolic time, and reads return the value of the last earlier write (sequential
consistency), so one query covers every interleaving.
"""
from __future__ import annotations

import itertools

import jax
import numpy as np

from . import interp as X
from . import terms as T
from .interp import SArr, Unsupported, width, is_signed
from .terms import z3


class Mem:
    """Backing store of one array."""

    def __init__(self, el, dtype, label):
        self.el, self.dtype, self.label = el, dtype, label
        self.log = []          # (pid, guard, cell, is_write)
        self.concurrent = self.atomic = False
        self.events = []


class Ref:
    concrete = False

    def __init__(self, mem, off, shape, dtype):
        self.mem, self.off, self.shape, self.dtype = mem, tuple(off), tuple(shape), dtype

    @property
    def w(self):
        return width(self.dtype)


class Event:
    __slots__ = ("pid", "seq", "guard", "cells", "read", "write", "wmask", "t")

    def __init__(self, pid, seq, guard, cells, read, write):
        self.pid, self.seq, self.guard = pid, seq, guard
        self.cells = cells    # [(cond, cell)]
        self.read, self.write = read, write


def uses_atomics(jaxpr):
    """invar positions of refs touched by atomics anywhere in the kernel."""
    hit = set()

    def walk(jx, mapping):
        for e in jx.eqns:
            if e.primitive.name in ("atomic_rmw", "atomic_cas"):
                v = e.invars[0]
                if v in mapping:
                    hit.add(mapping[v])
            ps = e.params
            if e.primitive.name == "while":
                cn, bn = ps["cond_nconsts"], ps["body_nconsts"]
                walk(ps["cond_jaxpr"].jaxpr, sub(ps["cond_jaxpr"].jaxpr, e.invars[:cn] + e.invars[cn + bn:], mapping))
                walk(ps["body_jaxpr"].jaxpr, sub(ps["body_jaxpr"].jaxpr, e.invars[cn:], mapping))
            elif e.primitive.name == "cond":
                for b in ps["branches"]:
                    walk(b.jaxpr, sub(b.jaxpr, e.invars[1:], mapping))
            else:
                for key in ("jaxpr", "call_jaxpr"):
                    j = ps.get(key)
                    if j is not None:
                        j = getattr(j, "jaxpr", j)
                        walk(j, sub(j, e.invars, mapping))

    def sub(j, vs, mapping):
        return {iv: mapping[v] for iv, v in zip(j.invars, vs)
                if not isinstance(v, jax.extend.core.Literal) and v in mapping}

    walk(jaxpr, {v: i for i, v in enumerate(jaxpr.invars)})
    return hit


def block_dims(bm):
    out = []
    for b in bm.block_shape:
        n = type(b).__name__
        if n == "Blocked":
            out.append((b.block_size, False))
        elif n == "Squeezed" or b is None:
            out.append((1, True))
        elif isinstance(b, int):
            out.append((b, False))
        else:
            raise Unsupported(f"block kind {n}")
    return out


def run(ip, eqn, ins):
    p = eqn.params
    gm = p["grid_mapping"]
    jaxpr = p["jaxpr"]
    if gm.num_index_operands or getattr(gm, "num_scratch_operands", 0) or gm.num_dynamic_grid_bounds:
        raise Unsupported("pallas scalar-prefetch / scratch / dynamic grid")
    bms = list(gm.block_mappings)
    n_in = len(ins)
    n_out = len(eqn.outvars)
    aliases = dict(p["input_output_aliases"])
    mems = []
    for k, a in enumerate(ins):
        mems.append(Mem(a.el.copy(), a.dtype, f"in{k}"))
    for k, v in enumerate(eqn.outvars):
        src = [i for i, o in aliases.items() if o == k]
        if src:
            mems.append(mems[src[0]])
        else:
            o = X.obj(v.aval.shape)
            of = o.reshape(-1)
            dt, w = v.aval.dtype, width(v.aval.dtype)
            # contents nobody wrote: any bits; replays see the values Pallas's interpreter starts from
            seen = np.zeros((), dt) if np.dtype(dt) == np.bool_ else np.asarray(np.nan, dt) if X.is_float(dt) else np.asarray(np.iinfo(dt).min, dt)
            seen = False if np.dtype(dt) == np.bool_ else int(seen.view(f"u{w // 8}"))
            for q in range(of.size):
                if getattr(ip, "sequential", False):
                    of[q] = seen
                    continue
                of[q] = ip.fresh(w, "uninit")
                ip.grid_order_cons.append(T.eq(of[q], seen, w))
            mems.append(Mem(of.reshape(v.aval.shape), v.aval.dtype, f"out{k}"))
    conc = {id(mems[i]) for i in uses_atomics(jaxpr)}
    for m in mems:
        m.atomic = id(m) in conc
        m.concurrent = m.atomic and not getattr(ip, "sequential", False)
    grid = tuple(gm.grid)
    old = (getattr(ip, "program_ids", None), getattr(ip, "grid", None), getattr(ip, "pl_base", None),
           getattr(ip, "pl_pid", None), getattr(ip, "pl_seq", None))
    ip.grid = grid
    ip.pl_base = len(ip.guards)
    programs = list(itertools.product(*[range(g) for g in grid]))
    order = getattr(ip, "grid_order", None)
    if order == "reverse":
        programs = programs[::-1]
    for pid, ids in enumerate(programs):
        ip.program_ids = ids
        ip.pl_pid, ip.pl_seq = pid, 0
        refs, backs = [], []
        for bm, m in zip(bms, mems):
            dims = block_dims(bm)
            im = bm.index_map_jaxpr
            idx = ip.run_closed(im, [X.SArr(X._scalar(i), np.int32) for i in ids][:len(im.jaxpr.invars)])
            idx = [i.item() for i in idx]
            if any(T.is_sym(i) for i in idx):
                raise Unsupported("symbolic block index")
            off = [i * d for i, (d, _) in zip(idx, dims)]
            if any(sq for _, sq in dims):
                raise Unsupported("squeezed block dims")
            refs.append(Ref(m, off, [d for d, _ in dims], m.dtype))
        ip.eval_jaxpr(jaxpr, [], refs)
    ip.program_ids, ip.grid, ip.pl_base, ip.pl_pid, ip.pl_seq = old
    seen = set()
    for m in mems:
        if id(m) in seen:
            continue
        seen.add(id(m))
        if m.concurrent:
            resolve(ip, m, [k for k, q in enumerate(mems) if q is m])
        elif not m.atomic:
            races(ip, m, eqn)
    return [SArr(mems[n_in + k].el, v.aval.dtype) for k, v in enumerate(eqn.outvars)]


def races(ip, m, eqn):
    if not any(w for _, _, _, w in m.log):
        return
    by = {}
    for pid, g, cell, w in m.log:
        key = (cell, pid)
        r, ww = by.get(key, (False, False))
        by[key] = (r if w else T.Or(r, g), T.Or(ww, g) if w else ww)
    cells = {}
    for (cell, pid), rw in by.items():
        cells.setdefault(cell, []).append((pid, rw))
    bad = []
    for cell, lst in cells.items():
        for (p1, (r1, w1)), (p2, (r2, w2)) in itertools.combinations(lst, 2):
            bad.append(T.Or(T.And(w1, T.Or(r2, w2)), T.And(w2, r1)))
    c = T.Or(*bad)
    if T.is_sym(c) or c:
        ip.obligations.append((f"grid programs do not race on {m.label}",
                               T.Not(T.And(*ip.guards, c))))


def resolve(ip, m, where):
    """Sequentially consistent semantics for all accesses to m."""
    evs = m.events
    n = len(evs)
    w = width(m.dtype)
    tw = max(3, (n + 1).bit_length())
    times = []
    cons = []
    for k, e in enumerate(evs):
        ip.fresh_n += 1
        e.t = z3.BitVec(f"time!{ip.fresh_n}", tw)
        times.append(e.t)
        cons.append(z3.ULT(e.t, z3.BitVecVal(n, tw)))
    for a, b in itertools.combinations(evs, 2):
        if a.pid == b.pid:
            cons.append(z3.ULT(a.t, b.t) if a.seq < b.seq else z3.ULT(b.t, a.t))
        else:
            cons.append(a.t != b.t)
    init = m.el.copy()

    def same_cell(a, b):
        return T.Or(*[T.And(c1, c2) for c1, x in a.cells for c2, y in b.cells if x == y])

    writes = [e for e in evs if e.write is not None]

    def value_at(cond_same, before, default):
        """last write among those selected by `before`, else default"""
        r = default
        # r := value of the latest selected write.  Built by pairwise 'is the last one'.
        for e in writes:
            sel = T.And(e.guard, cond_same(e), before(e))
            if not T.is_sym(sel) and not sel:
                continue
            later = [T.And(f.guard, cond_same(f), before(f), z3.ULT(e.t, f.t)) for f in writes if f is not e]
            r = T.ite(T.And(sel, T.Not(T.Or(*later))), e.write, r, w)
        return r

    for e in evs:
        if e.read is None:
            continue
        dflt = None
        for c, cell in e.cells:
            dflt = init[cell] if dflt is None else T.ite(c, init[cell], dflt, w)
        v = value_at(lambda f: same_cell(e, f), lambda f: False if f is e else z3.ULT(f.t, e.t), dflt)
        cons.append(z3.Implies(T.bt(e.guard), T.bt(T.eq(e.read, v, w))))
    out = m.el.copy()
    for cell in np.ndindex(*m.el.shape):
        def at(f, cell=cell):
            return T.Or(*[c for c, x in f.cells if x == cell])
        out[cell] = value_at(at, lambda f: True, init[cell])
    m.el = out
    # under the guards of the whole call; the schedule variables are free elsewhere
    for c in cons:
        ip.assumptions.append(c)
    # (guard of the call, events); `in grid order` is the order Pallas's own interpreter uses
    ip.schedule = getattr(ip, "schedule", []) + [(T.And(*ip.guards), where, [(e.pid, e.seq, e.guard, e.t) for e in evs])]
    for a, b in itertools.combinations(evs, 2):
        if a.pid != b.pid:
            ip.grid_order_cons.append(z3.ULT(a.t, b.t) if a.pid < b.pid else z3.ULT(b.t, a.t))


# ------------------------------------------------------------------ accesses


def _guard(ip):
    return T.And(*ip.guards[ip.pl_base:])


def _indexers(eqn, idx, key="tree"):
    return jax.tree_util.tree_unflatten(eqn.params[key], list(idx))


def _plan(ip, ref, transforms):
    """-> (result shape, [(result index, [(cond, cell)])], oob cond list).  cells absolute."""
    from jax._src.state.indexing import NDIndexer, Slice
    shape = list(ref.shape)
    if len(transforms) == 0:
        dims = [("s", 0, n, 1) for n in shape]
        ishape = ()
    elif len(transforms) == 1 and isinstance(transforms[0], NDIndexer):
        nd = transforms[0]
        dims = []
        ishape = tuple(nd.int_indexer_shape)
        for i, n in zip(nd.indices, shape):
            if isinstance(i, Slice):
                st = i.start
                if isinstance(st, SArr):
                    dims.append(("d", st, i.size, i.stride))
                else:
                    dims.append(("s", int(st), int(i.size), int(i.stride)))
            else:
                dims.append(("i", i))
    else:
        raise Unsupported("ref transforms " + str([type(t) for t in transforms]))
    sl_shape = [d[2] for d in dims if d[0] in "sd"]
    # position of the advanced block: front when any array indexer (rank>0), scalars vanish
    out_shape = tuple(ishape) + tuple(sl_shape)
    entries = []
    for ii in np.ndindex(*ishape):
        for si in np.ndindex(*sl_shape):
            opts = [[(True, ())]]
            k = 0
            per = []
            for d, n in zip(dims, shape):
                if d[0] == "s":
                    per.append([(True, d[1] + si[k] * d[3])])
                    k += 1
                elif d[0] == "d":
                    st = d[1]
                    v, w, sg = st.item(), st.w, is_signed(st.dtype)
                    per.append(_enum(v, w, sg, n, si[k] * d[3]))
                    k += 1
                else:
                    a = d[1]
                    if isinstance(a, SArr):
                        e = np.broadcast_to(a.el, ishape)[ii] if ishape else a.item()
                        per.append(_enum(e, a.w, is_signed(a.dtype), n, 0))
                    else:
                        per.append([(True, int(a))])
            cells = []
            for combo in itertools.product(*per):
                c = T.And(*[x[0] for x in combo])
                if not T.is_sym(c) and not c:
                    continue
                cell = tuple(x[1] + o for x, o in zip(combo, ref.off))
                if all(0 <= q < s for q, s in zip(cell, ref.mem.el.shape)) and \
                        all(0 <= x[1] < n for x, n in zip(combo, shape)):
                    cells.append((c, cell))
            entries.append((tuple(ii) + tuple(si), cells))
    return out_shape, entries


def _enum(v, w, sg, n, add):
    if not T.is_sym(v):
        return [(True, (T.sgn(v, w) if sg else v) + add)]
    return [(T.eq(v, (k - add) & T.mask(w), w), k) for k in range(n) if k - add >= 0 or sg]


def _oob(ip, ref, g, cells, what):
    ok = T.Or(*[c for c, _ in cells])
    c = T.Implies(T.And(*ip.guards, g), ok)
    if T.is_sym(c) or not c:
        # a block that sticks out of its array is padded: not an access by the kernel's arithmetic
        pad = any(o + s > n for o, s, n in zip(ref.off, ref.shape, ref.mem.el.shape))
        if not pad:
            ip.obligations.append((f"{what} of {ref.mem.label} in bounds", c))


def _read(ip, ref, cells, g):
    m = ref.mem
    w = ref.w
    if m.concurrent:
        v = ip.fresh(w, "rd")
        m.events.append(Event(ip.pl_pid, ip.pl_seq, g, cells, v, None))
        ip.pl_seq += 1
        return v
    r = None
    for c, cell in reversed(cells):
        r = m.el[cell] if r is None else T.ite(c, m.el[cell], r, w)
    for c, cell in cells:
        gc = T.And(g, c)
        if T.is_sym(gc) or gc:
            m.log.append((ip.pl_pid, gc, cell, False))
    if r is None:
        r = ip.fresh(w, "oob")
    return r


def _write(ip, ref, cells, g, val):
    m = ref.mem
    if m.concurrent:
        m.events.append(Event(ip.pl_pid, ip.pl_seq, g, cells, None, val))
        ip.pl_seq += 1
        return
    for c, cell in cells:
        gc = T.And(g, c)
        if T.is_sym(gc) or gc:
            m.el[cell] = T.ite(gc, val, m.el[cell], ref.w)
            m.log.append((ip.pl_pid, gc, cell, True))


def _result(shape, vals, dtype):
    o = X.obj(shape)
    if shape == ():
        o = X._scalar(vals[0])
    else:
        f = o.reshape(-1)
        for k, v in enumerate(vals):
            f[k] = v
        o = f.reshape(shape)
    return SArr(o, dtype)


def get(ip, eqn, ref, idx):
    shape, entries = _plan(ip, ref, _indexers(eqn, idx))
    g = _guard(ip)
    vals = []
    for _, cells in entries:
        _oob(ip, ref, g, cells, "read")
        vals.append(_read(ip, ref, cells, g))
    return _fit(_result(shape, vals, ref.dtype), eqn)


def _fit(a, eqn):
    want = eqn.outvars[0].aval.shape
    return a if a.shape == want else SArr(a.el.reshape(want), a.dtype)


def swap(ip, eqn, ref, val, idx):
    shape, entries = _plan(ip, ref, _indexers(eqn, idx))
    g = _guard(ip)
    v = np.broadcast_to(val.el, shape)
    olds = []
    used = not isinstance(eqn.outvars[0], jax.core.DropVar) if hasattr(jax.core, "DropVar") else True
    used = type(eqn.outvars[0]).__name__ != "DropVar"
    for ix, cells in entries:
        _oob(ip, ref, g, cells, "write")
        olds.append(_read(ip, ref, cells, g) if used else 0)
    for ix, cells in entries:
        _write(ip, ref, cells, g, v[ix] if shape else v[()])
    return _fit(_result(shape, olds, ref.dtype), eqn)


def addupdate(ip, eqn, ref, val, idx):
    shape, entries = _plan(ip, ref, _indexers(eqn, idx))
    g = _guard(ip)
    v = np.broadcast_to(val.el, shape)
    for ix, cells in entries:
        _oob(ip, ref, g, cells, "write")
        old = _read(ip, ref, cells, g)
        _write(ip, ref, cells, g, T.add(old, v[ix] if shape else v[()], ref.w))
    return []


def masked_load(ip, eqn, args):
    ref, tr, mask, other = jax.tree_util.tree_unflatten(eqn.params["args_tree"], list(args))
    shape, entries = _plan(ip, ref, tr)
    g = _guard(ip)
    mk = None if mask is None else np.broadcast_to(mask.el, shape)
    ot = None if other is None else np.broadcast_to(other.el, shape)
    vals = []
    for ix, cells in entries:
        c = True if mk is None else mk[ix]
        gc = T.And(g, c)
        _oob(ip, ref, gc, cells, "read")
        v = _read(ip, ref, cells, gc)
        o = ot[ix] if ot is not None else (v if mk is None else ip.fresh(ref.w, "masked"))
        vals.append(T.ite(c, v, o, ref.w))
    return _fit(_result(shape, vals, ref.dtype), eqn)


def masked_swap(ip, eqn, args):
    ref, tr, val, mask = jax.tree_util.tree_unflatten(eqn.params["args_tree"], list(args))
    shape, entries = _plan(ip, ref, tr)
    g = _guard(ip)
    v = np.broadcast_to(val.el, shape)
    mk = None if mask is None else np.broadcast_to(mask.el, shape)
    olds = []
    for ix, cells in entries:
        gc = T.And(g, True if mk is None else mk[ix])
        _oob(ip, ref, gc, cells, "write")
        olds.append(ip.fresh(ref.w, "old") if ref.mem.concurrent else _read(ip, ref, cells, gc))
        _write(ip, ref, cells, gc, v[ix])
    return _fit(_result(shape, olds, ref.dtype), eqn)


def atomic_rmw(ip, eqn, args):
    ref, tr, val, mask = jax.tree_util.tree_unflatten(eqn.params["args_tree"], list(args))
    kind = str(getattr(eqn.params["atomic_type"], "name", eqn.params["atomic_type"])).upper()
    shape, entries = _plan(ip, ref, tr)
    g = _guard(ip)
    v = np.broadcast_to(val.el, shape)
    mk = None if mask is None else np.broadcast_to(mask.el, shape)
    d, w = ref.dtype, ref.w
    f = {"OR": lambda a, b: T.bor(a, b, w), "AND": lambda a, b: T.band(a, b, w),
         "XOR": lambda a, b: T.bxor(a, b, w), "ADD": lambda a, b: T.add(a, b, w),
         "MAX": lambda a, b: X.emax(a, b, d), "MIN": lambda a, b: X.emin(a, b, d),
         "XCHG": lambda a, b: b}[kind]
    outs = []
    for ix, cells in entries:
        gc = T.And(g, True if mk is None else mk[ix])
        _oob(ip, ref, gc, cells, "atomic")
        m = ref.mem
        if not m.concurrent:
            old = _read(ip, ref, cells, gc)
            _write(ip, ref, cells, gc, f(old, v[ix] if shape else v[()]))
            outs.append(old)
            continue
        old = ip.fresh(w, "at")
        m.events.append(Event(ip.pl_pid, ip.pl_seq, gc, cells, old, f(old, v[ix] if shape else v[()])))
        ip.pl_seq += 1
        outs.append(old)
    return _fit(_result(shape, outs, ref.dtype), eqn)


def atomic_cas(ip, eqn, args):
    raise Unsupported("atomic_cas")

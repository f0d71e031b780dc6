"""Symbolic interpreter for jaxprs traced from the real code.

Every array is an object ndarray of elements (see terms.py).  All-concrete primitives
without a native rule are evaluated by JAX itself.
"""
from __future__ import annotations

import functools
import itertools
import time

import jax
import jax.numpy as jnp
import ml_dtypes  # noqa: F401
import numpy as np

from . import terms as T
from .terms import z3

_FLOAT_FMT = {  # exponent bits, mantissa bits
    "float16": (5, 10),
    "bfloat16": (8, 7),
    "float32": (8, 23),
    "float64": (11, 52),
}


class Unsupported(Exception):
    pass


class SolverUnknown(Exception):
    pass


def dt(d):
    return np.dtype(d)


def width(d) -> int:
    d = dt(d)
    return 0 if d == np.bool_ else d.itemsize * 8


def is_float(d):
    return dt(d).name in _FLOAT_FMT or dt(d).name.startswith("float8")


def is_signed(d):
    return dt(d).kind == "i"


def is_int(d):
    return dt(d).kind in "iu"


_UINT = {8: np.uint8, 16: np.uint16, 32: np.uint32, 64: np.uint64}


def to_elems(arr) -> np.ndarray:
    """numpy array -> object array of element ints/bools."""
    arr = np.asarray(arr)
    out = np.empty(arr.shape, dtype=object)
    if arr.dtype == np.bool_:
        flat = [bool(x) for x in arr.reshape(-1)]
    else:
        u = np.ascontiguousarray(arr).view(_UINT[arr.dtype.itemsize * 8])
        flat = [int(x) for x in u.reshape(-1)]
    o = out.reshape(-1)
    for i, x in enumerate(flat):
        o[i] = x
    return o.reshape(arr.shape)


def from_elems(el: np.ndarray, dtype) -> np.ndarray:
    dtype = dt(dtype)
    if dtype == np.bool_:
        return np.array([bool(x) for x in el.reshape(-1)], dtype=bool).reshape(el.shape)
    u = np.array([int(x) for x in el.reshape(-1)], dtype=_UINT[width(dtype)])
    return u.view(dtype).reshape(el.shape)


class SArr:
    __slots__ = ("el", "dtype", "_c")

    def __init__(self, el, dtype):
        self.el = el
        self.dtype = dt(dtype)
        self._c = None

    @property
    def shape(self):
        return self.el.shape

    @property
    def ndim(self):
        return self.el.ndim

    @property
    def size(self):
        return self.el.size

    @property
    def w(self):
        return width(self.dtype)

    @property
    def concrete(self):
        if self._c is None:
            self._c = not any(isinstance(x, z3.ExprRef) for x in self.el.reshape(-1))
        return self._c

    def np(self):
        return from_elems(self.el, self.dtype)

    def item(self):
        return self.el.reshape(-1)[0]

    def __getitem__(self, i):
        r = self.el[i]
        if isinstance(r, np.ndarray):
            return SArr(r, self.dtype)
        return r

    def flat(self):
        return list(self.el.reshape(-1))

    def __repr__(self):
        return f"SArr{self.shape}:{self.dtype}"


class Raw:
    """An opaque concrete JAX value (PRNG keys and the like)."""

    def __init__(self, val):
        self.val = val

    concrete = True


def obj(shape):
    return np.empty(shape, dtype=object)


def full(shape, v, dtype):
    o = np.empty(shape, dtype=object)
    o.reshape(-1)[:] = [v] * o.size if o.size else []
    if o.size:
        f = o.reshape(-1)
        for i in range(f.size):
            f[i] = v
    return SArr(o, dtype)


def lift(x):
    if isinstance(x, (SArr, Raw)):
        return x
    if hasattr(x, "dtype") and jax.dtypes.issubdtype(x.dtype, jax.dtypes.extended):
        return Raw(x)
    a = np.asarray(x)
    if a.dtype == np.dtype([("float0", "V")]) or a.dtype.kind == "V" and a.dtype.name == "float0":
        return Raw(x)
    return SArr(to_elems(a), a.dtype)


def map1(f, a: SArr, dtype):
    o = obj(a.shape)
    of, af = o.reshape(-1), a.el.reshape(-1)
    for i in range(af.size):
        of[i] = f(af[i])
    return SArr(of.reshape(a.shape), dtype)


def map2(f, a: SArr, b: SArr, dtype):
    if a.shape != b.shape:
        sh = np.broadcast_shapes(a.shape, b.shape)
        a = SArr(np.broadcast_to(a.el, sh), a.dtype)
        b = SArr(np.broadcast_to(b.el, sh), b.dtype)
    o = obj(a.shape)
    of, af, bf = o.reshape(-1), a.el.reshape(-1), b.el.reshape(-1)
    for i in range(af.size):
        of[i] = f(af[i], bf[i])
    return SArr(of.reshape(a.shape), dtype)


# ---------------------------------------------------------------- floats (bit level)


def f_consts(d):
    e, m = _FLOAT_FMT[dt(d).name]
    w = 1 + e + m
    inf = ((1 << e) - 1) << m
    return w, e, m, inf, (1 << (w - 1))


def f_mag(x, d):
    w, e, m, inf, sign = f_consts(d)
    return T.band(x, sign - 1, w)


def f_isnan(x, d):
    w, e, m, inf, sign = f_consts(d)
    return T.ult(inf, f_mag(x, d), w)


def f_isfinite(x, d):
    w, e, m, inf, sign = f_consts(d)
    return T.ult(f_mag(x, d), inf, w)


def f_iszero(x, d):
    w, e, m, inf, sign = f_consts(d)
    if dt(d).name in ("float32", "bfloat16", "float64"):
        # XLA:CPU runs with denormals-are-zero for these formats
        return T.ult(f_mag(x, d), 1 << m, w)
    return T.eq(f_mag(x, d), 0, w)


def f_neg(x, d):
    w, e, m, inf, sign = f_consts(d)
    return T.bxor(x, sign, w)


def f_signbit(x, d):
    w = f_consts(d)[0]
    if not T.is_sym(x):
        return bool(x >> (w - 1))
    return T.eq(T.extract(x, w - 1, w - 1, w), 1, 1)


def f_eq(a, b, d):
    w = f_consts(d)[0]
    return T.And(T.Not(f_isnan(a, d)), T.Not(f_isnan(b, d)),
                 T.Or(T.eq(a, b, w), T.And(f_iszero(a, d), f_iszero(b, d))))


def f_total_lt(a, b, d):
    """a < b treating patterns as sign-magnitude, zeros identified, NaNs unordered-last."""
    w = f_consts(d)[0]
    sa, sb = f_signbit(a, d), f_signbit(b, d)
    return T.Or(
        T.And(sa, T.Not(sb)),
        T.And(T.Not(sa), T.Not(sb), T.ult(a, b, w)),
        T.And(sa, sb, T.ult(b, a, w)),
    )


def f_lt(a, b, d):
    if not T.is_sym(a) and not T.is_sym(b):
        pass
    bothzero = T.And(f_iszero(a, d), f_iszero(b, d))
    return T.And(T.Not(f_isnan(a, d)), T.Not(f_isnan(b, d)), T.Not(bothzero),
                 f_total_lt(a, b, d))


def f_le(a, b, d):
    return T.And(T.Not(f_isnan(a, d)), T.Not(f_isnan(b, d)), T.Not(f_lt(b, a, d)))


def sort_canon(x, d):
    """XLA sort canonicalisation: -0 -> 0, any NaN -> one positive NaN."""
    if not is_float(d):
        return x
    w, e, m, inf, sign = f_consts(d)
    nan = inf | (1 << (m - 1))
    lv = const_leaves(x)
    if lv is not None and T.is_sym(x) and all(sort_canon(v, d) == v for v in lv):
        return x
    return T.ite(f_isnan(x, d), nan, T.ite(f_iszero(x, d), 0, x, w), w)


def const_leaves(a, limit=12):
    """The constants an ITE tree over constants can take, or None."""
    if not T.is_sym(a):
        return {a}
    out, todo = set(), [a]
    while todo:
        x = T.norm_bv(todo.pop())
        if not T.is_sym(x):
            out.add(x)
        elif z3.is_bv(x) and x.decl().kind() == z3.Z3_OP_ITE:
            todo += [x.arg(1), x.arg(2)]
        else:
            return None
        if len(out) + len(todo) > limit:
            return None
    return out


def sort_lt(a, b, d):
    if (T.is_sym(a) or T.is_sym(b)) and dt(d) != np.bool_:
        la = const_leaves(a)
        lb = const_leaves(b) if la is not None else None
        if lb is not None:
            r = {bool(_sort_lt(x, y, d)) for x in la for y in lb}
            if len(r) == 1:
                return r.pop()
    return _sort_lt(a, b, d)


def _sort_lt(a, b, d):
    if is_float(d):
        return f_total_lt(a, b, d)
    if dt(d) == np.bool_:
        return T.And(T.Not(a), b)
    return (T.slt if is_signed(d) else T.ult)(a, b, width(d))


def lt_elem(a, b, d):
    if is_float(d):
        return f_lt(a, b, d)
    if dt(d) == np.bool_:
        return T.And(T.Not(a), b)
    return (T.slt if is_signed(d) else T.ult)(a, b, width(d))


def le_elem(a, b, d):
    if is_float(d):
        return f_le(a, b, d)
    return T.Not(lt_elem(b, a, d))


def eq_elem(a, b, d):
    if is_float(d):
        return f_eq(a, b, d)
    return T.eq(a, b, width(d))


_uf_cache: dict = {}


FL_REAL: dict = {}     # function name -> (argument dtypes, result dtype, primitive bind)


def float_uf(name, args, d_in, d_out, real=None):
    """Uninterpreted (bit-pattern) function standing for an XLA float op."""
    if name == "sub":      # a - b is a + (-b), bit for bit
        name, sign = "add", 1 << (width(d_in[1]) - 1)
        args = [args[0], T.bxor(args[1], sign, width(d_in[1]))]
    if name in ("add", "mul"):
        args = sorted(args, key=lambda a: a.get_id() if T.is_sym(a) else -1)
    key = (name, len(args), tuple(dt(x).name for x in d_in), dt(d_out).name)
    f = _uf_cache.get(key)
    if f is None:
        sorts = [z3.BitVecSort(width(x)) for x in d_in]
        out = z3.BoolSort() if width(d_out) == 0 else z3.BitVecSort(width(d_out))
        f = z3.Function("f_" + "_".join(map(str, (name,) + key[2] + (key[3],))), *sorts, out)
        _uf_cache[key] = f
        FL_REAL[f.name()] = (name, [dt(x) for x in d_in], dt(d_out), real)
    return f(*[T.bv(a, width(x)) for a, x in zip(args, d_in)])


def uf_facts(terms, model):
    """True instances of the float functions at the arguments a model chose: [(term, as the model has it)]."""
    out, seen, st = [], set(), [t for t in terms if T.is_sym(t)]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            st.extend(x.children())
            hit = FL_REAL.get(x.decl().name()) if x.num_args() else None
            if hit is None or hit[3] is None:
                continue
            name, d_in, d_out, real = hit
            av = [model.eval(c, model_completion=True) for c in x.children()]
            rv = model.eval(x, model_completion=True)
            with jax.ensure_compile_time_eval():
                got = to_elems(np.asarray(real(*[jnp.asarray(from_elems(_scalar(a.as_long()), d))
                                                 for a, d in zip(av, d_in)]))).item()
            gv = z3.BoolVal(bool(got)) if width(d_out) == 0 else z3.BitVecVal(got, width(d_out))
            nan = [f_isnan(c, d) for c, d in zip(x.children(), d_in) if is_float(d)]
            if is_float(d_out) and nan and name in ("add", "mul", "div"):
                out.append(z3.Implies(T.bt(T.Or(*nan)), T.bt(f_isnan(x, d_out))))
            if not rv.eq(gv):
                fact = T.And(f_isnan(x, d_out)) if is_float(d_out) and f_isnan(got, d_out) else x == gv
                out.append(z3.Implies(z3.And(*[c == a for c, a in zip(x.children(), av)]), T.bt(fact)))
    return out


class Stats:
    def __init__(self):
        self.eqns = 0
        self.prims = {}
        self.unroll = 0
        self.solver_calls = 0
        self.solver_s = 0.0


class Interp:
    def __init__(self, assumptions=(), max_unroll=64, prune_ms=4000, unstable_nondet=False):
        self.assumptions = list(assumptions)
        self.max_unroll = max_unroll
        self.prune_ms = prune_ms
        self.guards: list = []
        self.sequential = False     # atomics in grid order instead of every interleaving
        self.schedule: list = []
        self.grid_order_cons: list = []
        self.unwinding: list = []   # obligations: loop not still running at bound
        self.obligations: list = []
        self.stats = Stats()
        self._solver = None
        self._solver_n = 0
        self.unstable_nondet = unstable_nondet
        self.fresh_n = 0
        self.scheduler = None
        self.read_log = None

    # -- solver used for pruning infeasible loop iterations only
    def feasible(self, cond) -> bool:
        cond = T.And(*self.guards, cond)
        if not T.is_sym(cond):
            return bool(cond)
        if self._solver is None:
            self._solver = z3.SolverFor("QF_BV")
            self._solver_n = 0
        s = self._solver
        while self._solver_n < len(self.assumptions):
            s.add(T.bt(self.assumptions[self._solver_n]))
            self._solver_n += 1
        s.set("timeout", self.prune_ms)
        t = time.time()
        s.push()
        s.add(T.bt(cond))
        r = s.check()
        s.pop()
        self.stats.solver_calls += 1
        self.stats.solver_s += time.time() - t
        return r != z3.unsat

    def fresh(self, w, tag="n"):
        self.fresh_n += 1
        nm = f"{tag}!{self.fresh_n}"
        return z3.Bool(nm) if w == 0 else z3.BitVec(nm, w)

    # ------------------------------------------------------------------ evaluation
    def run_closed(self, closed, args):
        return self.eval_jaxpr(closed.jaxpr, [lift(c) for c in closed.consts], args)

    def eval_jaxpr(self, jaxpr, consts, args):
        env = {}

        def read(v):
            if isinstance(v, jax.extend.core.Literal):
                return lift(np.asarray(v.val, dtype=v.aval.dtype)
                            if not isinstance(v.val, jax.Array) else v.val)
            return env[v]

        for v, c in zip(jaxpr.constvars, consts):
            env[v] = c
        assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
        for v, a in zip(jaxpr.invars, args):
            env[v] = a
        for eqn in jaxpr.eqns:
            ins = [read(v) for v in eqn.invars]
            outs = self.eqn(eqn, ins)
            if not eqn.primitive.multiple_results:
                outs = [outs]
            for v, o in zip(eqn.outvars, outs):
                env[v] = o
        return [read(v) for v in jaxpr.outvars]

    def eqn(self, eqn, ins):
        name = eqn.primitive.name
        self.stats.eqns += 1
        self.stats.prims[name] = self.stats.prims.get(name, 0) + 1
        rule = getattr(self, "p_" + name.replace("-", "_"), None)
        if rule is not None:
            out = rule(eqn, *ins)
            if out is not NotImplemented:
                return out
        if all(getattr(i, "concrete", False) for i in ins):
            return self.bind(eqn, ins)
        raise Unsupported(f"primitive {name} with symbolic operands")

    def bind(self, eqn, ins):
        vals = [i.val if isinstance(i, Raw) else jnp.asarray(i.np()) for i in ins]
        with jax.ensure_compile_time_eval():
            subfuns, params = eqn.primitive.get_bind_params(eqn.params)
            out = eqn.primitive.bind(*subfuns, *vals, **params)
        if eqn.primitive.multiple_results:
            return [lift(o) for o in out]
        return lift(out)

    # -------------------------------------------------------------- call-like
    def _call(self, eqn, ins, key="jaxpr"):
        j = eqn.params[key]
        if hasattr(j, "consts"):
            return self.run_closed(j, list(ins))
        return self.eval_jaxpr(j, [], list(ins))

    def p_jit(self, eqn, *ins):
        return self._call(eqn, ins)

    p_pjit = p_jit
    p_closed_call = lambda self, eqn, *ins: self._call(eqn, ins, "call_jaxpr")  # noqa: E731
    p_core_call = p_closed_call
    p_custom_jvp_call = p_closed_call
    p_custom_vjp_call = p_closed_call
    p_custom_vjp_call_jaxpr = lambda self, eqn, *ins: self._call(eqn, ins, "fun_jaxpr")  # noqa: E731
    p_remat = p_jit
    p_checkpoint = p_jit
    p_remat2 = p_jit

    def merge(self, c, a, b):
        if isinstance(a, Raw) or isinstance(b, Raw):
            if not T.is_sym(c):
                return a if c else b
            raise Unsupported("merge of opaque values")
        o = obj(a.shape)
        of, af, bf = o.reshape(-1), a.el.reshape(-1), b.el.reshape(-1)
        w = a.w
        for i in range(af.size):
            of[i] = T.ite(c, af[i], bf[i], w)
        return SArr(of.reshape(a.shape), a.dtype)

    def p_cond(self, eqn, idx, *ops):
        branches = eqn.params["branches"]
        i = idx.item()
        n = len(branches)
        if idx.dtype == np.bool_:
            conds = [T.Not(i), i]
        else:
            w = idx.w
            if not T.is_sym(i):
                v = T.sgn(i, w) if is_signed(idx.dtype) else i
                return self.run_closed(branches[min(max(v, 0), n - 1)], list(ops))
            conds = [T.eq(i, k, w) for k in range(n)]
            if n == 1:
                conds = [True]
            elif is_signed(idx.dtype):
                conds[0] = T.sle(i, 0, w)
                conds[n - 1] = T.Not(T.slt(i, n - 1, w))
            else:
                conds[n - 1] = T.Not(T.ult(i, n - 1, w))
        if not any(T.is_sym(c) for c in conds):
            return self.run_closed(branches[[bool(c) for c in conds].index(True)], list(ops))
        outs = None
        for k in reversed(range(n)):
            if not T.is_sym(conds[k]) and not conds[k]:
                continue
            self.guards.append(conds[k])
            r = self.run_closed(branches[k], list(ops))
            self.guards.pop()
            outs = r if outs is None else [self.merge(conds[k], x, y) for x, y in zip(r, outs)]
        return outs

    def p_while(self, eqn, *ins):
        p = eqn.params
        cn, bn = p["cond_nconsts"], p["body_nconsts"]
        cc, bc, st = list(ins[:cn]), list(ins[cn:cn + bn]), list(ins[cn + bn:])
        guard = True
        it = 0
        while True:
            if T.is_sym(guard):
                self.guards.append(guard)
            (c,) = self.run_closed(p["cond_jaxpr"], cc + st)
            if T.is_sym(guard):
                self.guards.pop()
            c = c.item()
            g = T.And(guard, c)
            if not T.is_sym(g) and not g:
                return st
            if T.is_sym(g):
                if it >= self.max_unroll:
                    self.unwinding.append((T.And(*self.guards, g), f"while unwound {it} times"))
                    return st
                if not self.feasible(g):
                    return st
            elif it > 100000:
                raise Unsupported("concrete loop too long")
            self.guards.append(g)
            new = self.run_closed(p["body_jaxpr"], bc + st)
            self.guards.pop()
            self.stats.unroll += 1
            st = [self.merge(g, x, y) for x, y in zip(new, st)] if T.is_sym(g) else new
            guard = g
            it += 1

    def p_scan(self, eqn, *ins):
        p = eqn.params
        nc, ncarry, length = p["num_consts"], p["num_carry"], p["length"]
        consts, carry, xs = list(ins[:nc]), list(ins[nc:nc + ncarry]), list(ins[nc + ncarry:])
        ys = []
        order = range(length - 1, -1, -1) if p["reverse"] else range(length)
        for i in order:
            sl = [SArr(x.el[i] if isinstance(x.el[i], np.ndarray) else _scalar(x.el[i]), x.dtype)
                  for x in xs]
            out = self.run_closed(p["jaxpr"], consts + carry + sl)
            carry = out[:ncarry]
            ys.append(out[ncarry:])
        if p["reverse"]:
            ys = ys[::-1]
        stacked = []
        n_y = len(eqn.outvars) - ncarry
        for k in range(n_y):
            aval = eqn.outvars[ncarry + k].aval
            o = obj(aval.shape)
            for i in range(length):
                o[i] = ys[i][k].el if o[i:i + 1].ndim > 1 else ys[i][k].item()
            stacked.append(SArr(o, aval.dtype))
        return list(carry) + stacked

    # -------------------------------------------------------------- elementwise
    def _fl(self, name, eqn, *ins):
        out_d = eqn.outvars[0].aval.dtype
        if all(i.concrete for i in ins):
            return self.bind(eqn, ins)
        sh = np.broadcast_shapes(*[i.shape for i in ins])
        ins = [SArr(np.broadcast_to(i.el, sh), i.dtype) for i in ins]
        o = obj(sh)
        of = o.reshape(-1)
        fl = [i.el.reshape(-1) for i in ins]
        for k in range(of.size):
            es = [f[k] for f in fl]
            if any(T.is_sym(e) for e in es):
                of[k] = float_uf(name, es, [i.dtype for i in ins], out_d,
                                 functools.partial(jax.lax.add_p.bind if name == "sub" else eqn.primitive.bind,
                                                   **eqn.params))
            else:
                vals = [jnp.asarray(from_elems(_scalar(e), i.dtype)) for e, i in zip(es, ins)]
                with jax.ensure_compile_time_eval():
                    of[k] = to_elems(np.asarray(eqn.primitive.bind(*vals, **eqn.params))).item()
        return SArr(of.reshape(sh), out_d)

    def _arith(self, name, eqn, a, b, f):
        if is_float(a.dtype):
            return self._fl(name, eqn, a, b)
        w = a.w
        return map2(lambda x, y: f(x, y, w), a, b, a.dtype)

    def p_add(self, eqn, a, b):
        return self._arith("add", eqn, a, b, T.add)

    p_add_any = p_add

    def p_sub(self, eqn, a, b):
        return self._arith("sub", eqn, a, b, T.sub)

    def p_mul(self, eqn, a, b):
        return self._arith("mul", eqn, a, b, T.mul)

    def p_div(self, eqn, a, b):
        return self._arith("div", eqn, a, b, T.sdiv if is_signed(a.dtype) else T.udiv)

    def p_rem(self, eqn, a, b):
        return self._arith("rem", eqn, a, b, T.srem if is_signed(a.dtype) else T.urem)

    def p_neg(self, eqn, a):
        if is_float(a.dtype):
            return map1(lambda x: f_neg(x, a.dtype), a, a.dtype)
        return map1(lambda x: T.neg(x, a.w), a, a.dtype)

    def p_abs(self, eqn, a):
        if is_float(a.dtype):
            return map1(lambda x: f_mag(x, a.dtype), a, a.dtype)
        if not is_signed(a.dtype):
            return a
        return map1(lambda x: T.ite(T.slt(x, 0, a.w), T.neg(x, a.w), x, a.w), a, a.dtype)

    def p_sign(self, eqn, a):
        if is_float(a.dtype):
            return self._fl("sign", eqn, a)
        if is_signed(a.dtype):
            return map1(lambda x: T.ite(T.slt(x, 0, a.w), T.mask(a.w),
                                        T.ite(T.eq(x, 0, a.w), 0, 1, a.w), a.w), a, a.dtype)
        return map1(lambda x: T.ite(T.eq(x, 0, a.w), 0, 1, a.w), a, a.dtype)

    def p_square(self, eqn, a):
        if is_float(a.dtype):
            return self._fl("square", eqn, a)
        return map1(lambda x: T.mul(x, x, a.w), a, a.dtype)

    def p_integer_pow(self, eqn, a):
        n = eqn.params["y"]
        if is_float(a.dtype) or n < 0:
            return self._fl(f"ipow{n}", eqn, a)

        def f(x):
            r = 1
            for _ in range(n):
                r = T.mul(r, x, a.w)
            return r
        return map1(f, a, a.dtype)

    def p_pow(self, eqn, a, b):
        return self._fl("pow", eqn, a, b) if is_float(a.dtype) and a.dtype == b.dtype else NotImplemented

    def _unary_float(name):  # noqa: N805
        def rule(self, eqn, a):
            return self._fl(name, eqn, a)
        return rule

    for _n in ("exp", "exp2", "log", "log1p", "expm1", "sqrt", "rsqrt", "floor", "ceil", "round",
               "tanh", "sin", "cos", "logistic", "cbrt", "erf", "tan", "atan"):
        locals()["p_" + _n] = _unary_float(_n)
    del _n

    def p_max(self, eqn, a, b):
        d = a.dtype
        return map2(lambda x, y: emax(x, y, d), a, b, d)

    def p_min(self, eqn, a, b):
        d = a.dtype
        return map2(lambda x, y: emin(x, y, d), a, b, d)

    def p_and(self, eqn, a, b):
        if a.w == 0:
            return map2(lambda x, y: T.And(x, y), a, b, a.dtype)
        return map2(lambda x, y: T.band(x, y, a.w), a, b, a.dtype)

    def p_or(self, eqn, a, b):
        if a.w == 0:
            return map2(lambda x, y: T.Or(x, y), a, b, a.dtype)
        return map2(lambda x, y: T.bor(x, y, a.w), a, b, a.dtype)

    def p_xor(self, eqn, a, b):
        if a.w == 0:
            return map2(T.Xor, a, b, a.dtype)
        return map2(lambda x, y: T.bxor(x, y, a.w), a, b, a.dtype)

    def p_not(self, eqn, a):
        if a.w == 0:
            return map1(T.Not, a, a.dtype)
        return map1(lambda x: T.bnot(x, a.w), a, a.dtype)

    def p_shift_left(self, eqn, a, b):
        return map2(lambda x, y: T.shl(x, y, a.w), a, b, a.dtype)

    def p_shift_right_logical(self, eqn, a, b):
        return map2(lambda x, y: T.lshr(x, y, a.w), a, b, a.dtype)

    def p_shift_right_arithmetic(self, eqn, a, b):
        return map2(lambda x, y: T.ashr(x, y, a.w), a, b, a.dtype)

    def p_eq(self, eqn, a, b):
        return map2(lambda x, y: eq_elem(x, y, a.dtype), a, b, np.bool_)

    def p_ne(self, eqn, a, b):
        return map2(lambda x, y: T.Not(eq_elem(x, y, a.dtype)), a, b, np.bool_)

    def p_lt(self, eqn, a, b):
        return map2(lambda x, y: lt_elem(x, y, a.dtype), a, b, np.bool_)

    def p_le(self, eqn, a, b):
        return map2(lambda x, y: le_elem(x, y, a.dtype), a, b, np.bool_)

    def p_gt(self, eqn, a, b):
        return map2(lambda x, y: lt_elem(y, x, a.dtype), a, b, np.bool_)

    def p_ge(self, eqn, a, b):
        return map2(lambda x, y: le_elem(y, x, a.dtype), a, b, np.bool_)

    def p_lt_to(self, eqn, a, b):
        return map2(lambda x, y: sort_lt(x, y, a.dtype), a, b, np.bool_)

    def p_is_finite(self, eqn, a):
        return map1(lambda x: f_isfinite(x, a.dtype), a, np.bool_)

    def p_select_n(self, eqn, which, *cases):
        w = cases[0].w
        d = cases[0].dtype
        sh = np.broadcast_shapes(*[c.shape for c in cases])
        cases = [c if c.shape == sh else SArr(np.broadcast_to(c.el, sh), c.dtype) for c in cases]
        if which.shape == () and cases[0].shape != ():
            which = SArr(np.broadcast_to(which.el, cases[0].shape), which.dtype)
        o = obj(cases[0].shape)
        of = o.reshape(-1)
        wf = which.el.reshape(-1)
        cf = [c.el.reshape(-1) for c in cases]
        for k in range(of.size):
            c = wf[k]
            if which.dtype == np.bool_:
                of[k] = T.ite(c, cf[1][k], cf[0][k], w)
            else:
                r = cf[-1][k]
                for j in reversed(range(len(cases) - 1)):
                    r = T.ite(T.eq(c, j, which.w), cf[j][k], r, w)
                of[k] = r
        return SArr(of.reshape(cases[0].shape), d)

    def p_clamp(self, eqn, lo, x, hi):
        lo = SArr(np.broadcast_to(lo.el, x.shape), lo.dtype)
        hi = SArr(np.broadcast_to(hi.el, x.shape), hi.dtype)
        d = x.dtype
        return map2(lambda a, b: emin(a, b, d), map2(lambda a, b: emax(a, b, d), x, lo, d), hi, d)

    def p_population_count(self, eqn, a):
        return map1(lambda x: T.popcount(x, a.w), a, a.dtype)

    def p_clz(self, eqn, a):
        return map1(lambda x: T.clz(x, a.w), a, a.dtype)

    def p_convert_element_type(self, eqn, a):
        nd = dt(eqn.params["new_dtype"])
        od = a.dtype
        if nd == od:
            return a
        if a.concrete and (is_float(nd) or is_float(od)):
            return self.bind(eqn, [a])
        if od == np.bool_:
            if is_float(nd):
                one = int(to_elems(np.ones((), nd)).item())
                return map1(lambda x: T.ite(x, one, 0, width(nd)), a, nd)
            return map1(lambda x: T.ite(x, 1, 0, width(nd)), a, nd)
        if nd == np.bool_:
            if is_float(od):
                return map1(lambda x: T.Not(f_iszero(x, od)), a, nd)
            return map1(lambda x: T.Not(T.eq(x, 0, a.w)), a, nd)
        if is_int(od) and is_int(nd):
            return map1(lambda x: T.resize(x, a.w, width(nd), is_signed(od)), a, nd)
        if is_float(od) and is_float(nd) and od.name == "float16" and nd.name == "float32" or \
                od.name == "bfloat16" and nd.name == "float32":
            return map1(lambda x: widen_float(x, od, nd), a, nd)
        if is_int(od) and is_float(nd):
            return map1(lambda x: int_to_float(x, od, nd), a, nd)
        return map1(lambda x: float_uf("cvt", [x], [od], nd, functools.partial(eqn.primitive.bind, **eqn.params)) if T.is_sym(x)
                    else self.bind(eqn, [SArr(_scalar(x), od)]).item(), a, nd)

    def p_bitcast_convert_type(self, eqn, a):
        nd = dt(eqn.params["new_dtype"])
        ws = a.w or 8
        wd = width(nd) or 8
        if a.dtype == np.bool_ or nd == np.bool_:
            raise Unsupported("bitcast of bool")
        if ws == wd:
            return SArr(a.el, nd)
        if ws > wd:
            r = ws // wd
            o = obj(a.shape + (r,))
            for ix in np.ndindex(a.shape):
                x = a.el[ix]
                for k in range(r):
                    o[ix + (k,)] = T.extract(x, (k + 1) * wd - 1, k * wd, ws)
            return SArr(o, nd)
        r = wd // ws
        o = obj(a.shape[:-1])
        assert a.shape[-1] == r
        for ix in np.ndindex(a.shape[:-1]):
            parts = [(a.el[ix + (k,)], ws) for k in reversed(range(r))]
            v = T.concat(parts)
            if ix == ():
                o = _scalar(v)
            else:
                o[ix] = v
        return SArr(o, nd)

    def p_copy(self, eqn, a):
        return a

    p_copy_p = p_copy
    p_stop_gradient = p_copy
    p_real = p_copy
    p_reduce_precision = p_copy
    p_sharding_constraint = p_copy
    p_name = p_copy

    def p_optimization_barrier(self, eqn, *a):
        return list(a)

    # -------------------------------------------------------------- data movement
    def p_broadcast_in_dim(self, eqn, a, *dyn):
        shape = eqn.params["shape"]
        bd = eqn.params["broadcast_dimensions"]
        v = a.el.reshape([a.shape[bd.index(i)] if i in bd else 1 for i in range(len(shape))])
        return SArr(np.broadcast_to(v, shape).copy() if v.ndim else v, a.dtype)

    def p_reshape(self, eqn, a, *dyn):
        if eqn.params.get("dimensions") is not None:
            a = SArr(a.el.transpose(eqn.params["dimensions"]), a.dtype)
        return SArr(np.ascontiguousarray(a.el).reshape(eqn.params["new_sizes"]), a.dtype)

    def p_transpose(self, eqn, a):
        return SArr(a.el.transpose(eqn.params["permutation"]), a.dtype)

    def p_squeeze(self, eqn, a):
        return SArr(a.el.reshape(eqn.outvars[0].aval.shape), a.dtype)

    def p_expand_dims(self, eqn, a):
        return SArr(a.el.reshape(eqn.outvars[0].aval.shape), a.dtype)

    def p_rev(self, eqn, a):
        return SArr(np.flip(a.el, eqn.params["dimensions"]), a.dtype)

    def p_slice(self, eqn, a):
        p = eqn.params
        st = p["strides"] or (1,) * a.ndim
        return SArr(a.el[tuple(slice(s, l, k) for s, l, k in
                               zip(p["start_indices"], p["limit_indices"], st))], a.dtype)

    def p_concatenate(self, eqn, *xs):
        return SArr(np.concatenate([x.el for x in xs], axis=eqn.params["dimension"]), xs[0].dtype)

    def p_split(self, eqn, a):
        ax = eqn.params["axis"]
        out, s = [], 0
        for n in eqn.params["sizes"]:
            sl = [slice(None)] * a.ndim
            sl[ax] = slice(s, s + n)
            out.append(SArr(a.el[tuple(sl)], a.dtype))
            s += n
        return out

    def p_tile(self, eqn, a):
        return SArr(np.tile(a.el, eqn.params["reps"]), a.dtype)

    def p_pad(self, eqn, a, v):
        cfg = eqn.params["padding_config"]
        shape = eqn.outvars[0].aval.shape
        o = obj(shape)
        o.reshape(-1)[:] = [v.item()] * o.size
        for ix in np.ndindex(a.shape):
            t = tuple(lo + i * (it + 1) for i, (lo, hi, it) in zip(ix, cfg))
            if all(0 <= x < n for x, n in zip(t, shape)):
                o[t] = a.el[ix]
        return SArr(o, a.dtype)

    def p_iota(self, eqn, *dyn):
        p = eqn.params
        d = dt(p["dtype"])
        ar = np.arange(p["shape"][p["dimension"]]).astype(d)
        sh = [1] * len(p["shape"])
        sh[p["dimension"]] = -1
        return SArr(to_elems(np.broadcast_to(ar.reshape(sh), p["shape"])), d)

    # dynamic indices
    def _choices(self, i, w, signed, n_max):
        """Clamped index as [(cond, value)], the last entry being the default."""
        if not T.is_sym(i):
            v = T.sgn(i, w) if signed else i
            return [(True, min(max(v, 0), n_max))]
        if n_max == 0:
            return [(True, 0)]
        out = []
        rem = []
        for v in range(n_max + 1):
            if v == n_max and not signed:
                c = T.Not(T.ult(i, n_max, w))
            elif v == n_max:
                c = T.Not(T.slt(i, n_max, w))
            elif v == 0 and signed:
                c = T.sle(i, 0, w)
            else:
                c = T.eq(i, v, w)
            if T.is_sym(c) or c:
                rem.append((c, v))
        for c, v in rem:
            out.append((c, v))
            if not T.is_sym(c):
                break
        return out

    def _inbounds(self, i, w, signed, n_max):
        if n_max < 0:
            return False
        if signed:
            return T.And(T.sle(0, i, w), T.sle(i, n_max, w))
        return T.ule(i, n_max, w) if n_max < T.mask(w) else True

    def p_dynamic_slice(self, eqn, a, *idx):
        sizes = eqn.params["slice_sizes"]
        return self._dyn_slice(a, [(x.item(), x.w, is_signed(x.dtype)) for x in idx], sizes)

    def _dyn_slice(self, a, idx, sizes):
        cur = a.el
        w = a.w
        for d, (i, iw, sg) in enumerate(idx):
            ch = self._choices(i, iw, sg, a.shape[d] - sizes[d])
            def sl(v, cur=cur, d=d):
                s = [slice(None)] * cur.ndim
                s[d] = slice(v, v + sizes[d])
                return cur[tuple(s)]
            if len(ch) == 1:
                cur = sl(ch[0][1])
                continue
            r = sl(ch[-1][1])
            for c, v in reversed(ch[:-1]):
                r = ite_arr(c, sl(v), r, w)
            cur = r
        return SArr(cur, a.dtype)

    def p_dynamic_update_slice(self, eqn, a, u, *idx):
        ch = [self._choices(x.item(), x.w, is_signed(x.dtype), a.shape[d] - u.shape[d])
              for d, x in enumerate(idx)]
        out = a.el.copy()
        w = a.w
        for combo in itertools.product(*ch):
            c = T.And(*[x[0] for x in combo])
            if not T.is_sym(c) and not c:
                continue
            if len(ch) and all(len(x) == 1 for x in ch):
                c = True
            sl = tuple(slice(x[1], x[1] + n) for x, n in zip(combo, u.shape))
            out[sl] = ite_arr(c, u.el, out[sl], w)
        return SArr(out, a.dtype)

    def p_gather(self, eqn, a, idx):
        p = eqn.params
        dn = p["dimension_numbers"]
        sizes = p["slice_sizes"]
        mode = str(p["mode"])
        out_shape = eqn.outvars[0].aval.shape
        od = dn.offset_dims
        batch_out = [d for d in range(len(out_shape)) if d not in od]
        ob = tuple(getattr(dn, "operand_batching_dims", ()))
        sb = tuple(getattr(dn, "start_indices_batching_dims", ()))
        out = obj(out_shape)
        w = a.w
        iw, sg = idx.w, is_signed(idx.dtype)
        fill = None
        if "FILL" in mode:
            fv = p["fill_value"]
            if fv is None:
                if is_float(a.dtype):
                    fill = int(to_elems(np.asarray(np.nan, a.dtype)).item())
                elif is_signed(a.dtype):
                    fill = 1 << (w - 1)
                elif w == 0:
                    fill = True
                else:
                    fill = T.mask(w)
            else:
                fill = to_elems(np.asarray(fv, a.dtype)).item()
        win_dims = [d for d in range(a.ndim) if d not in dn.collapsed_slice_dims and d not in ob]
        bshape = [out_shape[d] for d in batch_out]
        for b in np.ndindex(*bshape):
            start = [None] * a.ndim
            inb = True
            for k, d in enumerate(dn.start_index_map):
                i = idx.el[b + (k,)]
                n_max = a.shape[d] - sizes[d]
                if fill is not None:
                    inb = T.And(inb, self._inbounds(i, iw, sg, n_max))
                start[d] = (i, iw, sg)
            fixed = {}
            for od_, sd in zip(ob, sb):
                fixed[od_] = b[sd]
            if not T.is_sym(inb) and not inb:
                blk = np.empty([sizes[d] for d in range(a.ndim)], dtype=object)
                blk.reshape(-1)[:] = [fill] * blk.size
            else:
                sub = SArr(a.el[tuple(slice(fixed[d], fixed[d] + 1) if d in fixed else slice(None)
                                      for d in range(a.ndim))], a.dtype)
                sl = [start[d] if start[d] is not None else (0, 32, False) for d in range(a.ndim)]
                if any(n == 0 for n in sub.shape):
                    blk = np.empty([sizes[d] for d in range(a.ndim)], dtype=object)
                    blk.reshape(-1)[:] = [fill if fill is not None else 0] * blk.size
                else:
                    blk = self._dyn_slice(sub, sl, sizes).el
                if fill is not None and T.is_sym(inb):
                    fb = np.empty(blk.shape, dtype=object)
                    fb.reshape(-1)[:] = [fill] * fb.size
                    blk = ite_arr(inb, blk, fb, w)
            blk = blk.reshape([sizes[d] for d in win_dims])
            for o in np.ndindex(*blk.shape):
                t = [0] * len(out_shape)
                for d, v in zip(batch_out, b):
                    t[d] = v
                for d, v in zip(od, o):
                    t[d] = v
                out[tuple(t)] = blk[o]
        if out.ndim == 0 and not isinstance(out, np.ndarray):
            out = _scalar(out)
        return SArr(out, a.dtype)

    def _scatter(self, eqn, a, idx, u, comb):
        p = eqn.params
        dn = p["dimension_numbers"]
        mode = str(p["mode"])
        ob = tuple(getattr(dn, "operand_batching_dims", ()))
        sb = tuple(getattr(dn, "scatter_indices_batching_dims", ()))
        uwd = dn.update_window_dims
        batch_u = [d for d in range(u.ndim) if d not in uwd]
        win_op = [d for d in range(a.ndim) if d not in dn.inserted_window_dims and d not in ob]
        wsize = [1] * a.ndim
        for d, ud in zip(win_op, uwd):
            wsize[d] = u.shape[ud]
        out = a.el.copy()
        w = a.w
        iw, sg = idx.w, is_signed(idx.dtype)
        clip = "CLIP" in mode
        for b in np.ndindex(*[u.shape[d] for d in batch_u]):
            starts = []
            inb = True
            for k, d in enumerate(dn.scatter_dims_to_operand_dims):
                i = idx.el[b + (k,)]
                n_max = a.shape[d] - wsize[d]
                if not clip:
                    inb = T.And(inb, self._inbounds(i, iw, sg, n_max))
                starts.append((d, i, n_max))
            if not T.is_sym(inb) and not inb:
                continue
            chs = []
            for d, i, n_max in starts:
                if n_max < 0:
                    chs = None
                    break
                if clip:
                    chs.append([(c, d, v) for c, v in self._choices(i, iw, sg, n_max)])
                elif not T.is_sym(i):
                    chs.append([(True, d, T.sgn(i, iw) if sg else i)])
                else:
                    chs.append([(c, d, v) for v in range(n_max + 1)
                                for c in [T.eq(i, v, iw)] if T.is_sym(c) or c])
            if chs is None:
                continue
            fixed = {od_: b[sd] for od_, sd in zip(ob, sb)}
            wshape = [u.shape[ud] for ud in uwd]
            # update block
            sel = [0] * u.ndim
            for d, v in zip(batch_u, b):
                sel[d] = v
            ublk = u.el[tuple(slice(None) if d in uwd else sel[d] for d in range(u.ndim))]
            if not isinstance(ublk, np.ndarray):
                ublk = _scalar(ublk)
            for combo in itertools.product(*chs):
                c = T.And(*[x[0] for x in combo])
                if not clip:
                    pass
                if not T.is_sym(c) and not c:
                    continue
                base = [0] * a.ndim
                for _, d, v in combo:
                    base[d] = v
                for d, v in fixed.items():
                    base[d] = v
                for o in np.ndindex(*wshape):
                    t = list(base)
                    for d, v in zip(win_op, o):
                        t[d] += v
                    t = tuple(t)
                    old = out[t]
                    out[t] = T.ite(c, comb(old, ublk[o]), old, w)
        return SArr(out, a.dtype)

    def p_scatter(self, eqn, a, idx, u):
        return self._scatter(eqn, a, idx, u, lambda old, new: new)

    def p_scatter_add(self, eqn, a, idx, u):
        if is_float(a.dtype):
            if a.concrete and idx.concrete and u.concrete:
                return self.bind(eqn, [a, idx, u])
            raise Unsupported("float scatter-add")
        if a.w == 0:
            return self._scatter(eqn, a, idx, u, lambda o, n: T.Or(o, n))
        return self._scatter(eqn, a, idx, u, lambda o, n: T.add(o, n, a.w))

    def p_scatter_mul(self, eqn, a, idx, u):
        if is_float(a.dtype):
            raise Unsupported("float scatter-mul")
        return self._scatter(eqn, a, idx, u, lambda o, n: T.mul(o, n, a.w))

    def p_scatter_min(self, eqn, a, idx, u):
        return self._scatter(eqn, a, idx, u, lambda o, n: emin(o, n, a.dtype))

    def p_scatter_max(self, eqn, a, idx, u):
        return self._scatter(eqn, a, idx, u, lambda o, n: emax(o, n, a.dtype))

    # -------------------------------------------------------------- sort / reduce
    def p_sort(self, eqn, *ops):
        p = eqn.params
        dim, nk, stable = p["dimension"], p["num_keys"], p["is_stable"]
        moved = [np.moveaxis(o.el, dim, -1).copy() for o in ops]
        lead = moved[0].shape[:-1]
        n = moved[0].shape[-1]
        for ix in np.ndindex(*lead):
            rows = [m[ix] for m in moved]
            keys = [[sort_canon(x, ops[k].dtype) for x in rows[k]] for k in range(nk)]
            items = []
            for j in range(n):
                items.append([[keys[k][j] for k in range(nk)], [r[j] for r in rows]])
            tie = None
            if not stable and self.unstable_nondet and any(
                    T.is_sym(k) for it in items for k in it[0]):
                for it in items:
                    it[0].append(self.fresh(8, "tie"))
                tie = True
            items = self._sort_items(items, [ops[k].dtype for k in range(nk)]
                                     + ([np.dtype(np.uint8)] if tie else []),
                                     [o.dtype for o in ops])
            for j in range(n):
                for k in range(len(ops)):
                    moved[k][ix + (j,)] = items[j][1][k]
        return [SArr(np.moveaxis(m, -1, dim), o.dtype) for m, o in zip(moved, ops)]

    def _sort_items(self, items, kd, vd):
        n = len(items)
        if all(not T.is_sym(k) for it in items for k in it[0]):
            import functools

            def cmp(a, b):
                for x, y, d in zip(a[0], b[0], kd):
                    if bool(sort_lt(x, y, d)):
                        return -1
                    if bool(sort_lt(y, x, d)):
                        return 1
                return 0
            return sorted(items, key=functools.cmp_to_key(cmp))

        def less(a, b):  # strict lexicographic
            r = False
            for x, y, d in reversed(list(zip(a[0], b[0], kd))):
                r = T.Or(sort_lt(x, y, d), T.And(T.eq(x, y, width(d)), r))
            return r

        # insertion network on adjacent elements with strict comparison => stable
        items = [[list(a), list(b)] for a, b in items]
        for i in range(1, n):
            for j in range(i, 0, -1):
                a, b = items[j - 1], items[j]
                c = less(b, a)
                if not T.is_sym(c):
                    if c:
                        items[j - 1], items[j] = b, a
                        continue
                    break  # prefix already sorted and b >= a
                na = [[T.ite(c, y, x, width(d)) for x, y, d in zip(a[0], b[0], kd)],
                      [T.ite(c, y, x, width(d)) for x, y, d in zip(a[1], b[1], vd)]]
                nb = [[T.ite(c, x, y, width(d)) for x, y, d in zip(a[0], b[0], kd)],
                      [T.ite(c, x, y, width(d)) for x, y, d in zip(a[1], b[1], vd)]]
                items[j - 1], items[j] = na, nb
        return items

    def _reduce(self, eqn, a, f, init, d=None):
        axes = tuple(eqn.params["axes"])
        shape = eqn.outvars[0].aval.shape
        keep = [i for i in range(a.ndim) if i not in axes]
        v = a.el.transpose(keep + list(axes)).reshape(tuple(shape) + (-1,)) if a.size else None
        o = obj(shape)
        for ix in np.ndindex(*shape):
            r = init
            if a.size:
                for x in v[ix]:
                    r = f(r, x)
            if ix == ():
                o = _scalar(r)
            else:
                o[ix] = r
        return SArr(o, d or a.dtype)

    def p_reduce_sum(self, eqn, a):
        if is_float(a.dtype):
            return self.bind(eqn, [a]) if a.concrete else NotImplemented
        return self._reduce(eqn, a, lambda x, y: T.add(x, y, a.w), 0)

    def p_reduce_prod(self, eqn, a):
        if is_float(a.dtype):
            return self.bind(eqn, [a]) if a.concrete else NotImplemented
        return self._reduce(eqn, a, lambda x, y: T.mul(x, y, a.w), 1)

    def p_reduce_and(self, eqn, a):
        if a.w == 0:
            return self._reduce(eqn, a, lambda x, y: T.And(x, y), True)
        return self._reduce(eqn, a, lambda x, y: T.band(x, y, a.w), T.mask(a.w))

    def p_reduce_or(self, eqn, a):
        if a.w == 0:
            return self._reduce(eqn, a, lambda x, y: T.Or(x, y), False)
        return self._reduce(eqn, a, lambda x, y: T.bor(x, y, a.w), 0)

    def p_reduce_xor(self, eqn, a):
        if a.w == 0:
            return self._reduce(eqn, a, T.Xor, False)
        return self._reduce(eqn, a, lambda x, y: T.bxor(x, y, a.w), 0)

    def p_reduce_max(self, eqn, a):
        return self._reduce(eqn, a, lambda x, y: y if x is None else emax(x, y, a.dtype), None)

    def p_reduce_min(self, eqn, a):
        return self._reduce(eqn, a, lambda x, y: y if x is None else emin(x, y, a.dtype), None)

    def p_reduce(self, eqn, *ins):
        return NotImplemented

    def _argred(self, eqn, a, better):
        (ax,) = eqn.params["axes"]
        nd = dt(eqn.params["index_dtype"])
        v = np.moveaxis(a.el, ax, -1)
        o = obj(v.shape[:-1])
        for ix in np.ndindex(*v.shape[:-1]):
            row = v[ix]
            best, bi = row[0], 0
            for j in range(1, len(row)):
                c = better(row[j], best)
                best = T.ite(c, row[j], best, a.w)
                bi = T.ite(c, j, bi, width(nd))
            if ix == ():
                o = _scalar(bi)
            else:
                o[ix] = bi
        return SArr(o, nd)

    def p_argmax(self, eqn, a):
        d = a.dtype
        if is_float(d):
            return self._argred(eqn, a, lambda x, b: T.And(T.Not(f_isnan(b, d)), T.Or(
                f_isnan(x, d), lt_elem(b, x, d))))
        return self._argred(eqn, a, lambda x, b: lt_elem(b, x, d))

    def p_argmin(self, eqn, a):
        d = a.dtype
        if is_float(d):
            return self._argred(eqn, a, lambda x, b: T.And(T.Not(f_isnan(b, d)), T.Or(
                f_isnan(x, d), lt_elem(x, b, d))))
        return self._argred(eqn, a, lambda x, b: lt_elem(x, b, d))

    def _cum(self, eqn, a, f):
        ax, rev = eqn.params["axis"], eqn.params["reverse"]
        v = np.moveaxis(a.el, ax, 0).copy()
        if rev:
            v = v[::-1].copy()
        for i in range(1, v.shape[0]):
            if v.ndim == 1:
                v[i] = f(v[i - 1], v[i])
            else:
                for ix in np.ndindex(*v.shape[1:]):
                    v[(i,) + ix] = f(v[(i - 1,) + ix], v[(i,) + ix])
        if rev:
            v = v[::-1]
        return SArr(np.moveaxis(v, 0, ax), a.dtype)

    def p_cumsum(self, eqn, a):
        if is_float(a.dtype):
            return self.bind(eqn, [a]) if a.concrete else NotImplemented
        return self._cum(eqn, a, lambda x, y: T.add(x, y, a.w))

    def p_cumprod(self, eqn, a):
        if is_float(a.dtype):
            return self.bind(eqn, [a]) if a.concrete else NotImplemented
        return self._cum(eqn, a, lambda x, y: T.mul(x, y, a.w))

    def p_cummax(self, eqn, a):
        return self._cum(eqn, a, lambda x, y: emax(x, y, a.dtype))

    def p_cummin(self, eqn, a):
        return self._cum(eqn, a, lambda x, y: emin(x, y, a.dtype))

    def p_dot_general(self, eqn, a, b):
        if is_float(a.dtype):
            return self.bind(eqn, [a, b]) if a.concrete and b.concrete else NotImplemented
        (ca, cb), (ba, bb) = eqn.params["dimension_numbers"]
        nd = eqn.outvars[0].aval.dtype
        w = width(nd)
        A = map1(lambda x: T.resize(x, a.w, w, is_signed(a.dtype)), a, nd).el if a.w else a.el
        B = map1(lambda x: T.resize(x, b.w, w, is_signed(b.dtype)), b, nd).el if b.w else b.el
        fa = [d for d in range(a.ndim) if d not in ca and d not in ba]
        fb = [d for d in range(b.ndim) if d not in cb and d not in bb]
        A = A.transpose(list(ba) + fa + list(ca))
        B = B.transpose(list(bb) + fb + list(cb))
        nb, nc = len(ba), len(ca)
        bs = A.shape[:nb]
        fas = A.shape[nb:nb + len(fa)]
        fbs = B.shape[nb:nb + len(fb)]
        cs = A.shape[nb + len(fa):]
        o = obj(bs + fas + fbs)
        for bi in np.ndindex(*bs):
            for i in np.ndindex(*fas):
                for j in np.ndindex(*fbs):
                    r = 0
                    for c in np.ndindex(*cs):
                        r = T.add(r, T.mul(A[bi + i + c], B[bi + j + c], w), w)
                    if bi + i + j == ():
                        o = _scalar(r)
                    else:
                        o[bi + i + j] = r
        return SArr(o, nd)

    # -------------------------------------------------------------- state / pallas
    def p_pallas_call(self, eqn, *ins):
        from . import pallas
        return pallas.run(self, eqn, ins)

    def p_program_id(self, eqn):
        return SArr(_scalar(self.program_ids[eqn.params["axis"]]), np.int32)

    def p_num_programs(self, eqn):
        return SArr(_scalar(self.grid[eqn.params["axis"]]), np.int32)

    def p_multiple_of(self, eqn, a):
        return a

    p_max_contiguous = p_multiple_of

    def p_get(self, eqn, ref, *idx):
        from . import pallas
        return pallas.get(self, eqn, ref, idx)

    def p_swap(self, eqn, ref, val, *idx):
        from . import pallas
        return pallas.swap(self, eqn, ref, val, idx)

    def p_addupdate(self, eqn, ref, val, *idx):
        from . import pallas
        return pallas.addupdate(self, eqn, ref, val, idx)

    def p_masked_load(self, eqn, *args):
        from . import pallas
        return pallas.masked_load(self, eqn, args)

    def p_masked_swap(self, eqn, *args):
        from . import pallas
        return pallas.masked_swap(self, eqn, args)

    p_load = p_masked_load

    def p_atomic_rmw(self, eqn, *args):
        from . import pallas
        return pallas.atomic_rmw(self, eqn, args)

    def p_atomic_cas(self, eqn, *args):
        from . import pallas
        return pallas.atomic_cas(self, eqn, args)


def widen_float(x, od, nd):
    """Exact f16/bf16 -> f32 on bit patterns (denormals of f16 renormalised by case split)."""
    w, e, m, inf, sign = f_consts(od)
    W, E, M, INF, SIGN = f_consts(nd)
    if not T.is_sym(x):
        return to_elems(np.asarray(from_elems(_scalar(x), od).astype(nd))).item()
    if dt(od).name == "bfloat16":
        return z3.Concat(x, z3.BitVecVal(0, 16))
    s = z3.Extract(w - 1, w - 1, x)
    ex = z3.Extract(w - 2, m, x)
    ma = z3.Extract(m - 1, 0, x)
    bias = (1 << (E - 1)) - (1 << (e - 1))
    normal = z3.Concat(s, z3.ZeroExt(E - e, ex) + z3.BitVecVal(bias, E), ma,
                       z3.BitVecVal(0, M - m))
    infnan = z3.Concat(s, z3.BitVecVal((1 << E) - 1, E), ma, z3.BitVecVal(0, M - m))
    den = z3.Concat(s, z3.BitVecVal(0, W - 1))
    for k in range(m):  # highest set bit k
        c = z3.Extract(k, k, ma) == 1
        expo = bias + 1 - (m - k)
        frac = z3.Extract(k - 1, 0, ma) if k else None
        parts = [s, z3.BitVecVal(expo, E)]
        if frac is not None:
            parts.append(frac)
        parts.append(z3.BitVecVal(0, M - k))
        den = z3.If(c, z3.Concat(*parts), den)
    return z3.If(ex == (1 << e) - 1, infnan, z3.If(ex == 0, den, normal))


def int_to_float(x, od, nd):
    """Exact integer -> float (round to nearest, ties to even) on bit patterns."""
    if not T.is_sym(x):
        return to_elems(np.asarray(from_elems(_scalar(x), od).astype(nd))).item()
    w, e, m, inf, sign = f_consts(nd)
    n = width(od)
    neg = z3.BoolVal(False)
    mag = x
    if is_signed(od):
        neg = z3.Extract(n - 1, n - 1, x) == 1
        mag = z3.If(neg, -x, x)
    if n < m + 3:
        mag = z3.ZeroExt(m + 3 - n, mag)
        n = m + 3
    # normalise: leading one to bit n-1
    lz = z3.BitVecVal(0, 8)
    k = 1 << (n - 1).bit_length() - 1
    while k:
        if k < n:
            z = z3.Extract(n - 1, n - k, mag) == 0
            mag = z3.If(z, mag << k, mag)
            lz = z3.If(z, lz + k, lz)
        k >>= 1
    zero = z3.Extract(n - 1, n - 1, mag) == 0
    frac = z3.Extract(n - 2, n - 1 - m, mag)
    guard = z3.Extract(n - 2 - m, n - 2 - m, mag)
    sticky = z3.Extract(n - 3 - m, 0, mag) != 0 if n - 3 - m >= 0 else z3.BoolVal(False)
    bias = (1 << (e - 1)) - 1
    ew = max(e, 8) + 2
    ex = z3.BitVecVal(bias + n - 1, ew) - z3.ZeroExt(ew - 8, lz)
    up = z3.And(guard == 1, z3.Or(sticky, z3.Extract(0, 0, frac) == 1))
    val = z3.Concat(ex, frac) + z3.If(up, z3.BitVecVal(1, ew + m), z3.BitVecVal(0, ew + m))
    over = z3.UGE(z3.Extract(ew + m - 1, m, val), (1 << e) - 1)
    body = z3.If(over, z3.BitVecVal(inf, w - 1), z3.Extract(w - 2, 0, val))
    body = z3.If(zero, z3.BitVecVal(0, w - 1), body)
    return z3.Concat(z3.If(neg, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)), body)


def _scalar(v):
    o = np.empty((), dtype=object)
    o[()] = v
    return o


def ite_arr(c, a, b, w):
    if not T.is_sym(c):
        return a if c else b
    o = np.empty(a.shape, dtype=object)
    of, af, bf = o.reshape(-1), a.reshape(-1), b.reshape(-1)
    for i in range(af.size):
        of[i] = T.ite(c, af[i], bf[i], w)
    return of.reshape(a.shape)


def emax(x, y, d):
    w = width(d)
    if T.same(x, y):
        return x
    if is_float(d):
        return T.ite(f_isnan(x, d), x, T.ite(f_isnan(y, d), y, T.ite(f_lt(x, y, d), y, x, w), w), w)
    if w == 0:
        return T.Or(x, y)
    return T.ite(lt_elem(x, y, d), y, x, w)


def emin(x, y, d):
    w = width(d)
    if T.same(x, y):
        return x
    if is_float(d):
        return T.ite(f_isnan(x, d), x, T.ite(f_isnan(y, d), y, T.ite(f_lt(y, x, d), y, x, w), w), w)
    if w == 0:
        return T.And(x, y)
    return T.ite(lt_elem(y, x, d), y, x, w)

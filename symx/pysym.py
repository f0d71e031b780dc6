"""Symbolic execution of the Python source itself: integers (array dimensions, sizes) become z3 Int terms carried by
proxy objects, branches on them fork the run, and every path of the real function is explored by re-execution.

Harness.execute() decides, for every path, that no values satisfying the path condition violate the specification;
a model is replayed on the real function with plain Python integers.
"""
from __future__ import annotations

import math
import os
import sys
import time
import traceback

from .terms import z3

REPO = os.environ.get("XVERIF_REPO", "/repo")
CTX = None


class Unsupported(Exception):
    pass


class Cut(BaseException):
    """The path is infeasible or beyond the bound."""


class Ctx:
    def __init__(self, assumptions, max_paths):
        self.s = z3.Solver()
        self.s.set("timeout", 20000)
        for a in assumptions:
            self.s.add(a)
        self.assumptions = list(assumptions)
        self.max_paths = max_paths
        self.queries = 0
        self.solver_s = 0.0

    def ask(self, terms):
        self.queries += 1
        t0 = time.time()
        self.s.push()
        self.s.add(*terms)
        r = self.s.check()
        m = self.s.model() if r == z3.sat else None
        self.s.pop()
        self.solver_s += time.time() - t0
        if r == z3.unknown:
            raise Unsupported("solver gave up on a path condition")
        return m

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.plan):
            d = self.plan[self.pos]
        else:
            t = self.ask(self.pc + [e]) is not None
            f = self.ask(self.pc + [z3.Not(e)]) is not None
            if not t and not f:
                raise Cut()
            d = t
            if t and f:
                self.todo.append(self.plan[:self.pos] + [False])
            self.plan = self.plan[:self.pos] + [d]
        self.pos += 1
        self.pc.append(e if d else z3.Not(e))
        return d

    FORKS = 16

    def concretize(self, e, limit=4096):
        """A plain int for e where the code needs one: one path per value the solver proposes, smallest first, up to
        FORKS values (the rest of the values is outside the bound and counted in self.cut)."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        for _ in range(self.FORKS):
            if self.pos < len(self.plan):
                v, taken = self.plan[self.pos]
            else:
                dom = self.pc + [e <= limit, e >= -limit]
                m = self.ask(dom + [e <= 8, e >= -1]) or self.ask(dom)
                if m is None:
                    break
                v, taken = m.eval(e, model_completion=True).as_long(), True
                self.todo.append(self.plan[:self.pos] + [(v, False)])
                self.plan = self.plan[:self.pos] + [(v, True)]
            self.pos += 1
            self.pc.append(e == v if taken else e != v)
            if taken:
                self.concretized = True
                return v
        self.cut += 1
        raise Cut()

    concretized = False
    cut = 0

    def paths(self, fn):
        """Yields (path condition, ('ret', value) | ('exc', exception))."""
        global CTX
        self.todo = [[]]
        n = 0
        while self.todo:
            n += 1
            if n > self.max_paths:
                raise Unsupported(f"more than {self.max_paths} paths")
            self.plan, self.pos, self.pc = self.todo.pop(), 0, []
            CTX = self
            try:
                out = ("ret", fn())
            except Cut:
                continue
            except Unsupported:
                raise
            except Exception as e:
                out = ("exc", e)
            finally:
                CTX = None
            yield list(self.pc), out


class SymBool:
    def __init__(self, e):
        self.e = e

    def __bool__(self):
        if CTX is None:
            raise Unsupported("branch outside a symbolic run")
        return CTX.branch(self.e)


def raw(x):
    if isinstance(x, (SymInt, SymReal, SymBool)):
        return x.e
    return x


def num(x):
    """A z3 arithmetic term for x, or None."""
    if isinstance(x, (SymInt, SymReal)):
        return x.e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float) and x == int(x):
        return z3.RealVal(int(x))
    if hasattr(x, "item") and getattr(x, "shape", None) == ():
        return num(x.item())
    return None


BITS = 40


class SymNum:
    __hash__ = None

    def __init__(self, e):
        self.e = e

    def _cmp(self, o, f):
        n = num(o)
        if n is None:
            return NotImplemented
        return SymBool(f(self.e, n))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return bool(self != 0)

    def _ar(self, o, f, swap=False):
        n = num(o)
        if n is None:
            return NotImplemented
        r = f(n, self.e) if swap else f(self.e, n)
        return SymInt(r) if z3.is_int(r) else SymReal(r)

    def __add__(self, o):
        return self._ar(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._ar(o, lambda a, b: a - b)

    def __mul__(self, o):
        if isinstance(o, (tuple, list, str)):
            return o * self.__index__()
        return self._ar(o, lambda a, b: a * b)

    __radd__, __rmul__ = __add__, __mul__

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: a - b, True)

    def __neg__(self):
        return type(self)(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return type(self)(z3.If(self.e < 0, -self.e, self.e))

    def __truediv__(self, o):
        return SymReal(z3.ToReal(self.e) if z3.is_int(self.e) else self.e)._rdiv(o, False)

    def __rtruediv__(self, o):
        return SymReal(z3.ToReal(self.e) if z3.is_int(self.e) else self.e)._rdiv(o, True)

    def _rdiv(self, o, swap):
        n = num(o)
        if n is None:
            return NotImplemented
        n = z3.ToReal(n) if z3.is_int(n) else n
        a, b = (n, self.e) if swap else (self.e, n)
        if bool(SymBool(b == 0)):
            raise ZeroDivisionError("division by zero")
        return SymReal(a / b)

    def _div(self, o, swap, mod):
        n = num(o)
        if n is None:
            return NotImplemented
        a, b = (n, self.e) if swap else (self.e, n)
        if not (z3.is_int(a) and z3.is_int(b)):
            raise Unsupported("floor division of reals")
        if bool(SymBool(b == 0)):
            raise ZeroDivisionError("integer division or modulo by zero")
        # z3 rounds the quotient so that the remainder is >= 0; Python floors
        if bool(SymBool(b > 0)):
            q = a / b
        else:
            q = (-a) / (-b)
        return SymInt(a - q * b if mod else q)

    def __floordiv__(self, o):
        return self._div(o, False, False)

    def __rfloordiv__(self, o):
        return self._div(o, True, False)

    def __mod__(self, o):
        return self._div(o, False, True)

    def __rmod__(self, o):
        return self._div(o, True, True)

    def __divmod__(self, o):
        return self // o, self % o


def plain_value(e):
    """A plain rational for a real-valued term, through the integers it is built of."""
    e = z3.simplify(e)
    if not z3.is_rational_value(e):
        seen, todo, ints = set(), [e], []
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_int(t) and z3.is_const(t) and not z3.is_int_value(t):
                ints.append(t)
            todo.extend(t.children())
        if CTX is None:
            raise Unsupported("symbolic number outside a symbolic run")
        e = z3.simplify(z3.substitute(e, *[(t, z3.IntVal(CTX.concretize(t))) for t in ints]))
        if not z3.is_rational_value(e):
            raise Unsupported("symbolic number needed as a plain float")
    return e


class SymReal(SymNum):
    def ceil(self):
        return self.__ceil__()

    def floor(self):
        return self.__floor__()

    def trunc(self):
        return self.__trunc__()

    def log2(self):
        return math.log2(float(self))

    def __trunc__(self):
        return SymInt(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __floor__(self):
        return SymInt(z3.ToInt(self.e))

    def __ceil__(self):
        return SymInt(-z3.ToInt(-self.e))

    def __round__(self, nd=None):
        if nd:
            raise Unsupported("round to digits")
        r = z3.ToInt(self.e + z3.Q(1, 2))
        tie = z3.ToReal(r) == self.e + z3.Q(1, 2)
        return SymInt(z3.If(z3.And(tie, r % 2 == 1), r - 1, r))

    def __int__(self):
        return self.__trunc__().__index__()

    def __float__(self):
        m = plain_value(self.e)
        return m.numerator_as_long() / m.denominator_as_long()


class SymInt(SymNum):
    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __round__ = __trunc__

    def __index__(self):
        if CTX is None:
            raise Unsupported("symbolic integer outside a symbolic run")
        return CTX.concretize(self.e)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def bit_length(self):
        a = z3.If(self.e < 0, -self.e, self.e)
        if bool(SymBool(a >= 2 ** BITS)):
            raise Unsupported(f"value above {BITS} bits")
        return SymInt(z3.Sum([z3.If(a >= 2 ** i, 1, 0) for i in range(BITS)]))

    def _pow2(self):
        if bool(SymBool(self.e < 0)):
            raise ValueError("negative shift count")
        if bool(SymBool(self.e > BITS)):
            raise Unsupported("shift above bound")
        r = z3.IntVal(2 ** BITS)
        for i in reversed(range(BITS)):
            r = z3.If(self.e == i, 2 ** i, r)
        return SymInt(r)

    def __lshift__(self, o):
        if isinstance(o, int):
            return self * (1 << o)
        return self * o._pow2()

    def __pow__(self, o, mod=None):
        if isinstance(o, int) and 0 <= o <= 4 and mod is None:
            r = SymInt(z3.IntVal(1))
            for _ in range(o):
                r = r * self
            return r
        return pow(self.__index__(), o.__index__(), mod)

    def __rpow__(self, o, mod=None):
        if o == 2 and mod is None:
            return self._pow2()
        return pow(o, self.__index__(), mod)

    def _bits(self, o, f):
        n = num(o)
        if n is None:
            return NotImplemented
        if bool(SymBool(z3.Or(self.e < 0, n < 0, self.e >= 2 ** BITS, n >= 2 ** BITS))):
            raise Unsupported("bitwise operation beyond bound")
        return SymInt(z3.BV2Int(f(z3.Int2BV(self.e, BITS), z3.Int2BV(n, BITS))))

    def __or__(self, o):
        return self._bits(o, lambda a, b: a | b)

    def __xor__(self, o):
        return self._bits(o, lambda a, b: a ^ b)

    __ror__, __rxor__ = __or__, __xor__

    def __invert__(self):
        return SymInt(-self.e - 1)

    def bit_count(self):
        return self.__index__().bit_count()

    def as_integer_ratio(self):
        return self, 1

    # numpy calls these on objects
    def ceil(self):
        return self

    floor = trunc = rint = ceil

    def log2(self):
        return math.log2(self.__index__())

    def __rlshift__(self, o):
        return o * self._pow2()

    def __rshift__(self, o):
        if isinstance(o, int):
            return self // (1 << o)
        return self // o._pow2()

    def __rrshift__(self, o):
        return o // self._pow2()

    def __and__(self, o):
        if isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        # x & -(2 ** k) rounds down to a multiple
        m = o if isinstance(o, int) else None
        if m is not None and m < 0 and (-m & (-m - 1)) == 0:
            return self - self % -m
        if isinstance(o, SymInt):
            # x & -x: the lowest set bit
            d = z3.simplify(self.e + o.e)
            if z3.is_int_value(d) and d.as_long() == 0:
                a = z3.If(self.e < 0, -self.e, self.e)
                if bool(SymBool(a >= 2 ** BITS)):
                    raise Unsupported("bitwise and beyond bound")
                v = z3.Int2BV(a, BITS)
                return SymInt(z3.BV2Int(v & -v))
        return self._bits(o, lambda a, b: a & b)

    __rand__ = __and__

    def __format__(self, spec):
        return str(self.e)

    def __str__(self):
        return str(self.e)

    __repr__ = __str__


def s_int(x=0, *a):
    """Replacement for the builtin int inside the executed modules."""
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymReal):
        return x.__trunc__()
    return int(x, *a)


def s_bool(x=False):
    return bool(x)


def s_isinstance(x, t):
    if isinstance(x, SymInt):
        ts = t if isinstance(t, tuple) else (t,)
        return int in ts or s_int in ts or SymInt in ts
    if t is s_int:
        t = int
    elif isinstance(t, tuple):
        t = tuple(int if e is s_int else e for e in t)
    return isinstance(x, t)


def s_max(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if any(isinstance(x, SymNum) for x in xs) and not k:
        r = xs[0]
        for x in xs[1:]:
            r = SymInt(z3.If(num(x) > num(r), num(x), num(r)))
        return r
    return max(*a, **k)


def s_min(*a, **k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if any(isinstance(x, SymNum) for x in xs) and not k:
        r = xs[0]
        for x in xs[1:]:
            r = SymInt(z3.If(num(x) < num(r), num(x), num(r)))
        return r
    return min(*a, **k)


def jax_numpy():
    import jax.numpy
    return jax.numpy


def s_range(*a):
    return range(*[x.__index__() if isinstance(x, SymNum) else x for x in a])


def s_sum(xs, start=0):
    for x in xs:
        start = start + x
    return start


class patched:
    """Give the modules proxies-aware builtins (and any other replacement) while a symbolic run is on."""

    def __init__(self, modules, jnp=None, **extra):
        self.modules = modules
        self.extra = extra
        self.jnp = jnp

    def __enter__(self):
        self.saved = []
        others = [m for n, m in list(sys.modules.items()) if (n == "xtructure" or n.startswith("xtructure."))
                  and m is not None and m not in self.modules]
        for m in list(self.modules) + others:
            names = dict(int=s_int, isinstance=s_isinstance, max=s_max, min=s_min, range=s_range, sum=s_sum)
            if self.jnp is not None and getattr(m, "jnp", None) is jax_numpy():
                names["jnp"] = self.jnp
            names.update({} if m in others else self.extra.get(m.__name__.split(".")[-1], {}))
            for k, v in names.items():
                self.saved.append((m, k, m.__dict__.get(k, self)))
                m.__dict__[k] = v

    def __exit__(self, *e):
        for m, k, v in reversed(self.saved):
            if v is self:
                m.__dict__.pop(k, None)
            else:
                m.__dict__[k] = v


class PyHarness:
    """vars: names of symbolic integers.  assume(V) -> [z3].
    call(V): runs the real code on V (proxies in the symbolic run, plain ints in a replay).
    spec(V, out) -> [(label, truth)]; with proxies the truths may be z3 terms, SymBool or bool.
    view(out): comparable summary of an outcome, used to compare the encoding with the real run.
    symcall: variant of call used symbolically (patches, stubs); default call.
    """

    def __init__(self, name, vars, call, spec, assume=None, symcall=None, max_paths=4000, bounds="", small=4,
                 view=None, replay_ok=None):
        self.name, self.vars, self.call, self.spec = name, vars, call, spec
        self.assume = assume or (lambda V: [])
        self.symcall = symcall or call
        self.max_paths, self.bounds, self.small = max_paths, bounds, small
        self.view = view or (lambda out: out)
        self.replay_ok = replay_ok or (lambda v: True)

    def execute(self, seed=1, verbose=False):
        t0 = time.time()
        res = {"name": self.name, "status": "ok", "queries": 0, "solver_s": 0.0, "bounds": self.bounds, "notes": [],
               "goals": 0, "covers": [], "traces_validated": 0, "eqns": 0}
        try:
            self._run(res, verbose)
        except Exception as e:
            res["status"] = "error"
            res["error"] = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-3000:]
        if res["status"] == "error" and not self.keep_errors:
            # Code the proxies cannot carry: let the solver propose the values and decide those.
            why, res["error"] = res["error"], ""
            res.update(status="ok", goals=0)
            try:
                self._run_values(res)
                res["notes"].append("decided only for the solver's values, the source could not be encoded: " + why[:300])
            except Exception as e:
                res["status"] = "error"
                res["error"] = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-3000:] + why
        res["wall_s"] = round(time.time() - t0, 2)
        return res

    keep_errors = False
    VALUES = 48

    def _run_values(self, res):
        zs = {n: z3.Int(n) for n in self.vars}
        V = {n: SymInt(z) for n, z in zs.items()}
        ctx = Ctx([raw(a) for a in self.assume(V)], self.max_paths)
        done, used = 0, []
        for cap in (self.small, 4 * self.small, 40 * self.small):
            while done < self.VALUES:
                m = ctx.ask([z <= cap for z in zs.values()] + used)
                if m is None:
                    break
                vals = {k: m.eval(z, model_completion=True).as_long() for k, z in zs.items()}
                used.append(z3.Or([zs[k] != v for k, v in vals.items()] or [z3.BoolVal(False)]))
                done += 1
                if not self.replay_ok(vals):
                    continue
                bad, _ = self._bad(vals)
                res["goals"] += 1
                if bad:
                    return self._violate(res, vals, bad)
        res["queries"], res["solver_s"], res["eqns"] = ctx.queries, ctx.solver_s, done
        res["covers"].append(["values", done])
        if not done:
            raise Unsupported("no value satisfies the assumptions")

    def _outcome(self, vals):
        try:
            return ("ret", self.call(vals))
        except Exception as e:
            return ("exc", e)

    def _bad(self, vals):
        out = self._outcome(vals)
        return [lab for lab, t in self.spec(vals, out) if not self._truth(t)], out

    @staticmethod
    def _truth(t):
        if isinstance(t, SymBool):
            t = t.e
        if z3.is_expr(t):
            t = z3.is_true(z3.simplify(t))
        return bool(t)

    def _run(self, res, verbose):
        zs = {n: z3.Int(n) for n in self.vars}
        V = {n: SymInt(z) for n, z in zs.items()}
        assumptions = [raw(a) for a in self.assume(V)]
        ctx = Ctx(assumptions, self.max_paths)
        small = [z <= self.small for z in zs.values()]
        funcs = set()
        lines = [0]

        def prof(frame, event, arg):
            f = frame.f_code.co_filename
            if event == "call" and f.startswith(REPO) and "/xtructure/" in f:
                funcs.add(os.path.relpath(f, REPO) + ":" + frame.f_code.co_name)

        def run():
            sys.setprofile(prof)
            try:
                return self.symcall(V)
            finally:
                sys.setprofile(None)

        n = 0
        for pc, out in ctx.paths(run):
            n += 1
            # the encoding of this path agrees with the real code on a concrete instance
            m = ctx.ask(pc + small)
            if m is not None:
                vals = {k: m.eval(z, model_completion=True).as_long() for k, z in zs.items()}
                real = self._outcome(vals)
                a, b = self._eval(self.view(out), m), self.view(real)
                if not same(a, b):
                    bad, _ = self._bad(vals)
                    if bad:
                        return self._violate(res, vals, bad)
                    res["status"] = "error"
                    res["error"] = f"encoding disagrees with the real code on {vals}: {a} vs {b}"
                    return
                res["traces_validated"] += 1
            # quantities in the specification may fork too: explore it as part of the path
            goals = []
            for pc2, g in self._spec_paths(ctx, pc, V, out):
                for lab, t in g:
                    goals.append((pc2, lab, t))
            for pc2, lab, t in goals:
                res["goals"] += 1
                if t is True:
                    continue
                t = t.e if isinstance(t, SymBool) else t
                neg = z3.Not(t) if z3.is_expr(t) else z3.BoolVal(not t)
                m = ctx.ask(pc2 + [neg] + small) or ctx.ask(pc2 + [neg])
                if m is None:
                    continue
                vals = {k: m.eval(z, model_completion=True).as_long() for k, z in zs.items()}
                if not self.replay_ok(vals):
                    res["status"] = "inconclusive"
                    res["error"] = f"counterexample too large to replay: {vals} {lab}"
                    return
                bad, real = self._bad(vals)
                if bad:
                    return self._violate(res, vals, bad)
                res["status"] = "error"
                res["error"] = f"counterexample does not replay: {vals} {lab}; real {real}"
                return
        res["queries"], res["solver_s"], res["eqns"] = ctx.queries, ctx.solver_s, n
        res["functions"] = sorted(funcs)
        res["covers"].append(["paths", n])
        if ctx.concretized:
            res["notes"].append("some sizes were needed as plain integers and decided for the solver's values only")
        if n == 0:
            res["status"] = "error"
            res["error"] = "no feasible path"

    def _spec_paths(self, ctx, pc, V, out):
        """The specification may branch on symbolic values too."""
        global CTX
        saved, ctx.todo, res = ctx.todo, [[]], []
        while ctx.todo:
            ctx.plan, ctx.pos, ctx.pc = ctx.todo.pop(), 0, list(pc)
            CTX = ctx
            try:
                g = self.spec(V, out)
                res.append((list(ctx.pc), g))
            except Cut:
                pass
            finally:
                CTX = None
        ctx.todo = saved
        return res

    def _violate(self, res, vals, bad):
        res["status"] = "violation"
        res["violation"] = {"label": bad[0], "all": bad, "inputs": {
            k: {"dtype": "int", "shape": [], "bits": [v], "show": str(v)} for k, v in vals.items()}}

    def _eval(self, v, m):
        if isinstance(v, SymBool):
            return z3.is_true(m.eval(v.e, model_completion=True))
        if isinstance(v, SymNum):
            r = m.eval(v.e, model_completion=True)
            return r.as_long() if z3.is_int(r) else r
        if isinstance(v, tuple):
            return tuple(self._eval(e, m) for e in v)
        if isinstance(v, list):
            return [self._eval(e, m) for e in v]
        if isinstance(v, dict):
            return {k: self._eval(e, m) for k, e in v.items()}
        if isinstance(v, Exception):
            return type(v).__name__
        return v


def same(a, b):
    if isinstance(b, Exception):
        b = type(b).__name__
    if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


def conj(ts):
    """Conjunction of z3/SymBool/bool truths."""
    out = []
    for t in ts:
        t = t.e if isinstance(t, SymBool) else t
        if not z3.is_expr(t):
            if not t:
                return False
            continue
        out.append(t)
    return z3.And(*out) if out else True


def eq(a, b):
    """Equality of ints/proxies/tuples without forking."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return conj([eq(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
    if isinstance(a, SymNum) or isinstance(b, SymNum):
        x, y = num(a), num(b)
        return False if x is None or y is None else x == y
    return type(a) is type(b) and a == b or (isinstance(a, int) and isinstance(b, int) and a == b)

"""One harness = symbolic inputs, a function of the real API traced to a jaxpr, goals.

`goals(I, O)` is an element-level oracle: the same code is evaluated on z3 terms (the proof)
and on concrete values (the replay against the real, jitted function).
"""
from __future__ import annotations

import contextlib
import json
import os
import re
import threading
import time
import traceback

import jax
import jax.numpy as jnp
import numpy as np

from . import interp as X
from . import terms as T
from . import world
from .interp import Interp, Raw, SArr, lift, to_elems, from_elems, width
from .terms import z3

REPO = os.environ.get("XVERIF_REPO", "/repo")


HANG_S = 100
ON_HANG = None


class Bag(dict):
    __getattr__ = dict.__getitem__


class Inp:
    """A traced input.  el: optional object array of terms; value: concrete numpy value."""

    def __init__(self, name, shape=(), dtype=np.uint32, value=None, el=None, dom=None):
        self.name, self.dtype = name, np.dtype(dtype)
        self.side = []
        if value is not None:
            value = np.asarray(value, dtype=self.dtype)
            self.shape = value.shape
            self.el = to_elems(value)
            return
        self.shape = tuple(shape)
        w = width(self.dtype)
        if el is None:
            el = np.empty(self.shape, dtype=object)
            for ix in np.ndindex(*self.shape):
                nm = name + ("" if not ix else "[" + ",".join(map(str, ix)) + "]")
                if w == 0:
                    v = z3.Bool(nm)
                elif dom is not None:
                    # values 0..dom-1 with a narrow variable
                    bits = max(1, (dom - 1).bit_length())
                    v = z3.BitVec(nm, bits)
                    if dom < (1 << bits):
                        self.side.append(z3.ULT(v, dom))
                    if bits < w:
                        v = z3.ZeroExt(w - bits, v)
                else:
                    v = z3.BitVec(nm, w)
                if ix == ():
                    el = X._scalar(v)
                else:
                    el[ix] = v
        self.el = el

    def sarr(self):
        return SArr(self.el, self.dtype)


class Harness:
    def __init__(self, name, inputs, fn, goals, assume=None, covers=None, trace_ctx=None,
                 run_ctx=None, confirm=None, max_unroll=64, timeout=300, chunk=None,
                 random_inputs=None, n_random=2, bounds="", no_run=False, logic=None,
                 unstable_nondet=False, opaque=None, prune_ms=4000, flaky_run=False,
                 tier="quick", side=None, eager=False, post_run=None, known=None):
        self.name, self.inputs, self.fn, self.goals = name, inputs, fn, goals
        self.assume = assume or (lambda I: [])
        self.covers = covers or (lambda I, O: [])
        self.trace_ctx = trace_ctx or contextlib.nullcontext
        self.run_ctx = run_ctx or contextlib.nullcontext
        self.confirm = confirm
        self.max_unroll, self.timeout, self.chunk = max_unroll, timeout, chunk
        self.random_inputs, self.n_random = random_inputs, n_random
        self.bounds, self.no_run, self.logic = bounds, no_run, logic
        self.unstable_nondet, self.prune_ms = unstable_nondet, prune_ms
        self.tier = tier
        self.eager = eager
        self.known = known


def flat_named(out):
    leaves = jax.tree_util.tree_flatten_with_path(out)[0]
    names = []
    for path, leaf in leaves:
        n = jax.tree_util.keystr(path)
        n = re.sub(r"[\[\]'\"]+", ".", n).strip(".")
        n = re.sub(r"\.+", ".", n)
        names.append(n)
    return names, [l for _, l in leaves]


def repo_functions(jaxpr, acc=None, seen=None):
    """file:function names of /repo frames that contributed equations."""
    from jax._src import source_info_util as si
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen

    def sub(p):
        if hasattr(p, "jaxpr") and hasattr(p, "consts"):
            yield p.jaxpr
        elif hasattr(p, "eqns"):
            yield p
        elif isinstance(p, (tuple, list)):
            for q in p:
                yield from sub(q)

    if id(jaxpr) in seen:
        return acc
    seen.add(id(jaxpr))
    for e in jaxpr.eqns:
        try:
            for fr in si.user_frames(e.source_info.traceback):
                if "/xtructure/" in fr.file_name and fr.file_name.startswith(REPO):
                    acc.add(os.path.relpath(fr.file_name, REPO) + ":" + fr.function_name)
        except Exception:
            pass
        for p in e.params.values():
            for j in sub(p):
                repo_functions(j, acc, seen)
    return acc


def solver_for(logic):
    if logic == "sat":
        return z3.Then("simplify", "propagate-values", "solve-eqs", "simplify", "bit-blast",
                       "sat").solver()
    return z3.SolverFor(logic) if logic else z3.Solver()


class Runner:
    def __init__(self, h: Harness, seed=1, verbose=False):
        self.h = h
        self.res = {"name": h.name, "status": "ok", "queries": 0, "solver_s": 0.0, "bounds": h.bounds,
                    "notes": [], "goals": 0, "covers": []}
        self.rng = np.random.default_rng(seed)
        self.verbose = verbose
        self.exe = None
        self.deadline = time.time() + h.timeout
        self.facts = []     # true instances of uninterpreted float functions, found on the way

    def log(self, *a):
        if self.verbose:
            print("   ", *a, flush=True)

    def check(self, terms, logic=None, timeout=None):
        terms = [t for t in terms] + self.facts
        if any(not T.is_sym(t) and not t for t in terms):
            return "unsat", None
        terms = [t for t in terms if T.is_sym(t)]
        logic = logic or self.h.logic
        if logic:
            plan = [(logic, 1.0)]
        elif any(has_uf(t) for t in terms):
            plan = [("QF_UFBV", 1.0)]
        else:
            plan = [("QF_BV", 0.5), ("sat", 0.6), ("QF_UFBV", 1.0)]
        self.res["queries"] += 1
        why = ""
        for lg, share in plan:
            left = min(timeout or 1e9, self.deadline - time.time()) * share
            if left < 0.5:
                break
            s = solver_for(lg)
            s.set("timeout", int(left * 1000))
            for t in terms:
                s.add(t)
            t0 = time.time()
            r = s.check()
            self.res["solver_s"] += time.time() - t0
            if r == z3.sat:
                return "sat", s.model()
            if r == z3.unsat:
                return "unsat", None
            why = s.reason_unknown()
        return "unknown", why or "time is up"

    # ---------------------------------------------------------------- concrete side
    def concretise(self, model, el, dtype):
        o = np.empty(el.shape, dtype=object)
        for ix in np.ndindex(*el.shape):
            v = el[ix]
            if T.is_sym(v):
                v = model.eval(v, model_completion=True)
                v = z3.is_true(v) if z3.is_bool(v) else v.as_long()
            if ix == ():
                o = X._scalar(v)
            else:
                o[ix] = v
        return from_elems(o, dtype)

    def run_real(self, vals, turns=None):
        with self.watchdog(vals), world.running(), self.h.run_ctx():
            args = [jnp.asarray(vals[i.name]) for i in self.h.inputs]
            if turns is not None:
                with world.turns(turns):
                    out = self.h.fn(*args)
            elif self.h.eager:
                out = self.h.fn(*args)
            else:
                if self.exe is None:
                    self.exe = jax.jit(self._runfn).lower(*args).compile()
                out = self.exe(*args)
            out = jax.tree_util.tree_map(np.asarray, out)
        names, leaves = flat_named(out)
        return Bag({n: lift(l) for n, l in zip(names, leaves)})

    @contextlib.contextmanager
    def watchdog(self, vals):
        """A real call that never returns is reported as a violation and ends this worker."""
        def fire():
            self.res["status"] = "violation"
            self.res["violation"] = {"label": f"does not terminate (no result after {HANG_S} s)",
                                     "inputs": self.dump(vals)}
            if ON_HANG:
                ON_HANG(self.res)
            os._exit(0)
        t = threading.Timer(HANG_S, fire)
        t.daemon = True
        t.start()
        try:
            yield
        finally:
            t.cancel()

    def _runfn(self, *a):
        return self.h.fn(*a)

    def concrete_goals(self, vals, O):
        I = Bag({i.name: lift(vals[i.name]) for i in self.h.inputs})
        out = []
        for g in self.h.goals(I, O):
            label, t = g[0], g[1]
            kind = g[2] if len(g) > 2 else "obs"
            t = T.norm_bool(z3.simplify(t)) if T.is_sym(t) else bool(t)
            out.append((label, t, kind))
        return out

    def dump(self, vals):
        return {k: {"dtype": str(np.asarray(v).dtype), "shape": list(np.asarray(v).shape),
                    "bits": [int(x) for x in to_elems(np.asarray(v)).reshape(-1)],
                    "show": repr(np.asarray(v).tolist())[:400]} for k, v in vals.items()}

    # ---------------------------------------------------------------- main
    def run(self):
        t0 = time.time()
        try:
            self._run()
        except X.Unsupported as e:
            self.res["status"] = "error"
            self.res["error"] = "unsupported: " + str(e) + "\n" + traceback.format_exc()[-1500:]
        except MemoryError:
            self.res["status"] = "inconclusive"
            self.res["error"] = "out of memory"
        except Exception as e:
            self.res["status"] = "error"
            self.res["error"] = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-3000:]
        if self.res["status"] in ("error", "inconclusive"):
            self._undecided()
        self.res["wall_s"] = round(time.time() - t0, 2)
        return self.res

    FALLBACK = 12

    def _undecided(self):
        """The solver gave no verdict. A failing concrete run still counts; without one the harness stays undecided."""
        if self.h.no_run:
            return
        end = time.time() + 60
        try:
            self.deadline = max(self.deadline, time.time() + 20)
            pre = self._assumptions(Bag({i.name: i.sarr() for i in self.h.inputs}))
            for _ in range(self.FALLBACK):
                if time.time() > end:
                    return
                vals = self.random_vals(pre)
                if vals is None:
                    continue
                try:
                    real = self.run_real(vals)
                except Exception as e:
                    bad = [(f"raises {type(e).__name__}: {str(e)[:300]}",)]
                    real = {}
                else:
                    bad = [g for g in self.concrete_goals(vals, real) if not g[1] and g[2] == "obs"]
                if bad:
                    self.res["status"] = "violation"
                    self.res["violation"] = {"label": bad[0][0], "all": [b[0] for b in bad][:20],
                                             "inputs": self.dump(vals),
                                             "outputs": self.dump({k: v.np() for k, v in real.items()})}
                    return
        except Exception as e:
            self.res["notes"].append(f"concrete runs failed too: {type(e).__name__}: {str(e)[:200]}")

    def _trace_failed(self, e):
        """The API raised while being traced: confirm on the real code, eagerly."""
        h = self.h
        assumptions = self._assumptions(Bag({i.name: i.sarr() for i in h.inputs}))
        st, m = self.check(assumptions)
        if st != "sat":
            self.res["status"] = "error"
            self.res["error"] = "trace failed and assumptions not satisfiable: " + repr(e)
            return
        vals = {i.name: self.concretise(m, i.el, i.dtype) for i in h.inputs}
        try:
            self.run_real(vals)
        except Exception as e2:
            self.res["status"] = "violation"
            self.res["violation"] = {"label": f"raises {type(e2).__name__}: {str(e2)[:300]}",
                                     "inputs": self.dump(vals)}
            self.res["error"] = traceback.format_exc()[-1500:]
            return
        self.res["status"] = "error"
        self.res["error"] = "trace failed but the real call succeeds: " + repr(e)

    def _assumptions(self, I):
        a = []
        for i in self.h.inputs:
            a += i.side
        a += list(self.h.assume(I))
        return [T.norm_bool(x) if T.is_sym(x) else x for x in a]

    def _run(self):
        h = self.h
        specs = [jax.ShapeDtypeStruct(i.shape, i.dtype) for i in h.inputs]
        t0 = time.time()
        try:
            with h.trace_ctx():
                closed, shape = jax.make_jaxpr(lambda *a: h.fn(*a), return_shape=True)(*specs)
        except Exception as e:
            return self._trace_failed(e)
        self.res["trace_s"] = round(time.time() - t0, 2)
        self.res["functions"] = sorted(repo_functions(closed.jaxpr))
        self.closed = closed
        names, _ = flat_named(shape)
        I = Bag({i.name: i.sarr() for i in h.inputs})
        assumptions = self._assumptions(I)
        t0 = time.time()
        ip = Interp(assumptions=assumptions, max_unroll=h.max_unroll, prune_ms=h.prune_ms,
                    unstable_nondet=h.unstable_nondet)
        outs = ip.run_closed(closed, [i.sarr() for i in h.inputs])
        self.res["encode_s"] = round(time.time() - t0, 2)
        self.res["eqns"] = ip.stats.eqns
        self.res["queries"] += ip.stats.solver_calls
        self.res["solver_s"] += ip.stats.solver_s
        self.res["unroll"] = ip.stats.unroll
        assumptions = list(ip.assumptions)   # kernels add their schedule constraints
        self.ip = ip
        O = Bag({n: o for n, o in zip(names, outs)})
        goals = []
        for g in h.goals(I, O):
            goals.append((g[0], g[1], g[2] if len(g) > 2 else "obs"))
        for c, lab in ip.unwinding:
            goals.append(("unwinding: " + lab, T.Not(c), "unwind"))
        for lab, t in ip.obligations:
            goals.append((lab, t, "oblig"))
        self.res["goals"] = len(goals)
        self.log(f"{h.name}: eqns {ip.stats.eqns} encode {self.res['encode_s']}s goals {len(goals)}")

        # translator validation on random inputs: encoding folded on constants == real function
        if not h.no_run:
            if not self.validate_random(closed, names):
                return

        # vacuity: assumptions satisfiable, covers reachable, and model agrees with real code
        in_order = list(ip.grid_order_cons)
        st, m = self.check(assumptions + in_order)
        if st != "sat":
            self.res["status"] = "error" if st == "unsat" else "inconclusive"
            self.res["error"] = f"assumptions {st}"
            return
        if not h.no_run:
            if not self.cross_check(m, O, "witness"):
                return
        cov = list(h.covers(I, O))
        for lab, c in cov:
            st, m = self.check(assumptions + in_order + [c], timeout=60)
            self.res["covers"].append([lab, st])
            if st == "unsat":
                self.res["notes"].append(f"cover {lab} unreachable")
            if st == "sat" and not h.no_run and not self.cross_check(m, O, "cover " + lab):
                return

        # the queries
        groups = {}
        for k, g in enumerate(goals):
            key = h.chunk(g[0]) if callable(h.chunk) else (k if h.chunk == "each" else
                                                           (k // h.chunk if isinstance(h.chunk, int) else 0))
            groups.setdefault((g[2], key), []).append(g)
        order = {"oblig": 0, "unwind": 1, "obs": 2, "inv": 3}
        inv_open = []
        for (kind, key), gs in sorted(groups.items(), key=lambda kv: order.get(kv[0][0], 2)):
            neg = T.Not(T.And(*[g[1] for g in gs]))
            st, m = self.check(assumptions + [neg])
            self.log(f"{h.name}: [{kind}/{key}] {len(gs)} goals -> {st}")
            if st == "unsat":
                continue
            if st == "unknown":
                self.res["status"] = "inconclusive"
                self.res["error"] = f"solver: {m} on {gs[0][0]}.. ({len(gs)} goals)"
                continue
            if kind == "unwind":
                self.res["status"] = "inconclusive"
                self.res["error"] = "unwinding bound too small: " + gs[0][0]
                vals = {i.name: self.concretise(m, i.el, i.dtype) for i in h.inputs}
                self.res["unwind_model"] = self.dump(vals)
                if not h.no_run:
                    bad = [g for g in self.concrete_goals(vals, self.run_real(vals))
                           if not g[1] and g[2] == "obs"]
                    if bad:
                        self.res["status"] = "violation"
                        self.res["violation"] = {"label": bad[0][0], "inputs": self.dump(vals)}
                return
            if kind == "inv":
                if self.try_confirm(assumptions, neg, m, gs, O):
                    return
                inv_open.append([g[0] for g in gs][:4])
                continue
            turns = None
            if in_order:
                # prefer a counterexample that already shows when programs run one after another
                st2, m2 = self.check(assumptions + in_order + [neg])
                if st2 == "sat":
                    m = m2
                else:
                    turns = self.turns_of(m)
            before = self.res["status"], self.res.get("error")
            for _ in range(40):
                done = self.report(m, gs, O, turns)
                if done != "spurious":
                    break
                # float arithmetic is uninterpreted: add what it really gives at these arguments
                old = {f.get_id() for f in self.facts}
                self.facts += [f for f in X.uf_facts(assumptions + [neg], m) if f.get_id() not in old]
                st, m = self.check(assumptions + [neg])
                if st != "sat" or len(self.facts) == len(old):
                    break
            if done == "spurious":
                if st == "unsat":
                    self.res["status"], self.res["error"] = before
                    continue
                return
            if done:
                return
        if inv_open:
            self.res["notes"].append("inductive invariant not preserved, no observable consequence "
                                     f"confirmed: {inv_open}")
            self.res["inv_open"] = inv_open

    def random_vals(self, assumptions):
        """Random concrete inputs that satisfy the assumptions (rejection, then a solver model)."""
        h = self.h
        given = h.random_inputs(self.rng) if h.random_inputs else {}
        allv = {}
        for i in h.inputs:
            if i.name not in given:
                for v in i.el.reshape(-1):
                    if T.is_sym(v):
                        for x in z3_vars(v):
                            allv[x.get_id()] = x
        for t in assumptions:
            if T.is_sym(t):
                for x in z3_vars(t):
                    allv.setdefault(x.get_id(), x)
        xs = list(allv.values())
        sub = [(x, rand_val(self.rng, x)) for x in xs]
        syms = [t for t in assumptions if T.is_sym(t)]
        ok = True
        if syms and not given:
            ok = z3.is_true(z3.simplify(z3.substitute(z3.And(*syms), *sub)))
            if not ok:
                s = z3.SolverFor("QF_UFBV")
                s.set("timeout", 20000)
                s.add(*syms)
                order = list(self.rng.permutation(len(sub)))
                kept = 0
                for q in order[:24]:
                    s.push()
                    s.add(sub[q][0] == sub[q][1])
                    if s.check() == z3.sat:
                        kept += 1
                    else:
                        s.pop()
                if s.check() != z3.sat:
                    return None
                m = s.model()
                sub = [(x, m.eval(x, model_completion=True)) for x in xs]
        val_of = {x.get_id(): (x, v) for x, v in sub}
        vals = {}
        for i in h.inputs:
            if i.name in given:
                vals[i.name] = np.asarray(given[i.name], dtype=i.dtype)
                continue
            o = np.empty(i.el.shape, dtype=object)
            for ix in np.ndindex(*i.el.shape):
                v = i.el[ix]
                if T.is_sym(v):
                    hit = val_of.get(v.get_id())
                    v = hit[1] if hit else z3.simplify(z3.substitute(
                        v, *[val_of[x.get_id()] for x in z3_vars(v)]))
                    v = z3.is_true(v) if z3.is_bool(v) else v.as_long()
                if ix == ():
                    o = X._scalar(v)
                else:
                    o[ix] = v
            vals[i.name] = from_elems(o, i.dtype)
        return vals

    def validate_random(self, closed, names):
        h = self.h
        n = 0
        pre = self._assumptions(Bag({i.name: i.sarr() for i in h.inputs}))
        for k in range(h.n_random):
            vals = self.random_vals(pre)
            if vals is None:
                continue
            try:
                real = self.run_real(vals)
            except Exception as e:
                self.res["status"] = "violation"
                self.res["violation"] = {"label": f"raises {type(e).__name__}: {str(e)[:300]}",
                                         "inputs": self.dump(vals)}
                return False
            ip = Interp(max_unroll=100000)
            ip.sequential = True
            outs = ip.run_closed(closed, [lift(vals[i.name]) for i in h.inputs])
            for nm, o in zip(names, outs):
                if isinstance(o, Raw):
                    continue
                if not same_bits(o.np(), real[nm].np()):
                    raise RuntimeError(
                        f"encoding differs from the real function on output {nm}: "
                        f"{o.np()!r} vs {real[nm].np()!r} inputs {vals!r}"[:2000])
            n += 1
        self.res["traces_validated"] = self.res.get("traces_validated", 0) + n
        return True

    def cross_check(self, m, O, what):
        """Evaluate the encoding under a model and compare with the real function."""
        h = self.h
        vals = {i.name: self.concretise(m, i.el, i.dtype) for i in h.inputs}
        try:
            real = self.run_real(vals)
        except Exception as e:
            self.res["status"] = "violation"
            self.res["violation"] = {"label": f"raises {type(e).__name__}: {str(e)[:300]}",
                                     "inputs": self.dump(vals)}
            return False
        self._compare(m, O, real, what)
        bad = [g for g in self.concrete_goals(vals, real) if not g[1] and g[2] == "obs"]
        if bad:
            self.res["status"] = "violation"
            self.res["violation"] = {"label": bad[0][0], "all": [b[0] for b in bad][:20],
                                     "inputs": self.dump(vals),
                                     "outputs": self.dump({k: v.np() for k, v in real.items()})}
            return False
        self.res["traces_validated"] = self.res.get("traces_validated", 0) + 1
        return True

    def _compare(self, m, O, real, what):
        for nm, o in O.items():
            if isinstance(o, Raw):
                continue
            if self.h.unstable_nondet:
                continue
            if any(T.is_sym(e) and has_uf(e) for e in o.flat()):
                continue
            v = self.concretise(m, o.el, o.dtype)
            if not same_bits(v, real[nm].np()):
                raise RuntimeError(f"{what}: encoding differs from the real function on {nm}: "
                                   f"{v!r} vs {real[nm].np()!r}"[:1500])

    def turns_of(self, m):
        """The order of accesses a model chose, per kernel call."""
        out = []
        for g, where, evs in self.ip.schedule:
            on = lambda t: not T.is_sym(t) and bool(t) or T.is_sym(t) and z3.is_true(m.eval(t, model_completion=True))
            if not on(g):
                continue
            ev = [(m.eval(t, model_completion=True).as_long(), pid) for pid, _, gd, t in evs if on(gd)]
            out.append((where, [pid for _, pid in sorted(ev)]))
        return out

    def report(self, m, gs, O, turns=None):
        h = self.h
        vals = {i.name: self.concretise(m, i.el, i.dtype) for i in h.inputs}
        labels = [g[0] for g in gs if z3.is_false(m.eval(T.bt(g[1]), model_completion=True))]
        if h.no_run:
            ok = h.confirm(vals, m) if h.confirm else None
            if ok:
                self.res["status"] = "violation"
                self.res["violation"] = {"label": labels[0] if labels else gs[0][0],
                                         "detail": ok, "inputs": self.dump(vals)}
            else:
                self.res["status"] = "error"
                self.res["error"] = f"counterexample not reproduced: {labels[:5]}"
            return True
        if gs[0][2] == "oblig":
            # a kernel obligation (bounds, races): execute the traced code on this concrete input
            ip = Interp(max_unroll=100000)
            ip.run_closed(self.closed, [lift(vals[i.name]) for i in h.inputs])
            bad = [l for l, t in ip.obligations if not T.is_sym(t) and not t]
            if bad:
                self.res["status"] = "violation"
                self.res["violation"] = {"label": bad[0], "all": bad[:20], "inputs": self.dump(vals)}
                return True
        real = self.run_real(vals, turns)
        bad = [g for g in self.concrete_goals(vals, real) if not g[1] and g[2] != "inv"]
        if not bad:
            self.res["status"] = "error"
            self.res["error"] = f"counterexample does not reproduce: {labels[:5]} {self.dump(vals)}"[:4000]
            return "spurious" if any(has_uf(T.bt(g[1])) for g in gs) else True
        self.res["status"] = "violation"
        self.res["violation"] = {"label": bad[0][0], "all": [b[0] for b in bad][:20],
                                 "inputs": self.dump(vals), "interleaving": turns,
                                 "outputs": self.dump({k: v.np() for k, v in real.items()})}
        return True

    def try_confirm(self, assumptions, neg, m, gs, O, tries=6):
        h = self.h
        extra = []
        for k in range(tries):
            vals = {i.name: self.concretise(m, i.el, i.dtype) for i in h.inputs}
            det = None
            if h.confirm:
                with self.watchdog(vals):
                    det = h.confirm(vals)
            if det:
                labels = [g[0] for g in gs if z3.is_false(m.eval(T.bt(g[1]), model_completion=True))]
                self.res["status"] = "violation"
                self.res["violation"] = {"label": labels[0] if labels else gs[0][0], "detail": det,
                                         "inputs": self.dump(vals)}
                return True
            # block this model on the symbolic inputs
            lits = []
            for i in h.inputs:
                for v in i.el.reshape(-1):
                    if T.is_sym(v):
                        lits.append(v != m.eval(v, model_completion=True))
            if not lits:
                break
            extra.append(z3.Or(lits))
            # diversify: ask for a different failing goal first
            st, m2 = self.check(assumptions + [neg] + extra, timeout=60)
            if st != "sat":
                break
            m = m2
        return False


def rand_val(rng, x):
    if z3.is_bool(x):
        return z3.BoolVal(bool(rng.integers(2)))
    n = x.size()
    v = int(rng.integers(0, 1 << min(n, 62)))
    if rng.integers(3) == 0:
        v = int(rng.integers(0, min(4, 1 << n)))
    return z3.BitVecVal(v, n)


def z3_vars(e):
    out, seen, st = {}, set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[x.get_id()] = x
        st.extend(x.children())
    return list(out.values())


_CLEAN = {}     # ids of terms known to hold no uninterpreted function (kept alive)


def has_uf(e):
    st, new = [e], []
    while st:
        x = st.pop()
        i = x.get_id()
        if i in _CLEAN:
            continue
        _CLEAN[i] = x
        new.append(i)
        if z3.is_app(x):
            n = x.num_args()
            if n and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                for k in new:
                    del _CLEAN[k]
                return True
            for k in range(n):
                st.append(x.arg(k))
    return False


def same_bits(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    ea, eb = to_elems(a), to_elems(b)
    if (ea == eb).all():
        return True
    if X.is_float(a.dtype):
        na, nb = np.isnan(a.astype(np.float64)), np.isnan(b.astype(np.float64))
        return bool(((ea == eb) | (na & nb)).all())
    return False


def run_harness(h, seed=1, verbose=False):
    return Runner(h, seed, verbose).run()

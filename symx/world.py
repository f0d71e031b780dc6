"""Stand-in accelerator: the code under test believes it runs on a GPU/TPU, kernels are traced as
usual and, when replayed, run under Pallas's own interpreter on the CPU, or, for a counterexample
that needs a particular interleaving, as threads that take turns in the order the solver chose."""
import contextlib
import functools
import os
import threading

KIND = None
TURNS = None        # per pallas_call: (gated operand positions, [program of each access])


def apply(kind):
    global KIND
    import jax
    from jax.experimental import pallas as pl
    KIND = kind
    if kind in ("gpu", "tpu"):
        jax.default_backend = lambda: kind
    real = pl.pallas_call

    @functools.wraps(real)
    def pallas_call(kernel, *a, **kw):
        kw.pop("backend", None)
        kw.pop("compiler_params", None)
        kw["interpret"] = True
        call = real(kernel, *a, **kw)
        if TURNS is None:
            return call
        return functools.partial(threaded, kernel, kw)

    pl.pallas_call = pallas_call


def from_env():
    k = os.environ.get("XV_WORLD")
    if k:
        apply(k)


@contextlib.contextmanager
def running():
    """Pallas's interpreter runs programs one after another and knows few atomics: read, then write."""
    if KIND is None or TURNS is not None:
        yield
        return
    import jax.numpy as jnp
    from jax.experimental.pallas import triton as plt
    ops = {"atomic_or": jnp.bitwise_or, "atomic_and": jnp.bitwise_and, "atomic_xor": jnp.bitwise_xor,
           "atomic_add": jnp.add, "atomic_max": jnp.maximum, "atomic_min": jnp.minimum,
           "atomic_xchg": lambda a, b: b}
    old = {n: getattr(plt, n) for n in ops}

    def mk(n):
        def f(ref, idx, val, *, mask=None):
            o = ref[idx]
            v = ops[n](o, jnp.asarray(val, dtype=o.dtype))
            ref[idx] = v if mask is None else jnp.where(mask, v, o)
            return o
        return f
    for n in ops:
        setattr(plt, n, mk(n))
    try:
        yield
    finally:
        for n in ops:
            setattr(plt, n, old[n])


# ------------------------------------------------------------------ a chosen interleaving


class Gate:
    def __init__(self, order, n):
        self.order, self.k, self.cv, self.done = list(order), 0, threading.Condition(), set()

    def wait(self, pid):
        with self.cv:
            while True:
                while self.k < len(self.order) and self.order[self.k] in self.done:
                    self.k += 1
                if self.k >= len(self.order) or self.order[self.k] == pid:
                    self.k += 1
                    self.cv.notify_all()
                    return
                self.cv.wait(1)

    def finish(self, pid):
        with self.cv:
            self.done.add(pid)
            self.cv.notify_all()


_tls = threading.local()


class ThreadRef:
    def __init__(self, arr, gated):
        self.arr, self.gated = arr, gated
        self.shape, self.dtype = arr.shape, arr.dtype

    @staticmethod
    def _ix(ix):
        import numpy as np
        return tuple(int(np.asarray(i)) if getattr(i, "ndim", 0) == 0 and not isinstance(i, (slice, type(...)))
                     else i for i in (ix if isinstance(ix, tuple) else (ix,)))

    def turn(self):
        if self.gated:
            _tls.gate.wait(_tls.pid)

    def __getitem__(self, ix):
        import jax.numpy as jnp
        self.turn()
        return jnp.asarray(self.arr[self._ix(ix)])

    def __setitem__(self, ix, v):
        import numpy as np
        self.turn()
        self.arr[self._ix(ix)] = np.asarray(v)


def threaded(kernel, kw, *args):
    import jax
    import numpy as np
    gated, order = TURNS.pop(0)
    grid = kw["grid"] if isinstance(kw["grid"], tuple) else (kw["grid"],)
    assert len(grid) == 1
    outs = kw["out_shape"]
    single = not isinstance(outs, (tuple, list))
    outs = [outs] if single else list(outs)
    arrs = [np.array(a) for a in args]
    for k, o in enumerate(outs):
        src = [i for i, q in (kw.get("input_output_aliases") or {}).items() if q == k]
        arrs.append(arrs[src[0]] if src else np.zeros(o.shape, o.dtype))
    refs = [ThreadRef(a, any(a is arrs[g] for g in gated)) for a in arrs]
    gate = Gate(order, grid[0])
    errs = []

    def go(pid):
        _tls.pid, _tls.gate = pid, gate
        try:
            kernel(*refs)
        except Exception as e:      # reported by the caller
            errs.append(e)
        finally:
            gate.finish(pid)

    ts = [threading.Thread(target=go, args=(p,)) for p in range(grid[0])]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    res = [jax.numpy.asarray(a) for a in arrs[len(args):]]
    return res[0] if single else tuple(res)


@contextlib.contextmanager
def turns(order):
    """Run the real kernels eagerly, one thread per program, in the given order of accesses."""
    global TURNS
    import jax
    import numpy as np
    from jax.experimental import pallas as pl
    from jax.experimental.pallas import triton as plt
    ops = {"atomic_or": np.bitwise_or, "atomic_and": np.bitwise_and, "atomic_xor": np.bitwise_xor,
           "atomic_add": np.add, "atomic_max": np.maximum, "atomic_min": np.minimum,
           "atomic_xchg": lambda a, b: b}
    old = {n: getattr(plt, n) for n in ops}
    old_pid = pl.program_id

    def mk(f):
        def g(ref, idx, val, *, mask=None):
            if mask is not None and not bool(mask):
                return jax.numpy.zeros((), ref.dtype)
            ref.turn()
            ix = ref._ix(idx)
            o = ref.arr[ix].copy()
            ref.arr[ix] = f(o, np.asarray(val, dtype=ref.dtype))
            return jax.numpy.asarray(o)
        return g
    for n in ops:
        setattr(plt, n, mk(ops[n]))
    pl.program_id = lambda axis=0: jax.numpy.int32(_tls.pid)
    TURNS = list(order)
    jax.config.update("jax_disable_jit", True)
    try:
        yield
    finally:
        jax.config.update("jax_disable_jit", False)
        TURNS = None
        pl.program_id = old_pid
        for n in ops:
            setattr(plt, n, old[n])

"""Size arithmetic: what is built or packed for N items has room for N items, for every N."""
from props.py_common import *  # noqa: F401,F403
import importlib

from xtructure import BGPQ, HashTable, Queue, Stack

TBL = importlib.import_module("xtructure.hashtable.table")
BG = importlib.import_module("xtructure.bgpq.bgpq")
ST = importlib.import_module("xtructure.stack.stack")
QU = importlib.import_module("xtructure.queue.queue")
BP = importlib.import_module("xtructure.core.xtructure_decorators.aggregate_bitpack.bitpack")
SP = importlib.import_module("xtructure.core.xtructure_decorators.aggregate_bitpack.spec")
FD = importlib.import_module("xtructure.core.field_descriptors")

META = {
    "explanation": (
        "The Python source that sizes storage - the build functions of Stack, Queue, HashTable and BGPQ, the packed "
        "byte counts and the word/tail layout of aggregate packing - is executed symbolically with an unbounded (or "
        "31-bit) integer for the requested size; for every path the solver shows that the storage holds the requested "
        "number of items or bits (with less than one block or word of slack for packed storage). Counterexamples are replayed by building the "
        "container and filling it through its public API."),
    "bounds": "requested size any integer up to 2**31 (container builds) or unbounded (packing); bucket sizes 1..64, "
              "multipliers 1..4, batch sizes 1..65, widths 1..32",
    "assumptions": ["sizes, bucket sizes and multipliers are positive integers"],
}


@xtructure_dataclass
class K:
    k: FieldDescriptor.scalar(dtype=jnp.uint32)


class SymK:
    """Value class of which only the requested batch shape matters."""

    def __init__(self, shape):
        self.batch = tuple(shape)

    @classmethod
    def default(cls, shape=()):
        return SymK(shape)


def rows(v):
    return v.batch if isinstance(v, SymK) else tuple(v.shape.batch)


def ge(a, b):
    return SymInt(PS.num(a)) >= b if isinstance(a, SymNum) or isinstance(b, SymNum) else a >= b


def le(a, b):
    return ge(b, a)


def filled(n):
    return K(k=jnp.arange(n, dtype=jnp.uint32))


def simple(kind):
    C, mod = (Stack, ST) if kind == "Stack" else (Queue, QU)

    def call(V):
        c = C.build(V["n"], K)
        n = V["n"]
        out = {"rows": rows(c.val_store), "max": c.max_size}
        c = c.push(filled(n)) if kind == "Stack" else c.enqueue(filled(n))
        got = c.pop(n)[1] if kind == "Stack" else c.dequeue(n)[1]
        out["kept"] = int(c.size) == n and bool((np.asarray(got.k).reshape(-1) == np.arange(n)).all())
        return out

    def symcall(V):
        name = mod.__name__.split(".")[-1]
        with patched([mod], jnp=SHIM, **{name: dict(unwrapped(mod))}):
            c = C.build(V["n"], SymK)
        return {"rows": rows(c.val_store), "max": c.max_size}

    def spec(V, out):
        k, o = out
        if k == "exc":
            return [(f"{kind}.build raises {type(o).__name__}: {o}", False)]
        g = [("storage has max_size rows", eq(o["rows"], (V["n"],))), ("max_size is the requested size", eq(o["max"], V["n"]))]
        return g + ([("a container built for n holds n", o["kept"])] if "kept" in o else [])
    return PyHarness(f"{kind}_build", ["n"], call, spec, symcall=symcall, view=vw("rows", "max"),
                     assume=lambda V: [V["n"].e >= 1, V["n"].e <= 2 ** 31], replay_ok=lambda v: v["n"] < 10 ** 6)


def vw(*keys):
    return lambda out: (out[0], {k: out[1][k] for k in keys} if out[0] == "ret" else out[1])


def bgpq(batch):
    def call(V):
        b = V.get("b", batch)
        q = BGPQ.build(V["n"], b, K)
        o = struct(q)
        n = V["n"]
        if n <= 200:
            keys = jnp.arange(n, dtype=jnp.float32).astype(jnp.float16)
            for i in range(0, n, b):
                kk, vv = BGPQ.make_batched(keys[i:i + b], filled(n)[i:i + b], b)
                q = q.insert(kk, vv)
            o["holds"] = int(q.size) == n
        return o

    def struct(q):
        ks = q.key_store.shape
        return {"max": q.max_size, "branch": q.branch_size, "batch": q.batch_size, "keys": tuple(ks),
                "vals": rows(q.val_store), "kbuf": tuple(q.key_buffer.shape), "vbuf": rows(q.val_buffer)}

    def symcall(V):
        with patched([BG], jnp=SHIM, bgpq=dict(unwrapped(BG))):
            return struct(BGPQ.build(V["n"], V.get("b", batch), SymK))

    def spec(V, out):
        k, o = out
        if k == "exc":
            return [(f"BGPQ.build raises {type(o).__name__}: {o}", False)]
        b, n = V.get("b", batch), V["n"]
        g = [("max_size >= the requested size", ge(o["max"], n)),
             ("key and value storage match branch x batch", conj([eq(o["keys"], (o["branch"], o["batch"])),
                                                                 eq(o["vals"], o["keys"]), eq(o["batch"], b)])),
             ("max_size is the storage size", eq(o["branch"] * o["batch"], o["max"])),
             ("buffers have batch_size - 1 rows", conj([eq(o["kbuf"], (b - 1,)), eq(o["vbuf"], (b - 1,))]))]
        return g + ([("a queue built for n entries holds n", o["holds"])] if "holds" in o else [])
    vs = ["n"] + (["b"] if batch is None else [])
    return PyHarness(f"BGPQ_build_b{batch or 'any'}", vs, call, spec, symcall=symcall, small=12,
                     view=vw("max", "branch", "batch", "keys", "vals", "kbuf", "vbuf"),
                     assume=lambda V: [V["n"].e >= 1, V["n"].e <= 2 ** 31] + ([V["b"].e >= 1, V["b"].e <= 2 ** 20] if batch is None else []),
                     replay_ok=lambda v: v["n"] < 10 ** 6)


def table(bucket, mult):
    def struct(t):
        return {"slots": t._capacity * t.bucket_size, "rows": rows(t.table), "probes": t.max_probes,
                "fill": tuple(t.bucket_fill_levels.shape), "cap": t.capacity, "buckets": t._capacity}

    def call(V):
        n = V["n"]
        t = HashTable.build(K, 1, n, bucket_size=bucket, hash_size_multiplier=mult)
        o = struct(t)
        if n <= 300:
            t2, ins = t.parallel_insert(filled(n))[:2]
            o["inserted"] = int(np.asarray(ins).sum())
        return o

    def symcall(V):
        with patched([TBL], jnp=SHIM, table=dict(unwrapped(TBL))):
            return struct(HashTable.build(SymK, 1, V["n"], bucket_size=bucket, hash_size_multiplier=mult))

    def spec(V, out):
        k, o = out
        if k == "exc":
            return [(f"HashTable.build raises {type(o).__name__}: {o}", False)]
        n = V["n"]
        if "inserted" in o and o["inserted"] != n:
            return [(f"a table built for {n} records (bucket_size={bucket}, hash_size_multiplier={mult}) takes only "
                     f"{o['inserted']}", False)]
        g = [("slots >= capacity", ge(o["slots"], n)), ("probing reaches every slot", ge(o["probes"], o["slots"])),
             ("storage covers every bucket", conj([raw_b(ge(o["rows"][0], o["slots"])), raw_b(ge(o["fill"][0], o["buckets"]))])),
             ("capacity is the requested one", eq(o["cap"], n))]
        return g
    return PyHarness(f"HashTable_build_b{bucket}_m{mult}", ["n"], call, spec, symcall=symcall, small=40,
                     view=vw("slots", "rows", "probes", "fill", "cap", "buckets"),
                     assume=lambda V: [V["n"].e >= 1, V["n"].e <= 2 ** 31], replay_ok=lambda v: v["n"] < 10 ** 6)


def raw_b(t):
    return t.e if isinstance(t, PS.SymBool) else t


def packed(bits):
    import math
    L = math.lcm(bits, 8)

    def call(V):
        n = V["n"]
        o = {"bytes": BP.packed_num_bytes(n, bits), "fd": FD._packed_num_bytes(n, bits),
             "next": BP.packed_num_bytes(n + 1, bits)}
        if n <= 4096:
            s = BP.to_uint8(jnp.zeros((n,), jnp.bool_ if bits == 1 else jnp.uint8 if bits <= 8 else jnp.uint32), bits)
            o["real"] = int(s.size)
        return o

    def symcall(V):
        with patched([BP, FD]):
            return {"bytes": BP.packed_num_bytes(V["n"], bits), "fd": FD._packed_num_bytes(V["n"], bits),
                    "next": BP.packed_num_bytes(V["n"] + 1, bits)}

    def spec(V, out):
        k, o = out
        if k == "exc":
            return [(f"packed_num_bytes raises {type(o).__name__}: {o}", False)]
        n = V["n"]
        g = [("bytes hold n values", ge(o["bytes"] * 8, n * bits)),
             ("less than one block of slack", le(o["bytes"] * 8, n * bits + L - 1)),
             ("field descriptors reserve the same number of bytes", eq(o["bytes"], o["fd"])),
             ("more values never need fewer bytes", ge(o["next"], o["bytes"]))]
        return g + ([("to_uint8 writes exactly packed_num_bytes bytes", o["real"] == o["bytes"])] if "real" in o else [])
    return PyHarness(f"packed_num_bytes_{bits}", ["n"], call, spec, symcall=symcall, small=200, view=vw("bytes", "fd", "next"),
                     assume=lambda V: [V["n"].e >= 0], replay_ok=lambda v: v["n"] < 10 ** 9)


def layout():
    def call(V):
        w, s, t = SP._compute_word_tail_layout(V["n"])
        return {"words": w, "stored": s, "tail": t}

    def symcall(V):
        with patched([SP]):
            return call(V)

    def spec(V, out):
        k, o = out
        n = V["n"]
        if k == "exc":
            return [(f"layout raises {type(o).__name__}: {o}", False)]
        return [("all words hold the bits", ge(o["words"] * 32, n)),
                ("less than one word of slack", le(o["words"] * 32, n + 31)),
                ("stored words and tail hold the bits", ge(o["stored"] * 32 + o["tail"] * 8, n)),
                ("stored words and tail fit the packed words", le(o["stored"] * 32 + o["tail"] * 8, o["words"] * 32)),
                ("at most two tail bytes", le(o["tail"], 2))]
    return PyHarness("word_tail_layout", ["n"], call, spec, symcall=symcall, small=100,
                     assume=lambda V: [V["n"].e >= 0])


def containers(tier):
    hs = [simple("Stack"), simple("Queue")]
    hs += [bgpq(b) for b in ((1, 2, 3, 8, 64) if tier != "thorough" else tuple(range(1, 66)))]
    return hs


def tables(tier):
    bs = (1, 2, 3, 4, 8, 16, 64) if tier != "thorough" else tuple(range(1, 65))
    return [table(b, m) for b in bs for m in (1, 2, 3, 4)]


def packing(tier):
    return [packed(b) for b in range(1, 33)] + [layout()]


JOBS = {
    "containers": dict(build=containers, cost=60, mem_gb=6),
    "tables": dict(build=tables, cost=80, mem_gb=6),
    "packing": dict(build=packing, cost=40, mem_gb=6),
}

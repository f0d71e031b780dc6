"""Hash table on an accelerator: the slot reservation kernels, every interleaving."""
from props.ht_common import *  # noqa: F401,F403

META = {
    "explanation": (
        "The GPU (Triton) and TPU slot-reservation kernels are reached through HashTable.parallel_insert with the "
        "backend name replaced; the kernel bodies are traced to jaxprs by the real pallas_call and executed "
        "symbolically. For the Triton kernel every access to the occupancy words is an event with a symbolic "
        "time, so one query covers every interleaving of the programs (sequentially consistent); for the TPU "
        "kernel the grid programs must not race and every access must be in bounds. The assertions are those of "
        "P07-P09: exact inserted and unique flags, indices that hold the record, no record lost or overwritten, "
        "later lookups agree. A counterexample is replayed on the real kernels: under Pallas's own interpreter if "
        "grid order shows it, otherwise as threads that take turns in the order the solver chose."),
    "bounds": "tables up to 4x1, 2x2 and 1x32 buckets x slots, batches of 2-3 (GPU: up to 3 programs), any hash "
              "values; histories from build()",
    "assumptions": ["sequentially consistent memory, atomic_or as documented; the GPU/TPU compilers and their "
                    "memory models are outside", "2-bit fingerprints stand in for the 32-bit mix"],
}


def j(build, **kw):
    return dict(build=build, **kw)


def ok(hs):
    return hs() if state_ok() else []


JOBS = {}


def add(world, C, B, N, what, tier="quick", cost=1, **kw):
    n = f"{world}_{what}_{C}x{B}x{N}" + "".join(f"_{k}{v}" for k, v in kw.items())
    JOBS[n] = j(lambda t: ok(lambda: [batch_h(n, C, B, N, what, timeout=760 if tier == "quick" else 3000, **kw)]),
                cost=cost * C * B * N * N, tier=tier, env={"XV_WORLD": world})


for world in ("gpu", "tpu"):
    for C, B, N in [(1, 2, 2), (2, 1, 2), (2, 2, 2), (2, 2, 3)]:
        for what in ("flags", "index", "set", "setp"):
            add(world, C, B, N, what, cost=3 if world == "gpu" else 1)
    add(world, 2, 2, 2, "index", ukey=True)
    add(world, 2, 2, 2, "flags", fmode="scalar")
    for what in ("flags", "index", "set"):
        add(world, 4, 1, 3, what, cost=10 if world == "gpu" else 1, tier="quick" if world == "tpu" else "thorough")
        add(world, 4, 2, 2, what, tier="quick" if world == "tpu" else "thorough")
        add(world, 2, 2, 4, what, tier="thorough")
        add(world, 2, 2, 2, what, mp=2)
        add(world, 4, 1, 2, what, mp=2)
    add(world, 1, 32, 2, "flags", conc=True)
    add(world, 1, 32, 2, "index", conc=True)
    JOBS[world + "_hist"] = j(lambda t: [hist_h("h_2x1_ppL", 2, 1, [("p", 2), ("p", 2), ("L", 2)]),
                                         hist_h("h_2x2_psL", 2, 2, [("p", 2), ("s", 1), ("L", 2)])],
                              cost=40, env={"XV_WORLD": world})
    JOBS[world + "_hist32"] = j(lambda t: [hist_h("h_1x32_spL", 1, 32, [("s", 1), ("p", 1), ("L", 2)])],
                                cost=40, env={"XV_WORLD": world})

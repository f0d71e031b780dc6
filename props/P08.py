"""Hash table: batch insert stores exactly the distinct filled rows, flags and all."""
from props.ht_common import *  # noqa: F401,F403

META = {
    "explanation": (
        "Symbolic execution of HashTable.parallel_insert as traced from the current tree, from ANY reachable table "
        "and ANY batch (rows may repeat each other, stored records, or share any part of the hash): the inserted and "
        "unique flags are exactly right, as many rows go in as there is room for, and afterwards a symbolic query, "
        "through lookup and through lookup_parallel, is found exactly when it was stored before or was inserted, and "
        "at the index that parallel_insert returned. Bounded histories mix batches and single inserts from build()."),
    "bounds": "1x2, 2x2, 4x1 (and 4x2) buckets x slots, batches of 2-3, masks per row / scalar / none, default and "
              "small max_probes; thorough: batches of 4, 2x3, 8x1; "
              "large: 300 rows into 32x16 and 2x256 tables, concrete hashes, symbolic contents",
    "assumptions": ["the arbitrary state satisfies the table invariant, shown inductive by the same harnesses",
                    "_mix_fingerprint is replaced by a weak mixing of the same arguments",
                    "the CPU reservation path (accelerator kernels are P12)"],
}


def j(build, **kw):
    return dict(build=build, **kw)


def ok(hs):
    return hs() if state_ok() else []


JOBS = {}


def add(C, B, N, what, tier="quick", **kw):
    n = f"{what}_{C}x{B}x{N}" + "".join(f"_{v}" for v in kw.values())
    JOBS[n] = j(lambda t: ok(lambda: [batch_h(n, C, B, N, what, timeout=760 if tier == "quick" else 3000, **kw)]),
                cost=C * B * N * N, tier=tier)


for C, B, N in [(1, 2, 2), (2, 2, 2), (2, 2, 3), (4, 1, 3)]:
    for what in ("flags", "set", "setp"):
        add(C, B, N, what)
add(4, 2, 3, "flags")
add(4, 2, 2, "set")
add(4, 2, 3, "setp", tier="thorough")
add(4, 2, 3, "set", tier="thorough")
add(2, 2, 3, "flags", fmode="scalar")
add(2, 2, 3, "flags", fmode="none")
add(2, 2, 2, "set", fmode="scalar")
for mp in (2, 3):
    for what in ("flags", "set", "setp"):
        add(2, 2, 2, what, mp=mp)
for what in ("flags", "set", "setp"):
    add(4, 1, 3, what, mp=2)
for C, B, N in [(2, 2, 4), (2, 3, 3), (4, 1, 4), (8, 1, 3)]:
    for what in ("flags", "set"):
        add(C, B, N, what, tier="thorough")
JOBS["hist"] = j(lambda t: [hist_h("h_2x2_ppL", 2, 2, [("p", 2), ("p", 2), ("L", 2)]),
                            hist_h("h_2x1_psL", 2, 1, [("p", 2), ("s", 1), ("L", 2)])], cost=40)
JOBS["hist2"] = j(lambda t: [hist_h("h_2x2_p3l", 2, 2, [("p", 3), ("p", 2), ("l", 1)])], cost=40)
JOBS["hist_long"] = j(lambda t: [hist_h("h_4x1_pppL", 4, 1, [("p", 2), ("p", 2), ("p", 2), ("L", 2)], timeout=3000)],
                      cost=40, tier="thorough")

JOBS["large"] = dict(build=lambda t: [large_h("large_32x16x300", 32, 16, 300, ('flags', 'index', 'lookup')),
                                      large_h("large_2x256x300", 2, 256, 300, ('flags', 'index', 'lookup'))], cost=60)

"""Batch lookup agrees with single lookups; unfilled rows are never found."""
from props.ht_common import *  # noqa: F401,F403

META = {
    "explanation": (
        "Symbolic execution of HashTable.lookup, lookup_parallel, lookup_bucket and __getitem__ as traced from the "
        "current tree, from ANY table state in which every stored key is reachable along its probe path, with any "
        "hash function (hash pair and fingerprints are symbolic, so every collision pattern is covered): batch and "
        "single lookups report the same found flag and index, found is exactly membership, the index holds the "
        "record, and rows masked out are never found."),
    "bounds": "1x2, 2x1, 2x2, 4x1, 2x3, 4x2 (thorough: 4x3, 8x1) buckets x slots, 1-3 queries, mask / scalar / no "
              "mask, default and small max_probes; large: 300 queries on 32x16 and 2x256 tables",
    "assumptions": ["the arbitrary state satisfies the table invariant shown inductive by P07-P09",
                    "_mix_fingerprint is replaced by a weak mixing of the same arguments so that fingerprint "
                    "collisions occur within the domain"],
}


def j(build, **kw):
    return dict(build=build, **kw)


JOBS = {}
for C, B, N, fm, mp in [(1, 2, 2, "mask", None), (2, 1, 2, "mask", None), (2, 2, 2, "mask", None),
                        (4, 1, 2, "mask", None), (2, 3, 2, "none", None), (2, 2, 3, "scalar", None),
                        (4, 2, 2, "mask", None), (4, 1, 2, "mask", 2), (4, 2, 1, "none", 4), (2, 2, 1, "mask", 3)]:
    n = f"{C}x{B}x{N}_{fm}" + (f"_mp{mp}" if mp else "")
    JOBS[n] = j(lambda t, C=C, B=B, N=N, fm=fm, mp=mp, n=n: [agree_h("lookup_" + n, C, B, N, fm, mp=mp)] if state_ok()
                else [], cost=C * B * N)
for C, B, N in [(4, 3, 2), (8, 1, 2), (2, 5, 2)]:
    n = f"{C}x{B}x{N}_mask"
    JOBS[n] = j(lambda t, C=C, B=B, N=N, n=n: [agree_h("lookup_" + n, C, B, N, timeout=3000)] if state_ok() else [],
                cost=C * B * N, tier="thorough")
JOBS["hist"] = j(lambda t: [hist_h("h_psLl", 2, 1, [("p", 2), ("s", 1), ("L", 2), ("l", 1)]),
                            hist_h("h_pL", 2, 2, [("p", 3), ("L", 3)])], cost=5)

JOBS["large"] = dict(build=lambda t: [large_h("large_32x16x300", 32, 16, 300, ('lookup',)),
                                      large_h("large_2x256x300", 2, 256, 300, ('lookup',))], cost=60)

"""Hash table: size is exact, indices are stable and never shared, stored records never move."""
from props.ht_common import *  # noqa: F401,F403

META = {
    "explanation": (
        "Symbolic execution of HashTable.insert and parallel_insert as traced from the current tree, from ANY "
        "reachable table: the size grows by exactly the number of new records, every stored record stays bit for bit "
        "at its index, a present or duplicate row reports the index of the stored copy, new rows get distinct free "
        "slots that hold them, and fill levels, occupancy bits and fingerprints stay consistent with the contents."),
    "bounds": "1x2..4x2, 8x1, 1x33 and 1x256 buckets x slots for single inserts; 1x2, 2x2, 4x1 with batches of 2-3; "
              "thorough: 4x2 batches, 2x3, batches of 4; large: 300 rows into 32x16 and 2x256 tables",
    "assumptions": ["the arbitrary state satisfies the table invariant, shown inductive here",
                    "_mix_fingerprint is replaced by a weak mixing of the same arguments"],
}


def j(build, **kw):
    return dict(build=build, **kw)


def ok(hs):
    return hs() if state_ok() else []


JOBS = {}
for C, B, tier in [(1, 2, "quick"), (2, 1, "quick"), (2, 2, "quick"), (4, 1, "quick"), (2, 3, "quick"),
                   (4, 2, "quick"), (8, 1, "quick"), (4, 4, "thorough"), (8, 2, "thorough")]:
    JOBS[f"acc_{C}x{B}"] = j(lambda t, C=C, B=B: ok(lambda: [insert_h(f"account_{C}x{B}", C, B, "acc", timeout=3000)]),
                             cost=C * B, tier=tier)
JOBS["acc_1x33"] = j(lambda t: ok(lambda: [insert_h("account_1x33", 1, 33, "acc", conc=True, vb=6)]), cost=30)
JOBS["acc_1x256"] = j(lambda t: ok(lambda: [insert_h("account_1x256", 1, 256, "acc", conc=True, vb=8)]), cost=60)
JOBS["acc_mp"] = j(lambda t: ok(lambda: [insert_h("account_4x1_max2", 4, 1, "acc", mp=2),
                                         insert_h("account_2x2_max3", 2, 2, "acc", mp=3)]), cost=10)
for C, B, N, tier in [(1, 2, 2, "quick"), (2, 2, 2, "quick"), (2, 2, 3, "quick"), (4, 1, 3, "quick"),
                      (4, 2, 2, "quick"), (4, 2, 3, "thorough"), (2, 2, 4, "thorough"), (2, 3, 3, "thorough")]:
    JOBS[f"idx_{C}x{B}x{N}"] = j(lambda t, C=C, B=B, N=N: ok(lambda: [
        batch_h(f"index_{C}x{B}x{N}", C, B, N, "index", timeout=3000)]), cost=C * B * N * N, tier=tier)
JOBS["idx_uk"] = j(lambda t: ok(lambda: [batch_h("index_2x2x3_cost", 2, 2, 3, "index", ukey=True)]), cost=40)
JOBS["hist"] = j(lambda t: [hist_h("h_2x2_pspl", 2, 2, [("p", 2), ("s", 1), ("p", 2), ("l", 1)])], cost=40)

JOBS["large"] = dict(build=lambda t: [large_h("large_32x16x300", 32, 16, 300, ('index',)),
                                      large_h("large_2x256x300", 2, 256, 300, ('index',))], cost=60)

"""Hash table: single inserts and lookups behave as a set of records."""
from props.ht_common import *  # noqa: F401,F403

META = {
    "explanation": (
        "Symbolic execution of HashTable.insert, lookup and __getitem__ as traced from the current tree: an inductive "
        "step from ANY table whose stored keys are distinct and reachable along their probe paths, with any hash "
        "function (each key's hash pair is symbolic, fingerprints collide within the domain): the insert succeeds "
        "exactly when the record is new and a slot on its path is free, afterwards a symbolic query is found exactly "
        "when it was stored before or is the new record, at an index that holds it, and no stored record moves. The "
        "invariant is re-established, so this covers histories of any length; bounded histories through the public "
        "API from build() back it up without relying on the invariant."),
    "bounds": "1x2, 2x1, 2x2, 4x1, 2x3, 4x2, 8x1 buckets x slots (thorough: 4x4, 8x2), bucket size 33 and 256 with "
              "one bucket, default and small max_probes; histories of up to 5 operations",
    "assumptions": ["one 32-bit domain value (all ones in both hashes) is outside the key domain",
                    "_mix_fingerprint is replaced by a weak mixing of the same arguments"],
}


def j(build, **kw):
    return dict(build=build, **kw)


def ok(hs):
    return hs() if state_ok() else []


JOBS = {}
for C, B, tier in [(1, 2, "quick"), (2, 1, "quick"), (2, 2, "quick"), (4, 1, "quick"), (2, 3, "quick"),
                   (4, 2, "quick"), (8, 1, "quick"), (4, 4, "thorough"), (8, 2, "thorough"), (16, 1, "thorough")]:
    JOBS[f"ins_{C}x{B}"] = j(lambda t, C=C, B=B: ok(lambda: [insert_h(f"insert_{C}x{B}", C, B, "set", timeout=3000)]),
                             cost=C * B, tier=tier)
for C, B, mp in [(4, 1, 2), (4, 2, 2), (2, 2, 3), (4, 1, 7)]:
    JOBS[f"mp_{C}x{B}_{mp}"] = j(lambda t, C=C, B=B, mp=mp: ok(lambda: [
        insert_h(f"insert_{C}x{B}_max{mp}", C, B, "set", mp=mp)]), cost=C * B)
JOBS["hist1"] = j(lambda t: [hist_h("h_2x1_sssl", 2, 1, [("s", 1)] * 3 + [("l", 1)]),
                             hist_h("h_1x2_slsl", 1, 2, [("s", 1), ("l", 1), ("s", 1), ("l", 1)]),
                             hist_h("h_2x2_sssl", 2, 2, [("s", 1)] * 3 + [("l", 1)])], cost=5)
JOBS["hist2"] = j(lambda t: [hist_h("h_4x1_sssl", 4, 1, [("s", 1)] * 3 + [("l", 1)]),
                             hist_h("h_2x2_ssssl", 2, 2, [("s", 1)] * 4 + [("l", 1)])], cost=9)
JOBS["hist_long"] = j(lambda t: [hist_h("h_2x2_sssssl", 2, 2, [("s", 1)] * 5 + [("l", 1)], timeout=3000),
                                 hist_h("h_4x1_sssssl", 4, 1, [("s", 1)] * 5 + [("l", 1)], timeout=3000)],
                      cost=9, tier="thorough")
JOBS["realhash"] = j(lambda t: [realhash_h("real_2x2", 2, 2, [("s", 1), ("s", 1), ("l", 1)]),
                                realhash_h("real_4x1_p", 4, 1, [("p", 2), ("s", 1), ("L", 2)])], cost=20)
JOBS["ins_1x33"] = j(lambda t: ok(lambda: [insert_h("insert_1x33", 1, 33, "set", conc=True, vb=6)]), cost=30)
JOBS["ins_1x256"] = j(lambda t: ok(lambda: [insert_h("insert_1x256", 1, 256, "set", conc=True, vb=8)]), cost=60)

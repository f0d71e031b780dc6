"""Priority queue at capacity: exactly one batch is dropped, never from among the smallest."""
from props.bgpq_common import *  # noqa: F401,F403

META = {
    "explanation": (
        "Symbolic execution of BGPQ.insert on a FULL queue (every node occupied) with enough new finite keys to "
        "spill a whole batch: from any valid full state and any block, the solver shows that exactly one batch "
        "leaves, nothing is invented, duplicated or re-paired, size agrees, no entry that left is below any of "
        "the batch that delete_mins returns next, and the representation invariant still holds. "
        "Counterexamples are replayed on the real jitted queue."),
    "bounds": "heap of 1..4 nodes x batch 1..3 and 7 x 2 (thorough: more); float16 keys, 5-bit pattern domain; large: 3 nodes x 300 and 300 x 2 with concrete keys and symbolic values",
    "assumptions": ["keys are not NaN and not -inf", "values are opaque: carried as distinct tags",
                    "which larger entries are dropped is unspecified (documentation: capacity overflow drops "
                    "large keys); the guarantee checked is that none of the smallest batch is"],
}


def j(build, **kw):
    return dict(build=build, **kw)


JOBS = {}
for br, B in [(1, 2), (2, 2), (3, 2), (4, 2), (7, 2), (4, 1), (4, 3), (1, 1)]:
    n = f"{br}x{B}"
    JOBS[f"evict_{n}"] = j(lambda t, br=br, B=B, n=n: [ins_h(f"evict_{n}", br, B, 5, "evict", full=True)],
                           cost=br * B * B)
for br, B in [(5, 2), (6, 2), (8, 2), (7, 3), (3, 4), (15, 2)]:
    n = f"{br}x{B}"
    JOBS[f"evict_{n}"] = j(lambda t, br=br, B=B, n=n: [ins_h(f"evict_{n}", br, B, 5, "evict", full=True,
                                                              timeout=3000)], tier="thorough", cost=br * B * B)
JOBS["evict_4x2_16"] = j(lambda t: [ins_h("evict_4x2_16bit", 4, 2, 16, "evict", full=True)], cost=60)
JOBS["large"] = dict(build=lambda t: [big_h(f"large_{br}x{B}_{ops}", br, B, br - 1, nb, ops)
                                      for br, B, nb in ((3, 300, 299), (300, 2, 1)) for ops in ("ID", "II", "IID")],
                     cost=60)

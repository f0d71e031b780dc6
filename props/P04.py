"""Priority queue: nothing is lost, duplicated or re-paired, and size is the number of entries."""
from props.bgpq_common import *  # noqa: F401,F403

META = {
    "explanation": (
        "Symbolic execution of BGPQ.insert, delete_mins, make_batched(_like) and size as traced from the current "
        "tree. Inductive step from any state satisfying the representation invariant: with every key symbolic "
        "the solver shows that each finite (key, value) pair that went in is found exactly once afterwards (in "
        "the queue or in the returned batch), that nothing else is, that size equals the number of entries, and "
        "that a full batch comes back while that many are stored. Padded (partial) blocks and bounded histories "
        "from build() go through the public API. Counterexamples are replayed on the real jitted queue."),
    "bounds": "heaps (nodes x batch) up to 4x3, 7x2, 15x2 and 31x1 (thorough: 7x3, 15x3, 3x5, 63x1); float16 keys, 5-bit pattern domain "
              "and full 16 bit at 4x2; not-full inserts (the full case is P05); large: 4 nodes x 300 and 300 nodes x 2, concrete float32 keys, symbolic values",
    "assumptions": ["keys are not NaN and not -inf", "values are opaque: carried as distinct tags"],
}


def j(build, **kw):
    return dict(build=build, **kw)


JOBS = {}
for br, B in [(1, 2), (2, 2), (3, 2), (4, 2), (7, 2), (4, 1), (4, 3), (9, 2), (15, 1), (15, 2), (31, 1), (7, 3)]:
    n = f"{br}x{B}"
    JOBS[f"ins_{n}"] = j(lambda t, br=br, B=B, n=n: [ins_h(f"insert_{n}", br, B, 5, "conserve", full=False)],
                         cost=br * B * B)
    JOBS[f"del_{n}"] = j(lambda t, br=br, B=B, n=n: [del_h(f"delete_{n}", br, B, 5, "conserve")], cost=br * B * B)
JOBS["pad_3x3"] = j(lambda t: [ins_h("padded_insert_3x3_1", 3, 3, 5, "conserve", n_new=1, full=False),
                               ins_h("padded_insert_3x3_2", 3, 3, 5, "conserve", n_new=2, full=False)], cost=20)
JOBS["pad_4x2"] = j(lambda t: [ins_h("padded_insert_4x2_1", 4, 2, 5, "conserve", n_new=1, full=False)], cost=20)
for br, B in [(5, 2), (6, 2), (8, 2), (3, 4), (3, 5), (15, 3), (63, 1)]:
    n = f"{br}x{B}"
    JOBS[f"ins_{n}"] = j(lambda t, br=br, B=B, n=n: [ins_h(f"insert_{n}", br, B, 5, "conserve", full=False,
                                                            timeout=3000)], tier="thorough", cost=br * B * B)
    JOBS[f"del_{n}"] = j(lambda t, br=br, B=B, n=n: [del_h(f"delete_{n}", br, B, 5, "conserve", timeout=3000)],
                         tier="thorough", cost=br * B * B)
JOBS["ins_4x2_16"] = j(lambda t: [ins_h("insert_4x2_16bit", 4, 2, 16, "conserve", full=False)], cost=60)
JOBS["del_4x2_16"] = j(lambda t: [del_h("delete_4x2_16bit", 4, 2, 16, "conserve")], cost=60)
JOBS["hist"] = j(lambda t: [hist_h("history_i_d", 3, 2, "IDIID", "conserve"),
                            hist_h("history_pad", 3, 3, "PIDP", "conserve"),
                            hist_h("history_b1", 3, 1, "IIDID", "conserve")], cost=50)
JOBS["hist2"] = j(lambda t: [hist_h("history_fill", 4, 2, "IIIDDD", "conserve")], cost=50)
JOBS["hist_long"] = j(lambda t: [hist_h("history_long", 4, 2, "IIDIIDDD", "conserve", timeout=2000)], cost=90,
                      tier="thorough")
JOBS["large"] = dict(build=lambda t: [big_h("large_4x300", 4, 300, 2, 150, "IPDDI", ("conserve",), partial=260),
                                      big_h("large_300x2", 300, 2, 270, 1, "IDIDP", ("conserve",), partial=1)], cost=60)

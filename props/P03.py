"""Priority queue: delete_mins returns a true minimum batch, ascending, keys with their own values."""
from props.bgpq_common import *  # noqa: F401,F403

META = {
    "explanation": (
        "Symbolic execution of BGPQ.insert and BGPQ.delete_mins as traced from the current tree: an "
        "inductive step from ANY state that satisfies the queue's representation invariant (heap order, "
        "sorted nodes, counted occupancy), all keys symbolic, so histories of any length that keep the "
        "invariant are covered; the solver shows for every such state and block that the returned keys "
        "ascend, none is above anything left behind, every returned key carries the value it was stored "
        "with, and the root is again the minimum batch and the invariant holds. Bounded histories from "
        "build() through the public API only back the step up. A counterexample is replayed on the real "
        "jitted queue; an invariant-only counterexample counts only if draining the real queue shows it."),
    "bounds": "heaps (nodes x batch) up to 4x3, 7x2, 15x2 and 31x1 (thorough: 7x3, 15x3, 3x5, 63x1); float16 keys, 5-bit pattern domain "
              "(0, the powers of two, +inf) and the full 16 bit at 4x2; large: 4 nodes x 300 and 300 nodes x 2, concrete float32 keys, symbolic values",
    "assumptions": ["keys are not NaN and not -inf (the queue's padding uses +inf)",
                    "values are opaque: carried as distinct tags"],
}


def j(build, **kw):
    return dict(build=build, **kw)


JOBS = {}
for br, B in [(1, 2), (2, 2), (3, 2), (4, 2), (7, 2), (4, 1), (4, 3), (9, 2), (15, 1), (15, 2), (31, 1), (7, 3)]:
    n = f"{br}x{B}"
    JOBS[f"ins_{n}"] = j(lambda t, br=br, B=B, n=n: [ins_h(f"insert_{n}", br, B, 5, "order")], cost=br * B * B)
    JOBS[f"del_{n}"] = j(lambda t, br=br, B=B, n=n: [del_h(f"delete_{n}", br, B, 5, "order")], cost=br * B * B)
for br, B in [(5, 2), (6, 2), (8, 2), (3, 4), (3, 5), (15, 3), (63, 1)]:
    n = f"{br}x{B}"
    JOBS[f"ins_{n}"] = j(lambda t, br=br, B=B, n=n: [ins_h(f"insert_{n}", br, B, 5, "order", timeout=3000)],
                         tier="thorough", cost=br * B * B)
    JOBS[f"del_{n}"] = j(lambda t, br=br, B=B, n=n: [del_h(f"delete_{n}", br, B, 5, "order", timeout=3000)],
                         tier="thorough", cost=br * B * B)
JOBS["ins_4x2_16"] = j(lambda t: [ins_h("insert_4x2_16bit", 4, 2, 16, "order")], cost=60)
JOBS["del_4x2_16"] = j(lambda t: [del_h("delete_4x2_16bit", 4, 2, 16, "order")], cost=60)
JOBS["hist"] = j(lambda t: [hist_h("history_i_d", 3, 2, "IDIID"), hist_h("history_fill", 4, 2, "IIIDDD"),
                            hist_h("history_b1", 3, 1, "IIDID")], cost=50)
JOBS["hist2"] = j(lambda t: [hist_h("history_3", 3, 3, "IIDDI")], cost=50)
JOBS["hist_long"] = j(lambda t: [hist_h("history_long", 4, 2, "IIDIIDDD", timeout=2000)], cost=90, tier="thorough")
JOBS["large"] = dict(build=lambda t: [big_h("large_4x300", 4, 300, 2, 150, "IPDDI", ("order",), partial=260),
                                      big_h("large_300x2", 300, 2, 270, 1, "IDIDP", ("order",), partial=1)], cost=60)

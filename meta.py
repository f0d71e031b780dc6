#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, state=None,
         observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                  why_tests_cant=why, anchors={k: v for k, v in {
                      "files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                      "state": state, "observe_at": observe, "hook_needed": None}.items() if v is not None
                      or k == "hook_needed"},
                  _technique=technique, _note=note, _na=na))


SYM = ("the functions are traced from the current tree (jaxpr), executed symbolically and the assertions decided by "
       "z3 for every value within the bounds; counterexamples are replayed on the real jitted code")
TRUST = ("Trusted: jax tracing, the jaxpr interpreter in symx/ (checked bit for bit against the real jitted code on "
         "random and solver-chosen inputs in every run), z3. ")

prop("P01", "Stack behaves as a bounded LIFO of whole records",
     "Whatever sequence of pushes (single or batched, full or partial), pops and peeks is applied, a stack returns "
     "exactly the most recently pushed records that have not been popped, with every field of a record kept "
     "together, in the documented order. Its size is always the number of records pushed and not popped, and peek "
     "changes nothing.",
     ["inputs", "histories"], "any reachable stack state, any record contents, any push/pop/peek sequence within "
     "capacity", "tests push a handful of constants; the state space of sizes x batch sizes x contents is not sampled",
     ["xtructure/stack/stack.py"], [("push/pop/peek slice updates", "xtructure/stack/stack.py")],
     "symbolic execution of the traced Stack methods + z3, inductive step over arbitrary states",
     "Inductive step from an arbitrary stack (capacity <= 6, 2-field records, all contents symbolic) for each "
     "operation and batch size, plus bounded histories from build(). " + TRUST)

prop("P02", "Queue behaves as a bounded FIFO of whole records",
     "Whatever sequence of enqueues (single or batched), dequeues and peeks is applied, a queue returns exactly the "
     "oldest records not yet dequeued, in arrival order, with every field of a record kept together. Its size is "
     "always the number of records enqueued and not dequeued; peek changes nothing and clear empties it.",
     ["inputs", "histories"], "any reachable head/tail position, any record contents, any operation sequence within "
     "capacity", "tests use a few constants and positions",
     ["xtructure/queue/queue.py"], [("head/tail index arithmetic and slice updates", "xtructure/queue/queue.py")],
     "symbolic execution of the traced Queue methods + z3, inductive step over arbitrary states",
     "Inductive step from an arbitrary queue (capacity <= 6, head and tail symbolic, contents symbolic) plus bounded "
     "histories. " + TRUST)

prop("P03", "Priority queue: delete_mins returns a true minimum batch with its own values",
     "Every delete_mins returns keys in ascending order, no finite key left in the queue is smaller than any "
     "returned key, and each returned finite key comes with the value it was inserted with. This holds after any "
     "history of inserts and deletes.",
     ["inputs", "histories"], "every reachable queue state and key/value content, within the size bounds",
     "heap order depends on the interplay of root, nodes and overflow buffer over a history; tests sample random "
     "keys and the heap test file is not even in the stable suite",
     ["xtructure/bgpq/bgpq.py", "xtructure/bgpq/_insert.py", "xtructure/bgpq/_delete.py", "xtructure/bgpq/_merge.py",
      "xtructure/bgpq/_utils.py"],
     [("insert: root merge, buffer merge, path sift-down", "xtructure/bgpq/_insert.py"),
      ("delete_mins: last node to root, sift-down loop", "xtructure/bgpq/_delete.py"),
      ("merge_sort_split", "xtructure/bgpq/_merge.py")],
     "symbolic execution of traced BGPQ insert/delete_mins + z3, inductive step over arbitrary valid heaps",
     "Inductive step over every valid heap of up to 7x2 / 4x3 nodes x batch (thorough: 15x2, 7x3) and every key "
     "block, float16 keys; bounded histories from build(). " + TRUST,
     state=[{"name": "key_store/key_buffer/heap_size/buffer_size", "meaning": "array heap of sorted nodes plus an "
             "overflow buffer", "where": "xtructure/bgpq/bgpq.py"}])

prop("P04", "Priority queue: no entry is lost, duplicated or re-paired; size is exact",
     "As long as capacity is not exceeded, every (key, value) pair inserted with a finite key is returned by "
     "delete_mins exactly once, unchanged, and nothing else with a finite key is ever returned. The reported size is "
     "always the number of finite-key entries held, and a full batch is returned whenever that many are held; "
     "padding a partial block adds no entries.",
     ["inputs", "histories"], "every reachable not-overfull state, every block including partial and unsorted ones",
     "losing one entry needs a particular arrangement of buffer, root and path; tests use sizes/keys at random",
     ["xtructure/bgpq/bgpq.py", "xtructure/bgpq/_insert.py", "xtructure/bgpq/_delete.py", "xtructure/bgpq/_merge.py",
      "xtructure/bgpq/_utils.py"],
     [("buffer merge and overflow", "xtructure/bgpq/_insert.py"), ("size property", "xtructure/bgpq/bgpq.py"),
      ("row scatter of updated nodes", "xtructure/bgpq/_utils.py"), ("make_batched padding",
                                                                      "xtructure/bgpq/_insert.py")],
     "symbolic execution of traced BGPQ insert/delete_mins/size + z3, multiset conservation per step",
     "Same bounds as P03; entries carry distinct concrete tags so conservation is exact. " + TRUST)

prop("P05", "Priority queue at capacity drops one batch, never from among the smallest",
     "Inserting into a full priority queue drops at most one batch-worth of entries and keeps every other entry with "
     "its value, without inventing or duplicating any. No dropped entry has a key smaller than any key of the batch "
     "that delete_mins would return next, and the queue keeps working as a priority queue.",
     ["inputs", "histories"], "every full state and every incoming block", "needs a full heap with chosen key "
     "arrangements", ["xtructure/bgpq/_insert.py"], [("worst-node replacement path", "xtructure/bgpq/_insert.py")],
     "symbolic execution of traced BGPQ.insert on full heaps + z3",
     "Every full valid heap up to 7x2 / 4x3 (thorough: 15x2, 7x3), every block that spills a batch. " + TRUST)

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "meta_more.py")).read())

ROOT = os.path.dirname(os.path.abspath(__file__))


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks, na = [], []
    for p in P:
        if p["_na"] or not os.path.exists(os.path.join(ROOT, "props", p["id"] + ".py")):
            na.append({"property": p["id"], "reason": p["_na"] or "planned; its check is not built yet"})
            continue
        checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
                       "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                       "evidence_file": f"evidence/{p['id']}.json",
                       "technique": p["_technique"], "level": "other", "level_note": p["_note"]})
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
         "notes": "Checks trace /repo's working tree on every run; no hooks in /repo. " + SYM}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties", len(checks), "checks")


if __name__ == "__main__":
    main()

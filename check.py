#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]: run every job of a property, write evidence, verdict."""
import argparse
import ast
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def job_table(prop):
    """The JOBS table of a property module, asked of the module itself."""
    env = base_env({})
    r = subprocess.run([PY, "-c", (
        "import sys,json;sys.path[:0]=[%r,%r];sys.dont_write_bytecode=True;import importlib;"
        "m=importlib.import_module('props.%s');"
        "print('@@'+json.dumps({k:{a:b for a,b in v.items() if a!='build'} for k,v in m.JOBS.items()}));"
        "print('##'+json.dumps(getattr(m,'META',{})))")
        % (ROOT, os.environ.get("XVERIF_REPO", "/repo"), prop)], env=env, capture_output=True, text=True)
    t = m = None
    for line in r.stdout.splitlines():
        if line.startswith("@@"):
            t = json.loads(line[2:])
        if line.startswith("##"):
            m = json.loads(line[2:])
    if t is None:
        raise RuntimeError("cannot load property module:\n" + r.stdout[-2000:] + r.stderr[-4000:])
    return t, m


def base_env(extra):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("XTRUCTURE_", "JAX_"))}
    env.update(JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
               XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
               TF_CPP_MIN_LOG_LEVEL="3", HOME=os.environ.get("HOME") or "/root")
    env.update({k: str(v) for k, v in extra.items()})
    return env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--jobs")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    table, meta = job_table(a.prop)
    names = [n for n, j in table.items() if a.tier == "thorough" or j.get("tier", "quick") == "quick"]
    if a.jobs:
        names = [n for n in names if any(x in n for x in a.jobs.split(","))]
    names.sort(key=lambda n: -table[n].get("cost", 1))
    budget = 840 if a.tier == "quick" else 3300
    tmp = tempfile.mkdtemp(prefix="xv_")
    running, done, queue = {}, {}, list(names)
    known, found = load_known(), None
    try:
        while queue or running:
            if found and time.time() - found > 90:
                queue.clear()
            while queue and len(running) < a.j:
                n = queue.pop(0)
                out = os.path.join(tmp, n + ".json")
                log = open(os.path.join(tmp, n + ".log"), "w")
                p = subprocess.Popen([PY, "-m", "symx.worker", "--prop", a.prop, "--job", n, "--tier",
                                      a.tier, "--seed", str(seed), "--out", out, "--mem-gb",
                                      str(table[n].get("mem_gb", 10))], cwd=ROOT, stdout=log,
                                     stderr=subprocess.STDOUT, env=base_env(table[n].get("env", {})))
                running[n] = (p, out, log, time.time())
            time.sleep(0.05)
            for n, (p, out, log, ts) in list(running.items()):
                over = time.time() - t0 > budget or (found and time.time() - found > 90)
                if p.poll() is None and not over:
                    continue
                if p.poll() is None:
                    p.kill()
                    p.wait()
                log.close()
                del running[n]
                if os.path.exists(out):
                    done[n] = json.load(open(out))
                    if not found and any(r["status"] == "violation" and not match_known(known, a.prop, n, r)
                                         for r in done[n]["results"]):
                        found = time.time()     # the verdict is settled: the rest gets a short grace period
                else:
                    tail = open(os.path.join(tmp, n + ".log")).read()[-1500:]
                    done[n] = {"job": n, "results": [], "error": "job killed or timed out" if over
                               else f"worker died rc={p.returncode}: {tail}", "wall_s": time.time() - ts}
    finally:
        for n, (p, *_r) in running.items():
            p.kill()
        shutil.rmtree(tmp, ignore_errors=True)
    if found:       # jobs cut short after the verdict was settled are not errors
        done = {n: d for n, d in done.items() if not (d.get("error") == "job killed or timed out")}
    sys.exit(conclude(a, seed, t0, table, meta, done))


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p))["open"] if os.path.exists(p) else []


def match_known(known, prop, job, r):
    lab = (r.get("violation") or {}).get("label", "")
    for k in known:
        if k.get("status") == "open" and k["property"] == prop and k["harness"] == r["name"] \
                and all(any(x in l for x in k["labels"]) for l in (r["violation"].get("all") or [lab])):
            return k
    return None


def conclude(a, seed, t0, table, meta, done):
    known = load_known()
    viol, errors, inconc, kf = [], [], [], []
    tot = dict(harnesses=0, queries=0, solver_s=0.0, goals=0, eqns=0, traces=0, covers=0, obligations=0)
    funcs, samples, notes = set(), [], []
    for n, d in sorted(done.items()):
        if d.get("error"):
            errors.append(f"{n}: {d['error']}")
        for r in d["results"]:
            tot["harnesses"] += 1
            tot["queries"] += r.get("queries", 0)
            tot["solver_s"] += r.get("solver_s", 0)
            tot["goals"] += r.get("goals", 0)
            tot["eqns"] += r.get("eqns", 0)
            tot["traces"] += r.get("traces_validated", 0)
            tot["covers"] += len(r.get("covers", []))
            funcs.update(r.get("functions", []))
            samples.append({"harness": r["name"], "status": r["status"], "bounds": r.get("bounds", ""),
                            "goals": r.get("goals"), "queries": r.get("queries"),
                            "solver_s": round(r.get("solver_s", 0), 2), "eqns": r.get("eqns"),
                            "covers": r.get("covers"), "wall_s": r.get("wall_s")})
            notes += [f"{r['name']}: {x}" for x in r.get("notes", [])]
            if r["status"] == "violation":
                k = match_known(known, a.prop, n, r)
                if k:
                    kf.append((k, r))
                else:
                    viol.append((n, r))
            elif r["status"] == "error":
                errors.append(f"{n}/{r['name']}: {r.get('error')}")
            elif r["status"] == "inconclusive":
                inconc.append(f"{n}/{r['name']}: {r.get('error')}")
    lines = []
    seen = set()
    for k, r in kf:
        if k["id"] in seen:
            continue
        seen.add(k["id"])
        lines.append(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    vout = []
    for n, r in viol:
        os.makedirs(os.path.join(ROOT, "out"), exist_ok=True)
        path = os.path.join(ROOT, "out", f"{a.prop}_{n}_{r['name']}.json".replace("/", "_"))
        json.dump({"property": a.prop, "job": n, "harness": r["name"], "tier": a.tier,
                   "env": table[n].get("env", {}), "violation": r["violation"]}, open(path, "w"), indent=1)
        lines.append(f"VIOLATION property={a.prop} replay={path}")
        lines.append(f"  harness {n}/{r['name']}: {r['violation'].get('label')}")
        vout.append({"property": a.prop, "harness": r["name"], "label": r["violation"].get("label"),
                     "replay": path})
    wall = round(time.time() - t0, 2)
    expl = meta.get("explanation", "") + (
        f" This run: {len(done)} jobs, {tot['harnesses']} harnesses, {tot['goals']} assertions over "
        f"{tot['eqns']} jaxpr equations traced from the current tree; {tot['queries']} solver queries, "
        f"{tot['solver_s']:.1f} s solver time; {tot['traces']} concrete runs of the real jitted code "
        f"compared bit for bit with the encoding; {tot['covers']} reachability witnesses."
        + (" UNDECIDED, not part of what held: " + "; ".join(x[:200] for x in inconc + errors)[:2500] if inconc + errors else "")
        + (" NOTES: " + "; ".join(notes)[:1500] if notes else ""))
    ev = {"property": a.prop, "tier": a.tier, "seed": seed, "level": "other",
          "coverage": {"explanation": expl, "assertions": tot["goals"], "queries": tot["queries"],
                       "solver_s": round(tot["solver_s"], 2), "equations_encoded": tot["eqns"],
                       "traces_validated_against_impl": tot["traces"],
                       "reachability_witnesses": tot["covers"],
                       "functions_encoded": sorted(funcs), "bounds": meta.get("bounds", ""),
                       "samples": samples, "undecided": inconc + [e[:300] for e in errors], "violations_detail": vout},
          "wall_s": wall, "assumptions": meta.get("assumptions", []), "violations": len(vout)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", a.prop + ".json"), "w"), indent=1)
    for l in lines:
        print(l)
    for e in errors[:10]:
        print("UNDECIDED (error) " + e[:500], file=sys.stderr)
    for e in inconc[:10]:
        print("UNDECIDED " + e[:500], file=sys.stderr)
    print(f"{a.prop} {a.tier}: {tot['harnesses']} harnesses, {tot['goals']} goals, {tot['queries']} queries, "
          f"{wall}s; violations {len(viol)} known {len(seen)} errors {len(errors)} inconclusive {len(inconc)}")
    if viol:
        return 1
    if (errors or inconc) and (os.environ.get("XVERIF_STRICT") or not any(
            r["status"] in ("ok", "violation") for d in done.values() for r in d["results"])):
        return 3
    return 0        # held on everything decided; what was left undecided is listed above and in the evidence


if __name__ == "__main__":
    main()

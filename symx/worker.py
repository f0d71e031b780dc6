"""Runs one job (a list of harnesses) of one property in its own process."""
import argparse
import importlib
import json
import os
import resource
import sys
import time
import traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--job", required=True)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--only")
    ap.add_argument("--mem-gb", type=float, default=12)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    m = int(a.mem_gb * (1 << 30))
    resource.setrlimit(resource.RLIMIT_AS, (m, m))
    sys.setrecursionlimit(100000)
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, root)
    repo = os.environ.get("XVERIF_REPO", "/repo")
    sys.path.insert(0, repo)
    sys.dont_write_bytecode = True
    from symx import world
    world.from_env()
    results = []
    t0 = time.time()
    err = None

    def save(results, err):
        out = {"job": a.job, "results": results, "error": err, "wall_s": round(time.time() - t0, 2),
               "maxrss_mb": resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024}
        if a.out:
            with open(a.out + ".tmp", "w") as f:
                json.dump(out, f, default=str)
            os.rename(a.out + ".tmp", a.out)
        return out

    try:
        from symx import harness
        harness.ON_HANG = lambda r: save(results + [r], None)
        from props import common
        common.setup(a.tier, a.seed)
        mod = importlib.import_module("props." + a.prop)
        for h in mod.JOBS[a.job]["build"](a.tier):
            if a.only and a.only not in h.name:
                continue
            r = h.execute(a.seed, a.v) if hasattr(h, "execute") else harness.run_harness(h, a.seed, a.v)
            results.append(r)
            save(results, "job stopped before its last harness")
            if a.v:
                print(f"{r['status']:12s} {r['name']} wall {r.get('wall_s')} solver {r['solver_s']:.1f} "
                      f"enc {r.get('encode_s')} q {r['queries']} goals {r['goals']} eqns {r.get('eqns')} "
                      f"covers {r['covers']} notes {r['notes']}", flush=True)
                if r["status"] == "violation":
                    print("   ", json.dumps(r["violation"])[:2500])
                if r.get("error"):
                    print("   ERROR", r["error"][-1200:], flush=True)
    except Exception as e:
        err = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-3000:]
    out = save(results, err)
    if a.v:
        print("job", a.job, "error", err, "wall", out["wall_s"], "rss", out["maxrss_mb"])
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()

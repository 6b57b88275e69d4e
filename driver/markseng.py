"""The marker engine: which handles the compiled library lets cross threads, and what can come of it."""
import json, os, time
from common import BUILD, CheckError, VERIF, Violation, Worker, log, pool, sh

RUNS = {"quick": [{"n": 2, "k": 3, "depth": 8}, {"n": 1, "k": 3, "depth": 9}, {"n": 3, "k": 3, "depth": 7}, {"n": 2, "k": 4, "depth": 7}],
        "thorough": [{"n": 2, "k": 3, "depth": 10}, {"n": 1, "k": 3, "depth": 12}, {"n": 4, "k": 3, "depth": 8}, {"n": 3, "k": 4, "depth": 8}]}
ASSUME = [
    "bounded: slices of n items, at most k handles, two virtual threads, histories of at most `depth` operations, moves and loans",
    "whether a type is Send or Sync for items of a kind is what the compiled library says for the listed item types of that kind",
    "loans are of shared references; a mutable reference is no more than the handle being moved and moved back",
]


def build():
    t = time.time()
    target = os.path.join(BUILD, "marks")
    rc, out = sh(["cargo", "build", "--offline", "--quiet", "--target-dir", target], cwd=os.path.join(VERIF, "marks"), env={"RUSTFLAGS": "--cap-lints=warn"})
    if rc != 0:
        raise CheckError("the marker engine does not build against /repo:\n" + out[-4000:])
    log(f"built marks in {time.time() - t:.1f} s")
    return os.path.join(target, "debug", "marks")


def one(binary, r, limit):
    argv = [binary] + [f"--{k}={v}" for k, v in r.items()]
    w = Worker("marks", argv, limit=limit, mem_gb=8).run()
    for line in w.out.splitlines():
        if line.startswith("FAIL ") and w.rc == 1:
            return Violation("marks", json.loads(line[5:]) if line[5:].startswith('"') else line[5:], {"argv": argv[1:]})
        if line.startswith("RESULT ") and w.rc == 0:
            return {"args": r, "res": json.loads(line[7:]), "wall": round(w.wall, 1)}
    raise CheckError(f"the marker engine ended with {w.rc} (timed out: {w.timed_out}):\n{w.out[-2000:]}")


def check(prop, tier):
    binary = build()
    rs = pool(RUNS[tier], lambda r: one(binary, r, 600 if tier == "quick" else 7200))
    v = next((r for r in rs if isinstance(r, Violation)), None)
    done = [r for r in rs if isinstance(r, dict)]
    tot = lambda f: sum(r["res"][f] for r in done)
    cov = {
        "states": tot("states"), "transitions": tot("transitions"), "traces_validated_against_impl": tot("transitions"),
        "explorations": tot("explorations"), "markers_probed": tot("markers_probed"), "withheld_markers_explored": tot("withheld_markers_explored"),
        "item_types": max([r["res"]["item_types"] for r in done] or [0]), "deepest": max([r["res"]["deepest"] for r in done] or [0]),
        "exhaustive": v is None and len(done) == len(rs),
        "runs": [{**r["args"], "states": r["res"]["states"], "transitions": r["res"]["transitions"], "wall_s": r["wall"]} for r in done],
        "samples": [x for r in done[:1] for x in r["res"]["samples"]],
    }
    return "model_checking", cov, ASSUME, v


def replay(d):
    w = Worker("replay", [build()] + d["argv"], limit=7200).run()
    print(w.out)
    return w.rc != 0

"""The concurrent engine: builds it and runs sets of scenarios, in shards."""
import json, os, time
import common
from common import BUILD, CheckError, VERIF, Violation, Worker, log, pool, sh

# (set of scenarios, most preemptions per execution, most loads that don't read the latest)
QUICK = [("unique1", 6, 3), ("unique2", 4, 2), ("unique2n5", 3, 2), ("unique3t", 3, 2), ("pair3", 2, 2), ("deep", 2, 2), ("pair", 2, 2), ("trio", 1, 2), ("twohold", 1, 2), ("two", 2, 2),
         ("deephold", 2, 2), ("triokeep", 1, 2), ("twotwo", 1, 2),
         ("refs", 2, 2), ("refs1", 3, 2), ("refstwo", 1, 2), ("refstrio", 2, 2), ("refstwotwo", 1, 2), ("parts", 2, 2), ("parts2", 1, 2)]
THOROUGH = [("unique1", 8, 3), ("unique2", 5, 3), ("unique2n5", 4, 2), ("unique3t", 5, 2), ("pair3", 3, 3), ("deep", 3, 2), ("pair", 4, 2), ("deephold", 3, 2), ("two", 3, 2), ("trio", 2, 2), ("triokeep", 2, 2),
            ("twohold", 2, 2), ("twotwo", 2, 2), ("three1", 2, 2),
            ("refs", 4, 3), ("refs1", 6, 3), ("refstwo", 3, 2), ("refstrio", 4, 2), ("refstwotwo", 3, 2), ("parts", 3, 2), ("parts2", 3, 2)]
SHARDS = 32
# In case the machine is much slower than thought: stop after this, and say so.
BUDGET = {"quick": 600, "thorough": 7200}
MAX_RESTARTS = 40


def build():
    t = time.time()
    target = os.path.join(BUILD, "conc")
    rc, out = sh(["cargo", "build", "--offline", "--quiet", "--target-dir", target], cwd=os.path.join(VERIF, "conc"),
                 env={"RUSTC_BOOTSTRAP": "1", "RUSTFLAGS": "--cap-lints=warn -Zcrate-attr=feature(arbitrary_self_types)"})
    if rc != 0:
        raise CheckError("the concurrent engine does not build against /repo:\n" + out[-4000:])
    log(f"built conc in {time.time() - t:.1f} s")
    return os.path.join(target, "debug", "conc")


def parse(out):
    for line in out.splitlines():
        for k in ("RESULT", "FAIL"):
            i = line.find(k + " {")
            if i == 0:
                return k, json.loads(line[len(k) + 1:])
    return None, None


def confirm(binary, prop, f):
    """Run the failing execution again, on its own, and see whether it fails in the same way."""
    argv = [binary, "run", f"--prop={prop}", f"--single={f['scenario']}", f"--path={f['path']}", f"--bound={f['bound']}", f"--stale={f['stale']}", "--trace"]
    w = Worker("confirm", argv, limit=120).run()
    k, d = parse(w.out)
    same = k == "FAIL" and d["tags"] == f["tags"]
    return same, w.out, argv


def run_shard(prop, binary, task, deadline):
    (name, bound, stale), shard = task
    start = 0
    others, total, restarts = [], None, 0
    while True:
        left = deadline - time.time()
        if left < 1:
            return {"task": task, "res": total, "others": others, "cut": True}
        argv = [binary, "run", f"--prop={prop}", f"--set={name}", f"--shard={shard}/{SHARDS}", f"--from={start}", f"--bound={bound}", f"--stale={stale}", f"--secs={int(left)}"]
        w = Worker(prop, argv, limit=left + 240, mem_gb=12).run()
        k, d = parse(w.out)
        if k == "RESULT" and w.rc == 0:
            return {"task": task, "res": d, "others": others + ([d["last_other"]] if d["others"] else []), "cut": d["skipped"] > 0}
        if k == "FAIL":
            if w.rc == 1:
                same, out, argv1 = confirm(binary, prop, d)
                if not same:
                    # With the whole of its scenario before it.
                    argv1 = [binary, "run", f"--prop={prop}", f"--single={d['scenario']}", f"--bound={bound}", f"--stale={stale}", "--trace"]
                    w2 = Worker("confirm", argv1, limit=300).run()
                    k2, d2 = parse(w2.out)
                    if k2 != "FAIL" or d2["tags"] != d["tags"]:
                        raise CheckError(f"a failure that does not reproduce: {json.dumps(d)}\n{out[-1500:]}")
                    out = w2.out
                lines = out.splitlines()
                return Violation("conc", f"{d['msg']}\n  in {d['scenario']}", {"fail": d, "argv": argv1[1:], "trace": lines[-400:]})
            # A failure that says nothing about this property. Go on after it.
            others.append(f"{d['tags']}: {d['msg']} in {d['scenario']}")
            restarts += 1
            start = d["index"] + 1
            if restarts > MAX_RESTARTS:
                return {"task": task, "res": None, "others": others, "cut": True}
            continue
        raise CheckError(f"the concurrent engine ended with {w.rc} (timed out: {w.timed_out}):\n{w.out[-2000:]}\n{' '.join(argv)}")


def check(prop, tier):
    binary = build()
    w = Worker("litmus", [binary, "litmus"], limit=200).run()
    k, lit = parse(w.out)
    if w.rc != 0 or k != "RESULT":
        raise CheckError("the self-test of the memory model fails: " + w.out[-2000:])
    deadline = time.time() + BUDGET[tier]
    todo = QUICK if tier == "quick" else THOROUGH
    rs = pool([(s, i) for s in todo for i in range(SHARDS)], lambda t: run_shard(prop, binary, t, deadline))
    v = next((r for r in rs if isinstance(r, Violation)), None)
    done = [r for r in rs if isinstance(r, dict) and r["res"]]
    tot = lambda f, xs=None: sum(r["res"][f] for r in (done if xs is None else xs))
    calls = {}
    for r in done:
        for c, n in r["res"]["calls"].items():
            calls[c] = calls.get(c, 0) + n
    sets = []
    for s in todo:
        xs = [r for r in done if r["task"][0] == s]
        if xs:
            sets.append({"set": s[0], "preemptions": s[1], "stale_loads": s[2], "scenarios": tot("scenarios", xs), "executions": tot("executions", xs), "states": tot("states", xs),
                         "outcomes": tot("outcomes", xs), "complete": len(xs) == SHARDS and not any(r["cut"] for r in xs)})
    others = sorted({o for r in rs if isinstance(r, dict) for o in r["others"]})
    cov = {
        "states": tot("states"),
        "transitions": tot("points"),
        "traces_validated_against_impl": tot("executions"),
        "scenarios": tot("scenarios"),
        "executions_cut_short_at_known_states": tot("pruned"),
        "context_switches": tot("switches"),
        "stale_reads": tot("stale_reads"),
        "distinct_outcomes": tot("outcomes"),
        "distinct_final_states": tot("end_states"),
        "endings_run": tot("endings"),
        "scenarios_with_several_outcomes": tot("scenarios_with_several_outcomes"),
        "longest_choice_sequence": max([r["res"]["longest_path"] for r in done] or [0]),
        "exhaustive": v is None and len(done) == len(rs) and not any(r["cut"] for r in done) and not others,
        "memory_model_self_test": lit["litmus"],
        "concurrent_calls": calls,
        "sets": sets,
        "samples": [x for r in done for x in r["res"]["samples"]][:6],
    }
    if others:
        cov["failures_of_other_properties_samples"] = others[:5]
    return "model_checking", cov, ASSUME, v


ASSUME = [
    "bounded: the scenarios of the listed sets, at most the stated number of preemptions per execution (switches at a thread's end or while it waits are free) and at most the stated number of loads that read something older than the latest store; within those bounds every interleaving of accesses to atomics and every store a load may read is explored",
    "memory model: C11 without consume, without load buffering (no load reads a store that comes later in the execution), spurious failures of weak exchanges don't happen; std's Arc and Weak are replaced by ones that make the same accesses with the same orderings",
    "executions that reach a state with the same per-thread histories and the same order of stores as an earlier one, with no less of the bounds left, are not run on; nor are endings from the same final state",
]


def replay(d):
    binary = build()
    w = Worker("replay", [binary] + d["argv"], limit=300).run()
    print(w.out)
    return w.rc != 0

"""Driving the sequential engine: explicit-state search and enumeration of histories of the real code."""
import json, os, tempfile, threading
from common import BUILD, REPLAYS, Worker, Violation, CheckError, log, pool, build_seq

RUN = os.path.join(BUILD, "run")
MAX_SKIPS = 6

SH = "Clone,CloneL,CloneR,SplitL,SplitR,Down,GetMut,Upgrade,Drop"
LT = SH + ",IntoMut,IntoImmut"
PT = "Clone,CloneL,CloneR,Down,GetMut,IntoMut,Upgrade,Drop,Parts,Next,Back"
UN = "SplitL,SplitR,IntoIter,Next,Back,From,To,Parts,Drop"
UND = UN + ",Deep,IntoImmut"
ALL = None

S_STARTS = ["SVec", "SBox", "SSpare", "SCollect"]
M_STARTS = ["MVec", "MBox", "MSpare", "MCollect"]
ITEMS = ["tracked", "aligned64", "large", "heap", "odd3", "zst", "zst_aligned32"]


def job(cmd, fam="arc", item="tracked", n=3, k=3, ops=ALL, start="SVec", parts="2", profile="dev", **kw):
    a = {"fam": fam, "item": item, "n": n, "k": k, "start": start, "parts": parts, **kw}
    if ops:
        a["ops"] = ops
    return {"cmd": cmd, "args": a, "profile": profile}


def both(cmd, **kw):
    return [job(cmd, fam=f, **kw) for f in ("arc", "rc")]


def kinds(hist):
    return {x.split("(")[0] for x in hist.split() if "(" in x}


def crash_concerns(prop, args, hist):
    """Whether a crash or hang while running `hist` says something about `prop`."""
    k = kinds(hist)
    last = hist.split()[-1].split("(")[0] if hist.split() else ""
    if prop == "C04":
        return "GetMut" in k
    if prop == "C05":
        return bool(k & {"IntoMut", "IntoImmut"})
    if prop == "C06":
        return bool(k & {"Upgrade"}) or last == "Down"
    if prop == "C07":
        return "Parts" in k or args.get("which") == "P"
    if prop == "C08":
        return args["start"].startswith("M") or "IntoMut" in k or args.get("which") in ("Q", "I")
    return True


def confirm(binary, j, hist):
    """Run one history alone, twice. The text of the failure if it fails both times."""
    cmd = j["cmd"]
    a = dict(j["args"])
    a.pop("histfile", None)
    a.pop("skip", None)
    fams = ["rc", "arc"] if a.get("diff") else [a["fam"]]
    for f in fams:
        a["fam"] = f
        if cmd in ("walk", "traits"):
            argv = [binary, cmd] + [f"--{k}={v}" for k, v in a.items()] + [f"--single={hist}"]
        elif " ; " in hist:
            argv = [binary, "freplay"] + [f"--{k}={v}" for k, v in a.items()] + [f"--hist={hist}"]
        else:
            argv = [binary, "replay"] + [f"--{k}={v}" for k, v in a.items()] + [f"--hist={hist}"]
        rcs = []
        for _ in range(2):
            w = Worker("confirm", argv, limit=60).run()
            rcs.append("timeout" if w.timed_out else w.rc)
        if all(r != 0 for r in rcs) and rcs[0] == rcs[1]:
            how = {66: "hangs", 70: "allocates without end"}.get(rcs[0], f"ends with status {rcs[0]}")
            return f, how, argv
    return None


_n = 0
_lock = threading.Lock()


def run_job(prop, bins, j):
    """Run one engine job to its end, working around crashes that don't concern the property."""
    global _n
    os.makedirs(RUN, exist_ok=True)
    with _lock:
        _n += 1
        me = f"{prop}-{os.getpid()}-{_n}"
    hf, sf = os.path.join(RUN, me + ".hist"), os.path.join(RUN, me + ".skip")
    binary = bins[j["profile"]]
    open(sf, "w").close()
    skipped = []
    try:
        while True:
            a = {"prop": prop, **j["args"], "histfile": hf, "skip": sf}
            argv = [binary, j["cmd"]] + [f"--{k}={v}" for k, v in a.items()]
            limit = float(j["args"].get("secs", 60)) + 60
            w = Worker(prop, argv, limit=limit).run()
            res = None
            for line in w.out.splitlines():
                if line.startswith("RESULT "):
                    res = json.loads(line[7:])
            if res is not None and w.rc == 0:
                res["job"] = {**j["args"], "cmd": j["cmd"], "profile": j["profile"]}
                res["skipped_crashes"] = skipped
                if skipped:
                    res["complete"] = False
                if res["violation"]:
                    return Violation("seq", res["msg"], {"cmd": j["cmd"], "profile": j["profile"], "args": {"prop": prop, **j["args"]}, "hist": res["hist"]})
                return res
            if "ERROR not reproducible" in w.out:
                raise CheckError(w.out[-2000:])
            # It died or hung. See what it was doing.
            r = Worker("readhist", [binary, "readhist", hf], limit=20).run()
            hist = r.out.strip().splitlines()[-1].strip() if r.out.strip() else ""
            base = hist.split("|")[0].strip()
            hist = " ".join(hist.replace("|", " ").split()) if "|" in hist else hist
            c = confirm(binary, {**j, "args": {"prop": prop, **j["args"]}}, hist)
            if c is None:
                raise CheckError(f"worker ended with {w.rc} (timed out: {w.timed_out}) in a way that does not reproduce; it was at: {hist}\n{w.out[-1500:]}\n{' '.join(argv)}")
            fam, how, _ = c
            if crash_concerns(prop, j["args"], hist):
                return Violation("seq", f"the process {how}", {"cmd": j["cmd"], "profile": j["profile"], "args": {"prop": prop, **j["args"], "fam": fam}, "hist": hist})
            skipped.append(base)
            if len(skipped) > MAX_SKIPS:
                return {"states": 0, "transitions": 0, "histories": 0, "steps": 0, "max_depth": 0, "complete": False, "unattributed": 0, "unattributed_sample": "",
                        "samples": [], "outcomes": {}, "faults": 0, "nested_ran": 0, "points": 0, "wall": w.wall,
                        "job": {**j["args"], "cmd": j["cmd"], "profile": j["profile"]}, "skipped_crashes": skipped}
            with open(sf, "a") as f:
                f.write(base + "\n")
    finally:
        for p in (hf, sf):
            if os.path.exists(p):
                os.remove(p)


def run_jobs(prop, jobs):
    bins = {p: build_seq(p) for p in sorted({j["profile"] for j in jobs})}
    # The longest first.
    jobs = sorted(jobs, key=lambda j: -float(j.get("weight", 0)))
    return pool(jobs, lambda j: run_job(prop, bins, j))


def summary(results):
    """Totals over finished jobs."""
    rs = [r for r in results if isinstance(r, dict) and "histories" in r]
    out = {}
    for r in rs:
        for k, v in r["outcomes"].items():
            out[k] = out.get(k, 0) + v
    return {
        "states": sum(r["states"] for r in rs),
        "transitions": sum(r["transitions"] for r in rs),
        "histories": sum(r["histories"] for r in rs),
        "steps": sum(r["steps"] for r in rs),
        "faults": sum(r["faults"] for r in rs),
        "nested_ran": sum(r["nested_ran"] for r in rs),
        "points": sum(r["points"] for r in rs),
        "max_depth": max([r["max_depth"] for r in rs] or [0]),
        "complete": all(r["complete"] for r in rs),
        "unattributed": sum(r["unattributed"] for r in rs),
        "outcomes": out,
        "samples": [f"{r['job']['cmd']} {r['job']['fam']} {r['job']['item']} n={r['job']['n']}: {s}" for r in rs for s in r["samples"][:1]][:6],
        "runs": [{**{k: v for k, v in r["job"].items() if k != "prop"}, "states": r["states"], "transitions": r["transitions"], "depth": r["max_depth"], "complete": r["complete"], "wall_s": r["wall"]} for r in rs],
        "unattributed_samples": [r["unattributed_sample"] for r in rs if r["unattributed"]][:3] + [c for r in rs for c in r["skipped_crashes"]][:3],
    }


def replay(d):
    binary = build_seq(d["profile"])
    j = {"cmd": d["cmd"], "args": d["args"]}
    c = confirm(binary, j, d["hist"])
    if c is None and d["args"].get("diff"):
        a = {**d["args"]}
        for f in ("rc", "arc"):
            a["fam"] = f
            w = Worker("replay", [binary, "replay"] + [f"--{k}={v}" for k, v in a.items()] + [f"--hist={d['hist']}"]).run()
            print(w.out)
        return True
    if c is None:
        print("no failure")
        return False
    print(" ".join(f"'{x}'" for x in c[2]))
    print(Worker("replay", c[2], limit=60).run().out)
    return True

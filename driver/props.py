"""Which engines decide which property, with which bounds."""
import json, os
import common, conceng, markseng, mirieng, seqeng
from common import CheckError, Violation, log
from seqeng import ALL, ITEMS, LT, M_STARTS, PT, S_STARTS, SH, UN, UND, both, job

OTHER = [i for i in ITEMS if i != "tracked"]


def small(n, k, **kw):
    """All operations, a few items, every item type and every way to start, both families."""
    js = []
    for it in ITEMS:
        js += both("bfs", item=it, n=n, k=k, parts="1,2,4", badparts=1, **kw)
    for st in S_STARTS[1:] + M_STARTS:
        js += both("bfs", start=st, n=n, k=k, parts="2", **kw)
    return js


def wide(q, **kw):
    """Longer slices and more parts, few handles at a time: what depends on lengths, halves of halves and so on."""
    js = []
    for n in (5, 6, 7, 8, 9, 13, 17, 33, 100):
        for f in ("arc", "rc"):
            js.append(job("bfs", fam=f, ops=LT, n=n, k=2, profile="release" if n % 2 else "dev", secs=60, **kw))
            if n <= 17:
                js.append(job("bfs", fam=f, ops=UND if n <= 9 or not q else UN, n=n, k=2, start="MVec", parts="2,4", profile="dev" if n % 2 else "release", secs=60, **kw))
            if n in (5, 9, 17):
                js.append(job("bfs", fam=f, ops=PT + ",CloneL,CloneR,SplitL,IntoImmut", n=n, k=2, parts="2,8", secs=60, **kw))
    for it in OTHER:
        for f in ("arc", "rc"):
            js.append(job("bfs", fam=f, item=it, ops=LT, n=9, k=2, secs=60, **kw))
            js.append(job("bfs", fam=f, item=it, ops=UN, n=9, k=2, start="MVec", parts="2,4", secs=60, **kw))
    if "diff" in kw:
        js = [j for j in js if j["args"]["fam"] == "arc"]
    return js


def whole(prop, q):
    """States told apart by all that the library holds: histories of any length. (The jobs that end; how many
    states there are follows from n, k and the operations.)"""
    kw = {"memory": 1, "depth": 0, "secs": 60}
    if prop == "C10":
        kw["diff"] = 1
    shared = prop in ("C01", "C02", "C03", "C04", "C05", "C06", "C10")
    parts = prop in ("C01", "C02", "C03", "C07", "C10")
    unique = prop in ("C01", "C02", "C03", "C08", "C10")
    js = []
    if shared:
        js += both("bfs", ops=LT, n=2, k=3, **kw) + both("bfs", ops=LT, n=1, k=4, **kw) + both("bfs", ops=LT, n=9, k=2, **kw)
        if prop in ("C04", "C05", "C06"):
            js += both("bfs", ops=LT, n=3, k=3, **kw) + both("bfs", ops=SH, n=4, k=3, **kw)
    if parts:
        js += both("bfs", ops=PT, n=2, k=3, parts="2", **kw) + both("bfs", ops=PT, n=4, k=2, parts="2,4", **kw)
    if unique:
        js += both("bfs", ops=UN, n=4, k=2, parts="2,4", start="MVec", **kw) + both("bfs", ops=UN, n=2, k=3, parts="2", start="MVec", **kw)
    for st in S_STARTS + M_STARTS:
        js += both("bfs", n=2, k=2, parts="2,4" if st == "SVec" else "2", start=st, **kw)
    js += both("bfs", n=3, k=2, parts="2,4", start="MVec" if prop == "C08" else "SVec", **kw)
    js += both("bfs", n=0, k=3, parts="2", **kw) + both("bfs", n=1, k=2, parts="2,4", **kw)
    for it in OTHER:
        js += both("bfs", n=2, k=2, parts="2", item=it, **kw)
    if not q:
        kw["secs"] = 1500
        if shared:
            js += both("bfs", ops=LT, n=3, k=3, **kw) + both("bfs", ops=LT, n=4, k=3, **kw) + both("bfs", ops=SH, n=3, k=4, **kw) + both("bfs", ops=SH, n=6, k=3, **kw)
            js += both("bfs", ops=LT, n=2, k=4, **kw)
        if parts:
            js += both("bfs", ops=PT, n=3, k=3, parts="2,4", **kw)
        if unique:
            js += both("bfs", ops=UND, n=2, k=3, parts="2", start="MVec", **kw) + both("bfs", n=4, k=2, parts="2,4", start="MVec", **kw)
        js += both("bfs", n=5, k=2, parts="2,4", **kw) + both("bfs", n=2, k=3, parts="2", **kw)
    if prop == "C10":
        js = [j for j in js if j["args"]["fam"] == "arc"]
    return js


def seq_jobs(prop, tier):
    js = seq_jobs_(prop, tier)
    q = tier == "quick"
    if prop in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10"):
        js += whole(prop, q)
    if prop in ("C01", "C02", "C03"):
        for w in "PQI":
            js += both("walk", which=w, maxlen=9 if q else 17, maxparts=8 if q else 16, start="SVec" if w == "P" else "MVec")
    if prop == "C10":
        js += wide(q, diff=1)
    elif prop in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"):
        js += wide(q)
    return js


def seq_jobs_(prop, tier):
    q = tier == "quick"
    js = []
    if prop in ("C01", "C02", "C03"):
        js += small(3 if q else 5, 2)
        if q:
            js += both("bfs", ops=SH, n=4, k=3) + both("bfs", ops=LT, n=3, k=3) + both("bfs", ops=PT, n=2, k=3, parts="2,4")
            js += both("bfs", ops=UN, n=2, k=3, start="MVec") + both("bfs", ops=SH, n=3, k=4)
            js += both("bfs", ops=UND, n=1, k=3, start="MVec") + both("bfs", ops=ALL, n=2, k=2, depth=0, profile="release")
            js += both("dfs", ops=LT, n=2, k=3, depth=4)
        else:
            for it in ITEMS:
                js += both("bfs", item=it, ops=LT, n=4, k=3, secs=400) + both("bfs", item=it, ops=UND, n=2, k=3, start="MVec", secs=400)
            js += both("bfs", ops=SH, n=4, k=4, secs=700) + both("bfs", ops=LT, n=3, k=4, secs=700) + both("bfs", ops=PT, n=3, k=3, parts="2,4", secs=700)
            js += both("bfs", ops=SH, n=6, k=3, secs=700) + both("bfs", ops=ALL, n=2, k=3, secs=700)
            js += both("bfs", ops=ALL, n=3, k=2, profile="release") + both("dfs", ops=LT, n=2, k=3, depth=6, secs=700)
    elif prop == "C04":
        js += both("bfs", ops=SH, n=4, k=3) + both("bfs", ops=LT, n=3, k=3) + both("bfs", ops=SH, n=3, k=4)
        js += both("bfs", ops=PT, n=2, k=3, parts="2,4")
        for it in ("zst", "odd3", "large"):
            js += both("bfs", ops=SH, item=it, n=3, k=3)
        for st in S_STARTS[1:] + M_STARTS:
            js += both("bfs", ops=LT, start=st, n=2, k=3)
        js += both("bfs", ops=LT, n=0, k=3) + both("bfs", ops=LT, n=1, k=3)
        js += both("bfs", ops="CloneL,CloneR,SplitL,GetMut,Down,Upgrade,Drop", n=3, k=4, secs=100)
        if not q:
            js += both("bfs", ops=SH, n=4, k=4, secs=700) + both("bfs", ops=LT, n=3, k=4, secs=700) + both("bfs", ops=PT, n=3, k=3, parts="2,4", secs=700)
            js += both("bfs", ops=SH, n=8, k=3, secs=700) + both("bfs", ops=SH, n=3, k=5, secs=700)
    elif prop == "C05":
        js += both("bfs", ops=LT, n=4, k=3) + both("bfs", ops=LT, n=2, k=3) + both("bfs", ops=LT, n=1, k=3) + both("bfs", ops=LT, n=0, k=3)
        js += both("bfs", ops=PT + ",IntoImmut", n=2, k=3, parts="2,4")
        js += both("bfs", ops="Clone,CloneL,CloneR,SplitL,Down,IntoMut,IntoImmut,Upgrade,Drop", n=2, k=4, secs=100)
        for it in OTHER:
            js += both("bfs", ops=LT, item=it, n=2, k=3)
        for st in S_STARTS[1:] + M_STARTS:
            js += both("bfs", ops=LT, start=st, n=2, k=3)
        js += both("bfs", ops=ALL, n=3, k=2, parts="1,2,4")
        if not q:
            js += both("bfs", ops=LT, n=3, k=4, secs=700) + both("bfs", ops=LT, n=6, k=3, secs=700) + both("bfs", ops=ALL, n=2, k=3, secs=700)
    elif prop == "C06":
        wk = "Clone,CloneL,CloneR,SplitL,SplitR,Down,Upgrade,Drop,WNew"
        js += both("bfs", ops=wk, n=3, k=4, secs=100) + both("bfs", ops=LT + ",WNew", n=3, k=3) + both("bfs", ops=SH, n=4, k=3)
        js += both("bfs", ops="Clone,CloneL,CloneR,Down,IntoMut,IntoImmut,Upgrade,Drop", n=2, k=4, secs=100)
        js += both("bfs", ops="CloneL,CloneR,Down,Upgrade,Drop,Parts,Next,Back,GetMut", n=2, k=3, parts="2,4")
        js += both("bfs", ops=ALL, n=3, k=2, parts="1,2,4")
        for n in (0, 1):
            js += both("bfs", ops=LT + ",WNew", n=n, k=3)
        for it in OTHER:
            js += both("bfs", ops=LT, item=it, n=2, k=3)
        for st in S_STARTS[1:] + M_STARTS:
            js += both("bfs", ops=LT, start=st, n=2, k=3)
        if not q:
            js += both("bfs", ops=wk, n=5, k=4, secs=700) + both("bfs", ops=LT, n=3, k=4, secs=700) + both("bfs", ops=PT, n=3, k=3, parts="2,4", secs=700)
            js += both("bfs", ops=wk, n=3, k=5, secs=700)
    elif prop == "C07":
        for it in ITEMS:
            js += both("walk", item=it, which="P", maxlen=9 if q else 13, maxparts=8 if q else 16, weight=5 if it == "tracked" else 0)
        js += both("walk", which="P", maxlen=9, maxparts=8, profile="release")
        js += both("bfs", ops=PT, n=2, k=3, parts="2,4", badparts=1, weight=9)
        js += both("bfs", ops="Parts,Next,Back,Clone,Drop,GetMut", n=2, k=3, parts="1,2,4", badparts=1, secs=100, weight=9)
        js += both("bfs", ops="Parts,Next,Back,Clone,Drop", n=5, k=2, parts="1,2,4,8", secs=100)
        js += both("bfs", ops=ALL, n=4, k=2, parts="1,2,4", badparts=1)
        if not q:
            js += both("bfs", ops=PT, n=4, k=3, parts="2,4", secs=700) + both("bfs", ops="Parts,Next,Back,Clone,Drop", n=6, k=4, parts="1,2,4,8", secs=700)
    elif prop == "C08":
        for it in ITEMS:
            for w in "QI":
                js += both("walk", item=it, which=w, maxlen=9 if q else 12, maxparts=8 if q else 16, start="MVec")
        for w in "QI":
            js += both("walk", which=w, maxlen=9, maxparts=8, profile="release", start="MVec")
        js += both("bfs", ops=UN, n=2, k=3, start="MVec", badparts=1, parts="1,2,4") + both("bfs", ops=UN, n=4, k=2, start="MVec", badparts=1, parts="1,2,4")
        js += both("bfs", ops=UND, n=1, k=3, start="MVec")
        js += both("bfs", ops=ALL, n=3, k=2, start="MVec", parts="1,2,4", badparts=1)
        for st in M_STARTS[1:]:
            js += both("bfs", ops=UN, n=3, k=2, start=st, parts="2,4")
        if not q:
            for it in ITEMS:
                js += both("bfs", item=it, ops=UND, n=2, k=3, start="MVec", secs=1000)
            js += both("bfs", ops=UN, n=4, k=3, start="MVec", parts="2,4", secs=700)
    elif prop == "C09":
        for p in ("dev", "release"):
            js += both("traits", maxlen=5 if q else 6, profile=p)
    elif prop == "C10":
        for it in ITEMS:
            js.append(job("bfs", diff=1, item=it, ops=ALL, n=3, k=2, parts="1,2,4", badparts=1))
        js += [job("bfs", diff=1, ops=SH, n=4, k=3), job("bfs", diff=1, ops=LT, n=3, k=3), job("bfs", diff=1, ops=LT, n=2, k=3), job("bfs", diff=1, ops=PT, n=2, k=3, parts="2,4"),
               job("bfs", diff=1, ops=UND, n=1, k=3, start="MVec"), job("bfs", diff=1, ops=SH, n=3, k=4)]
        for st in S_STARTS[1:] + M_STARTS:
            js.append(job("bfs", diff=1, start=st, ops=ALL, n=3, k=2))
        if not q:
            js += [job("bfs", diff=1, ops=SH, n=4, k=4, secs=700), job("bfs", diff=1, ops=LT, n=3, k=4, secs=700), job("bfs", diff=1, ops=PT, n=3, k=3, parts="2,4", secs=700),
                   job("bfs", diff=1, ops=ALL, n=2, k=3, secs=700), job("bfs", diff=1, ops=LT, n=6, k=3, secs=700), job("dfs", diff=1, ops=LT, n=2, k=3, depth=6, secs=700)]
    elif prop in ("C15", "C16"):
        js += both("bfs", ops=LT, n=3, k=3, secs=100, weight=9)
        js += both("bfs", ops=LT, n=2, k=3, memory=1, depth=0, secs=100, weight=9) + both("bfs", ops=ALL, n=2, k=2, parts="2", memory=1, depth=0, secs=100, weight=9)
        js += both("bfs", ops=ALL, n=3, k=2, parts="1,2,4", secs=100)
        js += both("bfs", ops=UND, n=2, k=2, start="MVec", parts="1,2,4", secs=100) + both("bfs", ops="SplitL,SplitR,IntoIter,Next,Back,Deep,Drop,Parts", n=4, k=2, start="MVec", parts="2,4", secs=100)
        js += both("bfs", ops="Parts,Next,Back,Clone,CloneL,Drop,Down,Upgrade", n=4, k=2, parts="2,4", secs=100)
        # An item that a panic leaks also leaks what it owns, so no items that own memory for C15.
        for it in ("aligned64", "large", "zst", "zst_aligned32") + (("heap",) if prop == "C16" else ()):
            js += both("bfs", item=it, ops=ALL, n=2, k=2, parts="2", secs=100)
        for st in S_STARTS[1:] + M_STARTS:
            js += both("bfs", start=st, ops=ALL, n=2, k=2, parts="2", secs=100)
        if prop == "C15":
            for it in ("tracked", "aligned64", "heap", "zst"):
                js += both("panics", item=it, maxlen=4 if q else 7)
        if not q:
            js += both("bfs", ops=LT, n=4, k=3, secs=700) + both("bfs", ops=PT, n=2, k=3, parts="2,4", secs=700) + both("bfs", ops=UND, n=2, k=3, start="MVec", secs=700)
            js += both("bfs", ops="Clone,CloneL,CloneR,SplitL,Down,IntoMut,Upgrade,Drop", n=3, k=4, secs=700)
    return js


SEQ_ASSUME = [
    "bounded: slice length n, at most k live handles besides what a step makes, the listed operations and item types; within those bounds every reachable state is expanded with every enabled operation until no new state appears",
    "states are merged when the reference model's canonical state and a fingerprint of the allocator's live blocks agree; every transition re-executes the whole history on the real library",
    "the reference model (seq/src/model.rs) states what the property means",
]


def check_seq(prop, tier):
    rs = seqeng.run_jobs(prop, seq_jobs(prop, tier))
    v = next((r for r in rs if isinstance(r, Violation)), None)
    s = seqeng.summary(rs)
    cov = {
        "states": s["states"],
        "transitions": s["transitions"],
        "traces_validated_against_impl": s["histories"],
        "steps_run_on_impl": s["steps"],
        "max_depth": s["max_depth"],
        "exhaustive": s["complete"] and v is None,
        "samples": s["samples"],
        "outcomes": s["outcomes"],
        "runs": s["runs"],
    }
    if prop in ("C15", "C16"):
        cov["fault_points"] = s["points"]
        cov["faults_injected"] = s["faults"]
        if prop == "C16":
            cov["reentrant_operations_run"] = s["nested_ran"]
    if s["unattributed"] or s["unattributed_samples"]:
        cov["failures_of_other_properties"] = s["unattributed"]
        cov["failures_of_other_properties_samples"] = s["unattributed_samples"]
    return "model_checking", cov, SEQ_ASSUME, v


ENGINES = {p: check_seq for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C15", "C16")}


for _p in ("C11", "C12", "C13", "C14"):
    ENGINES[_p] = conceng.check
ENGINES["C17"] = mirieng.check
ENGINES["C18"] = markseng.check


def check(prop, tier):
    if prop not in ENGINES:
        raise CheckError("no such check: " + prop)
    level, cov, assume, v = ENGINES[prop](prop, tier)
    return v is None, level, cov, assume, v


def setup():
    for p in ("dev", "release"):
        common.build_seq(p)
    conceng.build()
    mirieng.build()
    markseng.build()


def replay(d):
    if d["engine"] == "seq":
        return 1 if seqeng.replay(d) else 0
    if d["engine"] == "conc":
        return 1 if conceng.replay(d) else 0
    if d["engine"] == "marks":
        return 1 if markseng.replay(d) else 0
    if d["engine"] == "miri":
        return 1 if mirieng.replay(d) else 0
    raise CheckError("unknown engine")

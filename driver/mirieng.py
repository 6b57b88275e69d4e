"""Driving Miri: walks that cover the whole state space, executed on the real code with every memory access checked."""
import itertools, os, re, shutil, subprocess, threading, time
from common import BUILD, REPLAYS, VERIF, CheckError, Violation, Worker, build_seq, log, pool, sh
from seqeng import ALL, LT, PT, SH, UN, UND

RUN = os.path.join(BUILD, "run")
CRATE = os.path.join(VERIF, "miri")
ENV = {
    "CARGO_TARGET_DIR": os.path.join(BUILD, "miri"),
    "XDG_CACHE_HOME": os.path.join(BUILD, "miri-cache"),
    "CARGO_NET_OFFLINE": "true",
    # Leaks are another property's business.
    "MIRIFLAGS": "-Zmiri-tree-borrows -Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-seed=1",
}
BASE = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--manifest-path", os.path.join(CRATE, "Cargo.toml"), "--"]
CHUNK_OPS = 2500
CHUNK_LIMIT = 600
WALK_LIMIT = 60
BUDGET = {"quick": 480, "thorough": 10000}

NAMES = {"Clone": "c", "CloneL": "l", "CloneR": "r", "SplitL": "L", "SplitR": "R", "Down": "d", "GetMut": "g", "IntoMut": "m", "Parts": "p", "Upgrade": "u",
         "IntoImmut": "i", "IntoIter": "I", "Deep": "D", "Next": "n", "Back": "b", "From": "f", "To": "t", "Drop": "x", "WNew": "w"}
LETTERS = {v: k for k, v in NAMES.items()}


def encode(text):
    o = ""
    for x in text.split():
        m = re.fullmatch(r"(\w+)\((\d+)(?:,(\d+))?\)", x)
        o += NAMES[m[1]] + chr(48 + int(m[2])) + chr(48 + int(m[3] or 0))
    return o


def decode(code):
    out = []
    for i in range(0, len(code), 3):
        k, slot, arg = LETTERS[code[i]], ord(code[i + 1]) - 48, ord(code[i + 2]) - 48
        out.append(f"{k}({slot},{arg})" if k in ("Parts", "From", "To") else f"{k}({slot})")
    return " ".join(out)


def build():
    t = time.time()
    rc, out = sh(["cargo", "+nightly", "miri", "setup"], cwd=CRATE, env=ENV)
    if rc != 0:
        raise CheckError("Miri's libraries do not build:\n" + out[-3000:])
    empty = os.path.join(BUILD, "miri-empty")
    open(empty, "w").close()
    rc, out = sh(BASE + ["rc", "word", "1", "SVec", "0", empty, "0", "0", empty + ".out"], env=ENV)
    if rc != 0 or "DONE 0" not in out:
        raise CheckError("the crate run under Miri does not build against /repo:\n" + out[-3000:])
    log(f"built for Miri in {time.time() - t:.1f} s")


def config(fam="arc", item="heap", n=2, start="SVec", panic=0, ops=None, k=2, parts="2", bad=0, gen="tours", **kw):
    return {"fam": fam, "item": item, "n": n, "start": start, "panic": panic, "ops": ops, "k": k, "parts": parts, "bad": bad, "gen": gen, **kw}


HUGE = [2**64 - 1, 2**64 - 2, 2**63, 2**63 + 1]


def configs(tier):
    q = tier == "quick"
    cs = []
    for f in ("arc", "rc"):
        # Everything, on two items.
        cs.append(config(f, "heap", 2, parts="2"))
        cs.append(config(f, "heap", 2, ops=PT, bad=1))
        cs.append(config(f, "odd3", 2, ops=UN, start="MVec", bad=1))
        cs.append(config(f, "odd3", 2, ops=UND, start="MVec", parts=("4" if f == "arc" else "2") if q else "2,4"))
        cs.append(config(f, "aligned64", 3, ops=UN, start="MVec", parts="2,4"))
        for it in ("odd3", "zst", "zst_aligned32", "large"):
            cs.append(config(f, it, 2 if q else 3, ops=LT))
            cs.append(config(f, it, 3, ops=UN, start="MVec", parts="2" if q else "2,4"))
        for n in (0, 1):
            cs.append(config(f, "heap", n, parts="2" if q else "2,4"))
        if f == "arc" or not q:
            cs.append(config(f, "heap", 5, ops="Parts,Next,Back,Clone,CloneL,Drop" if q else PT, parts="8" if f == "arc" else "4"))
            cs.append(config(f, "heap", 7, ops=UN, start="MVec", parts="4"))
        else:
            cs.append(config(f, "heap", 3, ops=PT, parts="4"))
            cs.append(config(f, "heap", 4, ops=UN, start="MVec", parts="4"))
        for st in ("SBox", "SSpare", "SCollect", "MVec", "MBox", "MSpare", "MCollect"):
            cs.append(config(f, "odd3", 2 if q else 3, start=st, ops=LT))
        for n in HUGE:
            cs.append(config(f, "zst_plain", n, start="SVec", gen="short", depth=2 if q else 3))
            cs.append(config(f, "zst_plain", n, start="MVec", gen="short", depth=2 if q else 3))
        # User code that panics.
        for p in (1, 2, 3):
            cs.append(config(f, "heap", 2, ops=LT, panic=p))
            cs.append(config(f, "heap", 3, ops=UND, start="MVec", parts="2,4", panic=p, k=1))
            cs.append(config(f, "heap", 3, ops=UN, start="MVec", parts="2", panic=p))
        if not q:
            for it in ("heap", "odd3", "zst", "aligned64", "large", "word", "zst_aligned32"):
                cs.append(config(f, it, 3, parts="1,2,4", bad=1))
            cs.append(config(f, "heap", 3, ops=LT, k=3))
            cs.append(config(f, "heap", 2, ops=PT, k=3, parts="2,4"))
            cs.append(config(f, "heap", 4, ops=SH, k=3))
            cs.append(config(f, "heap", 2, ops=UN, k=3, start="MVec", parts="2,4"))
            for p in (4, 5, 6):
                cs.append(config(f, "heap", 3, ops=LT, panic=p))
            for n in (9, 17):
                cs.append(config(f, "heap", n, ops=LT))
                cs.append(config(f, "heap", n, ops=PT, parts="2,8"))
    # Both families get their turn before time runs out.
    return [c for i in range(len(cs)) for c in cs[i:i + len(cs) // 2 + 1:len(cs) // 2] if i < len(cs) // 2]


SHARED_ALPHABET = "l00 r00 L00 R00 g00 m00 p02 p08 d00 u10 n00 b00 n10 b10 x00 x10 c00 L10 R10".split()
UNIQUE_ALPHABET = "L00 R00 I00 p02 p08 i00 n00 b00 n10 b10 f01 t01 f03 t03 f00 t00 x00 x10 L10 I10".split()


def generate(binary, c, num):
    """The walks of a configuration, encoded."""
    if c["gen"] == "short":
        al = UNIQUE_ALPHABET if c["start"].startswith("M") else SHARED_ALPHABET
        return ["".join(w) for d in range(c["depth"] + 1) for w in itertools.product(al, repeat=d)], {"states": 0, "transitions": 0, "complete": True}
    dump, hf = os.path.join(RUN, f"C17-{os.getpid()}-{num}.walks"), os.path.join(RUN, f"C17-{os.getpid()}-{num}.hist")
    # What's enabled doesn't depend on the type of the items.
    argv = [binary, "tours", "--prop=C17", f"--fam={c['fam']}", "--item=tracked", f"--n={c['n']}", f"--k={c['k']}", f"--start={c['start']}", f"--parts={c['parts']}",
            f"--badparts={c['bad']}", f"--dump={dump}", "--ahead=5", "--maxlen=40", f"--histfile={hf}", "--secs=300"]
    if c["ops"]:
        argv.append("--ops=" + c["ops"])
    w = Worker("tours", argv, limit=400).run()
    res = None
    for line in w.out.splitlines():
        if line.startswith("RESULT "):
            import json
            res = json.loads(line[7:])
    walks = open(dump).read().splitlines() if os.path.exists(dump) else []
    if res is None or w.rc != 0:
        # It died. What it was doing then is worth a look.
        r = Worker("readhist", [binary, "readhist", hf], limit=20).run()
        hist = r.out.strip().splitlines()[-1].strip() if r.out.strip() else ""
        if not hist and not walks and w.rc not in (66, 70) and not (w.rc or 0) < 0:
            raise CheckError(f"generating walks ended with {w.rc}:\n{w.out[-1500:]}\n{' '.join(argv)}")
        walks.append(" ".join(hist.replace("|", " ").split()))
        res = {"states": 0, "transitions": 0, "complete": False}
    for p in (dump, hf):
        if os.path.exists(p):
            os.remove(p)
    return [encode(x) for x in walks], res


def run_file(c, path, count, limit):
    out = path + ".at"
    w = Worker("miri", BASE + [c["fam"], c["item"], str(c["n"]), c["start"], str(c["panic"]), path, "0", str(count), out], env=ENV, limit=limit, mem_gb=0).run()
    at = None
    if os.path.exists(out):
        lines = open(out, "rb").read().decode("ascii", "replace").splitlines()
        at = int(lines[-1].split()[1], 16) if lines else None
        os.remove(out)
    return w, at


def verdict(w, count):
    """ok, ub, timeout, or other."""
    if w.timed_out:
        return "timeout"
    if w.rc == 0 and f"DONE {count}" in w.out:
        return "ok"
    return "ub" if "Undefined Behavior" in w.out else "other"


_n = 0
_lock = threading.Lock()


def scratch():
    global _n
    with _lock:
        _n += 1
        return os.path.join(RUN, f"C17-{os.getpid()}-c{_n}")


def run_walk(c, walk, limit=WALK_LIMIT):
    p = scratch()
    with open(p, "w") as f:
        f.write(walk + "\n")
    try:
        w, _ = run_file(c, p, 1, limit)
        return w, verdict(w, 1)
    finally:
        os.remove(p)


def explain(out):
    i = out.find("error:")
    return out[i if i >= 0 else -1500:][:3000]


def found(c, walk):
    """A walk that shows undefined behaviour: confirm it, and find its shortest beginning that does."""
    w, v = run_walk(c, walk)
    if v != "ub":
        raise CheckError(f"undefined behaviour that does not reproduce in {c} {decode(walk)}:\n{w.out[-2000:]}")
    heads = [walk[:i] for i in range(0, len(walk), 3)]
    for head, (w2, v2) in zip(heads, pool(heads, lambda h: run_walk(c, h))):
        if v2 == "ub":
            walk, w = head, w2
            break
    first = next((l for l in w.out.splitlines() if "Undefined Behavior" in l), "undefined behaviour")
    return Violation("miri", f"{first}\n  in {c['fam']} {c['item']} n={c['n']} {c['start']}" + (f", user code panics at call {c['panic']}" if c["panic"] else "") + f": {decode(walk)}",
                     {"config": c, "walk": walk, "readable": decode(walk), "report": explain(w.out).splitlines()})


def run_chunk(c, walks, deadline):
    done, others = 0, []
    while walks:
        left = deadline - time.time()
        if left <= 5:
            return {"config": c, "walks": done, "others": others, "cut": True}
        p = scratch()
        with open(p, "w") as f:
            f.write("\n".join(walks) + "\n")
        try:
            w, at = run_file(c, p, len(walks), min(CHUNK_LIMIT, left + 60))
        finally:
            os.remove(p)
        v = verdict(w, len(walks))
        if v == "ok":
            return {"config": c, "walks": done + len(walks), "others": others, "cut": False}
        if v == "timeout" and time.time() >= deadline:
            return {"config": c, "walks": done + (at or 0), "others": others, "cut": True}
        if at is None:
            raise CheckError(f"Miri ended with {w.rc} before anything ran:\n{w.out[-3000:]}")
        if v == "ub":
            return found(c, walks[at])
        # Not undefined behaviour, so not for this check to judge. Go on after it, if it's really that walk.
        w2, v2 = run_walk(c, walks[at])
        if v2 == "ub":
            return found(c, walks[at])
        if v2 == "ok" or "mirirun" not in w.out + "mirirun":
            raise CheckError(f"Miri ended with {w.rc} (timed out: {w.timed_out}) in a way that does not reproduce, at {decode(walks[at])}:\n{w.out[-3000:]}")
        others.append(f"{v2}: {decode(walks[at])}: " + (w2.out.strip().splitlines() or [""])[0][:300])
        done += at + 1
        walks = walks[at + 1:]
        if len(others) > 3:
            return {"config": c, "walks": done, "others": others, "cut": True}
    return {"config": c, "walks": done, "others": others, "cut": False}


def check(prop, tier):
    os.makedirs(RUN, exist_ok=True)
    binary = build_seq()
    build()
    deadline = time.time() + BUDGET[tier]
    cs = configs(tier)
    gen = pool(list(enumerate(cs)), lambda t: generate(binary, t[1], t[0]))
    tasks = []
    for c, (walks, res) in zip(cs, gen):
        chunk, ops = [], 0
        for w in walks + [None]:
            if w is not None:
                chunk.append(w)
                ops += len(w) // 3 + 4
            if chunk and (w is None or ops >= CHUNK_OPS):
                tasks.append((c, chunk))
                chunk, ops = [], 0
    log(f"{len(tasks)} chunks, {sum(len(w) for _, (ws, _) in zip(cs, gen) for w in ws) // 3} operations")
    rs = pool(tasks, lambda t: run_chunk(t[0], t[1], deadline))
    v = next((r for r in rs if isinstance(r, Violation)), None)
    done = [r for r in rs if isinstance(r, dict)]
    others = sorted({o for r in done for o in r["others"]})
    runs = []
    for c, (walks, res) in zip(cs, gen):
        n = sum(r["walks"] for r in done if r["config"] is c)
        runs.append({**{k: x for k, x in c.items() if x}, "n": str(c["n"]), "states": res["states"], "transitions": res["transitions"], "walks": len(walks), "walks_run": n, "operations": sum(map(len, walks)) // 3})
    cov = {
        "states": sum(r["states"] for r in runs),
        "transitions": sum(r["transitions"] for r in runs),
        "traces_validated_against_impl": sum(r["walks_run"] for r in runs),
        "operations_run_under_miri": sum(r["operations"] for r in runs),
        "exhaustive": v is None and not others and all(r["walks_run"] == r["walks"] for r in runs) and all(g[1]["complete"] for g in gen),
        "runs": runs,
        "samples": [f"{c['fam']} {c['item']} n={c['n']}: {decode(g[0][len(g[0]) // 2])}" for c, g in zip(cs, gen) if g[0]][:6],
    }
    if others:
        cov["walks_that_ended_otherwise"] = others[:5]
    return "model_checking", cov, ASSUME, v


ASSUME = [
    "bounded: slice length, live handles, operations and item types as listed; the walks together perform every enabled operation in every state the reference model tells apart",
    "Miri decides what is undefined behaviour: memory out of bounds, freed, uninitialised or misaligned, invalid values and pointer arithmetic, aliasing under Tree Borrows",
    "one thread; the concurrent checks look for races",
]


def replay(d):
    build()
    os.makedirs(RUN, exist_ok=True)
    w, v = run_walk(d["config"], d["walk"])
    print(d["readable"])
    print(w.out)
    return v != "ok"

"""Building, running workers, verdicts, evidence."""
import json, os, subprocess, sys, threading, time, signal, queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(BUILD, "replays")
JOBS = min(8, os.cpu_count() or 8)


class CheckError(Exception):
    """The check could not be carried out: neither verdict."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, cwd=None, env=None, timeout=800):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def build_seq(profile="dev"):
    """Build the sequential engine against /repo's working tree."""
    t = time.time()
    target = os.path.join(BUILD, "seq")
    cmd = ["cargo", "build", "--offline", "--quiet", "--target-dir", target]
    if profile == "release":
        cmd.append("--release")
    rc, out = sh(cmd, cwd=os.path.join(VERIF, "seq"), env={"RUSTFLAGS": "--cap-lints=warn"})
    if rc != 0:
        raise CheckError("the sequential engine does not build against /repo:\n" + out[-4000:])
    log(f"built seq ({profile}) in {time.time() - t:.1f} s")
    return os.path.join(target, "release" if profile == "release" else "debug", "seq")


class Worker:
    """One run of an engine process. `argv`: its command line. `parse`: get its result from its output."""

    def __init__(self, name, argv, env=None, limit=600, mem_gb=6):
        self.name, self.argv, self.env, self.limit, self.mem_gb = name, argv, env or {}, limit, mem_gb
        self.rc = None
        self.out = ""
        self.timed_out = False
        self.wall = 0.0

    def run(self):
        e = dict(os.environ)
        e.update(self.env)
        t = time.time()

        def pre():
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if self.mem_gb:
                resource.setrlimit(resource.RLIMIT_AS, (self.mem_gb << 30, self.mem_gb << 30))

        p = subprocess.Popen(self.argv, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             preexec_fn=pre, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=self.limit)
        except subprocess.TimeoutExpired:
            self.timed_out = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            out, _ = p.communicate()
        self.rc = p.returncode
        self.out = out.decode("utf-8", "replace")
        self.wall = time.time() - t
        return self


def pool(tasks, fn):
    """Run fn on every task, JOBS at a time. A result that is a Violation stops the rest from starting."""
    q = queue.Queue()
    for i, t in enumerate(tasks):
        q.put((i, t))
    results = [None] * len(tasks)
    stop = threading.Event()
    errors = []

    def loop():
        while not stop.is_set():
            try:
                i, t = q.get_nowait()
            except queue.Empty:
                return
            try:
                results[i] = fn(t)
                if isinstance(results[i], Violation) or (isinstance(results[i], dict) and results[i].get("violation_found")):
                    stop.set()
            except Exception as ex:  # reported below
                errors.append(ex)
                stop.set()

    ts = [threading.Thread(target=loop) for _ in range(min(JOBS, max(1, len(tasks))))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for r in results:
        if isinstance(r, Violation):
            return results
    if errors:
        raise errors[0]
    return results


class Violation:
    def __init__(self, engine, what, replay):
        """`replay`: everything `check.py replay` needs, as a dict."""
        self.engine, self.what, self.replay = engine, what, replay


def write_replay(prop, v):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{prop}-{os.getpid()}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "engine": v.engine, "what": v.what, **v.replay}, f, indent=1)
    return path


def write_evidence(prop, tier, level, coverage, wall, assumptions, violations):
    os.makedirs(EVID, exist_ok=True)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    d = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
         "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}
    p = os.path.join(EVID, prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(d, f, indent=1)
    os.replace(p + ".tmp", p)

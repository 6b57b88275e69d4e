#!/usr/bin/env python3
"""check.py <property>        decide a property (tier from VERIF_TIER: quick or thorough)
   check.py replay <file>     run again what a VIOLATION line points to
   check.py setup             build everything from the committed files"""
import json, os, sys, time, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "driver"))
import common, props  # noqa: E402


def known_findings(prop):
    p = os.path.join(common.VERIF, "known_findings.txt")
    out = []
    for line in open(p):
        line = line.strip()
        if line.startswith("known:") and f"property={prop} " in line:
            out.append(line)
    return out


def main():
    what = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if what == "replay":
        with open(sys.argv[2]) as f:
            return props.replay(json.load(f))
    if what == "setup":
        props.setup()
        return 0
    t0 = time.time()
    ok, level, coverage, assumptions, violation = props.check(what, tier)
    wall = time.time() - t0
    common.write_evidence(what, tier, level, coverage, wall, assumptions, 0 if violation is None else 1)
    brief = {k: v for k, v in coverage.items() if isinstance(v, (int, bool, float))}
    print(f"{what} ({tier}): {json.dumps(brief)} in {wall:.1f} s")
    for line in known_findings(what):
        print("KNOWN-FINDING: " + line[len("known:"):].strip())
    if violation is not None:
        path = common.write_replay(what, violation)
        print(f"{violation.what}")
        print(f"VIOLATION property={what} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except common.CheckError as e:
        print("ERROR: " + str(e))
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)

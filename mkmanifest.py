#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
SEQ = "explicit-state search over operation histories of the real library, every transition executed on it and compared with a reference model"
SEQ_NOTE = ("Every reachable state within the stated bounds (items, live handles, operations, item types) is expanded with every enabled operation on the real code; "
            "each transition is followed by probes and a complete teardown under a checking allocator. Trusts the reference model, the state merging argument in DESIGN.md, and that small bounds show the defect.")
C = {}
for p in ("C01", "C02", "C03", "C04", "C05", "C06"):
    C[p] = (SEQ, SEQ_NOTE)
C["C07"] = C["C08"] = ("complete enumeration of the interleavings of both ends, clones, splits, drops and adaptors of the iterators, plus " + SEQ,
    "All interleavings for small lengths and part counts, and selected huge part counts and zero-sized lengths. " + SEQ_NOTE)
C["C09"] = ("exhaustive enumeration of contents over small alphabets, each run on the real traits and on the plain slice",
    "All pairs of contents up to the bound, over alphabets with unordered, equal-but-distinct and never-equal items, seen through whole and partial handles; longer contents by position of first difference. The plain slice's own behaviour is the oracle.")
C["C10"] = ("explicit-state search that runs every history on both families and compares every observation",
    "Every reachable state within the bounds; a history that fails in only one family is a difference. " + SEQ_NOTE)
C["C15"] = ("explicit-state search with a panic injected at every call to user code of every transition",
    "Exhaustive over states, transitions and panic points within the bounds. One panic per history. " + SEQ_NOTE)
C["C16"] = ("explicit-state search with every enabled operation re-entered at every call to user code of every transition",
    "Exhaustive over states, transitions, callback points and re-entrant operations within the bounds. One re-entrant operation per history. " + SEQ_NOTE)
CONC = "stateless exploration of the real code under a controlled scheduler and an explicit weak memory model, with state caching"
CONC_NOTE = ("/repo's sources are compiled against shadow core and alloc crates; every interleaving and every admissible stale read within the stated bounds (2 to 3 threads, 1 to 2 operations each over all combinations, "
             "up to 2 preemptions, 2 stale loads per execution in the quick tier, more in the thorough one) is executed. Trusts the memory model (checked by litmus programs on every run), the replica of std's Arc, and the bounds.")
for p in ("C11", "C12", "C13", "C14"):
    C[p] = (CONC, CONC_NOTE)
try:
    from mkmanifest_more import MORE
    C.update(MORE)
except ImportError:
    pass
NA = {
    "C19": "Variance only decides which programs compile; programs that compile behave the same whatever it is. There is no execution, schedule or state to explore, so model checking cannot address it, and a compile-time assertion would be a different technique.",
}
checks = [{
    "property": p,
    "quick_cmd": f"python3 check.py {p}",
    "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
    "technique": t, "level": "model_checking", "level_note": n,
} for p, (t, n) in sorted(C.items())]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": checks,
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items()) if p not in C],
    "notes": "No hooks in /repo: the engines are crates in /verif that depend on /repo by path, or compile /repo's sources against shadow core and alloc crates. Fixes of genuine defects are listed in known_findings.txt.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)

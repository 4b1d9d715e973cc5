#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md: functions under contract per unit."""
import os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vlib"))
def fns(unit, seen=None):
    out = []
    for l in open(os.path.join(V, "specs", unit + ".vrs")):
        m = re.match(r"//%include (\S+)", l)
        if m: out += fns(m.group(1).replace(".vrs", ""))
        m = re.match(r"//%fn (\S+) (.+?)(\s+//.*)?$", l)
        if m:
            k = m.group(2).split(" //%")[0].strip()
            out.append((m.group(1), re.sub(r"\s+\[.*$", "", k)))
    return out
units, props = {}, {}
import importlib.util
for f in sorted(os.listdir(os.path.join(V, "checks"))):
    if not f.endswith(".py"): continue
    t = open(os.path.join(V, "checks", f)).read()
    u = eval(re.search(r"^UNITS = (\[.*?\])", t, re.M).group(1))
    for x in u: units.setdefault(x, []).append(f[:-3].upper())
out, allf = [], set()
for u in sorted(units):
    d = {}
    for f, k in fns(u):
        allf.add((f, k)); d.setdefault(f, [])
        if k not in d[f]: d[f].append(k)
    out.append(f"* **{u}** ({', '.join(units[u])}): " + "; ".join(f"`{f}` " + ", ".join(f"`{k}`" for k in d[f]) for f in d))
s = open(os.path.join(V, "DESIGN.md")).read()
a, _, rest = s.partition("## 8. Functions under contract\n")
s = a + "## 8. Functions under contract\n\n" + f"{len(allf)} functions in {len(units)} units (written by `tools/mkdesign.py`).\n\n" + "\n".join(out) + "\n"
open(os.path.join(V, "DESIGN.md"), "w").write(s)
print(len(allf), len(units))

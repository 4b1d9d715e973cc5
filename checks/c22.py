import collections
import progs
UNITS = ["visitor"]
RULE = "generated source files with every operator, nested expressions, guards and match arms, in every kind of function, listed with --list --json; each operator, guard, arm and body outside left-out code has exactly its documented replacements and nothing else is mutated; non-trivial: distinct (file, site)"
TRUSTED = ["syn parses the file and its generated visitor calls the method of each part inside a part, in order"]
def concrete(ctx):
    ctx.build([])
    for it in range(60 if ctx.thorough else 12):
        x = progs.tree_run(ctx, 40, 14, ["skip_me"])
        if x is None: return
        ps, got = x
        for f, p in ps.items():
            g = collections.defaultdict(list)
            for genre, span, rep in got.get(f, []): g[(genre, span)].append(rep)
            for k in sorted(set(g) | set(p.sites)):
                ctx.case((it, f, k), dict(file=f, site=k, replacements=g.get(k)) if len(p.sites) < 4 else None)
                if any(a <= k[1][0] and k[1][1] <= b for a, b in p.regions): continue     # C21
                want = p.sites.get(k, [])
                have = g.get(k, [])
                if k[0] != "FnValue" and want != have and sorted(want) == sorted(have): continue
                if sorted(want) != sorted(have):
                    ctx.fail(f"{f}: {k[0]} at {k[1][0]}-{k[1][1]}: replacements {have}, expected {want}", source=p.text(), at=progs.clip(p, k[1]))

import progs
UNITS = ["visitor", "options"]
RULE = "generated source files (functions, impls, traits, inline and external modules, nested and marked in every way; unsafe functions, constructors, Default impls, skipped calls, each beside unmarked neighbours) listed with --list --json; no mutant may lie in a left-out part and every other function keeps its mutants; non-trivial: distinct (file, part)"
TRUSTED = ["syn parses the file and its generated visitor calls the method of each part inside a part, in order"]
def concrete(ctx):
    ctx.build([])
    for it in range(60 if ctx.thorough else 12):
        skips = [[], ["skip_me"], ["skip_me", "other::skip"]][it % 3][:1]
        x = progs.tree_run(ctx, 40, 12, skips)
        if x is None: return
        ps, got = x
        for f, p in ps.items():
            g = got.get(f, [])
            for a, b in p.regions:
                ctx.case((it, f, a))
                for genre, (s, e), rep in g:
                    if a <= s and e <= b and (genre, (s, e)) not in p.sites:
                        ctx.fail(f"{f}: mutant {genre} {s}-{e} -> {rep!r} inside code to be left out at {a}-{b}", source=p.text(), left_out=progs.clip(p, (a, b)), skip_calls=p.skips)
                        break
            have = {(x[0], x[1]) for x in g}
            for (a, b), sites in p.units:
                ctx.case((it, f, a), dict(file=f, item=progs.clip(p, (a, b))[:200], mutants=len(sites)) if a == (1, 1) else None)
                want = [s for s in sites if p.sites[s]]
                if want and not any(s in have for s in want):
                    ctx.fail(f"{f}: the function at {a} is not marked, but has no mutants", source=p.text(), item=progs.clip(p, (a, b)))
            # an operator that is mutated elsewhere is left out here: the code around it was taken for skipped
            txt = lambda k: progs.clip(p, k[1])[k[1][0][1] - 1:k[1][1][1] - 1] if k[1][0][0] == k[1][1][0] else "?"
            kinds = {(k[0], txt(k)) for k in have}
            for k in p.sites:
                if k[0] in ("BinaryOperator", "UnaryOperator") and k not in have and (k[0], txt(k)) in kinds:
                    ctx.fail(f"{f}: the operator at {k[1][0]} is in no skipped code, but is not mutated", source=p.text(), at=progs.clip(p, k[1], 1))
                    break

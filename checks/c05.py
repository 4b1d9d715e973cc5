import json
import e2e, labruns as lr
UNITS = ["outcome", "output"]
RULE = "whole runs against a scripted cargo, looking at the output files each time cargo is started and at the end; non-trivial: distinct snapshots"
F = ["outcomes.json", "caught.txt", "missed.txt", "timeout.txt", "unviable.txt"]
def concrete(ctx):
    ctx.build()
    runs = [("mixed, one job", ["--timeout=1"], lr.mix(True)), ("mixed, 4 jobs", ["-j4", "--timeout=1"], lr.mix(True)), ("check", ["--check", "-j4"], lr.mix()),
            ("baseline fails", [], dict(rules=[lr.rule("test", True, **lr.X101)])), ("baseline build fails", [], dict(rules=[lr.rule("build", True, **lr.X101)])),
            ("no baseline", ["--baseline=skip", "-j2"], lr.mix())]
    for s in range(10 if ctx.thorough else 1):
        p = lr.mix(True); p["seed"] = 77 * ctx.seed + s
        runs.append((f"seed {s}", ["--timeout=1", f"-j{1 + s % 5}"], p))
    # many scenarios
    big = {"Cargo.toml": e2e.simple_pkg(), "src/lib.rs": "".join(f"pub fn f{i}(a: u32) -> u32 {{ a + {i} }}\n" for i in range(60 if ctx.thorough else 24))}
    runs += [("many, one job", [], lr.mix()), ("many, 5 jobs", ["-j5"], lr.mix()), ("many, no baseline", ["--baseline=skip", "-j3", "--shard=0/2"], lr.mix())]
    for what, args, plan in runs:
        t = e2e.Tree(ctx, big) if what.startswith("many") else lr.tree(ctx)
        r = e2e.Run(ctx, t, args, plan, timeout=150, peek=F)
        m = e2e.Monitor(r)
        ctx.case(what, dict(what=what, args=args, rc=r.rc))
        if r.hung:
            ctx.fail(f"{what}: did not end", **r.desc())
        if m.outcomes is None:
            ctx.fail(f"{what}: no outcomes.json at the end", **r.desc()); continue
        lr.totals(ctx, r, m, what)
        # everything that was run is in the records, once, in order of finishing (one job)
        recs = [("B" if o["scenario"] == "Baseline" else "M") for o in m.outcomes["outcomes"]]
        nb = 1 if m.base_calls else 0
        if recs.count("B") != nb or recs.count("M") != len(m.calls):
            ctx.fail(f"{what}: {recs} recorded but {len(m.calls)} mutants and {nb} baseline were run", **r.desc())
        final = m.outcomes["outcomes"]
        if "-j" not in " ".join(args):
            done, last = 0, None
            for c in sorted(r.log, key=lambda c: c["t"]):
                key = c["ident"]
                if last is not None and key != last:
                    done += 1
                last = key
                txt = c["snap"].get(r.mo + "/outcomes.json")
                if done == 0:
                    continue
                ctx.case((what, done))
                try:
                    j = json.loads(txt)
                except (TypeError, ValueError):
                    ctx.fail(f"{what}: after {done} scenarios outcomes.json is {str(txt)[:200]!r}", **r.desc()); break
                if j["outcomes"] != final[:done]:
                    ctx.fail(f"{what}: after {done} scenarios outcomes.json holds {len(j['outcomes'])} records", **r.desc()); break
                ls = {f: (c["snap"].get(r.mo + "/" + f) or "").split("\n")[:-1] for f in F[1:]}
                lr.totals(ctx, r, m, f"{what} after {done} scenarios", j, ls)
        r.clean(); t.remove()

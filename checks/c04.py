import e2e, labruns as lr
UNITS = ["lab"]
RULE = "whole runs against a scripted cargo; every scenario's commands, their order, limits and records; non-trivial: distinct (phases, endings) per scenario"
def concrete(ctx):
    ctx.build()
    X0, X101, SLOW = lr.X0, lr.X101, lr.SLOW
    runs = [("mixed", ["-j4", "--timeout=1"], lr.mix(True)),
            ("check only", ["--check", "-j4"], lr.mix()),
            ("config check", ["-j3", "--check", "--timeout=1", "--baseline=skip"], lr.mix()),
            ("no baseline", ["--baseline=skip", "-j4", "--timeout=1"], lr.mix(True)),
            ("nextest", ["-j4", "--timeout=1", "--test-tool=nextest"], lr.mix(True)),
            ("both limits", ["-j6", "--timeout=1", "--build-timeout=1"], dict(rules=[lr.rule("build", False, [X0, SLOW, X101]), lr.rule("test", False, [X101, SLOW])]))]
    for ph in ("build", "test"):
        for a in (X101, {"signal": 9}):
            runs.append((f"baseline {ph} {a}", ["--timeout=1"], dict(rules=[lr.rule(ph, True, **a)])))
    if ctx.thorough:
        for s in range(10):
            p = lr.mix(True); p["seed"] = 31 * ctx.seed + s
            runs.append((f"seed {s}", [f"-j{1+s%4}", "--timeout=1"], p))
    for what, args, plan in runs:
        t = lr.tree(ctx)
        r = e2e.Run(ctx, t, args, plan, timeout=150)
        m = e2e.Monitor(r)
        for cs in m.calls.values():
            ctx.case((what, repr([(c["phase"], c["action"]) for c in cs])), dict(run=what, commands=[(c["phase"], c["action"]) for c in cs]))
        if r.hung:
            ctx.fail(f"{what}: did not end", **r.desc())
        lr.phase_order(ctx, r, m, what, "--check" in args)
        r.clean(); t.remove()
    # which limit applies to which phase: sleeps of 2 s under limits of 1 s and 30 s
    for what, args, slow, kinds in (
            ("test limit", ["--timeout=1", "--build-timeout=30"], {"sleep": 2}, dict(build=False, test=True)),
            ("build limit", ["--timeout=30", "--build-timeout=1"], {"sleep": 2}, dict(build=True, test=False)),
            ("check limit", ["--check", "--timeout=30", "--build-timeout=1"], {"sleep": 2}, dict(check=True)),
            ("check not under test limit", ["--check", "--timeout=1", "--build-timeout=30"], {"sleep": 2}, dict(check=False)),
            ("check without a build limit", ["--check", "--timeout=1"], {"sleep": 2}, dict(check=False)),
            ("build without a limit", ["--timeout=1"], {"sleep": 2}, dict(build=False, test=True)),
            ("test without a build limit, no baseline", ["--timeout=1", "--baseline=skip"], {"sleep": 2}, dict(build=False, test=True)),
            ("check without any limit", ["--check", "--baseline=skip"], {"sleep": 2}, dict(check=False))):
        t = lr.tree(ctx)
        r = e2e.Run(ctx, t, args + ["-j8", "-F", "replace (add|le|pick) "], dict(rules=[lr.rule(None, True, **X0), lr.rule(None, False, **slow)]), timeout=150)
        m = e2e.Monitor(r)
        seen = 0
        for i, os_ in m.out_by_mutant().items():
            for o in os_ if i is not None else []:
                for p in o["phase_results"]:
                    seen += 1
                    to = p["process_status"] == "Timeout"
                    if to != kinds[p["phase"].lower()]:
                        ctx.fail(f"{what}: {p['phase']} of 2 s ended as {p['process_status']} with {args}", **r.desc())
        ctx.case(what, dict(what=what, args=args), seen)
        if not seen:
            ctx.fail(f"{what}: nothing recorded", **r.desc())
        r.clean(); t.remove()

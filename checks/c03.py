import e2e, labruns as lr
UNITS = ["outcome"]
RULE = "every combination of up to three phase results with every kind of ending, through the real ScenarioOutcome and through whole runs; non-trivial: distinct phase/status sequences"
def concrete(ctx):
    ctx.build(["outcome"])
    sts = ["Success", {"Failure": 0}, {"Failure": 1}, {"Failure": 101}, {"Failure": -1}, "Timeout", {"Signalled": 9}, {"Signalled": 2}, "Other"]
    sts.remove({"Failure": 0})
    seqs = [[("Check", a)] for a in sts] + [[("Build", a)] for a in sts] + [[("Build", a), ("Test", b)] for a in sts for b in sts] + [[("Test", a)] for a in sts]
    if ctx.hooked:
        for base in (True, False):
            for q in seqs:
                got = ctx.call("summary", baseline=base, phases=[[p, s] for p, s in q])
                want = e2e.verdict([p for p, _ in q], [s for _, s in q], base)
                ctx.case((base, repr(q)), dict(baseline=base, phases=q, verdict=want))
                if got.get("ok") != want:
                    ctx.fail(f"baseline={base} phases {q}: verdict {got}, expected {want}")
        for code in list(range(0, 256)):
            got = ctx.call("exit_of", code=code)
            want = "Success" if code == 0 else {"Failure": code}
            ctx.case(("exit", code))
            if got.get("ok") != want:
                ctx.fail(f"exit code {code} is taken as {got}, expected {want}")
    runs = [(["-j4", "--timeout=1"], lr.mix(True)), (["--check", "-j4"], lr.mix())]
    if ctx.thorough:
        for s in range(10):
            p = lr.mix(True); p["seed"] = 1000 * ctx.seed + s
            runs.append((["-j4", "--timeout=1"], p))
    # build timeouts, baseline endings
    runs.append((["-j4", "--timeout=1", "--build-timeout=1"], dict(rules=[lr.rule("build", False, [lr.X0, lr.SLOW, lr.X101]), lr.rule("test", False, [lr.X101, lr.SLOW])])))
    for ph in ("build", "test"):
        for a in (lr.X101, {"signal": 9}):
            runs.append((["--timeout=1"], dict(rules=[lr.rule(ph, True, **a)])))
    runs.append((["--timeout=1"], dict(rules=[lr.rule("test", True, **lr.SLOW)])))
    for args, plan in runs:
        t = lr.tree(ctx)
        r = e2e.Run(ctx, t, args, plan, timeout=150)
        m = e2e.Monitor(r)
        ctx.case(("run", repr(args), repr(plan)), None, len(r.log))
        if r.hung or not m.outcomes:
            ctx.fail(f"run {args} gave no outcomes", **r.desc())
        else:
            lr.verdicts(ctx, r, m, f"run {args}")
        r.clean(); t.remove()

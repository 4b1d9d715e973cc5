import e2e, labruns as lr
UNITS = ["outcome", "mainfn"]
RULE = "whole runs where cargo ends in each combination of ways; oracle: the documented exit statuses; non-trivial: distinct (baseline, set of verdicts)"
def concrete(ctx):
    ctx.build()
    X0, X101, SLOW, X1 = lr.X0, lr.X101, lr.SLOW, lr.X1
    B = lambda ph, a: lr.rule(ph, True, **a)
    U = lambda sub, ph, a: dict(phase=ph, baseline=False, contains=sub + " " + e2e.MARKER, do=a)
    caught = lr.rule("test", False, **X101)
    sel = ["-F", "replace (add|le|pick) "]
    cases = [
        ("all caught", [caught], []), ("one missed", [U("-1", "test", X0), caught], []),
        ("one timeout", [U("-1", "test", SLOW), caught], ["--timeout=1"]),
        ("timeout and missed", [U("-1", "test", SLOW), U("true", "test", X0), caught], ["--timeout=1"]),
        ("missed before timeout", [U("0", "test", X0), U("true", "test", SLOW), caught], ["--timeout=1"]),
        ("all unviable", [lr.rule("build", False, **X101)], []), ("unviable and missed", [U("-1", "build", X1), U("0", "test", X0), caught], []),
        ("unviable and caught", [U("-1", "build", X1), caught], []),
        ("build timeout", [U("-1", "build", SLOW), caught], ["--build-timeout=1"]),
        ("baseline build fails", [B("build", X101)], []), ("baseline test fails", [B("test", X1)], []), ("baseline timeout", [B("test", SLOW)], ["--timeout=1"]),
        ("baseline killed", [B("test", {"signal": 9})], []), ("baseline build killed", [B("build", {"signal": 11})], []),
        ("check ok", [], ["--check"]), ("check some fail", [U("-1", "check", X101)], ["--check"]), ("check baseline fails", [B("check", X101)], ["--check"]),
        ("skip, caught", [caught], ["--baseline=skip"]), ("skip, missed", [U("-1", "test", X0), caught], ["--baseline=skip"]), ("skip, timeout", [U("-1", "test", SLOW), caught], ["--baseline=skip", "--timeout=1"]),
        ("several jobs, one missed", [U("-1", "test", X0), caught], ["-j4"]),
        ("killed by a signal", [U("-1", "test", {"signal": 9}), caught], []),
        ("killed by a signal and missed", [U("-1", "test", {"signal": 9}), U("0", "test", X0), caught], []),
        ("exit 1 is caught", [lr.rule("test", False, **X1)], []),
        ("baseline fails, output not UTF-8", [B("test", dict(X101, raw="4c61e92001fffec3280a"))], []), ("missed, all logs, output not UTF-8", [U("-1", "test", dict(X0, raw="ff0a")), lr.rule("test", False, raw="c3280ae9", **X101)], ["--all-logs", "--caught"]),
        ("check baseline slow", [lr.rule("check", True, sleep=2)], ["--check", "--timeout=1"]),
    ]
    for what, rules, args in cases:
        t = lr.tree(ctx)
        r = e2e.Run(ctx, t, sel + args, dict(rules=rules), timeout=150)
        m = e2e.Monitor(r)
        w = lr.exit_code(ctx, r, m, what)
        ctx.case(what, dict(case=what, args=args, exit=r.rc))
        if not r.log:
            ctx.fail(f"{what}: cargo was never run", **r.desc())
        r.clean(); t.remove()
    # no mutants at all; wrong arguments
    t = lr.tree(ctx)
    for what, args, want in (("no mutants", ["-F", "nothing matches this"], 0), ("bad option", ["--no-such-option"], 1), ("bad shard", ["--shard=3/2"], 1), ("bad regex", ["--re", "("], None)):
        r = e2e.Run(ctx, t, args, {}, timeout=60)
        ctx.case(what, dict(case=what, args=args, exit=r.rc))
        if (want is not None and r.rc != want) or (want is None and r.rc == 0):
            ctx.fail(f"{what}: exit status {r.rc}, expected {want}", **r.desc())
        if r.log:
            ctx.fail(f"{what}: cargo was run", **r.desc())
        r.clean()
    if ctx.thorough:
        for s in range(25):
            p = lr.mix(True); p["seed"] = 13 * ctx.seed + s
            r = e2e.Run(ctx, t, ["--timeout=1", "-j4"], p, timeout=150)
            m = e2e.Monitor(r)
            lr.exit_code(ctx, r, m, f"seed {s}")
            ctx.case(("seed", s), None)
            r.clean()

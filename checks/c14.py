import itertools, math
import e2e, labruns as lr
UNITS = ["lab_top", "timeouts", "options"]
RULE = "limits computed by the real code for combinations of options, config and baseline durations, and runs with slow commands; oracle: the formula evaluated with exact arithmetic; non-trivial: distinct (option settings, baseline)"
S = 10**9
def opt(a, c):
    return a if a is not None else c
def want(a, c, build, test):
    """The limits the statement gives: dict for/from/without of (test, build)."""
    ex, bex = a.get("timeout"), a.get("build_timeout")
    mult = opt(a.get("timeout_multiplier"), c.get("timeout_multiplier"))
    bm = opt(a.get("build_timeout_multiplier"), c.get("build_timeout_multiplier"))
    mn = opt(a.get("minimum_test_timeout"), c.get("minimum_test_timeout"))
    sec = lambda x: None if x is None else round(x * S)
    def t(base):
        if ex is not None: return sec(ex)
        if base is None: return 300 * S
        return max(sec(20.0 if mn is None else mn), math.ceil(base / S * (5.0 if mult is None else mult)) * S)
    def b(base):
        if bex is not None: return sec(bex)
        if base is None or bm is None: return None
        return round(base / S * bm * S)
    return {"for": (sec(ex), None), "from": (t(test), b(build)), "without": (t(None), b(None))}
def argv(a):
    return [f"--{k.replace('_', '-')}={v}" for k, v in a.items()]
def toml(c):
    return "".join(f"{k} = {float(v)}\n" for k, v in c.items())
def concrete(ctx):
    ctx.build(["options", "timeouts"])
    if ctx.hooked:
        vals = dict(timeout=[None, 0, 7.25, 100], build_timeout=[None, 3.5], timeout_multiplier=[None, 0, 0.5, 3], build_timeout_multiplier=[None, 2.5], minimum_test_timeout=[None, 0, 45])
        cvals = dict(timeout_multiplier=[None, 0.25, 8], build_timeout_multiplier=[None, 4], minimum_test_timeout=[None, 1.5, 90])
        long = [(2000 * S, 5000 * S), (100_000 * S, 1_000_000 * S), (7200 * S, 3601 * S)]
        bases = [(1 * S, 2 * S), (10 * S, 3_999_999_999), (0, 0), (S // 3, 20 * S), (12_345_678_901, 61_000_000_001), (None, 9 * S), (5 * S, None)] + (long if ctx.thorough else [])
        A = [dict((k, v) for k, v in zip(vals, x) if v is not None) for x in itertools.product(*vals.values())]
        C = [dict((k, v) for k, v in zip(cvals, x) if v is not None) for x in itertools.product(*cvals.values())]
        n = 0
        for a in A:
            if ("timeout" in a and "timeout_multiplier" in a) or ("build_timeout" in a and "build_timeout_multiplier" in a):
                continue   # refused on the command line
            for c in (C if ctx.thorough else ctx.rng.sample(C, 5)):
                for bb, bt in (bases if ctx.thorough else ctx.rng.sample(bases, 3) + [ctx.rng.choice(long)]):
                    ph = ([["Build", bb]] if bb is not None else []) + ([["Test", bt]] if bt is not None else [])
                    g = ctx.call("timeouts", argv=argv(a), config=toml(c), phases=ph)
                    ctx.case((str(a), str(c), bb, bt), dict(args=argv(a), config=toml(c), baseline=ph, limits=g) if n < 5 else None)
                    n += 1
                    if not g.get("ok"):
                        ctx.fail(f"limits for {argv(a)} with config {toml(c)!r}: {g}"); return
                    w = want(a, c, bb, bt)
                    for k in ("for", "from", "without"):
                        gt, gb = g["ok"][k]["test"], g["ok"][k]["build"]
                        wt, wb = w[k]
                        near = lambda x, y: x == y or (x is not None and y is not None and abs(x - y) <= 2)
                        if k == "from" and bt is None and gt != wt:
                            continue   # no baseline test time: only with --check, whose limit is not used
                        if not near(gt, wt) or not near(gb, wb):
                            ctx.fail(f"{k} limits for {argv(a)}, config {toml(c)!r}, baseline {ph}: test {gt} build {gb} (ns), expected {wt} {wb}")
    # behaviour: who is stopped, and when
    t = lr.tree(ctx)
    sl = dict(sleep=9.0, exit=0)
    one = ["-F", "replace add -> i32 with 0"]
    runs = [("slow mutant test, explicit limit", ["--timeout=2"], [lr.rule("test", False, **sl)], None, (["test"], 2, 7)),
            ("slow mutant build, explicit test limit only", ["--timeout=2"], [lr.rule("build", False, sleep=4.0, exit=0), lr.rule("test", False, exit=101)], None, ([], 0, 0)),
            ("slow mutant build, build limit", ["--timeout=30", "--build-timeout=2"], [lr.rule("build", False, **sl)], None, (["build"], 2, 7)),
            ("slow baseline build, both limits", ["--timeout=2", "--build-timeout=1"], [lr.rule("build", True, sleep=4.0, exit=0), lr.rule("test", False, exit=101)], None, ([], 0, 0)),
            ("slow baseline test, explicit limit", ["--timeout=2"], [lr.rule("test", True, **sl)], None, (["test"], 2, 7)),
            ("baseline test slower than the minimum, no explicit limit", ["--minimum-test-timeout=1"], [lr.rule("test", True, sleep=3.0, exit=0), lr.rule("test", False, exit=101)], None, ([], 0, 0)),
            ("multiplier and minimum", ["--minimum-test-timeout=2", "--timeout-multiplier=0.1"], [lr.rule("test", False, **sl)], None, (["test"], 2, 7)),
            ("baseline times multiplier", ["--minimum-test-timeout=0", "--timeout-multiplier=2"], [lr.rule("test", True, sleep=1.2, exit=0), lr.rule("test", False, **sl)], None, (["test"], 3, 7.5)),
            ("build multiplier", ["--build-timeout-multiplier=2"], [lr.rule("build", True, sleep=1.2, exit=0), lr.rule("build", False, **sl)], None, (["build"], 2.4, 7.5)),
            ("config minimum and multiplier", [], [lr.rule("test", False, **sl)], "minimum_test_timeout = 1.0\ntimeout_multiplier = 0.5\n", (["test"], 1, 6)),
            ("no config", ["--no-config"], [lr.rule("test", False, sleep=5.0, exit=101)], "minimum_test_timeout = 1.0\ntimeout_multiplier = 0.5\n", ([], 0, 0)),
            ("baseline skipped, not stopped early", ["--baseline=skip"], [lr.rule("test", False, sleep=4.0, exit=101)], None, ([], 0, 0))]
    for what, args, rules, cfg, (stopped, lo, hi) in runs:
        tt = t if cfg is None else lr.tree(ctx, **{".cargo/mutants.toml": cfg})
        r = e2e.Run(ctx, tt, one + args, dict(rules=rules), timeout=80)
        m = e2e.Monitor(r)
        ctx.case(what, dict(what=what, args=args, rc=r.rc), len(r.log))
        got = [(c["phase"]) for c in r.log if c["id"] not in r.ends]
        if got != stopped:
            ctx.fail(f"{what}: commands stopped: {got}, expected {stopped}", **r.desc())
        elif stopped and m.outcomes:
            d = [p["duration"] for o in m.outcomes["outcomes"] for p in o["phase_results"] if p["process_status"] == "Timeout"]
            if len(d) != 1 or not lo <= d[0] <= hi:
                ctx.fail(f"{what}: stopped after {d} s, limit {lo} s", **r.desc())
        r.clean()

import e2e, labruns as lr
UNITS = ["lab", "lab_top", "mainfn"]
RULE = "whole runs with 1 to 12 jobs, shuffled or not, random delays and endings; non-trivial: distinct (jobs, seed)"
ASSUMPTIONS = ["std::sync::Mutex gives mutual exclusion and vec::IntoIter::next hands out each item once (assumed contracts of the work queue); thread::scope joins every thread"]
def concrete(ctx):
    ctx.build()
    js = [1, 2, 3, 5, 8, 12] if not ctx.thorough else list(range(1, 17)) * 2
    for n, j in enumerate(js):
        p = lr.mix(n % 3 == 0)
        p["seed"] = 5 * ctx.seed + n
        for r_ in p["rules"]:
            for a in r_.get("pick", []):
                if "sleep" not in a and "signal" not in a:
                    a["sleep"] = 0.05 * (n % 3)
        for r_ in p["rules"]:
            r_["pick"] = [dict(a) for a in r_.get("pick", [])] or None
        args = [f"-j{j}", "--timeout=3"] + (["--shuffle"] if n % 2 else []) + (["--baseline=skip"] if n == 3 else [])
        t = lr.tree(ctx)
        r = e2e.Run(ctx, t, args, p, timeout=150)
        m = e2e.Monitor(r)
        ctx.case((j, n), dict(args=args, mutants=len(m.mutants), calls=len(r.log)), len(m.mutants))
        what = f"run {args}"
        if r.hung:
            ctx.fail(f"{what}: did not end", **r.desc())
        lr.once(ctx, r, m, what)
        names = lr.listed_names(ctx, t)
        if sorted(m.name_of(x) for x in m.mutants) != sorted(names):
            ctx.fail(f"{what}: tested mutants differ from the listed ones", **r.desc())
        dirs = {c["cwd"] for cs in m.calls.values() for c in cs}
        if len(dirs) > j:
            ctx.fail(f"{what}: {len(dirs)} build directories for {j} jobs", **r.desc())
        # commands in one directory never overlap
        for d in dirs:
            cs = sorted((c for c in r.log if c["cwd"] == d), key=lambda c: c["t"])
            for a, b in zip(cs, cs[1:]):
                if a["id"] in r.ends and b["t"] < r.ends[a["id"]] - 0.001:
                    ctx.fail(f"{what}: two cargo commands at once in one build directory", **r.desc())
        r.clean(); t.remove()
    # filters: only the selected ones
    t = lr.tree(ctx)
    for args in (["-F", "replace"], ["-E", "add"], ["-f", "src/a.rs"], ["--shard=1/3"], ["-F", "delete", "-j4"]):
        r = e2e.Run(ctx, t, args, lr.mix(), timeout=100)
        m = e2e.Monitor(r)
        ctx.case(tuple(args), None, len(m.mutants))
        lr.once(ctx, r, m, f"run {args}")
        if sorted(m.name_of(x) for x in m.mutants) != sorted(lr.listed_names(ctx, t, args)):
            ctx.fail(f"run {args}: tested mutants differ from the listed ones", **r.desc())
        r.clean()
    # every mutant ends the same way, whatever it is: no ending makes a worker leave mutants behind
    ends = [("every test over its time", ["--timeout=0.4", "--baseline=skip"], [lr.rule("test", False, sleep=60)]), ("every build over its time", ["--build-timeout=0.4", "--timeout=20", "--baseline=skip"], [lr.rule("build", False, sleep=60)]),
            ("every build killed", [], [lr.rule("build", False, signal=9)]), ("every test killed", [], [lr.rule("test", False, signal=6)]), ("every build failed", [], [lr.rule("build", False, exit=101)]),
            ("every test passed", [], [lr.rule("test", False, exit=0)]), ("every test failed oddly", [], [lr.rule("test", False, exit=255)])]
    for k, (name, a, rules) in enumerate(ends):
        for j in ((2, 5) if k == 0 or ctx.thorough else (3,)):
            args = [f"-j{j}", "-f", "src/a.rs", *a]
            r = e2e.Run(ctx, t, args, dict(rules=[lr.rule(None, True, **lr.X0), *rules, lr.rule(None, False, **lr.X0)]), timeout=100)
            m = e2e.Monitor(r)
            ctx.case((name, j), dict(args=args, mutants=len(m.mutants)), len(m.mutants))
            lr.once(ctx, r, m, f"run {args}, {name}")
            r.clean()
    # on a terminal, where the progress is drawn all along
    for j, cols, slow, args in ((1, 80, 0.15, ["-f", "src/a.rs"]), (5, 80, 0.4, []), (3, 18, 0.2, ["--timeout=1"])):
        p = lr.mix("--timeout=1" in args)
        for r_ in p["rules"]:
            r_["pick"] = [dict(a, **({} if "sleep" in a or "signal" in a else {"sleep": slow})) for a in r_.get("pick") or []] or None
        if j == 3:      # what the tests print is shown, whatever it is
            for r_ in p["rules"]:
                r_["pick"] = [dict(a, raw="4c61e9200120fffec3280a0d0a2020e29c") for a in r_.get("pick") or []] or None
            args = args + ["--all-logs", "--caught", "--unviable"]
        args = [f"-j{j}", *args]
        r = e2e.Run(ctx, t, args, p, timeout=150, tty=cols, env=dict(TERM="xterm"))
        m = e2e.Monitor(r)
        what = f"run {args} on a terminal of {cols} columns"
        drawn = r.stderr.count("mutants tested") if cols == 80 else r.stderr.count("...")
        ctx.case(("terminal", j, cols), dict(args=args, columns=cols, mutants=len(m.mutants), drawn=drawn), len(m.mutants))
        lr.once(ctx, r, m, what)
        if r.rc not in (0, 2, 3) or "panicked" in r.stderr:
            ctx.fail(f"{what}: exit status {r.rc}", **r.desc())
        r.clean()
    # an interrupted run never looks complete
    import signal, time
    def intr(n):
        def go(run, p):
            for _ in range(400):
                time.sleep(0.03)
                if sum(1 for c in run.read_log() if c["changed"]) >= n:
                    break
            p.send_signal(signal.SIGINT)
        return go
    for j, n, x in ((1, 3, 101), (2, 4, 101), (4, 9, 101), (3, 1, 0), (2, 5, 0)):
        p = dict(rules=[lr.rule(None, True, **lr.X0), lr.rule("build", False, **lr.X0), lr.rule("test", False, exit=x, sleep=0.25)])
        r = e2e.Run(ctx, t, [f"-j{j}"], p, timeout=100, interrupt=intr(n))
        m = e2e.Monitor(r)
        ctx.case(("interrupt", j, n, x), dict(jobs=j, after=n, rc=r.rc))
        tested = sum(1 for i in range(len(m.mutants)) if len(m.out_by_mutant().get(i, [])) == 1)
        if r.rc in (0, 2, 3) and tested < len(m.mutants):
            ctx.fail(f"interrupted, -j{j}: exit status {r.rc} with {tested} of {len(m.mutants)} mutants tested", **r.desc())
        r.clean()
    # an internal error in a worker fails the run
    for j in (1, 2, 4):
        for act in ({"exit": 101, "rm_self": 1}, {"exit": 0, "hide_self": 0.4}):
            plan = dict(rules=[lr.rule(None, True, **lr.X0), dict(phase="build", baseline=False, contains="*= " + e2e.MARKER, do=act), lr.rule("test", False, exit=101, sleep=0.1)])
            r = e2e.Run(ctx, t, [f"-j{j}"], plan, timeout=100)
            m = e2e.Monitor(r)
            ctx.case(("gone", j, repr(act)), dict(jobs=j, action=act, rc=r.rc))
            tested = sum(1 for i in range(len(m.mutants)) if len(m.out_by_mutant().get(i, [])) == 1)
            if r.rc in (0, 2, 3) and tested < len(m.mutants):
                ctx.fail(f"cargo could not be started ({act}, -j{j}): exit status {r.rc} with {tested} of {len(m.mutants)} mutants tested", **r.desc())
            r.clean()

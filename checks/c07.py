import e2e, labruns as lr
UNITS = ["lab_top"]
RULE = "whole runs with the baseline succeeding, failing, timing out or being killed in each phase, with several jobs; non-trivial: distinct baseline endings"
def concrete(ctx):
    ctx.build()
    SLOW = lr.SLOW
    caught = lr.rule("test", False, **lr.X101)
    ends = [(ph, a, x) for x in ([], ["-j4"], ["--in-place"]) for ph, a in (("build", lr.X101), ("build", {"signal": 9}), ("test", lr.X101), ("test", lr.X1), ("test", {"signal": 6}), ("test", {"exit": 4}))]
    if not ctx.thorough:
        ends = ends[:6] + ends[8:10] + ends[12:15]
    ends += [("test", SLOW, ["--timeout=1", "-j2"]), ("check", lr.X101, ["--check"]), ("check", {"signal": 9}, ["--check", "-j2"]),
             ("test", lr.X101, ["--test-tool=nextest"])]
    for ph, a, args in ends:
        what = f"baseline {ph} {a} {args}"
        t = lr.tree(ctx)
        r = e2e.Run(ctx, t, args, dict(rules=[lr.rule(ph, True, **a)]), timeout=100)
        m = e2e.Monitor(r)
        ctx.case(what, dict(what=what, rc=r.rc))
        if m.calls or m.unknown:
            ctx.fail(f"{what}: mutants were run although the baseline failed", **r.desc())
        if not m.base_calls or m.base_calls[-1]["phase"] != ph:
            ctx.fail(f"{what}: baseline commands {[c['phase'] for c in m.base_calls]}", **r.desc())
        o = (m.outcomes or {}).get("outcomes", [])
        if len(o) != 1 or o[0]["scenario"] != "Baseline" or o[0]["summary"] == "Success" or (m.outcomes or {}).get("total_mutants") != 0:
            ctx.fail(f"{what}: recorded {[(x['scenario'] if x['scenario'] == 'Baseline' else 'mutant', x['summary']) for x in o]}", **r.desc())
        if r.rc == 0:
            ctx.fail(f"{what}: exit status 0", **r.desc())
        if any((x in ("caught.txt", "missed.txt", "timeout.txt", "unviable.txt")) and r.lines(x) for x in ("caught.txt", "missed.txt", "timeout.txt", "unviable.txt")):
            ctx.fail(f"{what}: list files are not empty", **r.desc())
        lr.same_tree(ctx, r, t, what)
        r.clean(); t.remove()
    # a good baseline comes first, with the same phases, in the first build directory
    for args in ([], ["-j4"], ["--check", "-j2"], ["--in-place"]):
        t = lr.tree(ctx)
        r = e2e.Run(ctx, t, args, dict(rules=[lr.rule(None, True, sleep=0.2), caught]), timeout=100)
        m = e2e.Monitor(r)
        what = f"good baseline {args}"
        ctx.case(what)
        ph = [c["phase"] for c in m.base_calls]
        if ph != (["check"] if "--check" in args else ["build", "test"]):
            ctx.fail(f"{what}: baseline phases {ph}", **r.desc())
        tb = max((r.ends.get(c["id"], 1e18) for c in m.base_calls), default=None)
        if tb is None or any(c["t"] < tb for cs in m.calls.values() for c in cs):
            ctx.fail(f"{what}: a mutant was started before the baseline ended", **r.desc())
        if not m.calls:
            ctx.fail(f"{what}: no mutants were tested", **r.desc())
        if len({c["cwd"] for c in m.base_calls}) != 1 or (not any(c["cwd"] == m.base_calls[0]["cwd"] for cs in m.calls.values() for c in cs)):
            ctx.fail(f"{what}: the baseline's directory is not used for mutants", **r.desc())
        r.clean(); t.remove()
    for args in ([], ["-j3"], ["--check"]):
        t = lr.tree(ctx)
        r = e2e.Run(ctx, t, ["--baseline=skip", *args], dict(rules=[caught, lr.rule(None, True, exit=101)]), timeout=100)
        m = e2e.Monitor(r)
        ctx.case(f"skip {args}")
        if m.base_calls:
            ctx.fail(f"baseline skipped {args}, but cargo ran on the unmutated tree", **r.desc())
        if not m.calls:
            ctx.fail(f"baseline skipped {args}: no mutants were tested", **r.desc())
        if any(o["scenario"] == "Baseline" for o in (m.outcomes or {}).get("outcomes", [])):
            ctx.fail(f"baseline skipped {args}, but recorded", **r.desc())
        r.clean(); t.remove()

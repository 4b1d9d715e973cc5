import os, signal, time
import e2e, labruns as lr
UNITS = ["lab", "lab_top"]
RULE = "runs of the real program against a scripted cargo ending in every way (exit codes, signals, timeouts, unable to start, interrupt), in place and copied, 1 and several jobs; non-trivial: a mutant's file was written"
ASSUMPTIONS = ["File system writes are sequentially consistent and std::fs::write either writes everything or reports an error; a failed write may leave the file partly written (the property is not claimed for that case)",
               "a worker thread that panics is outside the contract"]
def concrete(ctx):
    ctx.build()
    lf = ("src/a.rs",)
    def one(what, args, plan, in_place, **kw):
        t = lr.tree(ctx)
        r = e2e.Run(ctx, t, args, plan, timeout=120, **kw)
        m = e2e.Monitor(r)
        ctx.case(what, dict(what=what, args=args, rc=r.rc, cargo_calls=len(r.log)), len(r.log))
        if r.hung:
            ctx.fail(f"{what}: did not end", **r.desc())
        lr.each_call_clean(ctx, r, m, what)
        lr.same_tree(ctx, r, t, what, lf if in_place else ())
        if "--leak-dirs" in args:
            lr.leaked_clean(ctx, r, m, what)
        if not in_place and any(c["cwd"] == t.dir for c in r.log):
            ctx.fail(f"{what}: cargo ran in the source tree without --in-place", **r.desc())
        r.clean(); t.remove()
        return r, m
    one("mixed, copied, 3 jobs", ["-j3", "--timeout=1", "--leak-dirs"], lr.mix(True), False)
    one("mixed, in place", ["--in-place", "--timeout=1"], lr.mix(True), True)
    late = lr.mix(); late["rules"].insert(0, dict(phase="test", baseline=False, contains="true " + e2e.MARKER, do=lr.SLOW)); late["rules"].insert(1, dict(phase="build", baseline=False, contains="*= " + e2e.MARKER, do=lr.SLOW))
    one("time limits passed, in place", ["--in-place", "--timeout=1", "--build-timeout=1"], late, True)
    one("check only, in place", ["--in-place", "--check"], lr.mix(), True)
    one("mixed, copied, one job", ["--leak-dirs", "--timeout=1"], lr.mix(True), False)
    # cargo cannot be started any more after some mutant: internal error
    for k, (phase, sub) in enumerate((("build", "*="), ("test", "!="), ("build", "xyzzy"), ("test", "9"))):
        for st in ({"exit": 0, "rm_self": 1}, {"exit": 101, "rm_self": 1}):
            plan = dict(rules=[dict(phase=phase, baseline=False, contains=sub + " " + e2e.MARKER, do=st)])
            r, m = one(f"cargo gone after {phase} of {sub} {st}", ["--in-place"], plan, True)
            if not ctx.thorough and k > 1: continue
            one(f"cargo gone after {phase} of {sub} {st}, copied", ["-j2", "--leak-dirs"], plan, False)
    # interrupted by ^C while a mutant is being built or tested
    for phase, sub in (("build", "*="), ("test", "true")):
        plan = dict(rules=[dict(phase=phase, baseline=False, contains=sub + " " + e2e.MARKER, do=dict(sleep=30, sigint_parent=1))])
        r, m = one(f"interrupt during {phase}", ["--in-place"], plan, True)
        if r.rc == 0:
            ctx.fail("interrupted run ended with status 0", **r.desc())
        one(f"interrupt during {phase}, copied", ["-j2", "--leak-dirs"], plan, False)
    if ctx.thorough:
        for s in range(12):
            p = lr.mix(True); p["seed"] = ctx.seed * 100 + s
            one(f"mixed seed {s}", ["--in-place", "--timeout=1"], p, True)
            one(f"mixed seed {s} copied", [f"-j{1 + s % 5}", "--timeout=1", "--leak-dirs"], p, False)

import os, signal, time
import e2e, labruns as lr
UNITS = ["copy", "lab_top"]
RULE = "whole runs in every mode (copied, in place, several jobs, leaked) ended in every way (all tested, failing baseline, refused arguments, cargo that cannot be started, interrupt at several points); oracle: the directories in which cargo ran and what is left in the temporary directory; non-trivial: distinct (mode, ending)"
TRUSTED = ["tempfile: a TempDir is a new directory, removed with all it holds when the value is dropped; Rust drops each owned value on every way out of a function, and main calls exit only after test_mutants has returned"]

def left(r):
    return sorted(x for x in os.listdir(r.tmp))

def judge(ctx, what, t, r, in_place=False, leak=False, dirs=None):
    root = os.path.realpath(t.dir)
    tmp = os.path.realpath(r.tmp)
    ran = {os.path.realpath(c["cwd"]) for c in r.log}
    for d in ran:
        if in_place and d != root and not d.startswith(root + "/"):
            ctx.fail(f"{what}: with --in-place cargo ran in {d}", **r.desc())
        if not in_place and (d == root or d.startswith(root + "/") or os.path.dirname(d) != tmp):
            ctx.fail(f"{what}: cargo ran in {d}, not in a scratch directory of its own below the temporary directory", **r.desc())
    if not os.path.isfile(os.path.join(root, "Cargo.toml")):
        ctx.fail(f"{what}: the source tree is gone", **r.desc())
    l = left(r)
    if in_place and l:
        ctx.fail(f"{what}: scratch directories {l} although nothing was to be copied", **r.desc())
    if leak:
        gone = [d for d in ran if not os.path.isdir(d)]
        if gone:
            ctx.fail(f"{what}: {gone} removed although --leak-dirs is given", **r.desc())
    elif l:
        ctx.fail(f"{what}: left in the temporary directory at the end: {l}", **r.desc())
    if dirs is not None and len(ran) > dirs:
        ctx.fail(f"{what}: {len(ran)} directories for {dirs} jobs", **r.desc())

def concrete(ctx):
    ctx.build()
    U = lambda sub, ph, a: dict(phase=ph, baseline=False, contains=sub + " " + e2e.MARKER, do=a)
    B = lambda ph, a: lr.rule(ph, True, **a)
    caught = lr.rule("test", False, **lr.X101)
    modes = [("copied", [], False, False, 1), ("in place", ["--in-place"], True, False, 1), ("four jobs", ["-j4"], False, False, 4), ("leaked", ["--leak-dirs"], False, True, 1), ("leaked, three jobs", ["--leak-dirs", "-j3"], False, True, 3), ("in place, leaked", ["--in-place", "--leak-dirs"], True, True, 1)]
    ends = [("all caught", [caught], []), ("some of each", [U("-1", "test", lr.X0), U("0", "build", lr.X101), U("true", "test", lr.SLOW), U("1", "test", {"signal": 9}), caught], ["--timeout=1"]),
            ("baseline build fails", [B("build", lr.X101)], []), ("baseline test fails", [B("test", lr.X1)], []), ("baseline times out", [B("test", lr.SLOW)], ["--timeout=1"]),
            ("check", [U("-1", "check", lr.X101)], ["--check"]), ("no baseline", [caught], ["--baseline=skip"]), ("all caught, more told", [caught], ["--all-logs", "--caught", "--unviable", "--cap-lints=true", "--shard=0/2"]), ("all caught, other flags", [caught], ["--iterate", "--minimum-test-timeout=3", "--level=debug", "--line-col=true"]), ("all unviable", [lr.rule("build", False, **lr.X1)], []), ("no mutants", [], ["--exclude-re=."]), ("list", [], ["--list"]), ("bad option", [], ["--no-such"])]
    sel = ["-F", "replace (add|le|pick) "]
    for mn, ma, ip, lk, n in modes:
        for en, rules, ea in ends:
            if mn != "copied" and en in ("check", "all unviable", "bad option", "list") and not ctx.thorough:
                continue
            t = lr.tree(ctx)
            r = e2e.Run(ctx, t, sel + ma + ea, dict(rules=rules), timeout=150)
            what = f"{mn}, {en}"
            judge(ctx, what, t, r, ip, lk, n)
            if en in ("list", "bad option", "no mutants") and left(r):
                ctx.fail(f"{what}: scratch directories {left(r)} for a command that tests nothing", **r.desc())
            if (en == "some of each" or en.startswith("all caught")) and not r.log:
                ctx.fail(f"{what}: cargo was never run", **r.desc())
            ctx.case(what, dict(mode=mn, ending=en, left=len(left(r)), exit=r.rc))
            r.clean(); t.remove()
    # cargo goes away while mutants are tested: an internal error
    for mn, ma, ip, lk, n in modes[:4]:
        t = lr.tree(ctx)
        r = e2e.Run(ctx, t, sel + ma, dict(rules=[dict(phase="test", baseline=False, do=dict(hide_self=2, exit=1))]), timeout=60)
        what = f"{mn}, cargo removed"
        judge(ctx, what, t, r, ip, lk, n)
        ctx.case(what, dict(mode=mn, ending="cargo removed", exit=r.rc))
        r.clean(); t.remove()
    # interrupts
    def when(k):
        def f(run, p):
            t0 = time.time()
            while time.time() - t0 < 30 and p.poll() is None:
                if len(run.read_log()) >= k: break
                time.sleep(0.02)
            p.send_signal(signal.SIGINT)
        return f
    for mn, ma, ip, lk, n in modes[:5]:
        for k in ((1, 4) if not ctx.thorough else (1, 2, 3, 4, 6)):
            t = lr.tree(ctx)
            r = e2e.Run(ctx, t, sel + ma, dict(rules=[dict(do=dict(sleep=3 if k == 1 else 0.4, exit=0))]), timeout=60, interrupt=when(k))
            what = f"{mn}, interrupted in command {k}"
            judge(ctx, what, t, r, ip, lk, n)
            if r.rc == 0:
                ctx.fail(f"{what}: exit status 0", **r.desc())
            ctx.case(what, dict(mode=mn, ending=f"interrupt {k}", exit=r.rc))
            r.clean(); t.remove()

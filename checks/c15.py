import glob, os, signal, time
import e2e, labruns as lr
UNITS = ["process"]
RULE = "whole runs whose commands end with every exit code 0-255 and with signals, overrun their limits with grandchildren, are slow to stop, or are interrupted; oracle: recorded status, surviving processes, order of ends and starts; non-trivial: distinct endings"
SIG = [1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 24, 25, 26, 31]

def many(ctx, n):
    src = "".join(f"pub fn f{i}() -> bool {{\n    g{i}()\n}}\n" for i in range(n))
    return e2e.Tree(ctx, {"Cargo.toml": e2e.simple_pkg(), "src/lib.rs": src})

def alive(pid):
    try:
        return open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()[0] != "Z"
    except OSError:
        return False

def own_groups(ctx, r, what):
    for c in r.log:
        if c["pgid"] != c["pid"]:
            ctx.fail(f"{what}: cargo {c['argv'][:2]} ran in process group {c['pgid']}, not one of its own ({c['pid']})", **r.desc())

def endings(ctx):
    """every exit code, and signals, each as the ending of one mutant's test"""
    acts = [{"exit": i} for i in range(256)] + [{"signal": s} for s in SIG]
    acts += acts[:len(acts) % 2]
    n = len(acts) // 2
    t = many(ctx, n)
    rules = [dict(phase="test", contains=f"fn f{i}() -> bool {{\n    {v} /* ~", do=acts[2 * i + (v == "true")]) for i in range(n) for v in ("true", "false")]
    r = e2e.Run(ctx, t, ["-j8", "--timeout=60"], dict(rules=rules), timeout=300)
    m = e2e.Monitor(r)
    own_groups(ctx, r, "exit codes")
    seen = 0
    for i, os_ in m.out_by_mutant().items():
        if not isinstance(i, int): continue
        mu = m.mutants[i]
        k = int(mu["function"]["function_name"][1:])
        a = acts[2 * k + (mu["replacement"] == "true")]
        got = [p["process_status"] for p in os_[0]["phase_results"] if p["phase"] == "Test"]
        seen += 1
        ctx.case(f"end {a}", dict(ending=a, recorded=got))
        if got != [e2e.exit_of(a, False)]:
            ctx.fail(f"a test command that ended with {a} was recorded as {got}", **r.desc())
    if seen != len(acts):
        ctx.fail(f"{seen} of {len(acts)} mutants recorded, exit {r.rc}: {r.stderr[-300:]}", **r.desc())
    # the same for build
    r.clean(); t.remove()

def over(ctx, what, args, plan, phase, lim, n=3):
    """commands over their limit"""
    t = many(ctx, n)
    r = e2e.Run(ctx, t, args, plan, timeout=120)
    end = time.monotonic()
    left = [c["pid"] for c in r.children + r.log if alive(c["pid"])]
    m = e2e.Monitor(r)
    own_groups(ctx, r, what)
    if r.hung:
        ctx.fail(f"{what}: the run did not end", **r.desc())
    slow = [c for c in r.log if c["phase"] == phase and c["action"].get("sleep")]
    base = all(not c["changed"] for c in slow)
    ctx.case(what, dict(what=what, args=args, plan=plan), len(slow))
    if not slow:
        ctx.fail(f"{what}: no such command ran, exit {r.rc}", **r.desc())
    done = [c for c in slow if c["id"] in r.ends]
    if done:
        ctx.fail(f"{what}: a command of {done[0]['action']} with a limit of {lim} s ran to its end", **r.desc())
    for k, os_ in m.out_by_mutant().items():
        for o in os_:
            for p in o["phase_results"]:
                if p["phase"].lower() == phase and (k is None) == base and (p["process_status"] != "Timeout" or p["duration"] < lim):
                    ctx.fail(f"{what}: {phase} over its limit recorded as {p['process_status']} after {p['duration']} s", **r.desc())
    if left:
        time.sleep(0.5)     # the signal may still be on its way to a grandchild
        left = [p for p in left if alive(p)]
    if left:
        for p in left:
            try: os.kill(p, 9)
            except OSError: pass
        ctx.fail(f"{what}: processes {left} of stopped commands are still running after the run", **r.desc())
    # nothing runs next to a command that is being stopped
    for c in slow:
        if c["action"].get("linger"):
            if c["id"] not in r.gone:
                ctx.fail(f"{what}: a command slow to stop was not waited for (run ended, it had not)", **r.desc())
            for d in r.log:
                if d["cwd"] == c["cwd"] and d["id"] != c["id"] and c["t"] < d["t"] < r.gone.get(c["id"], end):
                    ctx.fail(f"{what}: cargo {d['argv'][:2]} started while the timed-out command was still running in the same tree", **r.desc())
    time.sleep(max(0, 4.5 - (time.monotonic() - end)) if any(c["action"].get("child") for c in slow) and ctx.thorough else 0)
    sv = glob.glob(r.fd + "/survivor-*")
    if sv:
        ctx.fail(f"{what}: a grandchild of a stopped command went on and wrote its file", **r.desc())
    r.clean(); t.remove()

def interrupted(ctx, what, sig, args, plan):
    t = many(ctx, 3)
    hit = []
    def go(run, p):
        for _ in range(200):
            time.sleep(0.1)
            if any(c["action"].get("sleep", 0) > 5 for c in run.read_log()):
                break
        time.sleep(0.3)
        hit.append(time.monotonic())
        p.send_signal(sig)
    r = e2e.Run(ctx, t, args, plan, timeout=60, interrupt=go)
    took = time.monotonic() - hit[0]
    ctx.case(what, dict(what=what, args=args))
    left = [c["pid"] for c in r.children + r.log if alive(c["pid"])]
    if left:
        time.sleep(0.5)
        left = [p for p in left if alive(p)]
        for p in left:
            try: os.kill(p, 9)
            except OSError: pass
    if r.hung or took > 20:
        ctx.fail(f"{what}: still running {took:.0f} s after the interrupt", **r.desc())
    if left:
        ctx.fail(f"{what}: processes {left} still running after the interrupted run ended", **r.desc())
    if r.rc in (0, None):
        ctx.fail(f"{what}: interrupted run exits {r.rc}", **r.desc())
    m = e2e.Monitor(r)
    for k, os_ in m.out_by_mutant().items():
        for o in os_:
            for p in o["phase_results"]:
                cs = m.base_calls if k is None else m.calls.get(k, [])
                c = [c for c in cs if c["phase"] == p["phase"].lower()]
                if c and c[-1]["id"] not in r.ends:
                    ctx.fail(f"{what}: an interrupted command is recorded as ended with {p['process_status']}", **r.desc())
    for c in r.log:
        if c["t"] > hit[0] + 1.0:
            ctx.fail(f"{what}: cargo {c['argv'][:2]} started {c['t'] - hit[0]:.1f} s after the interrupt", **r.desc())
    r.clean(); t.remove()

def near(ctx):
    """commands that end close to their limit: recorded as their own exit, or as a timeout that took longer than the limit"""
    t = many(ctx, 8)
    acts = [{"sleep": x, "exit": 7} for x in (0.5, 0.8, 0.9, 0.95, 1.0, 1.02, 1.05, 1.1)]
    r = e2e.Run(ctx, t, ["-j8", "--timeout=1", "--baseline=skip"], dict(rules=[lr.rule("test", False, acts)]), timeout=100)
    m = e2e.Monitor(r)
    for k, os_ in m.out_by_mutant().items():
        for p in os_[0]["phase_results"]:
            if p["phase"] != "Test": continue
            st = p["process_status"]
            ctx.case(f"near {m.calls[k][-1]['action']} {st}", dict(action=m.calls[k][-1]["action"], status=st))
            if not (st == {"Failure": 7} or (st == "Timeout" and p["duration"] >= 1.0)):
                ctx.fail(f"command {m.calls[k][-1]['action']} with a limit of 1 s recorded as {st} after {p['duration']} s", **r.desc())
    r.clean(); t.remove()

def concrete(ctx):
    ctx.build()
    endings(ctx)
    S = dict(sleep=40)
    over(ctx, "test over its limit", ["-j6", "--timeout=1"], dict(rules=[lr.rule("test", False, **S)]), "test", 1)
    over(ctx, "test with grandchildren", ["-j6", "--timeout=1"], dict(rules=[lr.rule("test", False, child=4, **S)]), "test", 1)
    over(ctx, "build with grandchildren", ["-j6", "--build-timeout=1", "--timeout=30"], dict(rules=[lr.rule("build", False, child=4, **S)]), "build", 1)
    over(ctx, "check over its limit", ["-j6", "--check", "--build-timeout=1"], dict(rules=[lr.rule("check", False, child=4, **S)]), "check", 1)
    over(ctx, "baseline over its limit", ["--timeout=1"], dict(rules=[lr.rule("test", True, child=4, **S)]), "test", 1)
    over(ctx, "slow to stop", ["-j1", "--timeout=1"], dict(rules=[lr.rule("test", False, linger=1.5, **S)]), "test", 1, n=1)
    if ctx.thorough:
        over(ctx, "fractional", ["-j6", "--timeout=1.5"], dict(rules=[lr.rule("test", False, child=4, **S)]), "test", 1.5)
        over(ctx, "slow to stop, many", ["-j3", "--timeout=1"], dict(rules=[lr.rule("test", False, linger=2.5, child=8, **S)]), "test", 1, n=4)
    near(ctx)
    for what, sig, args, rule in (("interrupt in baseline", signal.SIGINT, [], lr.rule("build", True, child=30, **S)), ("interrupt in tests", signal.SIGINT, ["-j3", "--timeout=100"], lr.rule("test", False, child=30, **S)),
                                  ("termination in tests", signal.SIGTERM, ["-j2", "--timeout=100"], lr.rule("test", False, child=30, **S))):
        interrupted(ctx, what, sig, args, dict(rules=[rule]))

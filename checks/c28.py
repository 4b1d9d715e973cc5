import json, os, re
import e2e, labruns as lr
UNITS = ["console", "lab", "lab_top", "options"]
RULE = "whole runs where cargo ends in each way, under each combination of --caught, --unviable, --no-times, --all-logs, --colors, --check and -j; oracle: the text on standard output taken apart into one report per record of outcomes.json and a last line with the totals; non-trivial: distinct (options, reports given and left out)"
TRUSTED = ["console::style and its StyledObject (a styled text shows the characters of the text), Instant and Duration, print!; the log file can still be read when its scenario is reported", "unit lab, unit lab_top: as stated in checks C02, C07, C08"]
ESC = re.compile(r"\x1b\[[0-9;]*m")
WORD = {"CaughtMutant": "caught", "MissedMutant": "MISSED", "Failure": "FAILED", "Success": "ok", "Unviable": "unviable", "Timeout": "TIMEOUT"}

def time_ok(text, prs):
    parts = text.split(" + ")
    if len(parts) != len(prs):
        return False
    for t, p in zip(parts, prs):
        m = re.fullmatch(r"(\d+(?:\.\d+)?)s (\w+)", t)
        if not m or m.group(2) != p["phase"].lower() or abs(float(m.group(1)) - p["duration"]) > 0.1001:
            return False
    return True

def judge(ctx, r, what, flags, times=False):
    """flags: subset of caught, unviable, logs"""
    m = e2e.Monitor(r)
    j = m.outcomes
    out = ESC.sub("", r.stdout)
    bad = lambda msg: ctx.fail(f"{what}: {msg}; standard output was {out[-1500:]!r}", **r.desc())
    if j is None:
        bad("no outcomes.json"); return None
    n = len(m.mutants)
    first = f"Found {n} mutant{'' if n == 1 else 's'} to test\n"
    if not out.startswith(first):
        bad(f"the output does not begin with {first!r}"); return None
    pos = len(first)
    left = list(j["outcomes"])
    shown = []
    hide = lambda o: o["scenario"] != "Baseline" and ((o["summary"] == "CaughtMutant" and "caught" not in flags) or (o["summary"] == "Unviable" and "unviable" not in flags))
    want_log = lambda o: "logs" in flags or (o["scenario"] == "Baseline" and o["phase_results"][-1]["process_status"] != "Success")
    last = None
    while pos < len(out):
        if re.match(r" *(INFO|WARN|ERROR|DEBUG) ", out[pos:pos + 12]):
            pos = out.index("\n", pos) + 1
            continue
        for o in left:
            name = "Unmutated baseline" if o["scenario"] == "Baseline" else m.name_of(o["scenario"]["Mutant"])
            head = f"{WORD[o['summary']]:8} {name}"
            if not out.startswith(head, pos):
                continue
            e = pos + len(head)
            nl = out.index("\n", e)
            if times:
                if not out.startswith(" in ", e) or not time_ok(out[e + 4:nl], o["phase_results"]):
                    continue
            elif nl != e:
                continue
            e = nl + 1
            if want_log(o):
                log = open(os.path.join(r.mo, o["log_path"]), newline="", errors="replace").read()
                if not out.startswith(ESC.sub("", log) + "\n", e):
                    bad(f"{name}: the log is not shown after its report"); return None
                e += len(ESC.sub("", log)) + 1
            left.remove(o)
            shown.append(o)
            if hide(o):
                bad(f"{name} is {o['summary']} and not asked for, but it is reported")
            pos = e
            break
        else:
            nl = out.find("\n", pos)
            last = out[pos:nl]
            pos = nl + 1
            break
    for o in left:
        if not hide(o):
            bad(f"{m.name_of(o['scenario']['Mutant']) if o['scenario'] != 'Baseline' else 'the baseline'} is {o['summary']}, but that is not reported (the first text that is no report: {last!r})")
    if pos < len(out):
        bad(f"text after {last!r}")
    base = [o for o in j["outcomes"] if o["scenario"] == "Baseline"]
    if base and base[0]["phase_results"][-1]["process_status"] != "Success":
        if last is not None:
            bad(f"{last!r} after a baseline that failed")
    else:
        muts = [o for o in j["outcomes"] if o["scenario"] != "Baseline"]
        c = lambda s: sum(o["summary"] == s for o in muts)
        k = len(muts)
        parts = [f"{c(s)} {w}" for s, w in (("MissedMutant", "missed"), ("CaughtMutant", "caught"), ("Unviable", "unviable"), ("Timeout", "timeouts"), ("Success", "succeeded")) if c(s)]
        pat = re.escape(f"{k} mutant{'' if k == 1 else 's'} tested") + (r" in (\d+\w+ ?)+" if times else "") + re.escape(": " + ", ".join(parts))
        if last is None or not re.fullmatch(pat, last):
            bad(f"the last line is {last!r}, expected one like {pat!r}")
    return tuple(sorted(o["summary"] for o in shown)), len(j["outcomes"]) - len(shown)

def concrete(ctx):
    ctx.build()
    U = lambda sub, ph, a: dict(phase=ph, baseline=False, contains=sub + " " + e2e.MARKER, do=a)
    B = lambda ph, a: lr.rule(ph, True, **a)
    caught = lr.rule("test", False, **lr.X101)
    every = [U("-1", "test", lr.X0), U("0", "build", lr.X101), U("true", "test", lr.SLOW), U("1", "test", {"signal": 9}), caught]
    cases = [("some of each", every, ["--timeout=1"])]
    opts = []
    for k in range(8):
        fl = [f for i, f in enumerate(("caught", "unviable", "logs")) if k >> i & 1]
        opts.append((fl, k in (3, 4), "never" if k != 6 else "always"))
    arg = {"caught": "--caught", "unviable": "--unviable", "logs": "--all-logs"}
    def go(what, rules, args, fl, times, colors, plan=None):
        t = lr.tree(ctx)
        r = e2e.Run(ctx, t, [*args, *(arg[f] for f in fl), f"--colors={colors}"], plan or dict(rules=rules), timeout=150, times=times)
        w = f"{what} {fl} {'times' if times else ''} {colors}"
        g = judge(ctx, r, w, fl, times)
        ctx.case((what, tuple(fl), times, colors, g), dict(case=what, options=fl, times=times, colors=colors))
        r.clean(); t.remove()
    for fl, times, colors in opts:
        go("some of each", every, ["--timeout=1", "-j4", "-F", "replace (add|le|pick) "], fl, times, colors)
    allf = ["caught", "unviable", "logs"]
    for what, rules, args in [
        ("baseline build fails", [B("build", lr.X101)], []), ("baseline test fails", [B("test", lr.X1)], []), ("baseline times out", [B("test", lr.SLOW)], ["--timeout=1"]), ("baseline killed", [B("test", {"signal": 9})], []),
        ("check", [U("-1", "check", lr.X101)], ["--check"]), ("check baseline fails", [B("check", lr.X101)], ["--check"]),
        ("no baseline", every, ["--baseline=skip", "--timeout=1"]), ("one mutant", [caught], ["--shard=2/7"]), ("all unviable", [lr.rule("build", False, **lr.X1)], []),
        ("all missed", [], []), ("one of each", [U("-1", "test", lr.X0), U("0", "build", lr.X101), U("true", "test", lr.SLOW), U("1", "test", lr.X1)], ["--timeout=1", "-F", "add|le -> bool with true", "--exclude-re", "operator|false|pick|replace . with|replace <"]), ("check one", [], ["--check", "--shard=1/7"]), ("one missed", [], ["--shard=0/7"]), ("one unviable", [lr.rule("build", False, **lr.X1)], ["--shard=0/7"]), ("build timeout", [U("-1", "build", lr.SLOW), caught], ["--build-timeout=1"]),
    ]:
        for fl, times in (([], True), (allf[:2], False)):
            go(what, rules, args + ["-F", "replace (add|le|pick) ", "-j3"], fl, times, "never")
    # output that is not UTF-8
    raw = dict(raw="4c61e92001fffec3280a")
    for what, rules, args, fl in [("baseline test fails, not UTF-8", [B("test", dict(lr.X1, **raw))], [], []), ("baseline build fails, not UTF-8", [B("build", dict(lr.X101, **raw))], ["--check"][:0], []),
                                  ("logs not UTF-8", [lr.rule("test", None, exit=0, **raw)], ["-j2"], allf), ("some logs not UTF-8", [U("-1", "test", dict(lr.X101, **raw)), U("0", "build", dict(lr.X101, **raw)), caught], ["-j2"], allf)]:
        go(what, rules, args + ["-F", "replace (add|le|pick) "], fl, False, "never")
    for s in range(30 if ctx.thorough else 3):
        p = lr.mix(s % 3 == 0)
        p["seed"] = 31 * ctx.seed + s
        fl = [f for f in allf if ctx.rng.random() < 0.5]
        go(f"seed {s}", None, ["--timeout=1", "-j4"], fl, s % 2 == 0, "never", p)

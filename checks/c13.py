import json, os
import e2e, labruns as lr
UNITS = ["iterate", "mainfn", "options"]
RULE = "histories of whole runs with and without --iterate, with random verdicts, filters, shards, failed baselines, interrupts and edits in between; oracle: the set of names remembered; non-trivial: distinct (history, step)"
X0, X101 = lr.X0, lr.X101

def names(m, ms):
    return [m.name_of(x) for x in ms]

def step(ctx, t, out, hist, k, iterate, extra, plan, remembered, interrupt=None):
    what = f"{hist}, run {k} ({'--iterate ' if iterate else ''}{' '.join(extra)})"
    args = (["--iterate"] if iterate else []) + extra
    where = [] if out == "default" else ["-o", out]
    everything = e2e.Run(ctx, t, ["--list", "--line-col=true", *extra, *where], plan).stdout.split("\n")[:-1]
    if k == 1 and not everything and not any(x.startswith("-F") for x in extra):
        ctx.fail(f"{what}: nothing listed")
    if iterate:
        lst = e2e.Run(ctx, t, ["--list", "--line-col=true", *args, *where], plan).stdout.split("\n")[:-1]
        want0 = [x for x in everything if x not in remembered] if not any(a.startswith("--shard") for a in extra) else None
        if want0 is not None and lst != want0:
            ctx.fail(f"{what}: listed {sorted(set(lst) ^ set(want0))[:4]} differently from what was remembered", remembered=sorted(remembered), listed=lst)
    else:
        lst = everything
    r = e2e.Run(ctx, t, args + ["-j4", "--timeout=60"], plan, outdir=out, timeout=120, interrupt=interrupt)
    m = e2e.Monitor(r)
    tested = sorted(m.name_of(m.mutants[i]) for i in m.calls)
    chosen = sorted(names(m, m.mutants))
    base_ok = interrupt is None and not any(c["action"].get("exit") for c in m.base_calls)
    ctx.case((hist, k), dict(history=hist, run=k, args=args, remembered=len(remembered), tested=len(tested)))
    if lst and chosen != sorted(lst):
        ctx.fail(f"{what}: the run's mutants differ from the list: {sorted(set(chosen) ^ set(lst))[:4]}", **r.desc())
    if lst and base_ok and tested != sorted(lst):
        ctx.fail(f"{what}: tested {sorted(set(tested) ^ set(lst))[:4]} differently from expected, exit {r.rc}", **r.desc())
    for x in tested:
        if iterate and x in remembered:
            ctx.fail(f"{what}: {x} was caught or unviable earlier and was tested again", **r.desc())
    if not lst:
        # nothing to test: the run ends early, its output directory may or may not exist
        r.clean_keep = True
    if iterate and os.path.exists(os.path.join(r.mo, "mutants.json")):
        rec = set(r.lines("previously_caught.txt") or [])
        if rec != remembered:
            ctx.fail(f"{what}: previously_caught.txt differs from what was remembered by {sorted(rec ^ remembered)[:4]}", **r.desc())
    got = set(r.lines("caught.txt") or []) | set(r.lines("unviable.txt") or [])
    # what really happened to each
    if interrupt is None:
        real = set()
        for i, cs in m.calls.items():
            st = lr.statuses(m, cs)
            v = e2e.verdict(lr.phase_list(cs), st, False)
            if v in ("CaughtMutant", "Unviable"):
                real.add(m.name_of(m.mutants[i]))
        if got != real:
            ctx.fail(f"{what}: caught.txt and unviable.txt differ from what happened by {sorted(got ^ real)[:4]}", **r.desc())
    if os.path.exists(os.path.join(r.mo, "mutants.json")) or not iterate:
        remembered = got | (remembered if iterate else set())
    return remembered

def history(ctx, what, steps, out="o", edits=None, before=None):
    t = lr.tree(ctx)
    d = "default" if out == "default" else os.path.join(ctx.scratch, f"hist{ctx.rng.randrange(10**9)}")
    rem = set()
    if before:
        # an output directory left by an earlier version of the tree, which had many more mutants
        listed = e2e.Run(ctx, t, ["--list", "--line-col=true"], {}).stdout.split("\n")[:-1]
        mo = os.path.join(d, "mutants.out")
        os.makedirs(mo)
        for n, f in enumerate(("caught.txt", "unviable.txt", "previously_caught.txt")):
            if f not in before:
                continue
            ls = [f"src/gone{n}.rs:{i + 1}:5: replace gone_{i} -> u{8 << (i % 4)} with {i % 2}" for i in range(before[f])]
            for k, x in enumerate(listed):
                if k % 4 == n:
                    ls.insert(min(len(ls), (k * 977 + n) % (len(ls) + 1)), x)
            open(os.path.join(mo, f), "w").write("".join(x + "\n" for x in ls))
            rem |= set(ls)
    for k, (it, extra, plan, intr) in enumerate(steps, 1):
        if edits and k in edits:
            f, fn = edits[k]
            t.files[f] = fn(t.files[f])
            open(os.path.join(t.dir, f), "w", newline="").write(t.files[f])
        rem = step(ctx, t, d, what, k, it, extra, plan, rem, intr)
    t.remove()

def plan(seed, b=None, tt=None):
    return dict(seed=seed, rules=[lr.rule(None, True, **X0), lr.rule("build", False, b or [X0, X0, X0, X101]), lr.rule("test", False, tt or [X0, X0, X101, {"signal": 6}, X101])])

def concrete(ctx):
    ctx.build()
    allmiss, allcaught = plan(0, [X0], [X0]), plan(0, [X0], [X101])
    bad = dict(rules=[lr.rule("test", True, **X101)])
    S = ctx.seed * 1000
    def intr(run, p):
        import time, signal
        for _ in range(300):
            time.sleep(0.05)
            if sum(1 for c in run.read_log() if c["changed"]) >= 6:
                break
        p.send_signal(signal.SIGINT)
    history(ctx, "five iterations", [(k > 0, [], plan(S + k), None) for k in range(5)])
    history(ctx, "iterate from the start", [(True, [], plan(S + 10), None), (True, [], plan(S + 11), None), (True, [], allcaught, None), (True, [], allmiss, None)], out="default")
    history(ctx, "nothing caught, then all", [(False, [], allmiss, None), (True, [], allmiss, None), (True, [], allcaught, None), (True, [], allcaught, None), (False, [], plan(S + 12), None), (True, [], plan(S + 13), None)])
    history(ctx, "filters in between", [(False, ["-F", "replace (add|flag)"], plan(S + 20), None), (True, ["-E", "replace flag"], plan(S + 21), None), (True, ["-f", "src/b/mod.rs"], plan(S + 22), None), (True, [], plan(S + 23), None), (True, ["-F", "no such name"], plan(S + 24), None), (True, [], plan(S + 25), None)])
    history(ctx, "shards", [(False, ["--shard=0/3"], plan(S + 30), None), (True, ["--shard=1/2"], plan(S + 31), None), (True, [], plan(S + 32), None)])
    history(ctx, "failed baseline between", [(False, [], plan(S + 40), None), (True, [], bad, None), (True, [], plan(S + 41), None), (True, [], bad, None), (True, [], allmiss, None)])
    history(ctx, "interrupted", [(True, [], plan(S + 50), None), (True, [], dict(seed=S, rules=[lr.rule("test", False, [{"exit": 101}, {"sleep": 0.3, "exit": 101}, {"sleep": 0.5}])]), intr), (True, [], plan(S + 51), None), (True, [], plan(S + 52), None)])
    history(ctx, "edited between", [(True, [], allcaught, None), (True, [], plan(S + 60), None), (True, [], plan(S + 61), None), (True, [], allcaught, None)], edits={2: ("src/lib.rs", lambda s: "// one more line\n" + s), 3: ("src/lib.rs", lambda s: s.replace("// one more line\n", ""))})
    history(ctx, "large record", [(True, [], plan(S + 80), None), (True, [], plan(S + 81), None)], before={"caught.txt": 3000, "unviable.txt": 700, "previously_caught.txt": 20000})
    history(ctx, "large caught", [(True, [], plan(S + 82), None), (True, [], plan(S + 83), None)], before={"caught.txt": 400, "unviable.txt": 0})
    history(ctx, "check only", [(False, ["--check"], dict(rules=[lr.rule("check", False, [X0, X101])]), None), (True, ["--check"], dict(rules=[lr.rule("check", False, [X0, X101])]), None), (True, [], plan(S + 70), None)])
    for k in range(2 if not ctx.thorough else 30):
        n = ctx.rng.randint(3, 7)
        steps = []
        for j in range(n):
            ex = ctx.rng.choice([[], [], [], ["-F", ctx.rng.choice(["add", "flag|le", "with"])], ["-E", ctx.rng.choice(["bool", "pick"])], ["-f", "src/a.rs"]])
            steps.append((ctx.rng.random() < 0.85, ex, ctx.rng.choice([plan(ctx.rng.randrange(10**6)), plan(ctx.rng.randrange(10**6)), bad]), None))
        history(ctx, f"random {k}", steps)

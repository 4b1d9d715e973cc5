import json, os
import e2e, labruns as lr
UNITS = ["options", "mainfn", "config"]
RULE = "Options computed by the real code for random combinations of command line and config settings, plus runs observing argv, output directory, copies and lists; oracle: the precedence rules; non-trivial: distinct combinations"
S = 10**9
def q(x): return json.dumps(x)
SC = [  # option, cli values, config key, config values, result field, default, map
    ("--timeout-multiplier", [0.5, 3.0], "timeout_multiplier", [1.25, 9.0], "test_timeout_multiplier", None, None),
    ("--build-timeout-multiplier", [0.5, 3.0], "build_timeout_multiplier", [1.25, 9.0], "build_timeout_multiplier", None, None),
    ("--minimum-test-timeout", [0.0, 33.0], "minimum_test_timeout", [0.0, 4.5], "minimum_test_timeout", 20 * S, lambda x: round(x * S)),
    ("--profile", ["", "p1"], "profile", ["p2", ""], "profile", None, None),
    ("--output", ["o1"], "output", ["o2"], "output", None, None),
    ("--test-tool", ["nextest", "cargo"], "test_tool", ["nextest", "cargo"], "test_tool", "Cargo", str.capitalize),
    ("--copy-vcs", [True, False], "copy_vcs", [True, False], "copy_vcs", False, None),
    ("--cap-lints", [True, False], "cap_lints", [True, False], "cap_lints", False, None),
]
LISTS = [  # repl: first non-empty; join: concatenation
    ("--re", "examine_re", "examine_re", "repl"), ("--exclude-re", "exclude_re", "exclude_re", "repl"),
    ("--cargo-arg", "additional_cargo_args", "cargo_args", "join"), ("--", "additional_cargo_test_args", "test_args", "join"),
    ("--error", "error_values", "error_values", "join"), ("--skip-calls", "skip_calls", "skip_calls", "skip"),
    ("--file", "examine_globs", "examine_globs", "glob"), ("--exclude", "exclude_globs", "exclude_globs", "glob"),
]
def show(v): return str(v).lower() if isinstance(v, bool) else str(v)
def concrete(ctx):
    ctx.build(["options"])
    rng = ctx.rng
    if ctx.hooked:
        for it in range(12000 if ctx.thorough else 2500):
            argv, tail, cfg, want = [], [], "", {}
            dens = rng.choice([0.15, 0.5, 0.85])
            for o, cv, key, kv, field, dflt, f in SC:
                f = f or (lambda x: x)
                a = rng.choice(cv) if rng.random() < dens else None
                c = rng.choice(kv) if rng.random() < dens else None
                if a is not None: argv.append(f"{o}={show(a)}")
                if c is not None: cfg += f"{key} = {q(c)}\n"
                want[field] = f(a) if a is not None else f(c) if c is not None else dflt
            for o, key, field, how in LISTS:
                if o == "--error": mk = lambda: rng.choice(["Foo::Bar", "anyhow!(\"x\")", "1", "e"])
                elif o in ("--file", "--exclude"): mk = lambda: rng.choice(["a.rs", "src/*.rs", "x", "**/y/*"])
                else: mk = lambda: rng.choice(["aa", "b", "cc.*d", "e-f", "ggg"])
                a = [mk() for _ in range(rng.randint(1, 3))] if rng.random() < dens else []
                c = [mk() for _ in range(rng.randint(0, 3))] if rng.random() < dens else None
                if o == "--": tail = ["--"] + a if a else []
                elif o == "--skip-calls" and len(a) == 3: argv += [f"{o}={a[0]},{a[1]}", f"{o}={a[2]}"]
                else: argv += [f"{o}={x}" for x in a]
                if c is not None: cfg += f"{key} = {q(c)}\n"
                c = c or []
                if how == "repl": want[field] = a or c
                elif how == "glob":
                    g = a or c
                    want[field] = sum(1 if "/" in x else 2 for x in g) if g else None
                elif how == "join": want[field] = a + c
                else:
                    da = rng.choice([True, False]) if rng.random() < dens else None
                    dc = rng.choice([True, False]) if rng.random() < dens else None
                    if da is not None: argv.append(f"--skip-calls-defaults={show(da)}")
                    if dc is not None: cfg += f"skip_calls_defaults = {q(dc)}\n"
                    on = da if da is not None else dc if dc is not None else True
                    want[field] = a + c + (["with_capacity"] if on else [])
            tw, tp = rng.choice([None, None, True, False]), rng.choice([[], [], ["x"], ["x", "y"]])
            ctw, ctp = rng.choice([None, None, True, False]), rng.choice([None, [], ["z"]])
            argv += ([f"--test-workspace={show(tw)}"] if tw is not None else []) + ([f"--test-package={','.join(tp)}"] if tp else [])
            cfg += (f"test_workspace = {q(ctw)}\n" if ctw is not None else "") + (f"test_package = {q(ctp)}\n" if ctp is not None else "")
            named = lambda l: "Named([" + ", ".join(q(x) for x in l) + "])"
            want["test_package"] = "Workspace" if tw else named(tp) if tp else "Workspace" if tw is None and ctw else named(ctp) if ctp else "Mutated"
            g = ctx.call("options", argv=argv + tail, config=cfg)
            ctx.case((tuple(argv + tail), cfg), dict(argv=argv + tail, config=cfg) if it < 4 else None)
            if not g.get("ok"):
                ctx.fail(f"options {argv + tail} with config {cfg!r}: {g}"); return
            for k, w in want.items():
                if g["ok"][k] != w:
                    ctx.fail(f"{k} is {g['ok'][k]!r}, expected {w!r}: command line {argv + tail}, config {cfg!r}")
    # command line runs
    caught = dict(rules=[lr.rule("test", False, **lr.X101)])
    one = ["-F", "replace add -> i32 with 0"]
    def run(what, args, cfg, see, want, sel=one, **kw):
        t = lr.tree(ctx, **({".cargo/mutants.toml": cfg} if cfg is not None else {}))
        r = e2e.Run(ctx, t, sel + args, caught, **kw)
        ctx.case(("run", what), dict(what=what, args=args, config=cfg), len(r.log))
        got = see(r, t)
        if got != want:
            ctx.fail(f"{what}: {got!r}, expected {want!r}", config=cfg, **r.desc())
        r.clean(); t.remove()
    def profiles(r, t): return sorted({x for c in r.log for x in c["argv"] if x.startswith("--profile")})
    run("profile from config", [], 'profile = "rel"\n', profiles, ["--profile=rel"])
    run("profile from command line", ["--profile=dev"], 'profile = "rel"\n', profiles, ["--profile=dev"])
    run("no config", ["--no-config"], 'profile = "rel"\n', profiles, [])
    def tails(r, t): return [c["argv"][c["argv"].index("--lock"):] if "--lock" in c["argv"] else None for c in r.log if c["phase"] == "test"]
    def extra(r, t): return sorted({tuple(x for x in c["argv"] if x.startswith("--x")) for c in r.log if c["phase"] == "test"})
    run("cargo args joined", ["--cargo-arg=--xa", "--", "--xt"], 'additional_cargo_args = ["--xb"]\nadditional_cargo_test_args = ["--xu"]\n', extra, [("--xa", "--xb", "--xt", "--xu")])
    run("cargo args from config, no config", ["--no-config", "--cargo-arg=--xa", "--", "--xt"], 'additional_cargo_args = ["--xb"]\nadditional_cargo_test_args = ["--xu"]\n', extra, [("--xa", "--xt")])
    def names(r, t): return r.stdout.split("\n")[:-1]
    t = lr.tree(ctx); full = lr.listed_names(ctx, t); t.remove()
    L = ["--list", "--line-col=true"]
    pick = lambda s: [x for x in full if s in x]
    run("list: config filter", L, 'examine_re = ["with true"]\n', names, pick("with true"), [])
    run("list: command line filter replaces", L + ["--re=with false"], 'examine_re = ["with true"]\n', names, pick("with false"), [])
    run("list: config filter, no config", L + ["--no-config"], 'examine_re = ["with true"]\n', names, full, [])
    run("list: exclude globs replaced", L + ["-e", "a.rs"], 'exclude_globs = ["lib.rs"]\n', names, [x for x in full if "/a.rs" not in x], [])
    run("list: include globs replaced, exclude kept", L + ["-f", "src/*.rs"], 'examine_globs = ["b"]\nexclude_globs = ["lib.rs"]\n', names, [x for x in full if "/a.rs" in x], [])
    def where(r, t): return sorted(x for x in ("out", "o1", "o2", ".") if os.path.isdir(os.path.join(t.dir, x, "mutants.out")))
    for what, args, cfg, w in (("output default", [], None, ["."]), ("output config", [], 'output = "o2"\n', ["o2"]), ("output both", ["-o", "o1"], 'output = "o2"\n', ["o1"]), ("output no config", ["--no-config"], 'output = "o2"\n', ["."])):
        run(what, args, cfg, where, w, outdir="default")
    def tools(r, t): return sorted({c["argv"][0] for c in r.log if c["phase"] == "test"})
    run("tool config", [], 'test_tool = "nextest"\n', tools, ["nextest"])
    run("tool command line", ["--test-tool=cargo"], 'test_tool = "nextest"\n', tools, ["test"])
    run("output from environment", [], 'output = "o2"\n', where, ["o1"], outdir="default", env={"CARGO_MUTANTS_OUTPUT": "o1"})
    # an invalid or unknown setting is refused, not ignored
    for cfg in ("nosuchkey = 1\n", "timeout_multiplier = \"x\"\n", "= =\n"):
        t = lr.tree(ctx, **{".cargo/mutants.toml": cfg})
        r = e2e.Run(ctx, t, ["--list"])
        ctx.case(("bad", cfg), None)
        if r.rc == 0:
            ctx.fail(f"config {cfg!r} is accepted", **r.desc())
        r2 = e2e.Run(ctx, t, ["--list", "--no-config"])
        if r2.rc != 0:
            ctx.fail(f"--no-config with config file {cfg!r}: exit {r2.rc}", **r2.desc())
        r.clean(); r2.clean(); t.remove()

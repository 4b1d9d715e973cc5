import itertools, os
import e2e, labruns as lr
UNITS = ["cargo", "options"]
RULE = "whole runs with combinations of test tool, profile, features, cargo and test arguments, phases, packages and rust flags, against a scripted cargo that records argv and environment; oracle: the exact command line and flags; non-trivial: distinct option settings"
PK = ["aaa", "b-b"]

def ws(ctx, cfg):
    f = {"Cargo.toml": "[workspace]\nresolver = \"2\"\nmembers = [" + ", ".join(f'"{n}"' for n in PK) + "]\n"}
    for n in PK:
        f[f"{n}/Cargo.toml"] = e2e.simple_pkg(n).replace("0.1.0", "0.1.0" if n == "aaa" else "1.2.3-rc.1")
        f[f"{n}/src/lib.rs"] = f"pub fn {n.replace('-', '_')}_f(v: bool) -> bool {{ !v }}\n"
    if cfg:
        f[".cargo/mutants.toml"] = cfg
    return e2e.Tree(ctx, f)

def expected(phase, o, pk):
    tool = o.get("tool", "cargo")
    a = {"check": ["check", "--tests"], "build": ["test", "--no-run"] if tool == "cargo" else ["nextest", "run", "--no-run"], "test": ["test"] if tool == "cargo" else ["nextest", "run"]}[phase]
    if o.get("profile"):
        a = a + [("--profile=" if tool == "cargo" or phase == "check" else "--cargo-profile=") + o["profile"]]
    a = a + ["--verbose"]
    a += ["--workspace"] if pk == "all" else [f"--package={p}@{'0.1.0' if p == 'aaa' else '1.2.3-rc.1'}" for p in sorted(pk)]
    if o.get("nodef"): a.append("--no-default-features")
    if o.get("allf"): a.append("--all-features")
    a += [f"--features={f}" for f in o.get("features", [])]
    a += o.get("cargo_args", []) + o.get("cfg_cargo_args", [])
    if phase == "test":
        a += o.get("test_args", []) + o.get("cfg_test_args", [])
    return a

def flags(o, env):
    if not o.get("cap"):
        return env.get("CARGO_ENCODED_RUSTFLAGS")
    old = None
    if env.get("CARGO_ENCODED_RUSTFLAGS"):
        old = env["CARGO_ENCODED_RUSTFLAGS"].split("\x1f")
    elif "CARGO_ENCODED_RUSTFLAGS" not in env and env.get("RUSTFLAGS"):
        old = [x for x in env["RUSTFLAGS"].split(" ") if x]
    return "\x1f".join((old or []) + ["--cap-lints=warn"])

def toml(l):
    return "[" + ", ".join('"' + x.replace("\\", "\\\\").replace('"', '\\"') + '"' for x in l) + "]"

def one(ctx, o, env=None, path_only=False):
    cfg, args = "", []
    def put(k, c, v, incfg):
        nonlocal cfg
        if incfg: cfg += c + "\n"
        else: args.extend(v)
    if o.get("tool"): put("tool", f'test_tool = "{o["tool"]}"', [f"--test-tool={o['tool']}"], o.get("tool_cfg"))
    if o.get("profile"): put("profile", f'profile = "{o["profile"]}"', [f"--profile={o['profile']}"], o.get("profile_cfg"))
    if "cap" in o: put("cap", f"cap_lints = {str(o['cap']).lower()}", [f"--cap-lints={str(o['cap']).lower()}"], o.get("cap_cfg"))
    if o.get("cfg_cargo_args"): cfg += f"additional_cargo_args = {toml(o['cfg_cargo_args'])}\n"
    if o.get("cfg_test_args"): cfg += f"additional_cargo_test_args = {toml(o['cfg_test_args'])}\n"
    args += [f"--cargo-arg={a}" for a in o.get("cargo_args", [])]
    if o.get("nodef"): args.append("--no-default-features")
    if o.get("allf"): args.append("--all-features")
    args += [f"--features={f}" for f in o.get("features", [])]
    if o.get("check"): args.append("--check")
    if o.get("pk") == "all": args.append("--test-workspace=true")
    elif o.get("pk"): args.append("--test-package=" + ",".join(o["pk"]))
    tail = ["--", *o["test_args"]] if o.get("test_args") else []
    t = ws(ctx, cfg)
    # a mutant run writes its output outside the tree
    r = e2e.Run(ctx, t, ["-j4", "--workspace", *args, *tail], dict(rules=[lr.rule("test", False, **lr.X101)]), env=env, timeout=100, path_only=path_only)
    m = e2e.Monitor(r)
    what = f"{args + tail}, config {cfg!r}, env {env}"
    ctx.case(repr((sorted(o.items()), sorted((env or {}).items()))), dict(args=args + tail, config=cfg, env=env), len(r.log))
    want = ["check"] if o.get("check") else ["build", "test"]
    sets = [(None, m.base_calls)] + [(m.mutants[i]["package"], cs) for i, cs in m.calls.items()]
    if len(sets) != 1 + len(m.mutants) or len(m.mutants) < 4 or any([c["phase"] for c in cs] != want for _, cs in sets):
        ctx.fail(f"{what}: phases {[(p, [c['phase'] for c in cs]) for p, cs in sets]}, exit {r.rc}", **r.desc())
    for p, cs in sets:
        for c in cs:
            pk = PK if p is None else "all" if o.get("pk") == "all" else o.get("pk") or [p]
            e = expected(c["phase"], o, pk)
            if c["argv"] != e:
                ctx.fail(f"{what}: {'baseline' if p is None else 'mutant'} {c['phase']} ran cargo {c['argv']}, expected {e}", **r.desc())
            f = flags(o, env or {})
            if c["env"].get("INSTA_UPDATE") != "no" or c["env"].get("INSTA_FORCE_PASS") != "0":
                ctx.fail(f"{what}: INSTA_UPDATE={c['env'].get('INSTA_UPDATE')!r}, INSTA_FORCE_PASS={c['env'].get('INSTA_FORCE_PASS')!r}: snapshot tests would not fail", **r.desc())
            if c["env"].get("CARGO_ENCODED_RUSTFLAGS") != f or c["env"].get("RUSTFLAGS") != (env or {}).get("RUSTFLAGS"):
                ctx.fail(f"{what}: CARGO_ENCODED_RUSTFLAGS={c['env'].get('CARGO_ENCODED_RUSTFLAGS')!r}, expected {f!r}; RUSTFLAGS={c['env'].get('RUSTFLAGS')!r}", **r.desc())
    r.clean(); t.remove()

def concrete(ctx):
    ctx.build()
    base = [dict(), dict(tool="nextest"), dict(check=True), dict(tool="nextest", check=True, profile="mut"), dict(profile="mut"), dict(tool="nextest", profile="p-1", profile_cfg=True, tool_cfg=True),
            dict(nodef=True), dict(allf=True, features=["x", "aaa/y z"]), dict(nodef=True, allf=True, features=["a,b"], tool="nextest"),
            dict(cargo_args=["--jobs=1", "-Zfoo", "--"], test_args=["--lib", "a b", ""]), dict(cargo_args=["x"], cfg_cargo_args=["y", "x"], test_args=["--", "--nocapture"], cfg_test_args=["z", "--skip", 'q"r']),
            dict(cfg_cargo_args=["--frozen"], check=True, cfg_test_args=["never"], test_args=["nope"]), dict(pk="all", features=["f"]), dict(pk=["b-b"], tool="nextest", test_args=["-E", "all()"]), dict(pk=["aaa", "b-b"], check=True),
            dict(pk="all", test_args=["--lib"], cfg_test_args=["w"], cargo_args=["-q"]), dict(pk="all", tool="nextest", profile="mut", cfg_test_args=["w"], cfg_cargo_args=["v"], nodef=True), dict(pk="all", check=True, allf=True, cargo_args=["--frozen"]), dict(pk=["aaa", "b-b"], test_args=["t"], cargo_args=["u"], features=["g"], profile="mut"), dict(cap=True, tool="nextest", pk="all", test_args=["x"])]
    for o in base:
        one(ctx, o)
    for env in ({}, {"RUSTFLAGS": ""}, {"RUSTFLAGS": "-Dwarnings"}, {"RUSTFLAGS": "  -C  opt-level=3 --cfg=x "}, {"RUSTFLAGS": "--cap-lints=allow"}, {"RUSTFLAGS": " "},
                {"CARGO_ENCODED_RUSTFLAGS": ""}, {"CARGO_ENCODED_RUSTFLAGS": "--cfg\x1fa b\x1f\x1fq"}, {"CARGO_ENCODED_RUSTFLAGS": "-Cx", "RUSTFLAGS": "-Cy"}, {"CARGO_ENCODED_RUSTFLAGS": "", "RUSTFLAGS": "-Cy"}):
        one(ctx, dict(cap=True), env)
        if env:
            one(ctx, dict(cap=False, check=len(env) == 2), env)
    one(ctx, dict(cap=True, cap_cfg=True, check=True), {"RUSTFLAGS": "-Cy -Cz"})
    one(ctx, dict(), {"INSTA_UPDATE": "always", "INSTA_FORCE_PASS": "1"})
    one(ctx, dict(), path_only=True)      # $CARGO unset: cargo from the path
    n = 12 if not ctx.thorough else 80
    rng = ctx.rng
    for _ in range(n):
        o = {}
        for k, vs in (("tool", [None, "cargo", "nextest"]), ("profile", [None, "release", "é"]), ("check", [False, False, True]), ("nodef", [False, True]), ("allf", [False, True]), ("features", [[], ["u"], ["u", "v"]]),
                      ("cargo_args", [[], ["--color=never"], ["a", "b"]]), ("cfg_cargo_args", [[], ["c"]]), ("test_args", [[], ["t1", "t2"]]), ("cfg_test_args", [[], ["t3"]]), ("pk", [None, "all", ["aaa"]]), ("tool_cfg", [False, True]), ("profile_cfg", [False, True])):
            v = rng.choice(vs)
            if v: o[k] = v
        one(ctx, o, rng.choice([{}, {"RUSTFLAGS": "-Cz"}]))

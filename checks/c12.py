import json, os
import e2e, globs
UNITS = ["options", "glob", "walk", "mainfn"]
RULE = "the real path filter on generated globs and paths, and --list/--list-files/test runs over a nested tree with file and name filters; oracle: vlib/globs.py, written from the documentation; non-trivial: distinct (filters, paths)"
F = "pub fn {n}_f(x: i32) -> i32 {{\n    x + 1\n}}\npub fn {n}_g() -> bool {{\n    true\n}}\n"
def tree(ctx, cfg=None):
    f = {"Cargo.toml": e2e.simple_pkg(), "src/lib.rs": "pub mod a;\npub mod b;\npub mod deep;\n" + F.format(n="lib")}
    f["src/a.rs"] = "pub mod b;\n" + F.format(n="a")
    f["src/a/b.rs"] = F.format(n="a_b")
    f["src/b/mod.rs"] = "pub mod a;\n" + F.format(n="b")
    f["src/b/a.rs"] = F.format(n="b_a")
    f["src/deep/mod.rs"] = "pub mod src;\n" + F.format(n="deep")
    f["src/deep/src/mod.rs"] = "pub mod a;\n" + F.format(n="deep_src")
    f["src/deep/src/a.rs"] = F.format(n="deep_a")
    f["src/bin/tool.rs"] = "fn main() {\n    println!(\"{}\", 1 + 2);\n}\n"
    if cfg: f[".cargo/mutants.toml"] = cfg
    return e2e.Tree(ctx, f)
COMP = ["a", "b", "src", "lib.rs", "a.rs", "mod.rs", "deep", "x.rs", "tests", "é"]
PAT = ["*", "a*", "*.rs", "?.rs", "**", "[ab]", "[!a].rs", "{a,b}", "{a,b}.rs", "lib*", "m?d.rs", "src", "a", "b", "a.rs", "mod.rs", "lib.rs", "deep", "é", "x"]
def rand_path(rng):
    return "/".join(rng.choice(COMP) for _ in range(rng.randint(1, 4)))
BIT = ["*", "*", "?", "a", "b", "s", "src", "c", ".rs", ".", "[ab]", "{a,b}", "{src,*b}", "lib", "deep", "d", "p", "mod", "é", "x"]
def rand_part(rng):
    if rng.random() < 0.6: return rng.choice(PAT)
    g = rng.choice(BIT)
    for _ in range(rng.randint(1, 3)):
        b = rng.choice(BIT)
        if not (b[0] == "*" and g[-1] == "*"): g += b
    return g if "**" not in g and "*{src,*b}" not in g and "{src,*b}*" not in g and "[!/]" not in g else "s*b"
def rand_glob(rng):
    if rng.random() < 0.5:
        g = rand_part(rng)
        return g if g != "**" else "s*a.rs"
    return "/".join(rand_part(rng) for _ in range(rng.randint(2, 4)))
def concrete(ctx):
    ctx.build(["options"])
    rng = ctx.rng
    if ctx.hooked:
        paths = sorted({rand_path(rng) for _ in range(400)} | {"src/lib.rs", "src/a.rs", "src/a/b.rs", "lib.rs", "src/b/mod.rs"})
        for it in range(8000 if ctx.thorough else 1500):
            inc = [rand_glob(rng) for _ in range(rng.choice([0, 1, 1, 2]))]
            exc = [rand_glob(rng) for _ in range(rng.choice([0, 0, 1, 2]))]
            if any("**/**" in g for g in inc + exc): continue
            ps = rng.sample(paths, 60) + [rand_path(rng) for _ in range(10)]
            cfg = rng.random() < 0.3
            if cfg: argv, c = [], f"examine_globs = {json.dumps(inc)}\nexclude_globs = {json.dumps(exc)}\n"
            else: argv, c = [f"--file={g}" for g in inc] + [f"--exclude={g}" for g in exc], None
            g = ctx.call("path_ok", argv=argv, config=c, paths=ps)
            if not g.get("ok"):
                ctx.fail(f"globs {inc} / {exc}: {g}"); return
            for p, x in zip(ps, g["ok"]):
                ctx.case((tuple(inc), tuple(exc), p), dict(include=inc, exclude=exc, path=p, kept=x) if it < 5 else None)
                if not p.isascii() and any(c in g for g in inc + exc for c in "?["): continue  # globset's ? and [] are bytes
                if x != globs.path_ok(inc, exc, p):
                    ctx.fail(f"path {p!r} with include {inc} exclude {exc}: {'kept' if x else 'left out'}")
    t = tree(ctx)
    r = e2e.Run(ctx, t, ["--list", "--json"]); full = json.loads(r.stdout); r.clean()
    r = e2e.Run(ctx, t, ["--list"]); names = r.stdout.split("\n")[:-1]; r.clean()
    r = e2e.Run(ctx, t, ["--list-files"]); files = r.stdout.split("\n")[:-1]; r.clean()
    if len(full) != len(names) or not all(n.startswith(m["file"] + ":") for n, m in zip(names, full)):
        ctx.fail("--list and --list --json disagree"); return
    want_files = [f for f in t.files if f.endswith(".rs")]
    if sorted(set(files)) != sorted(want_files):
        ctx.fail(f"--list-files without filters: {files}, the tree has {want_files}")
    cases = [dict(f=["src/a.rs"]), dict(f=["a.rs"]), dict(f=["a"]), dict(f=["b"], e=["mod.rs"]), dict(e=["src"]), dict(f=["src/*.rs"]), dict(f=["src/*/*.rs"]), dict(f=["src/**/*.rs"]), dict(f=["**/src/a.rs"]), dict(e=["src/lib.rs"]),
             dict(e=["lib.rs", "a"]), dict(f=["deep"], e=["src/deep/src/*.rs"]), dict(f=["nosuch.rs"]), dict(f=["src/deep"]), dict(f=["src/deep/**"]), dict(e=["*"]), dict(f=["*.rs"]), dict(f=["SRC/lib.rs"]), dict(f=["s*b.rs"]), dict(e=["s*a.rs"]), dict(f=["a?b.rs"]), dict(e=["d*a.rs"]), dict(f=["*p*"]),
             dict(F=["_g"]), dict(F=["^src/a\\.rs:"]), dict(F=["true"], E=["a_b"]), dict(E=["_f"]), dict(F=["nothing"]), dict(F=["lib_f", "a_f"], E=["\\+"]), dict(F=[":3:"]), dict(F=[":[0-9]+:7: "]), dict(E=["with (false|true)$"]),
             dict(f=["a.rs"], F=["_f"]), dict(f=["a.rs"], E=["_f"], e=["src/b/*"]), dict(F=["replace"], e=["b"]), dict(F=[""]), dict(E=[""]), dict(F=["(?i)REPLACE"]), dict(F=["^replace"]), dict(F=["src/b/mod.rs:\\d+:\\d+: replace b_f -> i32 with 1$"])]
    for _ in range(40 if ctx.thorough else 12):
        cases.append(dict(f=[rand_glob(rng) for _ in range(rng.choice([0, 1, 2]))], e=[rand_glob(rng) for _ in range(rng.choice([0, 1]))], F=[rng.choice(["_f", "_g", "with", "lib", ":5:"]) for _ in range(rng.choice([0, 1]))], E=[rng.choice(["a_", "true", "0$"]) for _ in range(rng.choice([0, 1]))]))
    for n, c in enumerate(cases):
        if any("**/**" in g for k in "fe" for g in c.get(k, [])): continue
        for cfg in ((False, True) if n % 4 == 0 else (False,)):
            if cfg:
                tt = tree(ctx, "".join(f"{k} = {json.dumps(c[o])}\n" for o, k in (("f", "examine_globs"), ("e", "exclude_globs"), ("F", "examine_re"), ("E", "exclude_re")) if o in c))
                args = []
            else:
                tt, args = t, [x for o in "feFE" for v in c.get(o, []) for x in (f"-{o}", v)]
            w = [x for x, m in zip(names, full) if globs.path_ok(c.get("f", []), c.get("e", []), m["file"]) and globs.name_ok(c.get("F", []), c.get("E", []), x)]
            r = e2e.Run(ctx, tt, ["--list", *args])
            ctx.case(("list", json.dumps(c), cfg), dict(filters=c, config=cfg, listed=len(w)))
            if r.rc != 0 or r.stdout.split("\n")[:-1] != w:
                ctx.fail(f"--list with {c} ({'config' if cfg else 'command line'}): {r.stdout.splitlines()}, expected {w}", **r.desc())
            r.clean()
            r = e2e.Run(ctx, tt, ["--list-files", *args])
            wf = [x for x in files if globs.path_ok(c.get("f", []), c.get("e", []), x)]
            if r.stdout.split("\n")[:-1] != wf:
                ctx.fail(f"--list-files with {c}: {r.stdout.splitlines()}, expected {wf}", **r.desc())
            r.clean()
            if tt is not t: tt.remove()
    # what is tested is what is listed
    for c in (dict(f=["a.rs"], F=["_f"]), dict(e=["src/lib.rs"], E=["with"])):
        args = [x for o in "feFE" for v in c.get(o, []) for x in (f"-{o}", v)]
        r = e2e.Run(ctx, t, ["-j4", *args], dict(rules=[dict(phase="test", baseline=False, do=dict(exit=101))]))
        m = e2e.Monitor(r)
        w = sorted(x for x, y in zip(names, full) if globs.path_ok(c.get("f", []), c.get("e", []), y["file"]) and globs.name_ok(c.get("F", []), c.get("E", []), x))
        got = sorted(m.name_of(m.mutants[i]) for i in m.calls)
        ctx.case(("test", json.dumps(c)), None, len(r.log))
        if got != w:
            ctx.fail(f"tested with {c}: {got}, expected {w}", **r.desc())
        r.clean()

import json, os
import e2e, labruns as lr
UNITS = ["lab", "lab_top", "mainfn", "workspace", "options"]
RULE = "workspaces of several packages with every test package option on the command line and in the config file; oracle: --package arguments seen by cargo; non-trivial: distinct option settings"
PK = ["aaa", "bbb", "ccc"]
def ws(ctx, cfg=None, names=PK, root=False, notests=False):
    f = {"Cargo.toml": "[workspace]\nresolver = \"2\"\nmembers = [" + ", ".join(f'"{n}"' for n in names) + "]\n"}
    for n in names:
        f[f"{n}/Cargo.toml"] = e2e.simple_pkg(n)
        i = n.replace("-", "_")
        f[f"{n}/src/lib.rs"] = f"pub fn {i}_f(x: i32) -> i32 {{\n    x + 1\n}}\npub fn {i}_b(v: bool) -> bool {{ !v }}\n"
    if cfg is not None:
        f[".cargo/mutants.toml"] = cfg
    return e2e.Tree(ctx, f)
def pkgs(argv):
    """Packages chosen by a cargo command line: a sorted list, or 'all'."""
    out, i = [], 0
    if "--workspace" in argv or "--all" in argv:
        return "all"
    while i < len(argv):
        a = argv[i]
        if a in ("-p", "--package"): out.append(argv[i + 1]); i += 1
        elif a.startswith("--package="): out.append(a[10:])
        elif a == "--": break
        i += 1
    return sorted(x.split("@")[0] for x in out)
def concrete(ctx):
    ctx.build()
    caught = lr.rule("test", False, **lr.X101)
    cases = [
        ("default", [], None, "own"), ("workspace on", ["--test-workspace=true"], None, "all"), ("workspace off", ["--test-workspace=false"], None, "own"),
        ("named", ["--test-package=bbb"], None, ["bbb"]), ("two named", ["--test-package=bbb,ccc"], None, ["bbb", "ccc"]),
        ("two options", ["--test-package=aaa", "--test-package=ccc"], None, ["aaa", "ccc"]), ("unknown name", ["--test-package=aaa,nope"], None, ["aaa"]),
        ("config workspace", [], "test_workspace = true\n", "all"), ("config off", [], "test_workspace = false\n", "own"),
        ("config named", [], "test_package = [\"ccc\"]\n", ["ccc"]), ("config empty list", [], "test_package = []\n", "own"),
        ("cli over config 1", ["--test-workspace=false"], "test_workspace = true\n", "own"), ("cli over config 2", ["--test-package=aaa"], "test_package = [\"ccc\"]\n", ["aaa"]),
        ("cli over config 3", ["--test-package=aaa"], "test_workspace = true\n", ["aaa"]), ("cli over config 4", ["--test-workspace=true"], "test_package = [\"ccc\"]\n", "all"),
        ("no config", ["--no-config"], "test_workspace = true\n", "own"),
        ("subset", ["--package=bbb"], None, "own"), ("subset named", ["--package=bbb", "--test-package=ccc"], None, ["ccc"]), ("nextest", ["--test-tool=nextest"], None, "own"),
        ("check", ["--check"], None, "own"), ("file filter", ["-f", "ccc/src/*.rs"], None, "own"), ("jobs", ["-j3", "--test-package=bbb"], None, ["bbb"]),
    ]
    for what, args, cfg, want in cases:
        t = ws(ctx, cfg)
        r = e2e.Run(ctx, t, ([] if "-j3" in args else ["-j6"]) + (["--workspace", *args] if "--package=bbb" not in args else args), dict(rules=[caught]), timeout=100)
        m = e2e.Monitor(r)
        ctx.case(what, dict(what=what, args=args, config=cfg, rc=r.rc), len(r.log))
        if not m.calls:
            ctx.fail(f"{what}: no mutants were run", **r.desc()); continue
        for i, cs in m.calls.items():
            p = m.mutants[i]["package"]
            w = [p] if want == "own" else want
            if p != m.mutants[i]["file"].split("/")[0]:
                ctx.fail(f"{what}: mutant in {m.mutants[i]['file']} is attributed to package {p}", **r.desc())
            for c in cs:
                if pkgs(c["argv"]) != w:
                    ctx.fail(f"{what}: mutant of {p}: cargo {c['argv']} tests {pkgs(c['argv'])}, expected {w}", **r.desc())
        allp = sorted({m.mutants[i]["package"] for i in range(len(m.mutants))})
        for c in m.base_calls:
            if pkgs(c["argv"]) != allp:
                ctx.fail(f"{what}: baseline cargo {c['argv']} covers {pkgs(c['argv'])}, expected {allp}", **r.desc())
        r.clean(); t.remove()
    # names that share their first part
    for fam in (["tool", "tool-core", "tool-core-x", "tool_cli"], ["a-1", "a-2", "a-10", "b-1"]):
        t = ws(ctx, None, names=fam)
        for sel in (fam, fam[1:], [fam[0], fam[2]], [fam[2], fam[1]]):
            r = e2e.Run(ctx, t, ["-j4", *[f"--package={x}" for x in sel]], dict(rules=[caught]), timeout=100)
            m = e2e.Monitor(r)
            ctx.case(("family", *sel), None, len(r.log))
            if sorted({x["package"] for x in m.mutants}) != sorted(sel):
                ctx.fail(f"--package {sel}: mutants of {sorted({x['package'] for x in m.mutants})}", **r.desc())
            for c in m.base_calls:
                if pkgs(c["argv"]) != sorted(sel):
                    ctx.fail(f"--package {sel}: baseline cargo {c['argv']} covers {pkgs(c['argv'])}", **r.desc())
            for i, cs in m.calls.items():
                if any(pkgs(c["argv"]) != [m.mutants[i]["package"]] for c in cs):
                    ctx.fail(f"--package {sel}: mutant of {m.mutants[i]['package']}: cargo {cs[0]['argv']}", **r.desc())
            r.clean()
        t.remove()
    # names that are almost those of packages
    near = ["foo-bar", "foo_baz", "foo", "Foo2"]
    t = ws(ctx, None, names=near)
    for given, want in (("foo_bar,foo", ["foo"]), ("foo-bar", ["foo-bar"]), ("foo-baz,foo-bar", ["foo-bar"]), ("foo2,foo", ["foo"]), ("fo,foo-bar,foo-ba", ["foo-bar"]), ("foo,foo_baz,Foo2,foo-bar", sorted(near)), ("foo*,foo", ["foo"]), ("foo@0.1.0,foo", ["foo"])):
        r = e2e.Run(ctx, t, ["-j6", "--workspace", "-F", "foo_b", "--test-package=" + given], dict(rules=[caught]), timeout=100)
        m = e2e.Monitor(r)
        ctx.case(("near", given), None, len(r.log))
        for i, cs in m.calls.items():
            for c in cs:
                if pkgs(c["argv"]) != want:
                    ctx.fail(f"--test-package={given}: cargo {c['argv']} tests {pkgs(c['argv'])}, expected {want}", **r.desc())
        if not m.calls:
            ctx.fail(f"--test-package={given}: no mutants were run", **r.desc())
        r.clean()
        r = e2e.Run(ctx, t, ["--list", "--json"] + [f"--package={g}" for g in given.split(",")])
        got = sorted({x["package"] for x in json.loads(r.stdout or "[]")})
        if got != want:
            ctx.fail(f"--package {given}: mutants of {got}, expected {want}", **r.desc())
        r.clean()
    t.remove()
    # which packages' mutants are selected
    t = ws(ctx)
    for what, args, cwd, want in (("whole workspace from root", [], "", PK), ("-p", ["-p", "bbb"], "", ["bbb"]), ("-p two", ["-p", "bbb", "-p", "aaa"], "", ["aaa", "bbb"]), ("--workspace", ["--workspace"], "", PK),
                                   ("inside a package", [], "bbb", ["bbb"]), ("below a package", [], "ccc/src", ["ccc"]), ("--workspace inside", ["--workspace"], "bbb", PK), ("-p inside another", ["-p", "aaa"], "bbb", ["aaa"]), ("-d", ["-d", "bbb"], "", ["bbb"])):
        r = e2e.Run(ctx, t, ["--list", "--json", *args], cwd=os.path.join(t.dir, cwd))
        got = sorted({x["package"] for x in json.loads(r.stdout or "[]")})
        ctx.case(what, None)
        if got != want:
            ctx.fail(f"{what}: mutants of {got}, expected {want}", **r.desc())
        r.clean()
    t.remove()
    # default members
    t = ws(ctx)
    t.files["Cargo.toml"] += 'default-members = ["ccc", "aaa"]\n'
    open(os.path.join(t.dir, "Cargo.toml"), "w").write(t.files["Cargo.toml"])
    for what, args, cwd, want in (("default members", [], "", ["aaa", "ccc"]), ("default members, --workspace", ["--workspace"], "", PK), ("default members, inside another", [], "bbb", ["bbb"])):
        r = e2e.Run(ctx, t, ["--list", "--json", *args], cwd=os.path.join(t.dir, cwd))
        got = sorted({x["package"] for x in json.loads(r.stdout or "[]")})
        ctx.case(what, None)
        if got != want:
            ctx.fail(f"{what}: mutants of {got}, expected {want}", **r.desc())
        r.clean()

import copy, os, tomllib
import e2e, labruns as lr
UNITS = ["manifest"]
RULE = "manifests and cargo config files with paths of every shape in every dependency section, rewritten by the real functions and by whole runs, read back as the scripted cargo sees them; source files above the tree; oracle: the parsed document with exactly the climbing paths replaced; non-trivial: distinct (section, path shape)"
SHAPES = ["x", "x/y", "./x", "x/../y", "x/y/../../z", "", ".", "x/..", "/abs/x", "/", "/..", "..", "../x", "../../x", "./../x", "x/../../y", "x/y/../../../z",
          "../x/../y", "x/../../y/z/w", "../x/y/z", "a/b/../../../c/d/e/f", "..x", "...", "x/..y", "..x/..", "x//../..", "../.", "./x/./../..", "../..x", "a b/../../c d", "é/../../ü", ".../..", "../\"q", "../\\w"]
SECTIONS = ["dependencies", "dev-dependencies", "build-dependencies"]

def climbs(p):
    d = 0
    for c in p.split("/"):
        if c == "..": d -= 1
        elif c not in ("", "."): d += 1
        if d < 0: return True
    return False

def fixed(p, src):
    return None if p.startswith("/") or not climbs(p) else os.path.normpath(os.path.join(src, p))

def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'

def dump(v):
    if isinstance(v, bool): return str(v).lower()
    if isinstance(v, dict): return "{" + ", ".join(f"{q(k)} = {dump(x)}" for k, x in v.items()) + "}"
    if isinstance(v, list): return "[" + ", ".join(map(dump, v)) + "]"
    return q(v) if isinstance(v, str) else repr(v)

def doc(d):
    return "".join(f"{q(k)} = {dump(v)}\n" for k, v in d.items())

def want(d, src):
    """Same document, with the climbing paths marked by the place they have to lead to."""
    d = copy.deepcopy(d)
    def table(t):
        if isinstance(t, dict):
            for e in t.values():
                if isinstance(e, dict) and isinstance(e.get("path"), str):
                    f = fixed(e["path"], src)
                    if f is not None: e["path"] = ("to", f)
    def secs(t):
        if isinstance(t, dict):
            for s in SECTIONS: table(t.get(s))
    secs(d)
    if isinstance(d.get("target"), dict):
        for t in d["target"].values(): secs(t)
    secs(d.get("workspace"))
    table(d.get("replace"))
    if isinstance(d.get("patch"), dict):
        for t in d["patch"].values(): table(t)
    return d

def want_cfg(d, src):
    d = copy.deepcopy(d)
    if isinstance(d.get("paths"), list):
        d["paths"] = [("to", fixed(p, src)) if isinstance(p, str) and fixed(p, src) is not None else p for p in d["paths"]]
    return d

def differs(w, g, at=""):
    if isinstance(w, tuple):
        return None if isinstance(g, str) and g.startswith("/") and os.path.normpath(g) == w[1] else f"{at}: {g!r} instead of {w[1]!r}"
    if type(w) is not type(g): return f"{at}: {g!r} instead of {w!r}"
    if isinstance(w, dict):
        if set(w) != set(g): return f"{at}: keys {sorted(set(w) ^ set(g))}"
        return next((x for k in w if (x := differs(w[k], g[k], at + "." + k))), None)
    if isinstance(w, list):
        if len(w) != len(g): return f"{at}: {len(g)} items instead of {len(w)}"
        return next((x for i in range(len(w)) if (x := differs(w[i], g[i], f"{at}[{i}]"))), None)
    return None if w == g else f"{at}: {g!r} instead of {w!r}"

def rnd_path(rng):
    if rng.random() < .5: return rng.choice(SHAPES)
    return ("/" if rng.random() < .15 else "") + "/".join(rng.choice(["..", "..", ".", "a", "b", "", "..."]) for _ in range(rng.randint(1, 6)))

def rnd_dep(rng):
    k = rng.random()
    if k < .15: return "1.0"
    if k < .2: return rng.choice([3, True, ["../x"], {"path": 3}, {"path": ["../x"]}, {"path": {"path": "../x"}}])
    d = {"path": rnd_path(rng)}
    if rng.random() < .3: d["version"] = "0.3"
    if rng.random() < .2: d["features"] = ["../notapath", "x"]
    if rng.random() < .2: d = {"git": "../git", **({"path": d["path"]} if rng.random() < .3 else {})}
    return d

def rnd_table(rng):
    if rng.random() < .05: return rng.choice(["../x", 1, ["../x"], {}])
    return {rng.choice(["aa", "bb", "cc", "path", "serde:1.0"]) + (str(i) if i else ""): rnd_dep(rng) for i in range(rng.randint(0, 3))}

def rnd_secs(rng, p=.4):
    return {s: rnd_table(rng) for s in SECTIONS if rng.random() < p}

def rnd_doc(rng):
    d = {}
    if rng.random() < .8: d["package"] = {"name": "p", "version": "0.1.0", "build": "../build.rs", "readme": "../README", "path": "../x"}
    d.update(rnd_secs(rng))
    if rng.random() < .4: d["target"] = {rng.choice(["cfg(unix)", "x86_64-unknown-linux-gnu", "dependencies"]): rng.choice([rnd_secs(rng, .6), rnd_secs(rng, .6), "../x"])}
    if rng.random() < .4: d["workspace"] = {**rnd_secs(rng, .6), "members": ["../m", "m"], "package": {"path": "../x"}}
    if rng.random() < .3: d["replace"] = rnd_table(rng)
    if rng.random() < .3: d["patch"] = {n: rnd_table(rng) for n in ("crates-io", "https://x/y") if rng.random() < .7}
    if rng.random() < .3: d["features"] = {"dependencies": ["../x"]}
    if rng.random() < .3: d["lib"] = {"path": "../src/lib.rs"}
    if rng.random() < .2: d["bin"] = [{"name": "b", "path": "../b.rs"}]
    return d

def one_manifest(ctx, d, what, src="/src/tree/dir"):
    t = doc(d)
    p = os.path.join(ctx.scratch, "m.toml")
    open(p, "w").write(t)
    g = ctx.call("fix_manifest", path=p, source=src)
    now = open(p).read()
    if g != {"ok": True}:
        ctx.fail(f"{what}: fix_manifest: {g}", manifest=t); return
    try:
        x = differs(want(d, src), tomllib.loads(now))
    except ValueError as e:
        x = f"not TOML: {e}"
    if x: ctx.fail(f"{what}: manifest rewritten wrongly{x}", manifest=t, rewritten=now)
    if want(d, src) == d and now != t:
        ctx.fail(f"{what}: no path climbs but the manifest's text changed", manifest=t, rewritten=now)

def one_config(ctx, d, what, src="/src/tree/dir"):
    b = os.path.join(ctx.scratch, "cfgdir")
    os.makedirs(b + "/.cargo", exist_ok=True)
    p, t = b + "/.cargo/config.toml", doc(d)
    open(p, "w").write(t)
    g = ctx.call("fix_cargo_config", build=b, source=src)
    now = open(p).read()
    if g != {"ok": True}:
        ctx.fail(f"{what}: fix_cargo_config: {g}", config=t); return
    try:
        x = differs(want_cfg(d, src), tomllib.loads(now))
    except ValueError as e:
        x = f"not TOML: {e}"
    if x: ctx.fail(f"{what}: config rewritten wrongly{x}", config=t, rewritten=now)
    if want_cfg(d, src) == d and now != t:
        ctx.fail(f"{what}: no path climbs but the config's text changed", config=t, rewritten=now)

def lib(name):
    return {"Cargo.toml": e2e.simple_pkg(name), "src/lib.rs": "pub fn g() -> u8 { 7 }\n"}

def put(base, files):
    for f, t in files.items():
        p = os.path.join(base, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(t)

def whole(ctx, what, manifest, cfg=None, more=None, args=(), depth="tree", cwd_rel=False):
    """A run on a tree whose manifest refers to crates beside it: what does cargo see in the build directory?"""
    text = manifest if isinstance(manifest, str) else doc(manifest)
    files = {"Cargo.toml": text, "src/lib.rs": "pub fn f(v: bool) -> bool { !v }\n", "in/Cargo.toml": e2e.simple_pkg("inner"), "in/src/lib.rs": "pub fn h() {}\n"}
    if cfg is not None: files[".cargo/config.toml"] = cfg
    t = e2e.Tree(ctx, files, name=depth)
    for n in ("ext", "ext2", "ext3", "rext"):
        put(os.path.join(t.base, n), lib(n))
    for f, x in (more or {}).items():
        put(t.dir, {f: x})
    r = e2e.Run(ctx, t, list(args), snap=["Cargo.toml", ".cargo/config.toml"])
    ctx.case((what, tuple(args)), dict(what=what))
    if not r.log:
        ctx.fail(f"{what}: no cargo command was run, exit {r.rc}", **r.desc()); r.clean(); t.remove(); return
    src = os.path.realpath(t.dir)
    inplace = "--in-place" in args
    for c in r.log:
        w = tomllib.loads(text)
        w = w if inplace else want(w, src)
        x = differs(w, tomllib.loads(c["snap"]["Cargo.toml"] or ""))
        if x: ctx.fail(f"{what}: Cargo.toml in the build directory{x}", **r.desc()); break
        if cfg is not None and c["snap"][".cargo/config.toml"] is not None:
            w = tomllib.loads(cfg)
            w = w if inplace else want_cfg(w, src)
            x = differs(w, tomllib.loads(c["snap"][".cargo/config.toml"]))
            if x: ctx.fail(f"{what}: .cargo/config.toml in the build directory{x}", **r.desc()); break
        elif cfg is not None:
            ctx.fail(f"{what}: .cargo/config.toml is not in the build directory", **r.desc()); break
    if t.read("Cargo.toml") != text or (cfg is not None and t.read(".cargo/config.toml") != cfg):
        ctx.fail(f"{what}: the source tree's own manifest or config changed", **r.desc())
    r.clean(); t.remove()

def outside(ctx, what, libtext, files, want_files):
    t = e2e.Tree(ctx, {"Cargo.toml": e2e.simple_pkg("pkg"), "src/lib.rs": libtext})
    put(t.dir, files)
    before = {f: open(os.path.join(t.dir, f)).read() for f in files}
    r = e2e.Run(ctx, t, ["--list", "--json"])
    import json
    try:
        ms = json.loads(r.stdout)
    except ValueError:
        ctx.fail(f"{what}: --list gives no list", **r.desc()); return
    got = {os.path.normpath(m["file"]) for m in ms}
    ctx.case((what,), dict(what=what, files=sorted(got)))
    if any(f.startswith("..") or f.startswith("/") for f in got):
        ctx.fail(f"{what}: mutants in files outside the tree: {sorted(got)}", **r.desc())
    if got != set(want_files):
        ctx.fail(f"{what}: mutants in {sorted(got)}, expected {sorted(want_files)}", **r.desc())
    r.clean()
    r = e2e.Run(ctx, t, ["-j2"])
    if {f: open(os.path.join(t.dir, f)).read() for f in files} != before:
        ctx.fail(f"{what}: a file of the source tree or above it was changed", **r.desc())
    r.clean(); t.remove()

def concrete(ctx):
    ctx.build(["manifest"])
    if ctx.hooked:
        for s in SHAPES:
            e = {"x": {"path": s, "version": "1"}}
            for n, d in [*((k, {k: e}) for k in SECTIONS), *((f"target.{k}", {"target": {"cfg(unix)": {k: e}}}) for k in SECTIONS), *((f"workspace.{k}", {"workspace": {k: e}}) for k in SECTIONS),
                         ("replace", {"replace": e}), ("patch", {"patch": {"crates-io": e}})]:
                ctx.case((n, s), dict(section=n, path=s))
                one_manifest(ctx, d, f"{n}, path {s!r}")
            ctx.case(("paths", s), None)
            one_config(ctx, {"paths": [s], "build": {"target-dir": "../t"}}, f"paths, {s!r}")
        for i in range(400 if not ctx.thorough else 6000):
            d = rnd_doc(ctx.rng)
            one_manifest(ctx, d, f"random manifest {i}", ctx.rng.choice(["/src/tree/dir", "/a", "/x y/é"]))
            if not i % 4:
                one_config(ctx, {"paths": [rnd_path(ctx.rng) for _ in range(ctx.rng.randint(0, 4))] + ([3] if ctx.rng.random() < .1 else []), "env": {"X": "../y"}} if ctx.rng.random() < .9 else {"paths": "../x"}, f"random config {i}")
            ctx.case(("random", i), None)
    # the whole program
    P = e2e.simple_pkg("pkg")
    W = P + "[workspace]\n"
    d = lambda p, v='"0.1.0"': f'{{ path = "{p}", version = {v} }}'
    whole(ctx, "dependencies", W + f'[dependencies]\next = {d("../ext")}\ninner = {d("in")}\n[dev-dependencies]\next2 = {d("in/../../ext2")}\n[build-dependencies]\next3 = {d("./../ext3")}\n')
    whole(ctx, "target and workspace", W + f'[workspace.dependencies]\next3 = {d("../ext3")}\n[target."cfg(unix)".dependencies]\next = {d("../ext")}\n[target."cfg(unix)".dev-dependencies]\next2 = {d("../ext2")}\n[dependencies]\next3.workspace = true\n')
    whole(ctx, "config paths", W + f'[dependencies]\next = {d("../ext")}\n', cfg='paths = ["../rext", "in/../../ext2", "in"]\n[build]\njobs = 3\n')
    whole(ctx, "nothing climbs", W + f'# a comment\n[dependencies]\ninner = {d("in")}\n', cfg="# note\n[build]\njobs = 3\n")
    whole(ctx, "in place", W + f'[dependencies]\next = {d("../ext")}\n', cfg='paths = ["../rext"]\n', args=["--in-place"])
    whole(ctx, "patch", W + f'[dependencies]\ninner = {d("in")}\n[patch."https://example.invalid/x"]\next = {d("../ext")}\n')
    lt = "pub fn f(v: bool) -> bool { !v }\n"
    outside(ctx, "mod with a path above the tree", '#[path = "../../up.rs"] mod up;\n#[path = "../side.rs"] mod side;\n' + lt, {"../up.rs": lt, "side.rs": lt}, {"src/lib.rs", "side.rs"})
    outside(ctx, "mod path down and up", '#[path = "a/../../../up.rs"] mod up;\n' + lt, {"../up.rs": lt, "src/a/x": ""}, {"src/lib.rs"})
    t = e2e.Tree(ctx, {"Cargo.toml": e2e.simple_pkg("pkg", '[lib]\npath = "../up/lib.rs"\n[[bin]]\nname = "b"\npath = "src/main.rs"\n'), "src/main.rs": "fn main() {}\nfn f(v: bool) -> bool { !v }\n"})
    put(t.base, {"up/lib.rs": lt})
    r = e2e.Run(ctx, t, ["--list"])
    if "up/lib.rs" in r.stdout or "src/main.rs" not in r.stdout:
        ctx.fail("a lib target above the tree: mutants " + r.stdout[:300], **r.desc())
    ctx.case(("lib above",), None)
    r.clean(); t.remove()

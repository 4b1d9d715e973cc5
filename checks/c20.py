import hashlib, os
import e2e
UNITS = ["copy", "options"]
RULE = "whole runs on trees of every file kind (hidden, ignore files, links, empty directories, modes, odd names, version-control and output names at every depth, git rules inside and outside a git tree) under each combination of copy options; every build directory is listed by the scripted cargo and compared with the source tree; non-trivial: distinct (tree, options, path)"
VCS = [".git", ".hg", ".bzr", ".svn", "_darcs", ".jj", ".pijul"]
NEAR = [".github/w.yml", ".gitattributes", ".gitmodules", ".gitx/a", "git/a", ".hgignore", ".hgx", ".svnx", "darcs/a", "_darcs2/a", ".jjx/a", ".pijul2", "mutants.out.older", "mutants.outx/a", "xmutants.out", "Mutants.out", ".GIT/a",
        ".bzrignore", "mutants.out.old.txt", "_DARCS", "mutants.toml", ".mutants.out", "mutants", "out", "target_/x", "a.tmp", "notes.bak", "sub/only.txt"]
LIB = "pub fn f(v: bool) -> bool { !v }\n"

def listing(root):
    w = {}
    for dp, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(dp, n)
            rel = os.path.relpath(p, root)
            if os.path.islink(p): w[rel] = "->" + os.readlink(p)
            elif os.path.isdir(p): w[rel] = "/"
            elif os.path.isfile(p):
                w[rel] = [hashlib.sha256(open(p, "rb").read()).hexdigest()[:16], os.stat(p).st_mode & 0o777]
    return w

def out(rel, copy_vcs, ignored):
    """Left out: it or a directory above it has one of the names, or a git rule in force."""
    parts = rel.split("/")
    for i, n in enumerate(parts):
        if n in ("mutants.out", "mutants.out.old") or (not copy_vcs and n in VCS): return True
        if ignored and ignored("/".join(parts[:i + 1])): return True
    return False

def tree(ctx, extra=None, name="tree", links=True):
    files = {"Cargo.toml": e2e.simple_pkg(extra="[workspace]\n"), "src/lib.rs": LIB, "tests/t.rs": "", "README": "x" * 5000}
    for n in NEAR: files[n] = n
    files.update(extra or {})
    t = e2e.Tree(ctx, files, name=name)
    d = t.dir
    for p in ["empty", "deep/a/b/c/d/e", ".hidden/.more", "with space/é日本", "src/empty"]: os.makedirs(os.path.join(d, p))
    def w(p, b, mode=0o644):
        p = os.path.join(d, p); os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "wb").write(b); os.chmod(p, mode)
    w("bin/run.sh", b"#!/bin/sh\n", 0o755); w("ro.txt", b"ro", 0o444); w("priv", b"p", 0o600); w("nul.bin", bytes(range(256)) * 3); w("zero", b""); w(".env", b"A=1")
    w("big.bin", os.urandom(1 << 20)); w(".hidden/.more/f", b"h"); w("deep/a/b/c/d/f", b"d"); w("with space/é日本/ü.txt", b"u"); w("new\nline", b"n"); w("-dash", b"-"); w("quote'\"", b"q"); w("*star?", b"s"); w("back\\slash", b"b")
    for x in ["rs", "lock", "toml", "o", "d", "txt", "json", "log", "orig", "rej", "swp", "tmp", "diff", "snap", "c", "so", "a", "rlib", "profraw", "out", "old"]: w(f"kinds/e.{x}", b""); w(f"kinds/f.{x}", x.encode()); w(f"kinds/d.{x}/g", b"1")
    for x in ["target/debug/x", "target/CACHEDIR.TAG", "sub2/target/y", "node_modules/m", "build/x", "dist/x", "output/x", "mutant/x", "Thumbs.db", ".DS_Store", "~", "a~", "#a#", ".#a", "core", "nohup.out", "sub2/Cargo.lock"]: w(x, x.encode())
    w(".ignore", b"a.tmp\n*.bak\n/sub\n"); w(".rgignore", b"README\n"); w("src/.ignore", b"*\n"); w("deep/.ignore", b"a\n"); w(".fdignore", b"*\n")
    if links:
        for a, b in [("README", "link"), ("nowhere", "broken"), ("src", "dirlink"), ("..", "uplink"), ("self", "self"), ("/nonexistent/abs", "abslink"), ("../README", "src/rel"), ("deep/a", ".hidden/l"), (".", "with space/dot"), ("bin/run.sh", "runl")]:
            os.symlink(a, os.path.join(d, b))
    return t

def fill(t, where):
    for n in VCS + ["mutants.out", "mutants.out.old"]:
        p = os.path.join(t.dir, where, n)
        if not os.path.exists(p):
            os.makedirs(os.path.join(p, "sub"))
        open(os.path.join(p, "sub", "f"), "w").write(n)
        open(os.path.join(p, "config"), "w").write("[core]\n")

def one(ctx, what, t, args, copy_vcs=False, ignored=None, **kw):
    before = listing(t.dir)
    r = e2e.Run(ctx, t, args, walk=True, **kw)
    after = listing(t.dir)
    strip = lambda w: {k: v for k, v in w.items() if k != "Cargo.lock"}
    if strip(before) != strip(after):
        ch = sorted(k for k in {*before, *after} if before.get(k) != after.get(k))
        ctx.fail(f"{what}: the source tree is different afterwards: {ch[:5]}", **r.desc())
    if not r.log or r.rc not in (0, 2, 3):
        ctx.fail(f"{what}: exit {r.rc}, {len(r.log)} cargo commands", **r.desc()); r.clean(); return
    want = {k: v for k, v in after.items() if not out(k, copy_vcs, ignored)}
    for k in after: ctx.case((what, k), dict(what=what, args=args, path=k, copied=k in want))
    for c in r.log:
        got = c["walk"]
        if os.path.realpath(c["cwd"]).startswith(os.path.realpath(t.dir)):
            ctx.fail(f"{what}: cargo ran in the source tree {c['cwd']}", **r.desc()); continue
        skip = {"Cargo.toml", ".cargo/config.toml", "Cargo.lock", *c["changed"]}
        miss = sorted(k for k in want if k not in got)
        more = sorted(k for k in got if k not in want and k != "Cargo.lock")
        diff = sorted(k for k in want if k in got and k not in skip and want[k] != got[k])
        if miss: ctx.fail(f"{what}: not in the build directory: {miss[:6]}", **r.desc())
        if more: ctx.fail(f"{what}: in the build directory, though left out of a copy: {more[:6]}", **r.desc())
        if diff: ctx.fail(f"{what}: different in the build directory: {[(k, want[k], got[k]) for k in diff[:4]]}", **r.desc())
        if miss or more or diff: break
    r.clean()

def concrete(ctx):
    ctx.build()
    # names, links, modes, ignore files; not in a git tree
    t = tree(ctx)
    one(ctx, "plain", t, [])
    for x in ["", "deep/a/b", "src"]: fill(t, x)
    open(os.path.join(t.dir, "deep", ".gitx"), "w").write("x")
    one(ctx, "every name", t, ["-j3"])
    one(ctx, "every name, vcs", t, ["--copy-vcs=true"], copy_vcs=True)
    one(ctx, "every name, --copy-vcs=false", t, ["--copy-vcs=false", "--gitignore=false"])
    os.makedirs(os.path.join(t.dir, ".cargo"))
    open(os.path.join(t.dir, ".cargo", "mutants.toml"), "w").write("copy_vcs = true\n")
    one(ctx, "copy_vcs in the config file", t, [], copy_vcs=True)
    one(ctx, "copy_vcs in the config file, --no-config", t, ["--no-config"])
    one(ctx, "copy_vcs in the config file, off on the command line", t, ["--copy-vcs=false"])
    t.remove()
    # the names on files
    t = tree(ctx, links=False)
    for x in ["", "deep", "bin"]:
        for n in VCS + ["mutants.out", "mutants.out.old"]: open(os.path.join(t.dir, x, n), "w").write("gitdir: elsewhere\n")
    one(ctx, "names of files", t, [])
    one(ctx, "names of files, vcs", t, ["--copy-vcs=true"], copy_vcs=True)
    t.remove()
    # git rules
    rules = {".gitignore": "*.tmp\n!keep.tmp\n/README\nignored/\n", "deep/a/.gitignore": "/b/c\n", "x/a.tmp": "1", "x/keep.tmp": "2", "x/README": "3", "ignored/f": "4", "deep/ignored/.x": "5", "other/ignored": "a file", "deep/a/b/c/z": "6", "deep/b/c": "7", "ex.excl": "8", "deep/y.excl": "9", "up.parent": "10", "g.glob": "11", "x/h.glob": "12"}
    xdg = os.path.join(ctx.scratch, "xdg"); os.makedirs(xdg + "/git"); open(xdg + "/git/ignore", "w").write("*.glob\n")
    env = dict(XDG_CONFIG_HOME=xdg)
    def ig(kinds):
        def f(rel):
            b = rel.split("/")[-1]
            if "tree" in kinds:
                if b.endswith(".tmp") and b != "keep.tmp" or rel == "README" or rel in ("ignored", "deep/ignored") or rel == "deep/a/b/c": return True
            if "glob" in kinds and b.endswith(".glob"): return True
            if "excl" in kinds and b.endswith(".excl"): return True
            if "parent" in kinds and b.endswith(".parent"): return True
            return False
        return f
    def gitdir(p):
        os.makedirs(os.path.join(p, ".git", "info")); os.makedirs(os.path.join(p, ".git", "refs")); os.makedirs(os.path.join(p, ".git", "objects"))
        open(os.path.join(p, ".git", "HEAD"), "w").write("ref: refs/heads/main\n")
        open(os.path.join(p, ".git", "info", "exclude"), "w").write("*.excl\n")
    t = tree(ctx, rules)
    open(os.path.join(t.base, ".gitignore"), "w").write("*.parent\n*\n")
    one(ctx, "git rules outside a git tree", t, ["--gitignore=true"])
    one(ctx, "git rules outside a git tree, default", t, [])
    one(ctx, "git rules off outside a git tree, and the user's", t, ["--gitignore=false"], env=env)
    os.remove(os.path.join(t.base, ".gitignore"))
    gitdir(t.dir)
    one(ctx, "git rules", t, ["--gitignore=true"], ignored=ig({"tree", "excl"}))
    one(ctx, "git rules, default", t, ["-j2"], ignored=ig({"tree", "excl"}))
    one(ctx, "git rules off", t, ["--gitignore=false"])
    one(ctx, "git rules and vcs", t, ["--gitignore=true", "--copy-vcs=true"], copy_vcs=True, ignored=ig({"tree", "excl"}))
    one(ctx, "git rules and the user's", t, [], ignored=ig({"tree", "excl", "glob"}), env=env)
    one(ctx, "git rules off, and the user's", t, ["--gitignore=false"], env=env)
    one(ctx, "git rules off and vcs", t, ["--gitignore=false", "--copy-vcs=true"], copy_vcs=True)
    t.remove()
    t = tree(ctx, rules)
    open(os.path.join(t.base, ".gitignore"), "w").write("*.parent\n")
    gitdir(t.base)
    one(ctx, "git tree above", t, [], ignored=ig({"tree", "excl", "parent"}))
    one(ctx, "git tree above, off", t, ["--gitignore=false"])
    t.remove()
    # the top directory has one of the names
    for n in ["mutants.out", ".git", "_darcs"]:
        t = tree(ctx, name=n, links=False)
        one(ctx, f"a tree called {n}", t, [])
        t.remove()
    # trees at random
    for k in range(40 if ctx.thorough else 6):
        t = e2e.Tree(ctx, {"Cargo.toml": e2e.simple_pkg(extra="[workspace]\n"), "src/lib.rs": LIB})
        names = VCS + ["mutants.out", "mutants.out.old", "a", "b", ".c", "d.rs.bak", ".ignore", "é", "x y", "mutants.out.", "target", "Cargo.toml", "src", "lib.rs"]
        dirs = ["", "src"]
        for _ in range(ctx.rng.randrange(5, 60)):
            d = ctx.rng.choice(dirs); rel = os.path.join(d, ctx.rng.choice(names)); p = os.path.join(t.dir, rel)
            if os.path.lexists(p): continue
            kind = ctx.rng.randrange(4)
            if kind == 0: os.symlink(ctx.rng.choice(["a", "../b", "/x", "."]), p)
            elif kind == 1 and d != "src" and not rel.startswith("src"): os.makedirs(p); dirs.append(rel)
            else: open(p, "w").write(ctx.rng.choice(["", "*\n", "x" * 70000])); os.chmod(p, ctx.rng.choice([0o644, 0o755, 0o444]))
        v, g = ctx.rng.random() < .4, ctx.rng.random() < .5
        one(ctx, f"random {k}", t, [f"--copy-vcs={str(v).lower()}", f"--gitignore={str(g).lower()}", "-j2"], copy_vcs=v)
        t.remove()

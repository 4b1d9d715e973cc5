import json, os
import e2e, mods
UNITS = ["walk", "visitor", "package", "workspace"]
RULE = "generated workspaces (packages with library, binary, proc-macro and cdylib targets beside tests, examples, benches and build scripts; trees of modules in blocks, files and mod.rs, with path attributes, raw names, decoy files at the places a wrong rule would look) listed with --list-files and --list; oracle: the files that rustc loads for these targets, by the reference (compared with rustc's own dep-info in development); non-trivial: distinct files to be found"
TRUSTED = ["camino's path operations and is_file", "cargo_metadata reports the workspace's members and targets", "the generated syn visitor reaches every mod item"]
CRATES = ['["cdylib"]', '["staticlib"]', '["dylib"]', '["rlib"]', '["lib"]', '["staticlib", "cdylib"]', '["cdylib", "lib"]', '["rlib", "dylib"]']
def package(rng, t, name, where, kind, ct=None):
    """One package: returns its manifest and top files (file, wanted)."""
    b = (where + "/") if where else ""
    man = f'[package]\nname = "{name}"\nversion = "0.1.0"\nedition = "2021"\n'
    tops = []
    if kind == "proc":
        man += "[lib]\nproc-macro = true\n"; tops.append((b + "src/lib.rs", True))
    elif kind == "odd":
        ct = ct or rng.choice(CRATES)
        man += f'[lib]\npath = "code/top_{name}.rs"\ncrate-type = {ct}\n'; tops.append((b + f"code/top_{name}.rs", True))
    elif kind != "bins": tops.append((b + "src/lib.rs", True))
    if kind in ("bins", "both"):
        tops.append((b + "src/main.rs", True))
        if rng.random() < 0.6: tops.append((b + "src/bin/tool.rs", True))
        if rng.random() < 0.5: tops.append((b + "src/bin/big/main.rs", True))
        if rng.random() < 0.4:
            man += f'[[bin]]\nname = "extra_{name}"\npath = "prog/x.rs"\n[[bin]]\nname = "{name}"\npath = "src/main.rs"\n'
            tops.append((b + "prog/x.rs", True))
    for f, p in (("tests/it.rs", 0.6), ("tests/more/main.rs", 0.3), ("examples/ex.rs", 0.6), ("examples/ex2/main.rs", 0.3), ("benches/be.rs", 0.5), ("build.rs", 0.5)):
        if rng.random() < p: tops.append((b + f, False))
    if rng.random() < 0.3 and kind != "proc": man += "[features]\nz = []\n[dev-dependencies]\n"
    return man, tops
def concrete(ctx):
    ctx.build([])
    rng = ctx.rng
    for it in range(120 if ctx.thorough else 24):
        multi = rng.random() < 0.5
        names = ["one", "two", "three"][:rng.choice([2, 3])] if multi else ["solo"]
        t = mods.Tree(rng)
        owner = {}
        for n in names:
            kind = rng.choice(["lib", "lib", "both", "bins", "proc", "odd"])
            if n == names[0] and it < len(CRATES) + 3: kind = "odd" if it < len(CRATES) else ["proc", "bins", "both"][it - len(CRATES)]
            man, tops = package(rng, t, n, n if multi else "", kind, CRATES[it] if n == names[0] and it < len(CRATES) else None)
            t.base = n + "/" if multi else ""
            before = set(t.want)
            for f, wanted in tops:
                keep = list(t.want)
                if not t.free(f, True): continue
                t.file(f, None, 0 if f.endswith("src/bin/tool.rs") else rng.randint(1, 4), "target")   # every file in src/bin is a program
                if not wanted: t.want = keep
            for f in t.want:
                if f not in before: owner[f] = n
            t.files[(n + "/" if multi else "") + "Cargo.toml"] = man
        virtual = None
        if multi:
            dm = rng.random() < 0.3
            virtual = names[:1] if dm else names
            t.files["Cargo.toml"] = "[workspace]\nresolver = \"2\"\nmembers = [" + ", ".join(f'"{n}"' for n in names) + "]\n" + (f'default-members = ["{names[0]}"]\n' if dm else "")
        for f in list(t.files):
            if f.endswith("/main.rs") or f.endswith("tool.rs") or f.endswith("x.rs") or f.endswith("build.rs"): t.files[f] += "fn main() {}\n"
        tree = e2e.Tree(ctx, t.finish())
        if it % 3 == 2:
            # some source files are links to files elsewhere in the tree
            os.makedirs(os.path.join(tree.dir, "kept"))
            for k, f in enumerate(sorted(t.want)):
                if rng.random() < 0.3:
                    p, q = os.path.join(tree.dir, f), os.path.join(tree.dir, "kept", f"{k}.src")
                    os.rename(p, q); os.symlink(os.path.relpath(q, os.path.dirname(p)), p)
        runs = [([], None, virtual or names)]
        if multi:
            runs += [(["--workspace"], None, names), (["-p", names[-1]], None, [names[-1]]), ([], names[0], [names[0]]), (["--package=" + n for n in names[:2]], None, names[:2]), (["--workspace"], names[0], names)]
            runs = [runs[0]] + rng.sample(runs[1:], 2)
        for args, cwd, sel in runs:
            want = sorted((f, owner[f]) for f in t.want if owner[f] in sel)
            for f in want: ctx.case((it, f), dict(args=args, file=f[0], why=t.why[f[0]]) if it < 3 else None)
            r = e2e.Run(ctx, tree, ["--list-files", "--json", *args], cwd=os.path.join(tree.dir, cwd) if cwd else None)
            try: got = sorted((os.path.normpath(x["path"]), x["package"]) for x in json.loads(r.stdout))
            except ValueError: ctx.fail(f"--list-files {args} gives no list", **r.desc()); return
            r.clean()
            for f in sorted(set(want) - set(got)): ctx.fail(f"{f[0]} of package {f[1]} is not found ({t.why[f[0]]}); --list-files {args} in {cwd or '.'}", files=t.files); break
            for f in sorted(set(got) - set(want)): ctx.fail(f"{f[0]} is taken into package {f[1]}, but is no source file of a library or program of {sel}; --list-files {args} in {cwd or '.'}", files=t.files); break
            if set(want) == set(got) and len(got) != len(want): ctx.fail(f"a file is found more than once: {[f for f in got if got.count(f) > 1]}", files=t.files)
        r = e2e.Run(ctx, tree, ["--list", "--json"] + (["--workspace"] if multi else []))
        try: ms = json.loads(r.stdout)
        except ValueError: ctx.fail("--list --json gives no list", **r.desc()); return
        r.clean()
        have = {(os.path.normpath(m["file"]), m["package"]) for m in ms}
        want = {(f, owner[f]) for f in t.want}
        if have != want:
            f = sorted(have ^ want)[0]
            ctx.fail(f"{f[0]} ({f[1]}): {'no mutants, though it is a source file with a function in it' if f in want else 'mutants of a file that is not a source file of the packages'}", files=t.files)
        # a filter on a file leaves the modules below it
        bn = os.path.basename
        names_ = [bn(f) for f in t.want]
        pool = [n for n in sorted(set(names_)) if names_.count(n) == 1]
        if pool:
            for flag in ("-e", "-f"):
                pick = set(rng.sample(pool, rng.randint(1, len(pool))))
                r = e2e.Run(ctx, tree, ["--list-files", *(["--workspace"] if multi else []), *(x for n in sorted(pick) for x in (flag, n))])
                got = sorted(os.path.normpath(x) for x in r.stdout.split("\n")[:-1])
                w2 = sorted(f for f in t.want if (bn(f) in pick) == (flag == "-f"))
                ctx.case((it, flag, tuple(sorted(pick))), None)
                if got != w2: ctx.fail(f"with {flag} {sorted(pick)} the source files are {got}, expected {w2}", **r.desc())
                r.clean()
        tree.remove()
        if len(ctx.failures) > 8: return

import json, os
import e2e, diffs
UNITS = ["in_diff", "mainfn"]
RULE = "diffs of generated trees with 0-6 lines of context, git or plain headers, deleted and added files, through the adapter and --list --in-diff; oracle: the set of touched lines read from the diff text by an independent parser; non-trivial: distinct (context, style, how many kept)"

def one_diff(rng, files, ctxl=None):
    ctxl = rng.choice([0, 0, 0, 1, 2, 3, 3, 6]) if ctxl is None else ctxl
    style = rng.choice(["git", "git", "plain", "only-b"])
    parts = []
    for p in rng.sample(list(files), rng.randrange(1, 4)):
        old = diffs.edit(rng, files[p], rng.randrange(1, 5) if rng.random() < .85 else rng.randrange(12, 40))
        if rng.random() < .1:
            old = None
        parts.append(diffs.file_diff(old, files[p], p, ctxl, style))
    if rng.random() < .2:
        parts.append(diffs.file_diff(["gone", "gone too"], None, "src/gone.rs", ctxl, style))
    if rng.random() < .2:
        parts.append(diffs.file_diff(["x"], ["y", "z"], "notes.txt", ctxl, style))
    if rng.random() < .15 and style == "git":
        parts.append("diff --git a/logo.png b/logo.png\nindex 1..2 100644\nBinary files a/logo.png and b/logo.png differ\n")
    if rng.random() < .15 and style == "git":
        parts.append("diff --git a/run.sh b/run.sh\nold mode 100644\nnew mode 100755\n")
    if rng.random() < .1 and style == "git":
        parts.append("diff --git a/src/x.rs b/src/y.rs\nsimilarity index 100%\nrename from src/x.rs\nrename to src/y.rs\n")
    rng.shuffle(parts)
    parts = [p for p in parts if p]
    return "".join(parts), ctxl, style

def judge(ctx, files, d, got, mutants, what):
    want, data = diffs.expect(d, files, mutants)
    if want != "kept":
        raise AssertionError(f"generator: {want} {data}")
    if got != data:
        extra, missing = [m for m in got or [] if m not in data], [m for m in data if m not in (got or [])]
        ctx.fail(f"{what}: kept {None if got is None else len(got)} mutants instead of {len(data)}: missing {missing[:2]}, unexpected {extra[:2]}", diff=d[:3000])
    return data

def concrete(ctx):
    ctx.build(["in_diff"])
    for _ in range(3 if not ctx.thorough else 12):
        files = diffs.tree_files(ctx.rng)
        t = diffs.make_tree(ctx, files)
        mutants = None
        if ctx.hooked:
            g = ctx.call("diff_mutants", dir=t.dir)
            if "ok" not in g:
                ctx.fail(f"discovery: {g}"); return
            mutants = g["ok"]
            for _ in range(250 if not ctx.thorough else 1500):
                d, c, style = one_diff(ctx.rng, files)
                g = ctx.call("diff", dir=t.dir, diff=d)
                if "kept" not in (g.get("ok") or {}):
                    ctx.fail(f"a diff that matches the tree: {g}", diff=d[:3000]); continue
                k = judge(ctx, files, d, g["ok"]["kept"], mutants, "diff_filter")
                ctx.case((c, style, len(k)), dict(diff=d[:300], kept=len(k)))
            g = ctx.call("diff", dir=t.dir, diff="")
            if g != {"ok": {"kept": []}}:
                ctx.fail(f"empty diff: {g}")
        # the real command
        r = e2e.Run(ctx, t, ["--list", "--json", "--diff"])
        lst = [[m["file"], m["span"]["start"]["line"], m["span"]["end"]["line"], json.dumps([m["span"], m["replacement"], m["genre"]], sort_keys=True)] for m in json.loads(r.stdout)]
        r.clean()
        for c in (0, 0, 1, 3):
            d, c, style = one_diff(ctx.rng, files, c)
            p = os.path.join(t.base, "x.diff")
            open(p, "w").write(d)
            r = e2e.Run(ctx, t, ["--list", "--json", "--in-diff", p])
            try:
                got = [[m["file"], m["span"]["start"]["line"], m["span"]["end"]["line"], json.dumps([m["span"], m["replacement"], m["genre"]], sort_keys=True)] for m in json.loads(r.stdout)]
            except ValueError:
                got = None
            ctx.case(("cmd", c, style, len(got or [])), None)
            judge(ctx, files, d, got, lst, "--list --in-diff")
            r.clean()
    # a test run tests exactly those mutants
    d, c, style = one_diff(ctx.rng, files, 0)
    open(p, "w").write(d)
    r = e2e.Run(ctx, t, ["--in-diff", p, "--jobs=4"])
    m = e2e.Monitor(r)
    got = [[x["file"], x["span"]["start"]["line"], x["span"]["end"]["line"], json.dumps([x["span"], x["replacement"], x["genre"]], sort_keys=True)] for x in m.mutants]
    judge(ctx, files, d, got, lst, "test run with --in-diff")
    if len(m.calls) != len(got):
        ctx.fail(f"--in-diff: {len(got)} mutants selected, {len(m.calls)} tested", **r.desc())
    r.clean()

import os
import e2e, diffs
UNITS = ["in_diff", "mainfn"]
RULE = "diffs whose new side differs from the tree in lines shown or not shown by the diff, through the adapter and --list --in-diff / test runs; oracle: refused iff a shown line of a file with mutants differs; non-trivial: distinct (context, refused or kept, where)"

def stale(rng, files):
    ctxl = rng.choice([0, 0, 1, 2, 3, 3])
    style = rng.choice(["git", "plain"])
    parts = []
    for p in rng.sample(list(files), rng.randrange(1, 3)):
        new = list(files[p])
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            k = rng.randrange(7)
            at = rng.randrange(len(new))
            if k == 0:
                new[at] += " "
            elif k == 1:
                new[at] = new[at][:-1]
            elif k == 2:
                new[at] = " " + new[at]
            elif k == 3:
                new.insert(at, rng.choice(["", "// x"]))
            elif k == 4:
                del new[at]
            elif k == 5:
                new += rng.choice([[""], ["", ""], ["// tail"]])
            else:
                new[at] = new[at].replace("a", "á", 1) if "a" in new[at] else new[at].upper()
            new = new or [""]
        old = diffs.edit(rng, new, rng.randrange(1, 4) if rng.random() < .85 else rng.randrange(12, 40))
        parts.append(diffs.file_diff(old, new, p, ctxl, style))
    return "".join(parts), ctxl

def concrete(ctx):
    ctx.build(["in_diff"])
    for _ in range(3 if not ctx.thorough else 12):
        files = diffs.tree_files(ctx.rng)
        t = diffs.make_tree(ctx, files)
        if ctx.hooked:
            g = ctx.call("diff_mutants", dir=t.dir)
            if "ok" not in g:
                ctx.fail(f"discovery: {g}"); return
            mutants = g["ok"]
            for _ in range(300 if not ctx.thorough else 2000):
                d, c = stale(ctx.rng, files)
                if not d:
                    continue
                want, data = diffs.expect(d, files, mutants)
                g = ctx.call("diff", dir=t.dir, diff=d)
                ok = g.get("ok") or {}
                ctx.case((c, want, str(data)[:60] if want == "refused" else len(data)), dict(diff=d[:300], want=want))
                if want == "refused" and "err" not in ok:
                    ctx.fail(f"stale at {data} but accepted: {str(g)[:200]}", diff=d[:3000])
                elif want == "kept" and "kept" not in ok:
                    ctx.fail(f"every shown line agrees with the tree but: {str(g)[:300]}", diff=d[:3000])
        # the real command: refused before anything is listed or built
        r = e2e.Run(ctx, t, ["--list", "--json", "--diff"])
        import json
        mutants = [[m["file"], m["span"]["start"]["line"], m["span"]["end"]["line"]] for m in json.loads(r.stdout)]
        r.clean()
        seen = dict(refused=0, kept=0)
        while min(seen.values()) < 2:
            d, c = stale(ctx.rng, files)
            want, data = diffs.expect(d, files, mutants)
            if not d or seen[want] >= 2 or (want == "kept" and not data):
                continue
            seen[want] += 1
            p = os.path.join(t.base, "x.diff")
            open(p, "w").write(d)
            args = ["--in-diff", p] if seen[want] == 2 else ["--list", "--in-diff", p]
            r = e2e.Run(ctx, t, args + (["-j4"] if args[0] != "--list" else []))
            ctx.case(("cmd", want, c, args[0]), None)
            tested = [x for x in r.log if x.get("argv") and x["argv"][0] in ("build", "test", "check")] if args[0] != "--list" else []
            if want == "refused":
                if r.rc == 0 or tested or (args[0] == "--list" and r.stdout.strip()):
                    ctx.fail(f"stale at {data}: exit {r.rc}, {len(tested)} cargo calls, output {r.stdout[:200]!r}", diff=d[:3000], **r.desc())
            elif (args[0] == "--list" and (r.rc != 0 or len(r.stdout.split("\n")) - 1 != len(data))) or (args[0] != "--list" and not tested):
                ctx.fail(f"a matching diff: exit {r.rc}", diff=d[:3000], **r.desc())
            r.clean()
        t.remove()

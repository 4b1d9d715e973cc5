import json
import e2e, labruns as lr
UNITS = ["shard", "mainfn"]
RULE = "real --list --shard runs for every k < n and the adapter on lists of many lengths; oracle: position modulo n; non-trivial: distinct (length, n)"
def concrete(ctx):
    ctx.build(["shard"])
    if ctx.hooked:
        for ln in (list(range(0, 26)) + [100, 1000]):
            for n in list(range(1, 13)) + [ln + 1, 997]:
                got = []
                for k in range(min(n, 40)):
                    g = ctx.call("shard", k=k, n=n, len=ln)
                    got.append(g.get("ok"))
                    if g.get("ok") is None:
                        ctx.fail(f"shard {k}/{n} of {ln} items: {g}"); return
                ctx.case((ln, n), dict(length=ln, n=n))
                if n <= 40:
                    if sorted(sum(got, [])) != list(range(ln)):
                        ctx.fail(f"shards 0..{n}/{n} of {ln} items do not partition them: {got}")
                    sz = [len(g) for g in got]
                    if max(sz) - min(sz) > 1:
                        ctx.fail(f"shard sizes of {ln} items with n={n}: {sz}")
                for g in got:
                    if g != sorted(g):
                        ctx.fail(f"shard of {ln} items with n={n} reorders: {g}")
        for a, want in (("0/1", [0, 1]), ("2/5", [2, 5]), ("0/4", [0, 4]), ("3/4", [3, 4]), ("4/4", None), ("5/4", None), ("0/0", None), ("1/0", None), ("", None), ("/", None), ("1", None), ("1/", None), ("/2", None),
                        ("a/b", None), ("-1/2", None), ("1/2/3", None), ("1//2", None), (" 1/2", None), ("1.5/3", None), ("18446744073709551615/18446744073709551616", None), ("9/10", [9, 10]), ("1/4x", None)):
            g = ctx.call("shard_parse", s=a)
            ctx.case(("arg", a), None)
            if g != {"ok": want}:
                ctx.fail(f"--shard={a}: {g}, expected {want}")
    t = lr.tree(ctx)
    names = lr.listed_names(ctx, t)
    for n in (1, 2, 3, 5, 7, len(names), len(names) + 3) if not ctx.thorough else range(1, len(names) + 4):
        got = []
        for k in range(n):
            r = e2e.Run(ctx, t, ["--list", "--line-col=true", f"--shard={k}/{n}"])
            got.append(r.stdout.split("\n")[:-1]); r.clean()
        ctx.case(("list", n), None, n)
        if sorted(sum(got, [])) != sorted(names) or any([x for x in names if x in set(g)] != g for g in got) or max(map(len, got)) - min(map(len, got)) > 1:
            ctx.fail(f"--list with shards k/{n}: {[len(g) for g in got]} of {len(names)}; not an ordered partition: {got}")
    # tested mutants are the listed ones, after the other filters
    for args in (["--shard=1/3"], ["--shard=0/2", "-F", "replace"]):
        r = e2e.Run(ctx, t, args, dict(rules=[lr.rule("test", False, exit=101)]))
        m = e2e.Monitor(r)
        l = lr.listed_names(ctx, t, args)
        ctx.case(tuple(args), None)
        if [m.name_of(x) for x in m.mutants] != l or len(m.calls) != len(l):
            ctx.fail(f"{args}: tested {len(m.calls)} mutants, listed {len(l)}", **r.desc())
        full = lr.listed_names(ctx, t, args[1:])
        k, n = map(int, args[0][8:].split("/"))
        if len(l) not in (len(full) // n, len(full) // n + 1):
            ctx.fail(f"{args}: {len(l)} of the {len(full)} mutants that pass the other filters", **r.desc())
        r.clean()

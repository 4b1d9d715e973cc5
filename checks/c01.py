UNITS = ["c01"]
RULE = "texts over an alphabet with newlines, non-ASCII and combining characters; every span of short texts, random spans of longer ones; non-trivial: text and span distinct"
def positions(s):
    out, l, c = [], 1, 1
    for ch in s:
        out.append((l, c))
        if ch == "\n": l, c = l + 1, 1
        else: c += 1
    out.append((l, c))
    return out
def concrete(ctx):
    ctx.build(["span"])
    if ctx.hooked:
        texts = ["", "\n", "a", "ab\nc", "\n\n", "x\n", "é\n日本\n", "ab\n\ncd", "  fn f() {\n    a == b\n}\n", "\U0001f600e\u0301\n\tz"]
        n = 400 if ctx.thorough else 60
        for _ in range(n):
            texts.append("".join(ctx.rng.choice("ab \n\n\té日\U0001f600{}(=)/\"'\\") for _ in range(ctx.rng.randrange(1, 30))))
        for s in texts:
            pos = positions(s)
            pairs = [(a, b) for a in range(len(pos)) for b in range(a, len(pos))]
            if len(pairs) > 60:
                pairs = ctx.rng.sample(pairs, 60)
            for a, b in pairs:
                sp = [*pos[a], *pos[b]]
                for rep in ("", "R", "x\ny") if len(s) < 8 else (ctx.rng.choice(["", "Default::default()", "é\n\n"]),):
                    got = ctx.call("replace", span=sp, s=s, r=rep)
                    want = s[:a] + rep + s[b:]
                    ctx.case((s, a, b), dict(text=s, span=sp, replacement=rep))
                    if got.get("ok") != want:
                        ctx.fail(f"Span::replace({sp}) of {s!r} with {rep!r}: {got} instead of {want!r}")
                got = ctx.call("extract", span=sp, s=s)
                if got.get("ok") != s[a:b]:
                    ctx.fail(f"Span::extract({sp}) of {s!r}: {got} instead of {s[a:b]!r}")

import json, os, re
import e2e, labruns as lr
from udiff import apply
UNITS = ["logs", "lab"]
RULE = "whole runs on trees whose files give clashing log names (same line and column, names that are cleaned to the same text, odd characters, no final newline, CR LF), one and several jobs; each record's log is read for the commands it belongs to and each diff is applied to the original; non-trivial: distinct (tree, mutant)"
NAMES = ["m/b.rs", "m__b.rs", "m b.rs", "m_b.rs", "m:b.rs", "m*b.rs", "m?b.rs", "m|b.rs", "m<b.rs", "m>b.rs", "m/b.rs_line_1_col_8.rs", "m__b.rs_line_1_col_8_001.rs", "baseline.rs", "é日本.rs", "a.log.rs", "x.diff.rs"]
BODY = ["pub fn f(v: bool) -> bool { !v }\n", "pub fn f(v: u8) -> Option<Vec<u8>> { Some(vec![v, v + 1]) }\n", "pub fn f(v: i32) -> Result<i32, ()> {\n    Ok(-v * 2)\n}",
        "/// é\npub fn f(x: u8, y: u8) -> (bool, bool, u8) {\r\n    (x == y, x < y || !(x > 3), x << 1)\r\n}\r\n", "pub fn f(v: i32) -> i32 {\n    match v {\n        1 if v > 0 => 2,\n        3 => 4,\n        _ => v % 5,\n    }\n}\n\n\n// end",
        "--- pub fn\n", "pub fn f(a: bool) -> bool { a\n&& true\n|| !a }\n" + "// l\n" * 30 + "pub fn g() -> String { String::new() }\n"]

def one(ctx, what, t, args, plan=None, **kw):
    r = e2e.Run(ctx, t, args, plan, timeout=200, **kw)
    m = e2e.Monitor(r)
    outs = m.out_by_mutant()
    if m.outcomes is None or not m.mutants:
        ctx.fail(f"{what}: no outcomes, exit {r.rc}", **r.desc()); return
    logs, diffs = [], []
    for i, os_ in outs.items():
        for o in os_:
            me = "baseline" if i is None else m.name_of(m.mutants[i]) if i != "?" else "?"
            ctx.case((what, me), dict(what=what, mutant=me, log=o["log_path"], diff=o.get("diff_path")))
            logs.append(os.path.normpath(o["log_path"]))
            p = os.path.join(r.mo, o["log_path"])
            if not os.path.isfile(p):
                ctx.fail(f"{what}: {me}: no log at {o['log_path']}", **r.desc()); continue
            if os.path.dirname(os.path.normpath(o["log_path"])) != "log":
                ctx.fail(f"{what}: {me}: the log is at {o['log_path']}", **r.desc())
            text = open(p, errors="replace", newline="").read()
            ran = re.findall(r"VERIF-RUN (\S+)", text)
            mine = [c["id"] for c in (m.base_calls if i is None else m.calls.get(i, []))]
            if ran != mine:
                ctx.fail(f"{what}: {me}: its log holds the output of commands {ran}, its commands were {mine}", **r.desc())
            if i is None:
                if o.get("diff_path") is not None: ctx.fail(f"{what}: the baseline has a diff {o['diff_path']}", **r.desc())
                continue
            if not o.get("diff_path"):
                ctx.fail(f"{what}: {me}: no diff", **r.desc()); continue
            diffs.append(os.path.normpath(o["diff_path"]))
            p = os.path.join(r.mo, o["diff_path"])
            if os.path.dirname(diffs[-1]) != "diff" or not os.path.isfile(p):
                ctx.fail(f"{what}: {me}: no diff at {o['diff_path']}", **r.desc()); continue
            d = open(p, newline="").read()
            f = m.mutants[i]["file"]
            got = apply(m.src[f], d)
            saw = {next(iter(c["changed"].values())) for c in m.calls.get(i, []) if len(c["changed"]) == 1}
            if got is None or (saw and saw != {got}):
                ctx.fail(f"{what}: {me}: the diff does not turn {f} into the text that was tested", diff=d, tested=sorted(saw), applied=got, **r.desc())
            if d not in text:
                ctx.fail(f"{what}: {me}: its log does not show its diff", **r.desc())
    for k, l, dr in (("log", logs, "log"), ("diff", diffs, "diff")):
        dup = sorted({x for x in l if l.count(x) > 1})
        if dup: ctx.fail(f"{what}: {k} files shared by several scenarios: {dup}", **r.desc())
        there = sorted(os.path.normpath(os.path.join(dp, x))[len(r.mo) + 1:] for dp, _, fs in os.walk(os.path.join(r.mo, dr)) for x in fs)
        if r.rc != 1 and there != sorted(l): ctx.fail(f"{what}: {dr}/ holds {sorted(set(there) ^ set(l))} differently from the records", **r.desc())
    if r.rc not in (0, 2, 3): ctx.fail(f"{what}: exit {r.rc}", **r.desc())
    r.clean()

def concrete(ctx):
    ctx.build()
    def tree(files):
        f = {"Cargo.toml": e2e.simple_pkg(), "src/lib.rs": "".join(f'#[path = "{n}"] pub mod m{i};\n' for i, n in enumerate(files))}
        f.update({"src/" + n: b for n, b in files.items()})
        return e2e.Tree(ctx, f)
    t = tree({n: BODY[0] for n in NAMES})
    one(ctx, "clashing names, 4 jobs", t, ["-j4"], lr.mix(sig=False))
    one(ctx, "clashing names, no baseline", t, ["-j2", "--baseline=skip", "--check", "--timeout=50"])
    t.remove()
    t = tree({"m/b.rs": BODY[1], "m__b.rs": BODY[1], "c.rs": BODY[2], "d.rs": BODY[3], "e.rs": BODY[4], "f.rs": BODY[6], "m b.rs": BODY[1], "m:b.rs": BODY[1]})
    one(ctx, "many at one place, 4 jobs", t, ["-j4"], lr.mix(sig=False))
    one(ctx, "many at one place, in place", t, ["--in-place"], lr.mix(sig=False))
    t.remove()
    for k in range(2 if not ctx.thorough else 40):
        fs = {n: ctx.rng.choice([b for b in BODY if not b.startswith("---")]) for n in ctx.rng.sample(NAMES, ctx.rng.randint(2, 6))}
        t = tree(fs)
        one(ctx, f"random tree {k}", t, [f"-j{ctx.rng.randint(1, 5)}"] + ctx.rng.choice([[], ["--check"], ["--shard=0/2"], ["--baseline=skip", "--timeout=50"]]), lr.mix(sig=False))
        t.remove()
    # a tree with so many mutants of one position that the numbers get more digits
    many = "pub fn f() -> Result<(Option<bool>, Option<u8>, Option<String>, Option<i8>), u8> { todo!() }\n" if not ctx.thorough else "pub fn f() -> Result<(Option<(bool, i8)>, Option<(u8, i8)>, Option<(String, bool)>, Option<(i8, i8)>), u8> { todo!() }\n"
    t = tree({"m/b.rs": many, "m__b.rs": many})
    one(ctx, "very many at one place", t, ["-j8", "--check"])
    t.remove()

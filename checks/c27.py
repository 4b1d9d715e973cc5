import json, os, re
import e2e, progs, labruns as lr
from udiff import apply
UNITS = ["names", "visitor", "mainfn", "output", "slashes"]
RULE = "workspaces of generated source files (nested functions, impls, traits and modules, operators, arms and guards, texts of several bytes and lines) listed in every form: text with and without positions and colors, JSON, with diffs, files; and tested, for the records; non-trivial: distinct (tree, mutant)"
TRUSTED = ["syn parses the file and its generated visitor calls the method of each part inside a part, in order", "similar makes a unified diff of the two texts it is given", "serde_json prints the values it is given", "console leaves a text as it is when styling is off, and only adds escape sequences when it is on"]
ANSI = re.compile(r"\x1b\[[0-9;]*m")

def span(s): return ((s["start"]["line"], s["start"]["column"]), (s["end"]["line"], s["end"]["column"]))
class Src:
    """The parts of Monitor that name_of uses."""
    def __init__(self, src): self.src = src
    name_of = e2e.Monitor.name_of

def function_of(ctx, what, p, m):
    """a mutant's function is the innermost one around it"""
    s = span(m["span"])
    around = [x for x in p.fns if x[0] < s[0] and s[1] <= x[2]]
    f = m.get("function")
    if not around:
        if f is not None: ctx.fail(f"{what}: {m['file']} {s[0]}: is in no function, but recorded in {f}", source=p.text(), mutant=m)
        return
    a, kw, end, name, ret = max(around, key=lambda x: x[0])
    if f is None:
        ctx.fail(f"{what}: {m['file']} {s[0]}: recorded in no function, is in {name}", source=p.text(), mutant=m); return
    if f["function_name"] != name or f["return_type"] != ret:
        ctx.fail(f"{what}: {m['file']} {s[0]}: recorded in {f['function_name']} {f['return_type']}, is in {name} {ret}", source=p.text(), mutant=m)
    fs = span(f["span"])
    e = progs_end(p, end)
    if not (a <= fs[0] <= (kw[0], kw[1] + 40) and fs[1] == e):
        ctx.fail(f"{what}: {m['file']}: function {name} recorded at {fs}, is at {a}-{e}", source=p.text(), mutant=m)

def progs_end(p, end):
    """the end of the text before a position at the start of a line"""
    ls = p.text().split("\n")
    return (end[0] - 1, len(ls[end[0] - 2]) + 1) if end[1] == 1 else end

def listing(ctx, what, t, args, env=None):
    r = e2e.Run(ctx, t, ["--list"] + args, env=env)
    out, rc, err = r.stdout, r.rc, r.stderr[-300:]
    desc = r.desc()
    r.clean()
    if rc != 0:
        ctx.fail(f"{what}: {args}: exit {rc} {err}", **desc); return None
    return out

def lists(ctx, what, t, ps, pkg_of):
    out = listing(ctx, what, t, ["--json"])
    if out is None: return None
    try: ms = json.loads(out)
    except ValueError:
        ctx.fail(f"{what}: --list --json is no JSON: {out[:300]}"); return None
    if not ms: ctx.fail(f"{what}: no mutants"); return None
    src = t.sources(); n = Src(src)
    full = [n.name_of(m) for m in ms]
    strip = lambda m, x: m["file"] + ":" + x[len(m["file"]) + 1:].split(":", 2)[2]
    short = [strip(m, x) for m, x in zip(ms, full)]
    for m, x in zip(ms, full):
        ctx.case((what, x), dict(what=what, mutant=x) if m is ms[0] else None)
        if set(m) != {"package", "file", "function", "span", "replacement", "genre"}: ctx.fail(f"{what}: {x}: record has fields {sorted(m)}")
        if m["package"] != pkg_of(m["file"]): ctx.fail(f"{what}: {x}: recorded in package {m['package']}")
        if m["file"] in ps: function_of(ctx, what, ps[m["file"]], m)
    diffs = []
    jd = listing(ctx, what, t, ["--json", "--diff"])
    if jd is None: return None
    jd = json.loads(jd)
    if [{k: v for k, v in m.items() if k != "diff"} for m in jd] != ms: ctx.fail(f"{what}: --list --json --diff lists other mutants than --list --json")
    for m, s, d in zip(ms, short, (m.get("diff") for m in jd)):
        diffs.append(d)
        i, j = e2e.span_idx(src[m["file"]], m["span"])
        o = src[m["file"]]
        if d is None or apply(o, d) != o[:i] + m["replacement"] + " " + e2e.MARKER + o[j:]:
            ctx.fail(f"{what}: {s}: the diff does not give the mutated text", diff=d, source=o, mutant=m); continue
        h = d.split("\n")[:2]
        if h != ["--- " + m["file"], "+++ " + s[len(m["file"]) + 2:].replace("\n", " ")]:
            ctx.fail(f"{what}: {s}: the diff is headed {h}", mutant=m)
    def lines(args, want, colors, env=None):
        o = listing(ctx, what, t, args, env)
        if o is None: return
        if colors:
            if not ANSI.search(o): ctx.fail(f"{what}: {args}: nothing is colored")
            o = ANSI.sub("", o)
        if o != want:
            a, b = o.split("\n"), want.split("\n")
            k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            ctx.fail(f"{what}: --list {args}: line {k + 1} is {a[k:k+1]}, expected {b[k:k+1]}", args=args)
    for c in ([], ["--colors=always"], ["--colors=never"]):
        for lc, nm in (([], full), (["--line-col=true"], full), (["--line-col=false"], short)):
            for df in ([], ["--diff"]):
                if not ctx.thorough and c and df and lc: continue
                lines(lc + c + df, "".join(x + "\n" + (d + "\n" if df else "") for x, d in zip(nm, diffs)), c == ["--colors=always"])
    lines([], "".join(x + "\n" for x in full), True, {"CLICOLOR_FORCE": "1"})
    lines(["--colors=always"], "".join(x + "\n" for x in full), False, {"NO_COLOR": "1"})
    # files
    r = e2e.Run(ctx, t, ["--list-files", "--json"]); j = json.loads(r.stdout) if r.rc == 0 else None; r.clean()
    r = e2e.Run(ctx, t, ["--list-files"]); x = r.stdout if r.rc == 0 else None; r.clean()
    if j is None or x is None: ctx.fail(f"{what}: --list-files failed"); return ms
    if [e["path"] for e in j] != x.splitlines() or len(set(x.splitlines())) != len(x.splitlines()): ctx.fail(f"{what}: --list-files gives {x.splitlines()[:20]} in text, {j[:20]} in JSON")
    for e in j:
        ctx.case((what, e["path"]))
        if set(e) != {"path", "package"} or e["package"] != pkg_of(e["path"]): ctx.fail(f"{what}: file {e}")
    if not {m["file"] for m in ms} <= {e["path"] for e in j} or {e["path"] for e in j} != set(src): ctx.fail(f"{what}: --list-files gives {sorted({e['path'] for e in j} ^ set(src))} differently from the tree's files")
    return ms

def records(ctx, what, t, args, ms):
    """what is tested is what was listed"""
    r = e2e.Run(ctx, t, args, lr.mix(sig=False))
    m = e2e.Monitor(r)
    if m.outcomes is None: ctx.fail(f"{what}: no outcomes", **r.desc()); r.clean(); return
    key = lambda x: json.dumps(x, sort_keys=True)
    if sorted(map(key, m.mutants)) != sorted(map(key, ms)): ctx.fail(f"{what}: mutants.json differs from --list --json", **r.desc())
    got = [o["scenario"]["Mutant"] for o in m.outcomes["outcomes"] if o["scenario"] != "Baseline"]
    if sorted(map(key, got)) != sorted(map(key, ms)): ctx.fail(f"{what}: the mutants of outcomes.json differ from --list --json", **r.desc())
    for o in m.outcomes["outcomes"]:
        if o["scenario"] == "Baseline": continue
        x = m.name_of(o["scenario"]["Mutant"])
        ctx.case((what, "tested", x))
        text = open(os.path.join(r.mo, o["log_path"]), errors="replace", newline="").read()
        if x not in text: ctx.fail(f"{what}: {x}: is not named in its log {o['log_path']}", log=text[:600], **r.desc())
    r.clean()

ODD = ["pub fn f(a: bool) -> bool {\n    a &&\n        !a\n}\n", "pub fn é(ñ: u8) -> u8 { ñ + 1 }\nimpl<'a, T: Copy> S<'a, T> where T: Eq { pub fn m(&self) -> Option<(u8, &'static str)> { None } }\n",
       "pub mod r#mod { pub mod b { impl super::T for [u8; 3] { fn r#fn(&self) -> u8 { match *self { _ if true => 1, [1, ..] => 2, _ => 3 } } } } }\n",
       "pub fn outer() -> i32 {\n    const A: u8 = 1 + 2;\n    fn inner() -> u8 { struct L; impl L { fn deep(&self) -> bool { true } } trait Q { fn d() -> u8 { 4 } } 5 }\n    -(inner() as i32)\n}\n",
       "pub const X: bool = 1 == 2;\npub static Y: [u8; 3] = [1 << 2; 3];\npub enum E { A = 1 + 1 }\nimpl std::ops::Add<u8> for E { type Output = u8; fn add(self, o: u8) -> u8 { o } }\n",
       "pub fn f() -> Result<String, Box<dyn std::error::Error + Send + 'static>> {\r\n    Ok(String::from(\"x\\r\\n\"))\r\n}\r\npub fn g()\r\n{\r\n    f();\r\n    g()\r\n}", "pub fn i() -> impl Iterator<Item = (u8, bool)> { x() }\npub fn j<'a>(x: &'a [u8]) -> Box<[u8]> { y() }\npub fn k() -> std::collections::HashMap<String, Vec<u8>> { z() }\n"]
def concrete(ctx):
    ctx.build()
    rng = ctx.rng
    for it in range(2 if not ctx.thorough else 24):
        files, ps = {"Cargo.toml": '[workspace]\nmembers = ["one", "two/deep"]\nresolver = "2"\n', "one/Cargo.toml": e2e.simple_pkg("first-pkg"), "two/deep/Cargo.toml": e2e.simple_pkg("second_pkg")}, {}
        for d in ("one", "two/deep"):
            lib = ""
            for i in range(6 if not ctx.thorough else 12):
                p = progs.P(rng, ["skip_me"]).file(8)
                f = f"{d}/src/m{i}.rs"; ps[f] = p; files[f] = p.text(); lib += f"mod m{i};\n"
            for i, x in enumerate(ODD): files[f"{d}/src/o{i}.rs"] = x; lib += f"mod o{i};\n"
            files[f"{d}/src/lib.rs"] = lib
        t = e2e.Tree(ctx, files)
        lists(ctx, f"generated {it}", t, ps, lambda f: "first-pkg" if f.startswith("one/") else "second_pkg")
        t.remove()
    for it in range(2 if not ctx.thorough else 12):
        p = progs.P(rng, ["skip_me"]).file(3)
        files = {"Cargo.toml": e2e.simple_pkg("solo"), "src/main.rs": "mod a;\nmod b;\nfn main() { a::go() + 1; }\n", "src/a.rs": p.text(), "src/b.rs": ODD[it % len(ODD)] + ODD[3]}
        t = e2e.Tree(ctx, files)
        ms = lists(ctx, f"single {it}", t, {"src/a.rs": p}, lambda f: "solo")
        if ms: records(ctx, f"tested {it}", t, ["-j8", "--baseline=skip", "--timeout=50"] if it % 2 else ["-j8", "--check"], ms)
        t.remove()
    t = e2e.Tree(ctx, {"Cargo.toml": e2e.simple_pkg("none"), "src/lib.rs": "pub struct S;\n"})
    for a, w in (([], ""), (["--json"], "[]"), (["--diff"], ""), (["--json", "--diff"], "[]"), (["--colors=always"], "")):
        o = listing(ctx, "no mutants", t, a)
        ctx.case(("no mutants", tuple(a)))
        if o is not None and o.strip() != w: ctx.fail(f"no mutants: --list {a} prints {o[:200]!r}")
    t.remove()

"""Generated trees and unified diffs for --in-diff, with an oracle that reads the diff text itself."""
import difflib, re
import e2e

def block(rng, i):
    """A few lines of Rust with several mutants on different lines."""
    k = rng.randrange(8)
    if k == 0:
        return [f"pub fn one{i}(a: u32) -> u32 {{ a + {i} }}"]
    if k == 1:
        return [f"pub fn f{i}(a: u32, b: u32) -> u32 {{", "    let x = a", "        + b;", "", f"    // note {i}", "    x * 2", "}"]
    if k == 2:
        return [f"// comment {i}", f"// another {i}", ""]
    if k == 3:
        return [f"pub fn g{i}(", "    a: bool,", "    b: bool,", ") -> bool {", "    a && b", "        || !a", "}"]
    if k == 4:
        return [f"pub fn h{i}(s: &str) -> String {{", "    match s {", '        "a" => s.to_owned(),', '        "b" if s.len() > 1 => String::new(),', "        _ => format!(\"{s}\"),", "    }", "}"]
    if k == 5:
        return [f"pub const K{i}: u32 = {i};", ""]
    if k == 6:
        return [f"pub struct S{i};", f"impl S{i} {{", "    pub fn m(&self) -> Option<u8> {", f"        Some({i % 250})", "    }", "}"]
    return [f"pub mod m{i} {{", f"    pub fn p{i}() -> i32 {{", f"        -{i + 1}", "    }", "}"]

def text(rng, n, start=0):
    out = []
    for i in range(n):
        out += block(rng, start + i)
        if rng.random() < .4:
            out.append("")
    return out or ["// empty"]

def tree_files(rng, workspace=False):
    """path -> list of lines"""
    extra = ["alpha", "beta", "long_name", "b", "tall"]
    lib = [f"mod {m};" for m in extra] + ["mod sub;"] + text(rng, rng.randrange(3, 8), 100)
    f = {"src/lib.rs": lib}
    for j, m in enumerate(extra):
        f[f"src/{m}.rs"] = text(rng, rng.randrange(1, 8), 200 + 50 * j)
    f["src/sub/mod.rs"] = ["mod deep;"] + text(rng, 2, 500)
    f["src/sub/deep.rs"] = text(rng, 3, 600)
    n = rng.choice([55, 120, 300])
    f["src/tall.rs"] = text(rng, 2, 700) + ["pub fn tall(a: u32) -> u32 {", "    let r = a"] + [f"        .max({i})" for i in range(n)] + ["        + 1;", "    match r {", "        0 => {"] + [f"            // {i}" for i in range(n)] + ["            1", "        }", "        _ => 2,", "    }", "}"] + text(rng, 2, 710)      # mutants over many lines
    f["b/src/main.rs"] = ["fn main() {}"] + text(rng, 4, 800)                                   # a directory called like the prefix of a path
    f["src/beta.rs"] = ["// nothing here", "pub const B: u8 = 1;", "// end"]           # no mutants
    return f

def make_tree(ctx, files):
    t = {"Cargo.toml": e2e.simple_pkg("pkg") + '\n[[bin]]\nname = "bb"\npath = "b/src/main.rs"\n'}
    t.update({p: "\n".join(l) + "\n" for p, l in files.items()})
    return e2e.Tree(ctx, t)

def edit(rng, lines, n):
    """A few line-level edits (insert, delete, replace)."""
    out = list(lines)
    for _ in range(n):
        k = rng.randrange(3)
        at = rng.choice([0, len(out), rng.randrange(len(out) + 1)]) if rng.random() < .5 else rng.randrange(len(out) + 1)
        ln = rng.randrange(1, 4)
        if k == 0 or not out:
            out[at:at] = [rng.choice(["// inserted", "", "    let z = 1;", "}"]) for _ in range(ln)]
        elif k == 1:
            del out[at:at + ln]
        else:
            at = min(at, len(out) - 1)
            out[at:at + 1] = ["// replaced %d" % rng.randrange(9)] * rng.randrange(1, 3)
    return out

def file_diff(old, new, path, ctxlines, style):
    """Unified diff of one file; style picks prefixes and header lines. old or new None: added or deleted file."""
    a, b = old or [], new or []
    pa, pb = {"git": ("a/", "b/"), "plain": ("", ""), "only-b": ("x/", "b/")}[style]
    body = list(difflib.unified_diff([l + "\n" for l in a], [l + "\n" for l in b], n=ctxlines))[2:]
    if not body:
        return ""
    h = f"diff --git a/{path} b/{path}\nindex 0123456..789abcd 100644\n" if style == "git" else ""
    h += f"--- {'/dev/null' if old is None else pa + path}\n+++ {'/dev/null' if new is None else pb + path}\n"
    return h + "".join(body)

def parse(diff):
    """(path, affected lines, shown lines {lineno: text}) per file, reading the unified-diff format by hand."""
    out, cur = [], None
    lines = diff.split("\n")
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith("--- ") and i + 1 < len(lines) and lines[i + 1].startswith("+++ "):
            p = lines[i + 1][4:].split("\t")[0]
            cur = (p[2:] if p.startswith("b/") else p, set(), {})
            out.append(cur)
            i += 2
            continue
        m = re.match(r"@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@", l)
        if m:
            oc, nc = (int(m[2]) if m[2] else 1), (int(m[4]) if m[4] else 1)
            pos = int(m[3]) + (nc == 0)
            i += 1
            while oc or nc:
                l = lines[i]; i += 1
                if l[0] == "-":
                    oc -= 1
                    cur[1].add(pos - 1); cur[1].add(("after", pos))
                else:
                    nc -= 1
                    cur[2][pos] = l[1:]
                    if l[0] == "+":
                        cur[1].add(pos)
                    else:
                        oc -= 1
                    pos += 1
            continue
        i += 1
    return out

def expect(diff, files, mutants):
    """("refused", why) or ("kept", [mutants])"""
    have = {m[0] for m in mutants}
    touched = {}
    for path, aff, shown in parse(diff):
        if path == "/dev/null":
            continue
        if path in have:
            src = files[path]
            for n, t in sorted(shown.items()):
                if (src[n - 1] if n <= len(src) else "") != t:
                    return "refused", f"{path}:{n}"
        touched[path] = {a if isinstance(a, int) else a[1] for a in aff}
    return "kept", [m for m in mutants if any(l in touched.get(m[0], ()) for l in range(m[1], m[2] + 1))]

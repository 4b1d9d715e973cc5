"""Random Rust source files with the mutants to expect, for C21 and C22: written from the documentation, knows nothing of the code."""
TABLE = {"==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "<": ["==", ">", "<="], ">": ["==", "<", ">="], "<=": [">"], ">=": ["<"],
         "+": ["-", "*"], "-": ["+", "/"], "*": ["+", "/"], "/": ["%", "*"], "%": ["/", "+"], "<<": [">>"], ">>": ["<<"], "&": ["|", "^"], "|": ["&", "^"], "^": ["|", "&"]}
ASSIGN = {o + "=": [x + "=" for x in TABLE[o]] for o in ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^"]}
RET = {"bool": ["true", "false"], "()": ["()"], "i32": ["0", "1", "-1"], "u8": ["0", "1"], "String": ["String::new()", "\"xyzzy\".into()"], "": ["()"]}
MARK = ["#[test]", "#[cfg(test)]", "#[mutants::skip]", "#[cfg_attr(test, mutants::skip)]", "#[cfg_attr(mutants, mutants::skip)]", "#[ test ]", "#[cfg( test )]", "#[mutants :: skip]",
        "#[cfg_attr(feature = \"x\", mutants::skip)]", "#[cfg_attr(test, allow(dead_code), mutants::skip)]", "#[cfg_attr(any(unix, windows), mutants::skip)]", "#[cfg_attr(test, mutants::skip, inline)]", "#[cfg_attr(not(test), mutants::skip)]", "#[cfg_attr(test, allow(dead_code), inline, cold, must_use, doc = \"x\", mutants::skip)]", "#[cfg_attr(all(a, b, not(c), d = \"e\"), mutants::skip)]"]
NEUTRAL = ["#[inline]", "#[allow(test)]", "#[cfg(not(test))]", "#[cfg(feature = \"test\")]", "#[doc = \"test\"]", "#[must_use]", "#[cfg(unix)]", "#[cfg_attr(test, inline)]", "#[mutants::keep]", "#[skip]", "#[mutants]",
           "#[cfg_attr(test, mutants::skipped)]", "#[test_case(1)]", "#[my::test]", "#[cfg(testing)]", "#[cfg(tests)]", "#[cfg_attr(test, skip)]", "#[other::mutants::skip]", "#[mutants::skip::more]", "#[derive(test)]",
           "#[cfg_attr(feature = \"mutants::skip\", inline)]", "#[doc = \"mutants::skip\"]", "/// #[test] mutants::skip", "#[cfg_attr(unix, cold)]", "#[ignore]", "#[should_panic]", "#[bench]", "// #[cfg(test)]"]

class P:
    def __init__(self, rng, skips=()):
        self.rng, self.out, self.line, self.col = rng, [], 1, 1
        self.skips = list(skips) + ["with_capacity"]
        self.sites = {}      # (genre, span) -> replacements
        self.off = 0         # depth of left-out code
        self.regions = []    # left-out (start, end)
        self.units = []      # (what, [sites]) of each item that is not left out: the neighbours
        self.n = 0
        self.ns, self.fns = [], []   # names around this place; (start, fn line, end, name, return type) of the functions
        self.names = iter(f"n{i}" for i in range(10**6))
    def pos(self): return (self.line, self.col)
    def e(self, s):
        a = self.pos()
        for c in s:
            if c == "\n": self.line += 1; self.col = 1
            else: self.col += 1
        self.out.append(s)
        return (a, self.pos())
    def sp(self):
        self.e(self.rng.choice([" ", " ", " ", "\n        ", " /* é */ ", "  "]))
    def site(self, genre, span, reps):
        if not self.off: self.sites[(genre, span)] = list(reps)
    def text(self): return "".join(self.out)
    def r(self, p): return self.rng.random() < p
    # ---- expressions
    def atom(self, d):
        rng = self.rng
        k = rng.random()
        if d <= 0 or k < 0.35: self.e(rng.choice(["a", "b", "c", "1", "2u8", "x.y", "ARR[0]", "\"a + b\"", "'-'", "self_", "true", "0xff", "r\"<=\""]))
        elif k < 0.55: self.e("("); self.expr(d - 1); self.e(")")
        elif k < 0.68: self.unary(d)
        elif k < 0.78: self.call(d)
        elif k < 0.82: self.e(rng.choice(["vec![1 + 2]", "format!(\"{}\", a - b)", "matches!(a, b if c == d)", "concat!()"]))
        elif k < 0.86: self.e("(|q"); self.e(rng.choice(["", ": i32"])); self.e("| "); self.expr(d - 1); self.e(")")
        elif k < 0.90: self.e("["); self.expr(d - 1); self.e(", "); self.expr(d - 1); self.e("]")
        elif k < 0.94: self.e("x["); self.expr(d - 1); self.e("]")
        elif k < 0.97: self.e("{ "); self.expr(d - 1); self.e(" }")
        else: self.e("*p"); 
    def unary(self, d):
        op = self.rng.choice(["!", "-", "*", "!", "-", "&"])
        s = self.e(op)
        if op in "!-": self.site("UnaryOperator", s, [""])
        if self.r(0.2): self.e(" ")
        if self.r(0.2) and d > 0: self.e("("); self.unary(d - 1); self.e(")")
        elif self.r(0.2): self.unary(d - 1)
        elif self.r(0.5): self.e(self.rng.choice(["z", "z", "1", "2.5", "0x1f"]))
        else: self.e("("); self.expr(d - 1); self.e(")")
    def binary(self, d):
        self.e("(") if self.r(0.3) else self.e("((")
        two = self.out[-1] == "(("
        self.atom(d - 1); self.sp()
        op = self.rng.choice(list(TABLE))
        self.site("BinaryOperator", self.e(op), TABLE[op])
        self.sp(); self.atom(d - 1)
        self.e("))" if two else ")")
    def args(self, d, n=None):
        self.e("(")
        for i in range(self.rng.randint(0, 3) if n is None else n):
            if i: self.e(", ")
            self.expr(d - 1)
        self.e(")")
    def call(self, d):
        rng = self.rng
        skip = self.r(0.4)
        if skip: name = rng.choice(self.skips)
        else:
            name = rng.choice(["f", "g", "with_capacity_", "capacity", "My", "_" + self.skips[0], self.skips[0] + "x", "With_capacity"])
        method = self.r(0.5)
        if skip: self.off += 1
        pre = rng.choice(["", "", "a::", "Vec::", "::std::vec::Vec::", "Vec::<u8>::", (self.skips[0] + "::") if not skip else ""])
        gen = rng.choice(["", "", "::<u8>"])
        if method: self.e("v." + name + gen)
        else: self.e(pre + name + gen)
        a = (self.line, self.col + 1)
        self.args(d)
        if skip: self.regions.append((a, (self.line, self.col - 1))); self.off -= 1
        if not skip and self.r(0.15):
            self.e(".h"); self.args(d)
    def match(self, d):
        rng = self.rng
        self.e("match "); self.e("("); self.expr(d - 1); self.e(") {\n")
        n = rng.randint(1, 4) if d < 2 or self.r(0.85) else rng.randint(9, 20)
        wild = rng.choice([None, n - 1, n - 1, rng.randrange(n)])
        gw = self.r(0.15)      # a guarded wildcard arm
        arms = []
        for i in range(n):
            a = self.pos()
            if self.r(0.08): self.e(rng.choice(["#[cfg(unix)]", "#[allow(unused)]\n", "#[cfg(not(test))]"]) + " ")
            w = i == wild
            self.e("_" if w else rng.choice(["1", "A", "Some(x)", "B::C { .. }", "x @ 2", "3 | 4", "(_, _)", "rest", "[_, ..]", "5..=6", "ref _q"]))
            guard = (gw if w else self.r(0.35))
            if guard:
                self.e(" if "); g = self.pos()
                self.guard(d)
                self.site("MatchArmGuard", (g, self.pos()), ["true", "false"])
            self.e(" => ")
            if self.r(0.3): self.e("{ "); self.stmt(d - 1); self.e("}"); c = self.r(0.5)
            else: self.e("("); self.expr(d - 1); self.e(")"); c = True
            if c and (i < n - 1 or self.r(0.8)): self.e(",")
            arms.append((w, guard, (a, self.pos())))
            self.e("\n")
        self.e("}")
        if wild is not None:
            for w, g, s in arms:
                if not w and not g: self.site("MatchArm", s, [""])
    def guard(self, d):
        k = self.rng.random()
        if k < 0.06: self.e("let Some(q) = ("); self.expr(d - 1); self.e(")")
        elif k < 0.3: self.e("ok")
        elif k < 0.5: self.call(d)
        elif k < 0.7: self.unary(d)
        elif k < 0.85: self.e("a "); op = self.rng.choice(list(TABLE)); self.site("BinaryOperator", self.e(op), TABLE[op]); self.e(" b")
        else: self.e("("); self.expr(d - 1); self.e(")")
    def expr(self, d):
        k = self.rng.random()
        if d <= 0: self.atom(0)
        elif k < 0.55: self.binary(d)
        elif k < 0.68: self.atom(d)
        elif k < 0.78: self.match(d)
        elif k < 0.88: self.e("if ("); self.expr(d - 1); self.e(") { "); self.expr(d - 1); self.e(" } else { "); self.expr(d - 1); self.e(" }")
        else: self.call(d)
    def stmt(self, d):
        rng = self.rng
        k = rng.random()
        if k < 0.3: self.e("let " + rng.choice(["v", "mut v", "_"]) + " = "); self.expr(d); self.e(";\n")
        elif k < 0.5:
            self.e("v "); op = rng.choice(list(ASSIGN)); self.site("BinaryOperator", self.e(op), ASSIGN[op]); self.e(" "); self.expr(d); self.e(";\n")
        elif k < 0.6: self.e("v = "); self.expr(d); self.e(";\n")
        elif k < 0.7: self.call(d); self.e(";\n")
        elif k < 0.76: self.e("while ("); self.expr(d); self.e(") { "); self.stmt(d - 1); self.e("}\n")
        elif k < 0.82: self.e("return "); self.expr(d); self.e(";\n")
        elif k < 0.88: self.e("println!(\"{}\", a + b);\n")
        elif k < 0.94 and d > 0: self.e("{ "); self.stmt(d - 1); self.e("}\n")
        else:
            # a call or match with an attribute of its own
            skip = self.r(0.5)
            if skip: self.off += 1
            self.e(rng.choice(MARK if skip else ["#[allow(unused)]", "#[cfg(not(test))]"]) + " ")
            a = self.pos()
            k = rng.random()
            if k < 0.35: self.e("plain"); self.args(d)
            elif k < 0.6: self.e(rng.choice(["v", "self_.w", "w[0]", "x()"]) + ".plain"); self.args(d)
            else: self.match(d)
            self.e(";\n")
            if skip: self.off -= 1; self.regions.append((a, self.pos()))
    # ---- items
    def attrs(self, mark, nested=False):
        rng = self.rng
        l = [rng.choice(NEUTRAL[:-1] if nested else NEUTRAL) for _ in range(rng.choice([0, 0, 1, 2]))]
        if mark: l.insert(rng.randint(0, len(l)), rng.choice(MARK))
        for x in l: self.e(x + "\n")
    def fn(self, where, d=2):
        rng = self.rng
        mark = self.r(0.25)
        unsafe = self.r(0.15)
        ctor = where in ("impl", "trait") and self.r(0.2)
        skip = mark or unsafe or ctor
        inner = mark and self.r(0.2)
        a = self.pos()
        before = set(self.sites)
        if skip: self.off += 1
        self.attrs(mark and not inner, where == "nested")
        q = rng.choice(["", "pub ", "pub(crate) "]) if where != "trait" and where != "traitimpl" else ""
        q += rng.choice(["", "", "const ", "async "]) if where in ("top", "nested", "impl") else ""
        if unsafe: q += "unsafe "
        q += rng.choice(["", "", "", "extern \"C\" "])
        name = "new" if ctor else rng.choice([next(self.names), next(self.names), "new", "default", "test", "skip"]) if where in ("top", "nested") else rng.choice([next(self.names), "new_one", "renew", "default", "r#type", "New"])
        if where in ("impl", "trait") and name == "new": pass
        ret = rng.choice(list(RET))
        kw = self.pos()
        self.ns.append(name); full = "::".join(self.ns)
        self.e(f"{q}fn {name}" + rng.choice(["", "", "<T: Copy>", "<'a>"]) + ("(&self" if where in ("impl", "trait", "traitimpl") and self.r(0.6) else "(v: i32") + ")" + (f" -> {ret}" if ret else ""))
        if where == "trait" and self.r(0.3): self.e(";\n")
        elif self.r(0.08): self.e(rng.choice([" {}\n", " { }\n", " { /* a + b */ }\n", " {\n // nothing\n }\n"]))
        elif self.r(0.3) and not inner:
            # a body that is one of the values
            v = rng.choice(RET[ret])
            self.e(rng.choice([" {", " { ", " {\n    ", " { /* why */ ", " {\n  // because\n  "]))
            if v == "-1": s0 = self.e("-"); self.site("UnaryOperator", s0, [""]); s1 = self.e("1"); s = (s0[0], s1[1])
            else: s = self.e(v)
            self.site("FnValue", s, [x for x in RET[ret] if x != v])
            self.e(rng.choice(["}\n", " }\n", "\n}\n", " // é\n}\n"]))
        else:
            self.e(" {\n")
            if inner: self.e(rng.choice(["#![cfg(test)]", "#![mutants::skip]", "#![cfg_attr(test, mutants::skip)]"]) + "\n")
            s = self.pos()
            for _ in range(rng.randint(1, 3)):
                if self.r(0.12) and d > 0: self.item("nested", d - 1)
                else: self.stmt(d)
                s_end = self.prev_nonspace()
            if self.r(0.5):
                self.e("("); self.expr(d); self.e(")"); s_end = self.pos(); self.e("\n")
            self.site("FnValue", (s, s_end), RET[ret])
            self.e("}\n")
        self.ns.pop()
        self.fns.append((a, kw, self.pos(), full, f"-> {ret}" if ret else ""))
        if skip: self.off -= 1; self.regions.append((a, self.pos()))
        elif not self.off: self.units.append(((a, self.pos()), [k for k in self.sites if k not in before]))
    def prev_nonspace(self):
        """the position after the last character that is not space (nothing but one newline follows)"""
        t = self.out[-1]
        assert t.endswith("\n")
        l, c = self.line - 1, len("".join(self.out).split("\n")[self.line - 2]) + 1
        return (l, c)
    def item(self, where="top", d=2):
        rng = self.rng
        k = rng.random()
        if k < 0.4: return self.fn("top" if where != "nested" else "nested", d)
        if k < 0.5:
            a = self.pos()
            self.e(rng.choice(["const ", "static "]) + next(self.names).upper() + ": i32 = "); self.expr(d); self.e(";\n"); return
        if k < 0.54: self.e("macro_rules! " + next(self.names) + " { ($x:expr) => { $x + 1 == 2 } }\n"); return
        if k < 0.58: self.e("struct " + next(self.names).upper() + " { a: [u8; "); self.expr(1); self.e("] }\n"); return
        mark = self.r(0.2)
        a = self.pos()
        if k < 0.76:
            dflt = self.r(0.2)
            tr = rng.choice(["Default", "std::default::Default", "::core::default::Default", "a::Default"]) if dflt else rng.choice(["", "", "Tr", "a::Tr<u8>", "Defaults", "MyDefault", "Default_", "From<Default>", "Tr<Default>"])
            skip = mark or dflt
            if skip: self.off += 1
            self.attrs(mark, where == "nested")
            self.e(("unsafe " if tr and self.r(0.15) else "") + "impl" + rng.choice(["", "", "<T>"]) + " " + (tr + " for " if tr else ""))
            ty = rng.choice(["S", "Default", "S<T>", "a::S"])
            self.e(ty + " {\n")
            self.ns.append(f"<impl {tr} for {ty}>" if tr else ty)
            for _ in range(rng.randint(1, 3)): self.fn("impl", d)
        elif k < 0.86:
            skip = mark
            if skip: self.off += 1
            self.attrs(mark, where == "nested")
            name = rng.choice(["Default", "T" + next(self.names)])
            self.e(rng.choice(["", "", "pub ", "unsafe "]) + "trait " + name + " {\n")
            self.ns.append(name)
            for _ in range(rng.randint(1, 3)): self.fn("trait", d)
        else:
            skip = mark
            if skip: self.off += 1
            inner = mark and self.r(0.3)
            self.attrs(mark and not inner, where == "nested")
            name = rng.choice(["tests", "test", next(self.names)])
            self.e("mod " + name + " {\n")
            self.ns.append(name)
            if inner: self.e(rng.choice(["#![cfg(test)]", "#![mutants::skip]", "#![cfg_attr(test, mutants::skip)]"]) + "\n")
            for _ in range(rng.randint(1, 3)): self.item("top", d - 1 if d > 1 else 1)
        self.ns.pop()
        self.e("}\n")
        if skip: self.off -= 1; self.regions.append((a, self.pos()))
    def file(self, n, mark=False):
        if mark: self.off += 1
        a = self.pos()
        if self.r(0.3): self.e("//! docs: a + b\n")
        if mark: self.e(self.rng.choice(["#![cfg(test)]", "#![mutants::skip]", "#![cfg_attr(test, mutants::skip)]", "#![allow(unused)]\n#![cfg(test)]"]) + "\n")
        for _ in range(n):
            self.item()
        if mark: self.off -= 1; self.regions.append((a, self.pos()))
        return self

import collections, json
import e2e
def tree_run(ctx, n, items, skips):
    """One tree of n generated files; (file -> P, file -> [(genre, span, replacement)]) or None after reporting."""
    rng = ctx.rng
    files, ps, lib = {"Cargo.toml": e2e.simple_pkg(), }, {}, ""
    for i in range(n):
        mark = rng.random()
        p = P(rng, skips)
        if mark < 0.08:
            m = rng.choice(MARK[:4]) + "\n" + (rng.choice(NEUTRAL[:8]) + "\n" if rng.random() < 0.5 else "")
            p.off = 1; p.file(items); p.regions.append(((1, 1), p.pos())); p.off = 0
        else:
            m = (rng.choice(NEUTRAL[:8]) + "\n") if rng.random() < 0.3 else ""
            p.file(items, mark=mark < 0.16)
        lib += m + f"mod m{i};\n"
        files[f"src/m{i}.rs"] = p.text(); ps[f"src/m{i}.rs"] = p
    files["src/lib.rs"] = lib
    t = e2e.Tree(ctx, files)
    r = e2e.Run(ctx, t, ["--list", "--json"] + [f"--skip-calls={s}" for s in skips])
    try:
        ms = json.loads(r.stdout)
    except Exception:
        ctx.fail(f"--list --json gave no list: {r.desc()} {r.stdout[-300:]} {r.stderr[-500:] if hasattr(r, 'stderr') else ''}", files=files)
        return None
    finally:
        r.clean()
    got = collections.defaultdict(list)
    for m in ms:
        s = m["span"]
        got[m["file"]].append((m["genre"], ((s["start"]["line"], s["start"]["column"]), (s["end"]["line"], s["end"]["column"])), m["replacement"]))
    return ps, got
def clip(p, span, extra=0):
    ls = p.text().split("\n")
    return "\n".join(ls[max(0, span[0][0] - 1 - extra):span[1][0] + extra])[:600]

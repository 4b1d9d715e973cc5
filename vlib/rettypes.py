"""Random return types with the values to expect, for C25: written from book/src/mutants.md (and the doc comments for T<A>), knows nothing of the code."""
SIGNED, UNSIGNED = ["i8", "i16", "i32", "i64", "i128", "isize"], ["u8", "u16", "u32", "u64", "u128", "usize"]
BOXES, COLLS, MAPS = ["Box", "Cell", "RefCell", "Arc", "Rc", "Mutex"], ["BinaryHeap", "BTreeSet", "HashSet", "LinkedList", "VecDeque"], ["BTreeMap", "HashMap"]
PRE = ["", "", "", "std::x::", "::std::y::", "crate::", "m::<u8>::n::", "self::"]
NZ = ["Size", "8", "16", "32", "64", "128"]
OTHER = ["Foo", "Self", "T", "T::Out", "dyn Fn(bool) -> bool", "fn(u8) -> u8", "*const u8", "(bool)", "tt!(u8)", "Vec", "Option", "Box", "HashMap", "Foo<3>", "Foo<'a>", "Foo<Item = u8>", "boolean", "Bool", "string", "u7", "NonZero",
         "Foo<u8, bool>", "Foo<u8, T, 3>", "HashMap<u8>x", "m::bool", "::bool", "std::u8", "string::String", "::f64", "str::str", "Vec<'a>", "Option<Item = u8>", "Cow<'a>", "HttpResponses", "Optional", "Results", "BTreeMap<u8, bool, S>",
         "Box<u8, bool>", "VecDeque<u8, A>", "<T as X>::Y", "f16", "char", "NonZeroF8", "Nonzerou8", "Box<3>", "Option<3, u8>"]
def S(x): return "".join(x.split())

class G:
    def __init__(self, rng, errs):
        self.rng, self.errs = rng, errs
    def c(self, *a): return self.rng.choice(a)
    def args(self, *ts):
        """Generic arguments around the types: (text, whether there is nothing but them)"""
        pre = self.rng.random() < 0.15
        t = ", ".join((["'a"] if pre else []) + [x for x in ts])
        return f"<{t}>" if self.rng.random() < 0.9 else f"< {t} ,>", not pre
    def ty(self, d):
        """(text of a type, values)"""
        rng = self.rng
        k = rng.random()
        if d <= 0 or k < 0.22: return self.leaf()
        p = rng.choice(PRE)
        if k < 0.30:
            t, v = self.ty(d - 1); a, _ = self.args(t) if rng.random() < 0.6 else self.args(t, self.c("E", "std::io::Error", "u8"))
            return p + self.c("Result", "Result") + a, [f"Ok({x})" for x in v] + [f"Err({e})" for e in self.errs]
        if k < 0.36:
            t, v = self.ty(d - 1); return p + "Option" + self.args(t)[0], ["None"] + [f"Some({x})" for x in v]
        if k < 0.42:
            t, v = self.ty(d - 1); return p + "Vec" + self.args(t)[0], ["vec![]"] + [f"vec![{x}]" for x in v]
        if k < 0.46:
            t, v = self.ty(d - 1); return p + "Cow" + self.args(t)[0], [y for x in v for y in (f"Cow::Borrowed({x})", f"Cow::Owned({x}.to_owned())")]
        if k < 0.52:
            n = rng.choice(BOXES); t, v = self.ty(d - 1); a, only = self.args(t)
            return p + n + a, [f"{n}::new({x})" for x in v] if only else self.guess(n, v)
        if k < 0.58:
            n = rng.choice(COLLS); t, v = self.ty(d - 1); a, only = self.args(t)
            return p + n + a, [f"{n}::new()"] + [f"{n}::from_iter([{x}])" for x in v] if only else self.guess(n, v)
        if k < 0.64:
            n = rng.choice(MAPS); (t, v), (u, w) = self.ty(d - 2), self.ty(d - 2); a, only = self.args(t, u)
            return p + n + a, [f"{n}::new()"] + [f"{n}::from_iter([({x},{y})])" for x in v for y in w] if only else ["Default::default()"]
        if k < 0.70:
            n = self.c("Foo", "Wrapper", "Vec2", "Boxed", "Set", "NonZeroX"); t, v = self.ty(d - 1)
            a = self.c(f"<{t}>", f"<'a, {t}>", f"<{t}, 3>", f"<{t}, Item = u8>", f"<'a, 'b, {t}, 'c'>" if False else f"<'a, 'b, {t}>")
            return p + n + a, self.guess(n, v)
        if k < 0.75:
            t, v = self.ty(d - 1); n = self.c("3", "N", "1 + 2", "{ N }", "usize::MAX"); return f"[{t}; {n}]", [f"[{x};{n}]" for x in v]
        if k < 0.78:
            t, v = self.ty(d - 1); return f"[{t}]", self.leak(v)
        if k < 0.88:
            l, m = self.c("", "'a ", "'static "), rng.random() < 0.4
            j = rng.random()
            if j < 0.25: return f"&{l}{'mut ' if m else ''}str", ["Box::leak(Box::new(\"\"))", "Box::leak(Box::new(\"xyzzy\"))"] if m else ["\"\"", "\"xyzzy\""]
            t, v = self.ty(d - 1)
            if j < 0.5: return f"&{l}{'mut ' if m else ''}[{t}]", self.leak(v)
            if t.startswith("[") and v and v[0].startswith("Vec::leak(Vec::new())"): return f"&{l}{'mut ' if m else ''}{t}", v
            if t == "str" and not m: return f"&{l}str", v
            if t.startswith("impl "): t = f"({t})"; v = ["Default::default()"]
            return f"&{l}{'mut ' if m else ''}{t}", [f"Box::leak(Box::new({x}))" for x in v] if m else [f"&{x}" for x in v]
        if k < 0.94:
            ts = [self.ty(d - 2 if d > 1 else 0) for _ in range(rng.choice([0, 1, 2, 2, 3]))]
            r = [[]]
            for _, v in ts: r = [a + [x] for a in r for x in v]
            return "(" + ", ".join(t for t, _ in ts) + ("," if len(ts) == 1 or (ts and rng.random() < 0.2) else "") + ")", ["(" + ",".join(a) + ")" for a in r]
        t, v = self.ty(d - 1)
        it = ["::std::iter::empty()"] + [f"::std::iter::once({x})" for x in v]
        return self.c((f"impl Iterator<Item = {t}>", it), (f"impl Send + Iterator<Item = {t}>", it), (f"impl 'static + std::iter::Iterator<Item = {t}> + 'static", it), (f"impl IntoIterator<Item = {t}>", []), (f"impl Iterator<Item = {t}, Other = u8>", it),
                      (f"impl Iterator<Other = {t}>", []), ("impl Iterator", []), ("impl Fn(u8) -> bool", []), (f"impl X<Y = {t}> + Iterator<Item = {t}>", it), (f"impl Iterators<Item = {t}>", []), (f"impl Iterator<Items = {t}>", []))
    def guess(self, n, v): return [f"{n}::new()"] + [y for x in v for y in (f"{n}::from_iter([{x}])", f"{n}::new({x})", f"{n}::from({x})")]
    def leak(self, v): return ["Vec::leak(Vec::new())"] + [f"Vec::leak(vec![{x}])" for x in v]
    def leaf(self):
        rng = self.rng
        k = rng.randrange(14)
        if k == 0: return "bool", ["true", "false"]
        if k == 1: return "String", ["String::new()", "\"xyzzy\".into()"]
        if k == 2: return "str", ["\"\"", "\"xyzzy\""]
        if k in (3, 4): return rng.choice(UNSIGNED), ["0", "1"]
        if k in (5, 6): return rng.choice(SIGNED), ["0", "1", "-1"]
        if k == 7: return rng.choice(PRE) + "NonZero" + rng.choice(["I" + x.lower() for x in NZ]), ["1", "-1"]
        if k == 8: return rng.choice(PRE) + "NonZero" + rng.choice(["U" + x.lower() for x in NZ]), ["1"]
        if k == 9: return rng.choice(["f32", "f64"]), ["0.0", "1.0", "-1.0"]
        if k == 10: return rng.choice(PRE) + self.c("Result", "Result", "Result<Item = u8>"), ["Ok(Default::default())"] + [f"Err({e})" for e in self.errs]
        if k == 11: return rng.choice(PRE) + self.c("HttpResponse", "HttpResponse<u8>"), ["HttpResponse::Ok().finish()"]
        if k == 12: return "()", ["()"]
        t = rng.choice(OTHER)
        if t == "HashMap<u8>x": return "HashMap<u8>", self.guess("HashMap", ["0", "1"])
        if t == "Foo<u8, T, 3>" or t == "Foo<u8, bool>": return t, ["Default::default()"]
        if t == "Option<3, u8>": return t, self.guess("Option", ["0", "1"])
        return t, ["Default::default()"]

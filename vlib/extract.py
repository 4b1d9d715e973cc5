"""Mechanical extraction of functions from /repo/src into a Verus file.

A unit (specs/*.vrs) is Verus text with directives; every directive pulls real code from the current tree:
  //%include F            splice specs/F
  //%if C01,C02 .. //%endif   keep only for these properties
  //%type FILE NAME [derive(..)] [drop=f,g] [keep=f,g]    a struct/enum definition
  //%const FILE NAME      a const/static item
  //%fn FILE KEY .. //%end    a function, with its contract
Rewrites applied to code (R1..R10) are listed in RULES; every use is counted and reported as evidence.
"""
import os, re, sys
sys.path.insert(0, os.path.dirname(__file__))
import rustlex as L
from rustlex import Tok, match, text

REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs")

RULES = {
 "R1": "comments, attributes, visibility and #[derive] lists dropped or replaced by what the verifier needs",
 "R2": "tracing/logging macros and tracing spans dropped (their arguments are not evaluated in the verified text)",
 "R3": "contract inserted after the signature; return value named; a function proved by cases is written once per case, the case as a further precondition, with the obligation that the cases cover everything",
 "R4": "loop invariants inserted; a for-loop pattern that is not a plain name becomes a let in the body; a for-loop containing continue, or over mutable references, is written as a loop over its iterator",
 "R5": "closure parameter types and closure contracts inserted (bodies unchanged)",
 "R6": "anyhow macros: error messages dropped (bail/anyhow/ensure become the same control flow with an opaque error); .context(..)/.with_context(..) become a message-free conversion to the opaque error",
 "R7": "named library methods routed to a stand-in carrying the assumed contract (method or path rename, listed per unit)",
 "R8": "format!/write! expanded into the push_str sequence they denote, vec![..] into pushes",
 "R9": "ghost World parameter threaded through effectful calls (erased, no run-time meaning)",
 "R10": "debug_assert!/assert! turned into proof obligations; `let x = loop { break v }` turned into assignment and break",
 "R11": "functions of the same file without a contract of their own inlined at their call (arguments bound first)",
 "R13": "Option::is_some_and/is_none_or/map_or/and_then with a closure written as the match it stands for",
 "R14": "a chain of builder calls on a named variable, each returning the builder, written as one statement per call",
 "R15": "a for-loop over an array literal, without break or continue, written out once per element",
 "R16": "a call that runs its closure once per item (Iterator::for_each; syn's Attribute::parse_nested_meta) written as the loop it stands for; a helper taking a closure inlined together with it",
 "R18": "std::thread::scope's closure written as the block that it runs; the spawned closures stay closures",
 "R17": "quote! written as the stand-in for its tokens' text, one call per token; a closure that is nothing but a quote! gets that text as its contract",
 "R12": "named expression replaced by an opaque stand-in (listed per unit, with the text it stands for)",
}

class Lost(Exception):
    """An anchor of the extraction is gone or not understood: the proof cannot be re-established."""

LOG_MACROS = {"trace", "debug", "info", "warn", "error", "println", "eprintln", "print", "eprint", "trace_span", "debug_span", "info_span", "span"}

def T(k, s, ws=""):
    return Tok(k, s, -1, 0, ws)

def toks_of(s):
    ts = L.lex(s)
    if ts and not ts[0].ws:
        ts[0].ws = " "
    return ts

def find_item(file, key, kinds=None):
    path = os.path.join(REPO, "src", file)
    if not os.path.exists(path):
        raise Lost(f"{file} is gone")
    # "Trait for Self::name" selects a trait impl
    m = re.match(r"(?:<(.+?) as (.+?)>::)?(.+)$", key)
    sty, tr, rest = m.group(1), m.group(2), m.group(3)
    c = []
    for it in L.load(path):
        if kinds and it.kind not in kinds:
            continue
        if sty:
            if it.impl and it.impl["self"] == sty and it.impl["trait"] and re.sub(r"\s", "", it.impl["trait"]) == re.sub(r"\s", "", tr) and it.name == rest:
                c.append(it)
        elif it.key == rest and not (it.impl and it.impl["trait"] and it.kind == "fn"):
            c.append(it)
    if not c and not sty:
        c = [it for it in L.load(path) if (not kinds or it.kind in kinds) and it.key == rest]
    c = [it for it in c if not any(re.search(r"cfg\s*\(\s*(test|windows)", a) for a in it.attrs)]
    if len(c) != 1:
        raise Lost(f"{key} in src/{file}: {len(c)} definitions")
    return c[0]

_src = {}
def sources():
    """Text of every module of the crate (name -> text)."""
    if not _src:
        d = os.path.join(REPO, "src")
        for f in sorted(os.listdir(d)):
            if f.endswith(".rs"): _src[f[:-3]] = open(os.path.join(d, f)).read()
    return _src

def crate_paths(t):
    """crate::module::name -> crate::name, where only one module defines a function of that name (the unit is one flat module)."""
    out, i = [], 0
    while i < len(t):
        if t[i].s == "crate" and i + 4 < len(t) and t[i + 1].s == "::" and t[i + 3].s == "::" and t[i + 2].s in sources() and t[i + 4].k == "id":
            n = t[i + 4].s
            if sum(len(re.findall(r"\b(?:fn|struct|enum|static|const|type)\s+" + re.escape(n) + r"\b", x)) for x in sources().values()) == 1:
                out += [t[i], t[i + 1]]; i += 4
                continue
        out.append(t[i]); i += 1
    return out

# ---------------------------------------------------------------- body rewriting
class Body:
    def __init__(self, unit, item, opts):
        self.unit, self.item, self.o = unit, item, opts
        self.used = set()
        self.flags = []

    def use(self, r):
        self.unit.rules[r] = self.unit.rules.get(r, 0) + 1

    # --- R2: logging
    def drop_logging(self, t):
        out, i = [], 0
        while i < len(t):
            if t[i].s == "let" and i + 2 < len(t) and t[i + 1].k == "id" and re.match(r"_\w*span$|_span$", t[i + 1].s) and t[i + 2].s == "=":
                j = i
                while t[j].s != ";":
                    j = match(t, j) + 1 if t[j].k == "o" else j + 1
                self.use("R2")
                i = j + 1
                continue
            if t[i].k == "id" and t[i].s in LOG_MACROS and i + 2 < len(t) and t[i + 1].s == "!" and t[i + 2].k == "o":
                e = match(t, i + 2)
                self.use("R2")
                if e + 1 < len(t) and t[e + 1].s == ";":
                    # a statement: drop it
                    i = e + 2
                    continue
                out += [T("o", "(", t[i].ws), T("c", ")")]
                i = e + 1
                continue
            out.append(t[i])
            i += 1
        return out

    # --- R6: anyhow
    def anyhow(self, t):
        out, i = [], 0
        while i < len(t):
            s = t[i].s
            if t[i].k == "id" and i + 2 < len(t) and t[i + 1].s == "!" and t[i + 2].k == "o":
                e = match(t, i + 2)
                if s == "bail":
                    out += toks_of("return Err(v_err())")
                    self.use("R6"); i = e + 1; continue
                if s == "anyhow":
                    out += toks_of("v_err()")
                    self.use("R6"); i = e + 1; continue
                if s == "ensure":
                    j, a = i + 3, i + 3
                    while j < e and t[j].s != ",":
                        j = match(t, j) + 1 if t[j].k == "o" else j + 1
                    cond = self.anyhow(t[a:j])
                    out += toks_of("if !(") + cond + toks_of(") { return Err(v_err()); }")
                    self.use("R6"); i = e + 1
                    if i < len(t) and t[i].s == ";":
                        i += 1
                    continue
            if s == "." and i + 2 < len(t) and t[i + 1].s in ("context", "with_context", "map_err") and t[i + 2].s == "(":
                e = match(t, i + 2)
                out += [T("p", ".", t[i].ws), T("id", "v_ctx"), T("o", "("), T("c", ")")]
                self.use("R6"); i = e + 1; continue
            out.append(t[i])
            i += 1
        return out

    # --- R8: format!
    def fmt(self, t):
        out, i = [], 0
        while i < len(t):
            if t[i].k == "id" and t[i].s in ("format", "formatdoc", "writeln", "write") and i + 2 < len(t) and t[i + 1].s == "!" and t[i + 2].k == "o":
                e = match(t, i + 2)
                args = split_args(t[i + 3:e])
                if t[i].s in ("writeln", "write"):
                    dst = args.pop(0)
                    ex = self.fmt_expand(args, t[i].s == "writeln")
                    out += ([T("o", "(")] + dst + [T("c", ")")] if len(dst) > 1 and dst[0].s in ("&", "*") else dst) + toks_of(".v_write(&") + ex + [T("c", ")")]
                else:
                    out += self.fmt_expand(args, False)
                self.use("R8")
                i = e + 1
                continue
            if t[i].k == "id" and t[i].s == "vec" and i + 2 < len(t) and t[i + 1].s == "!" and t[i + 2].k == "o":
                e = match(t, i + 2)
                inner = t[i + 3:e]
                if not any(x.s == ";" for x in inner):
                    self.nvec = getattr(self, "nvec", 0) + 1
                    v = f"__v{self.nvec}"
                    out += toks_of("{ let mut " + v + " = Vec::new();")
                    for a in split_args(inner):
                        if a:
                            out += toks_of(v + ".push(") + self.fmt(a) + toks_of(");")
                    out += toks_of(v + " }")
                    self.use("R8")
                    i = e + 1
                    continue
            out.append(t[i])
            i += 1
        return out

    def fmt_expand(self, args, nl):
        lit = args[0]
        if len(lit) != 1 or lit[0].k != "str" or not lit[0].s.startswith('"'):
            raise Lost("format string is not a literal")
        body = lit[0].s[1:-1]
        pos, named = [], {}
        for a in args[1:]:
            if len(a) > 2 and a[0].k == "id" and a[1].s == "=":
                named[a[0].s] = a[2:]
            elif a:
                pos.append(a)
        parts, n = [], 0
        for m in re.finditer(r"\{\{|\}\}|\{([^{}]*)\}|((?:[^{}])+)", body):
            if m.group(0) == "{{": parts.append(("l", "{"))
            elif m.group(0) == "}}": parts.append(("l", "}"))
            elif m.group(2) is not None: parts.append(("l", m.group(2)))
            else:
                name, _, spec = m.group(1).partition(":")
                if name == "": a = pos[n]; n += 1
                elif name.isdigit(): a = pos[int(name)]
                elif name in named: a = named[name]
                else: a = toks_of(name)
                fn = {"": "v_disp", "?": "v_dbg", "03": "v_disp03", "8": "v_disp8", ".1": "v_disp_1"}.get(spec.strip())
                if fn is None:
                    raise Lost(f"format spec {spec!r}")
                parts.append(("a", fn, a))
        if nl:
            parts.append(("l", "\\n"))
        out = toks_of("{ let mut __f = String::new();")
        for p in parts:
            if p[0] == "l":
                out += toks_of(f'__f.push_str("{p[1]}");')
            else:
                a = p[2]
                out += toks_of(f"__f.push_str(&{p[1]}(&(") + a + toks_of(")));")
        return out + toks_of("__f }")

    # --- R10
    def asserts(self, t):
        out, i = [], 0
        while i < len(t):
            if t[i].k == "id" and t[i].s in ("debug_assert", "assert", "debug_assert_eq", "assert_eq") and i + 2 < len(t) and t[i + 1].s == "!" and t[i + 2].k == "o":
                e = match(t, i + 2)
                args = split_args(t[i + 3:e])
                if self.o.get("asserts") == "drop":
                    i = e + 1
                    if i < len(t) and t[i].s == ";": i += 1
                    continue
                if t[i].s.endswith("_eq") and self.o.get("asserts") == "veq":
                    out += toks_of("v_assert_eq(") + args[0] + toks_of(",") + args[1] + [T("c", ")")]
                elif t[i].s.endswith("_eq"):
                    out += toks_of("v_assert((") + args[0] + toks_of(") == (") + args[1] + toks_of("))")
                else:
                    out += toks_of("v_assert(") + args[0] + [T("c", ")")]
                self.use("R10")
                i = e + 1
                continue
            out.append(t[i])
            i += 1
        return out

    def break_values(self, t):
        i = 0
        while i < len(t):
            if t[i].s == "let" and i + 4 < len(t):
                j = i + 1
                while j < len(t) and t[j].s not in ("=", ";", "{"):
                    j = match(t, j) + 1 if t[j].k == "o" else j + 1
                if j + 2 < len(t) and t[j].s == "=" and t[j + 1].s == "loop" and t[j + 2].s == "{":
                    name = [x for x in t[i + 1:j] if x.k == "id" and x.s != "mut"][0].s
                    e = match(t, j + 2)
                    body, k, out = t[j + 3:e], 0, []
                    while k < len(body):
                        if body[k].s == "break" and k + 1 < len(body) and body[k + 1].s not in (";", "}"):
                            m = k + 1
                            while body[m].s not in (";", "}"):
                                m = match(body, m) + 1 if body[m].k == "o" else m + 1
                            out += toks_of(f"{{ {name} = ") + body[k + 1:m] + toks_of("; break; }")
                            k = m + (1 if body[m].s == ";" else 0)
                            continue
                        out.append(body[k]); k += 1
                    semi = 1 if e + 1 < len(t) and t[e + 1].s == ";" else 0
                    t = t[:j] + [T("p", ";")] + [T("id", "loop", " "), T("o", "{", " ")] + out + [t[e]] + t[e + 1 + semi:]
                    self.use("R10")
            i += 1
        return t

    # --- R7: renames of methods / paths, ghost args (R9)
    def renames(self, t):
        mm = self.unit.methods | self.o.get("methods", {})
        gg = self.unit.ghost | self.o.get("ghost", set())
        pp = self.unit.paths | self.o.get("paths", {})
        t = crate_paths(t)
        for src, dst in pp.items():
            st = [x.s for x in L.lex(src)]
            i, out = 0, []
            while i < len(t):
                if [x.s for x in t[i:i + len(st)]] == st and (i == 0 or t[i - 1].s not in (".", "::") or st[0] in (".", "::")):
                    d = L.lex(dst)
                    if d: d[0].ws = t[i].ws
                    out += d
                    i += len(st)
                    self.use("R7")
                else:
                    out.append(t[i]); i += 1
            t = out
        i = -1
        while i + 1 < len(t) - 1:
            i += 1
            if t[i].s == "." and t[i + 1].s == "collect" and "collect" in mm and [x.s for x in t[i + 2:i + 5]] == ["::", "<", "Vec"]:
                j = L.skip_angle(t, i + 3)    # collect::<Vec<_>>: the stand-in always makes a Vec
                t = t[:i + 2] + t[j:]
            if t[i].s == "." and t[i + 1].k == "id" and t[i + 1].s in mm:
                # a call, possibly with turbofish
                j = i + 2
                if j < len(t) and t[j].s == "::":
                    j = L.skip_angle(t, j + 1)
                if j < len(t) and t[j].s == "(":
                    t[i + 1] = T("id", mm[t[i + 1].s], t[i + 1].ws)
                    self.use("R7")
        i = 0
        while i < len(t):
            if t[i].k == "id" and i + 1 < len(t) and t[i + 1].s == "(" and t[i].s in gg and (i == 0 or t[i - 1].s != "fn"):
                e = match(t, i + 1)
                ins = toks_of("Tracked(w)")
                if e > i + 2 and t[e - 1].s != ",":
                    ins = [T("p", ",")] + ins
                t = t[:e] + ins + t[e:]
                self.use("R9")
            i += 1
        return t

    # --- R12
    def opaque(self, t):
        for pat, dst, n in self.o.get("opaque", []):
            st = [x.s for x in L.lex(pat)]
            out, i, hits = [], 0, 0
            while i < len(t):
                m = seqmatch(t, i, st)
                if m:
                    d = L.lex(dst)
                    if d: d[0].ws = " "
                    self.unit.opaqued.append((self.item.key, text(t[i:m])))
                    out += d
                    i = m; hits += 1
                    self.use("R12")
                else:
                    out.append(t[i]); i += 1
            if n is not None and hits != n:
                raise Lost(f"{self.item.key}: expression `{pat}` found {hits} times, not {n}")
            t = out
        return t

    # --- R13
    def optmatch(self, t):
        if not self.o.get("optmatch"):
            return t
        i = 0
        while i < len(t) - 2:
            if t[i].s == "." and t[i + 1].s in ("is_some_and", "is_none_or", "map_or", *(["and_then"] if "and_then" in str(self.o["optmatch"]) else [])) and t[i + 2].s == "(":
                e = match(t, i + 2)
                args = split_args(t[i + 3:e])
                clo = args[-1]
                if clo and clo[0].s == "|" and clo[2].s == "|" and clo[1].k == "id" and len(args) == (2 if t[i + 1].s == "map_or" else 1):
                    dflt = args[0] if len(args) == 2 else toks_of({"is_some_and": "false", "and_then": "None"}.get(t[i + 1].s, "true"))
                    j = i
                    while True:
                        k = j - 1
                        while t[k].k == "c" or t[k].s == "?":
                            if t[k].s == "?":
                                k -= 1; continue
                            d = 0
                            while True:
                                if t[k].k == "c": d += 1
                                if t[k].k == "o": d -= 1
                                if d == 0: break
                                k -= 1
                            if t[k - 1].k == "id" or t[k - 1].k == "c" or t[k - 1].s == "?": k -= 1
                            else: break
                        j = k
                        if t[j - 1].s in (".", "::"):
                            j -= 1
                            continue
                        break
                    new = toks_of("(match ") + t[j:i] + toks_of("{ Some(") + [clo[1]] + toks_of(") => { ") + clo[3:] + toks_of("} , None => {") + dflt + toks_of("} })")
                    t = t[:j] + new + t[e + 1:]
                    self.use("R13")
                    i = j
            i += 1
        return t

    # --- R14
    def chains(self, t):
        names = self.o.get("chain")
        if not names:
            return t
        names = names.split()
        i = 0
        while i < len(t) - 1:
            if t[i].s in names and (i == 0 or t[i - 1].s in (";", "{", "}")) and t[i + 1].s == ".":
                calls, j = [], i + 1
                while t[j].s == "." and t[j + 1].k == "id" and t[j + 2].s == "(":
                    e = match(t, j + 2)
                    calls.append(t[j:e + 1]); j = e + 1
                if t[j].s == ";" and len(calls) > 1:
                    new = []
                    for c in calls:
                        new += [T("id", t[i].s, " ")] + c + [T("p", ";")]
                    t = t[:i] + new + t[j + 1:]
                    self.use("R14")
                    i += len(new) - 1
            i += 1
        return t

    # --- R16
    def each(self, t):
        i = 0
        while i < len(t) - 3:
            if t[i].s == "." and t[i + 1].s in ("for_each", "parse_nested_meta") and t[i + 2].s == "(" and t[i + 3].s == "|":
                e = match(t, i + 2)
                k = i + 4
                while t[k].s != "|":
                    k = match(t, k) + 1 if t[k].k == "o" else k + 1
                pat, body = t[i + 4:k], t[k + 1:e]
                if body and body[-1].s == ",": body = body[:-1]
                # the start of the statement
                j, d = i - 1, 0
                while j >= 0:
                    if t[j].k == "c":
                        if d == 0 and t[j].s == "}" and (j + 1 < len(t) and t[j + 1].s not in (".", "?", ")")): break
                        d += 1
                    elif t[j].k == "o":
                        if d == 0: break
                        d -= 1
                    elif d == 0 and t[j].s == ";": break
                    j -= 1
                recv = t[j + 1:i]
                if t[i + 1].s == "for_each":
                    if any(x.s == "return" for x in body): raise Lost("return in a for_each closure")
                    semi = 1 if e + 1 < len(t) and t[e + 1].s == ";" else 0
                    new = [T("id", "for", " ")] + pat_ws(pat) + [T("id", "in", " ")] + recv + [T("o", "{", " ")] + body + [T("p", ";"), T("c", "}", " ")]
                    t = t[:j + 1] + new + t[e + 1 + semi:]
                else:
                    if [x.s for x in recv[:3]] != ["if", "let", "Err"] or len(pat) != 1: raise Lost("parse_nested_meta used in another way")
                    q = next(x for x, y in enumerate(recv) if y.s == "=")
                    if any(x.s in ("return", "?") for x in body): raise Lost("return in a parse_nested_meta closure")
                    new = toks_of("let mut nested = v_nested(") + recv[q + 1:] + toks_of("); let mut nested_r: Result<()> = Ok(()); loop { let " + pat[0].s + " = match nested.v_next_meta() { Ok(Some(m)) => m, Ok(None) => { break; } Err(e) => { nested_r = Err(e); break; } }; let each: Result<()> = ") + body + toks_of("; if each.is_err() { nested_r = each; break; } }") + recv[:q + 1] + toks_of("nested_r")
                    t = t[:j + 1] + new + t[e + 1:]
                self.use("R16")
            # R18
            if [x.s for x in t[i:i + 5]] == ["thread", "::", "scope", "(", "|"] or [x.s for x in t[i:i + 6]] == ["std", "::", "thread", "::", "scope", "("]:
                p = i + 3 if t[i].s == "thread" else i + 5
                e = match(t, p)
                q = p + 1
                if t[q].s == "move": q += 1
                k = q + 1
                while t[k].s != "|": k += 1
                name, b, ty = t[q + 1].s, k + 1, None
                if t[b].s == "->":
                    c = b
                    while t[b].s != "{": b += 1
                    ty = t[c + 1:b]
                body = t[b:e]
                self.no_exit(body)
                new = toks_of("{ let " + name + " = v_scope(); let v_scope_r" ) + ([T("p", ":")] + ty if ty else []) + toks_of(" =") + ([T("o", "{", " ")] + body + [T("c", "}")] if t[b].s != "{" else body) + toks_of("; v_scope_r }")
                t = t[:i] + new + t[e + 1:]
                self.use("R18")
            i += 1
        return t

    def no_exit(self, body):
        """no way out of the body but its end: a ? or return outside nested closures would leave the enclosing closure"""
        i = 0
        while i < len(body):
            if body[i].s in ("|", "||") and body[i].k == "p" and i and body[i - 1].s in ("(", ",", "=", "move"):
                if body[i].s == "|":
                    i += 1
                    while body[i].s != "|": i = match(body, i) + 1 if body[i].k == "o" else i + 1
                i += 1
                while body[i].s not in (",", ")", ";", "}"): i = match(body, i) + 1 if body[i].k == "o" else i + 1
                continue
            if body[i].s in ("?", "return"): raise Lost(f"{self.item.key}: {body[i].s} in a thread::scope closure")
            i += 1

    # --- R17
    def quotes(self, t):
        out, i = [], 0
        while i < len(t):
            if t[i].s == "quote" and i + 2 < len(t) and t[i + 1].s == "!" and t[i + 2].k == "o":
                e = match(t, i + 2)
                inner = t[i + 3:e]
                if self.unit.quoting:
                    out += toks_of(quote_calls(inner))
                    self.use("R17")
                    i = e + 1
                    continue
                s = "".join((x.ws if n else "") + x.s for n, x in enumerate(inner))
                if len(inner) <= 1 or not re.search(r"[\w\s#\"]", s):
                    out += toks_of(f'v_quote("{s}")')
                    self.use("R17")
                    i = e + 1
                    continue
            out.append(t[i]); i += 1
        return out

    # --- R15
    def unroll(self, t):
        i = 0
        while i < len(t) - 4:
            if t[i].s == "for" and t[i + 1].k == "id" and t[i + 2].s == "in" and t[i + 3].s == "[":
                e = match(t, i + 3)
                if t[e + 1].s == "{" and not any(x.s == ";" for x in t[i + 4:e]):
                    z = match(t, e + 1)
                    body = t[e + 2:z]
                    if not any(x.s in ("break", "continue") for x in body):
                        new = []
                        for a in split_args(t[i + 4:e]):
                            new += toks_of("{ let " + t[i + 1].s + " = ") + a + [T("p", ";")] + body + toks_of("}")
                        t = t[:i] + new + t[z + 1:]
                        self.use("R15")
            i += 1
        return t

    # --- R4
    def loops(self, t):
        specs = self.o.get("loop", {})
        out, i, n = [], 0, 0
        stack = []   # (close index in t, after-text)
        t = list(t)
        i = 0
        res = []
        pend = {}
        while i < len(t):
            if i in pend:
                res += pend[i]
            s = t[i].s
            if t[i].k == "id" and s in ("for", "while", "loop") and not (s == "for" and i + 1 < len(t) and t[i + 1].s == "<") and not (i and t[i - 1].s == "."):
                j = i + 1
                while t[j].s != "{":
                    j = match(t, j) + 1 if t[j].k == "o" else j + 1
                e = match(t, j)
                sp = specs.get(n, {})
                if n not in specs and not self.o.get("loops_free"):
                    self.flags.append(f"loop {n} of {self.item.key} has no invariant")
                inv = toks_of("\n" + sp["inv"] + "\n") if sp.get("inv") else []
                start = toks_of(" " + sp["start"] + "\n") if sp.get("start") else []
                if sp.get("end"):
                    pend.setdefault(e, []).extend(toks_of("\n" + sp["end"] + "\n"))
                if sp.get("after"):
                    pend.setdefault(e + 1, []).extend(toks_of("\n" + sp["after"] + "\n"))
                if sp.get("before"):
                    # labels ('x: for) stay attached to the loop
                    if len(res) >= 2 and res[-1].s == ":" and res[-2].k == "life":
                        lab = res[-2:]; del res[-2:]
                        res += toks_of("\n" + sp["before"] + "\n") + lab
                    else:
                        res += toks_of("\n" + sp["before"] + "\n")
                if s == "for":
                    k = i + 1
                    d = 0
                    while not (t[k].s == "in" and d == 0):
                        if t[k].k == "o": d += 1
                        if t[k].k == "c": d -= 1
                        k += 1
                    pat, expr = t[i + 1:k], t[k + 1:j]
                    it = sp.get("it", f"__it{n}")
                    pre = []
                    if len(pat) == 1 and pat[0].k == "id":
                        name = pat[0].s if pat[0].s != "_" else f"__x{n}"
                    else:
                        name = f"__x{n}"
                        pre = let_pat(pat, name)
                        self.use("R4")
                    if any(x.s == "continue" for x in t[j:e]) or "vfor" in sp:
                        # the verifier's for-loops do not support continue: write the loop as what it stands for
                        dd = next((x for x, q in enumerate(expr) if q.s == "..="), None)
                        src = toks_of("v_incl(") + expr[:dd] + [T("p", ",")] + expr[dd + 1:] + toks_of(")") if dd is not None else toks_of("v_for(") + expr + toks_of(")")
                        lab, bef = [], []
                        if sp.get("before"):
                            bt = toks_of("\n" + sp["before"] + "\n")
                            k2 = len(res)
                            while res[k2 - len(bt):k2] and [x.s for x in res[k2 - len(bt):k2]] != [x.s for x in bt]:
                                k2 -= 1
                            bef = res[k2 - len(bt):k2]; lab0 = res[k2:]; del res[k2 - len(bt):]; res += lab0
                        if len(res) >= 2 and res[-1].s == ":" and res[-2].k == "life":
                            lab = res[-2:]; del res[-2:]
                        nxt = toks_of("let " + name + " = match " + it + ".v_next() { Some(__n) => __n, None => break };")
                        res += toks_of("let mut " + it + " = ") + src + [T("p", ";")] + bef + lab + [T("id", "loop", " ")] + inv + [T("o", "{", " ")] + nxt + pre + start
                        i = j + 1
                        self.use("R4"); n += 1
                        continue
                    res += [t[i], T("id", name, " "), T("id", "in", " "), T("id", it, " "), T("p", ":")] + expr + inv + [T("o", "{", " ")] + pre + start
                    i = j + 1
                else:
                    res += t[i:j] + inv + [T("o", "{", " ")] + start
                    i = j + 1
                self.use("R4")
                n += 1
                continue
            res.append(t[i])
            i += 1
        if i in pend:
            res += pend[i]
        for k in specs:
            if k >= n:
                raise Lost(f"{self.item.key}: loop {k} not found")
        self.nloops = n
        return res

    # --- R5
    def closures(self, t):
        specs = self.o.get("closure", {})
        res, i, n = [], 0, 0
        ends = {}
        while i < len(t):
            if i in ends:
                res += ends.pop(i)
            prev = t[i - 1].s if i else "{"
            is_start = t[i].s in ("|", "||") and t[i].k == "p" and (prev in ("(", ",", "=", "{", ";", "=>", "return", "move", "&&", "(") and not (prev == "=>" and False))
            if is_start and t[i].s == "|" and prev in ("{", ";", "=>", ","):
                # could be a leading or-pattern: require a closing | before any => / =
                k = i + 1
                ok = False
                while k < len(t) and t[k].s not in ("=>", ";", "{"):
                    if t[k].s == "|": ok = True; break
                    k = match(t, k) + 1 if t[k].k == "o" else k + 1
                is_start = ok and prev != "=>" or (ok and prev == "=>")
            if is_start:
                if t[i].s == "||":
                    params, b = [], i + 1
                else:
                    k = i + 1
                    while t[k].s != "|":
                        k = match(t, k) + 1 if t[k].k == "o" else k + 1
                    params, b = split_args(t[i + 1:k], True), k + 1
                sp = specs.get(n)
                if t[b].s == "->":
                    k = b
                    while t[k].s != "{": k += 1
                    rty, b = text(t[b + 1:k]), k
                else:
                    rty = None
                if t[b].s == "{":
                    e = match(t, b) + 1
                else:
                    e = b
                    while e < len(t) and t[e].s not in (",", ")", ";", "}"):
                        e = match(t, e) + 1 if t[e].k == "o" else e + 1
                auto = None
                if sp is None or self.unit.quoting:
                    auto = quote_contract(t[b:e], params) if self.unit.quoting else None
                    if auto:
                        pre, rt, ens = auto
                        res += toks_of(f"|{pre}| -> (o: {rt}) ensures {ens}") + [T("o", "{", " ")]
                        for a, p in enumerate(params):
                            if not (len(p) == 1 and p[0].k == "id"):
                                res += let_pat(p, f"__q_{a}")
                        ends.setdefault(e, []).insert(0, T("c", "}", " "))
                        self.use("R5")
                        i = b
                        continue
                if sp is None:
                    if not self.o.get("closures_free"):
                        self.flags.append(f"closure {n} of {self.item.key} has no contract")
                    n += 1
                    res.append(t[i])
                    i += 1
                    # skip the parameter list so that its second | is not taken for a closure
                    while i < b:
                        if i in ends: res += ends.pop(i)
                        res.append(t[i]); i += 1
                    continue
                names, lets = [], []
                for a, p in enumerate(params):
                    ty = None
                    c = next((x for x, q in enumerate(p) if q.s == ":"), None)
                    if c is not None:
                        p = p[:c]
                    if len(p) == 1 and p[0].k == "id" and p[0].s != "_":
                        names.append(p[0].s)
                    else:
                        names.append(f"__c{n}_{a}")
                        lets += let_pat(p, f"__c{n}_{a}")
                hdr = sp
                for a, nm in enumerate(names):
                    hdr = hdr.replace(f"${a}", nm)
                if f"${len(names)}" in hdr:
                    raise Lost(f"{self.item.key}: closure {n} has {len(names)} parameters")
                res += toks_of(hdr) + [T("o", "{", " ")] + lets
                ends.setdefault(e, []).insert(0, T("c", "}", " "))
                self.use("R5")
                n += 1
                i = b
                continue
            res.append(t[i])
            i += 1
        if i in ends:
            res += ends.pop(i)
        for k in specs:
            if k >= n:
                raise Lost(f"{self.item.key}: closure {k} not found")
        return res

def quote_calls(inner, spec=False):
    """quote!'s tokens as calls building the token sequence (spec: as the sequence itself)."""
    s, i = ("t0()" if spec else "v_q0()"), 0
    esc = lambda x: '"' + x.replace("\\", "\\\\").replace('"', '\\"') + '"'
    while i < len(inner):
        if inner[i].s == "#" and i + 1 < len(inner) and inner[i + 1].k == "id":
            x = inner[i + 1].s
            s = f"cat({s}, ({x}).toks())" if spec else s + f".v_i(&{x})"
            i += 2
        elif inner[i].s == "#" and i + 1 < len(inner) and inner[i + 1].s == "(":
            e = match(inner, i + 1)
            rep = inner[i + 2:e]
            if len(rep) != 2 or rep[0].s != "#" or e + 2 >= len(inner) or inner[e + 2].s != "*": raise Lost("quote! repetition in another form")
            s = f"cat({s}, seps(({rep[1].s}).all_toks(), {esc(inner[e + 1].s)}@))" if spec else s + f".v_sep(&{rep[1].s}, {esc(inner[e + 1].s)})"
            i = e + 3
        else:
            s = f"cat({s}, tk({esc(inner[i].s)}@))" if spec else s + f".v_t({esc(inner[i].s)})"
            i += 1
    return s

def spec_quotes(ln):
    """Q!{ .. } in a specification line: the token sequence quote!{ .. } stands for."""
    t, out, i = L.lex(ln), [], 0
    while i < len(t):
        if t[i].s == "Q" and i + 2 < len(t) and t[i + 1].s == "!" and t[i + 2].s == "{":
            e = match(t, i + 2)
            out += toks_of("(" + quote_calls(t[i + 3:e], True) + ")")
            i = e + 1
        else:
            out.append(t[i]); i += 1
    return text(out)

def quote_spec(t):
    """The value of an expression made by quote_calls, in the specification's terms; None if it is something else."""
    if [x.s for x in t[:3]] != ["v_q0", "(", ")"]:
        return None
    s, i = "t0()", 3
    while i < len(t):
        if t[i].s != "." or i + 2 >= len(t) or t[i + 1].s not in ("v_t", "v_i", "v_sep"):
            return None
        e = match(t, i + 2)
        a = split_args(t[i + 3:e])
        if t[i + 1].s == "v_t": s = f"cat({s}, tk({a[0][0].s}@))"
        elif t[i + 1].s == "v_i": s = f"cat({s}, ({a[0][1].s}).toks())"
        else: s = f"cat({s}, seps(({a[0][1].s}).all_toks(), {a[1][0].s}@))"
        i = e + 1
    return s

def quote_contract(body, params):
    """The contract of a closure whose body is a quote!, or an array of them."""
    if body and body[0].s == "{" and match(body, 0) == len(body) - 1:
        body = body[1:-1]
    if not body:
        return None
    if body[0].s == "[" and match(body, 0) == len(body) - 1:
        qs = [quote_spec(a) for a in split_args(body[1:-1]) if a]
        rt, ens = f"[TokenStream; {len(qs)}]", " && ".join(f"o@[{n}]@ == {q}" for n, q in enumerate(qs))
    else:
        qs = [quote_spec(body)]
        rt, ens = "TokenStream", f"o@ == {qs[0]}"
    if not qs or None in qs:
        return None
    pre = []
    for a, p in enumerate(params):
        if len(p) == 1 and p[0].k == "id":
            pre.append(p[0].s)
        else:
            pre.append(f"__q_{a}")
            ens = f"({{ let {text(p)} = __q_{a}; {ens} }})"
    return ", ".join(pre), rt, ens

def seqmatch(t, i, st):
    """Match a token-string pattern; '...' matches any tokens up to the next pattern token (bracket aware)."""
    j = 0
    while j < len(st):
        if st[j] == "...":
            nxt = st[j + 1] if j + 1 < len(st) else None
            while i < len(t) and t[i].s != nxt:
                if t[i].k == "c":
                    return None
                i = match(t, i) + 1 if t[i].k == "o" else i + 1
            j += 1
            continue
        if i >= len(t) or t[i].s != st[j]:
            return None
        i += 1; j += 1
    return i

def split_args(t, types=False):
    out, cur, i, d = [], [], 0, 0
    while i < len(t):
        if t[i].k == "o":
            e = match(t, i)
            cur += t[i:e + 1]; i = e + 1
            continue
        if t[i].s == "<" and i and (types or t[i - 1].s == "::"):
            e = L.skip_angle(t, i)
            cur += t[i:e]; i = e
            continue
        if t[i].s == "|" and not cur:
            e = i + 1
            while t[e].s != "|":
                e = match(t, e) + 1 if t[e].k == "o" else e + 1
            cur += t[i:e + 1]; i = e + 1
            continue
        if t[i].s == ",":
            out.append(cur); cur = []
        else:
            cur.append(t[i])
        i += 1
    if cur:
        out.append(cur)
    return out

def pat_ws(p):
    return [T(x.k, x.s, " ") for x in p]

def let_pat(p, name):
    """let PAT = name;  with reference patterns turned into dereferences."""
    if p and p[0].s == "&":
        q = p[1:]
        if q and q[0].s == "mut": q = q[1:]
        return toks_of("let ") + q + toks_of(f"= *{name};")
    if len(p) == 1 and p[0].s == "_":
        return []
    if p and p[0].s == "(" and any(x.s == "&" for x in p):
        inner = split_args(p[1:-1])
        out = []
        for a, q in enumerate(inner):
            if q and q[0].s == "&":
                out += toks_of("let ") + q[1:] + toks_of(f"= *{name}.{a};")
            elif q and q[0].s != "_":
                out += toks_of("let ") + q + toks_of(f"= {name}.{a};")
        return out
    return toks_of("let ") + p + toks_of(f"= {name};")

# ---------------------------------------------------------------- signatures
def split_fn(item):
    t = L.strip_attrs(item.toks)
    i = next(x for x, k in enumerate(t) if k.s == "fn")
    name = t[i + 1].s
    j = i + 2
    gen = []
    if t[j].s == "<":
        e = L.skip_angle(t, j)
        gen, j = t[j:e], e
    e = match(t, j)
    params = split_args(t[j + 1:e], True)
    k = e + 1
    ret, where = [], []
    while t[k].s not in ("{", "where", ";"):
        ret.append(t[k])
        if t[k].k == "o":
            m = match(t, k); ret += t[k + 1:m + 1]; k = m
        k += 1
    if t[k].s == "where":
        m = k
        while t[m].s != "{": m += 1
        where, k = t[k:m], m
    if ret and ret[0].s == "->":
        ret = ret[1:]
    return dict(name=name, gen=gen, params=params, ret=ret, where=where, body=t[k + 1:match(t, k)], unsafe=any(x.s == "unsafe" for x in t[:i]))

class Unit:
    def __init__(self, name, prop, vacuity=False, ext=False):
        self.ext, self.extra = ext, []
        self.quoting = False
        self.name, self.prop, self.vacuity = name, prop, vacuity
        self.rules, self.flags, self.fns, self.methods, self.ghost, self.paths = {}, [], [], {}, set(), {}
        self.types, self.provided, self.opaqued, self.inlined = [], set(), [], []
        self.shims = {}
        self.expected = set()
        self.trust = None
        self.assumed = []
        self.spans = []   # (first line, last line, fn key, file, source line)
        self.out = []
        self.wantfns = []

    def emit(self, s):
        self.out.extend(s.split("\n"))

    def read(self, f):
        lines, keep = [], [True]
        for ln in open(os.path.join(SPECS, f)):
            ln = ln.rstrip("\n")
            m = re.match(r"\s*//%if\s+(.*)", ln)
            if m:
                keep.append(keep[-1] and self.prop in re.split(r"[,\s]+", m.group(1).strip()))
                continue
            if re.match(r"\s*//%endif", ln):
                keep.pop(); continue
            if not keep[-1]:
                continue
            m = re.search(r"//%\[([A-Z0-9, ]+)\]\s*$", ln)
            if m:
                if self.prop not in re.split(r"[,\s]+", m.group(1).strip()):
                    continue
                ln = ln[:m.start()]
            m = re.match(r"\s*//%include\s+(\S+)", ln)
            if m:
                lines += self.read(m.group(1))
            else:
                lines.append(ln)
        return lines

    def run(self):
        lines = self.read(self.name + ".vrs")
        if any(ln.startswith("//%quote") for ln in lines):
            lines = [spec_quotes(ln) if "Q!{" in ln and not ln.startswith("//") else ln for ln in lines]
        for ln in lines:
            m = re.match(r"//%fn\s+(\S+)\s+(.+)", ln)
            if m:
                self.provided.add(m.group(2).strip())
                self.wantfns.append(m.group(2).strip())
            for m in re.finditer(r"\bfn\s+(\w+)", ln):
                if not ln.startswith("//%"):
                    self.provided.add("~" + m.group(1))
        self.lines, self.fntexts = lines, []
        for ln in lines:
            m = re.match(r"//%fn\s+(\S+)\s+(.+)", ln)
            if m:
                try: self.fntexts.append((m.group(2).strip(), text(find_item(m.group(1), m.group(2).strip(), ("fn",)).toks)))
                except Exception: pass
        i = 0
        while i < len(lines):
            ln = lines[i]
            m = re.match(r"//%(\w+)\s*(.*)", ln)
            if not m:
                self.out.append(ln)
                i += 1
                continue
            d, arg = m.group(1), m.group(2).strip()
            if d == "methods":
                self.methods.update(dict(x.split("=") for x in arg.split()))
            elif d == "paths":
                a, b = arg.split("=>"); self.paths[a.strip()] = b.strip()
            elif d == "quote":
                self.quoting = True
            elif d == "trust":
                self.trust = arg if arg not in ("off", "") else None
            elif d == "ghost":
                self.ghost |= set(arg.split())
            elif d == "inline":
                self.expected |= set(arg.split())
            elif d == "shim":
                a, b = arg.split("=>"); self.shims[a.strip()] = b.strip()
            elif d == "type":
                self.type(arg)
            elif d == "const":
                f, n = arg.split()[:2]
                it = find_item(f, n, ("const", "static"))
                t = L.strip_attrs(it.toks)
                s = text(t)
                s = re.sub(r"^(pub(\([a-z]+\))?\s+)?(static|const)", "pub const", s)
                ty, eq, rest = s.partition("=")
                s = re.sub(r"&\s*(str|\[)", r"&'static \1", ty) + eq + rest
                if "=>" in arg:     # const with a contract: //%const FILE NAME ensures ...  (calls routed to stand-ins)
                    m = re.match(r"(.*?)=(.*);\s*$", s, re.S)
                    v = m.group(2)
                    for a2, b2 in self.paths.items():
                        v = v.replace(a2, b2)
                    s = m.group(1).replace("pub const", "pub exec const") + " ensures " + arg.split("=>", 1)[1] + " {" + v + " }"
                self.emit(s)
                self.rules["R1"] = self.rules.get("R1", 0) + 1
            elif d == "fn":
                j = i + 1
                blk = []
                while not lines[j].startswith("//%end"):
                    blk.append(lines[j]); j += 1
                self.fn(arg, blk)
                i = j
            else:
                raise Exception(f"directive {d} in {self.name}")
            i += 1
        return "\n".join(self.out) + "\n"

    def shimtext(self, s):
        for a, b in self.shims.items():
            s = re.sub(r"(?<![\w:])" + re.escape(a) + r"(?!\w)", lambda m: b, s)
        return s

    def wanted(self, f):
        """A field outside the kept ones, of a plain type, that an extracted function names: kept too, as any value."""
        if not self.ext: return False
        ty = text(f[2:]).strip()
        e = None
        if not re.fullmatch(r"bool|u8|u16|u32|u64|usize|i32|i64|String|Vec\s*<\s*String\s*>|Option\s*<\s*(bool|usize|u64|String)\s*>", ty):
            if not re.fullmatch(r"[A-Z]\w*", ty): return False
            e = ty
        pat = re.compile(r"\.\s*" + re.escape(f[0].s) + r"\b(?!\s*\()")
        if not any(pat.search(x) for _, x in self.fntexts): return False
        if e and not any(re.search(r"(//%type \S+ |\b(enum|struct|type) )" + e + r"\b", x) for x in self.lines):
            # an enum without data is brought along
            for m, x in sources().items():
                d = re.search(r"\benum\s+" + e + r"\s*\{([^{}()=]*)\}", x)
                if d:
                    self.extra.append(f[0].s)
                    self.emit("#[derive(PartialEq, Eq, Structural, Clone, Copy)]\npub enum " + e + " {" + re.sub(r"#\[[^\]]*\]|//[^\n]*", "", d.group(1)) + "}")
                    return True
            return False
        self.extra.append(f[0].s)
        return True

    def names_extra(self, key):
        """Whether the function uses one of the further fields."""
        return any(re.search(r"\.\s*" + x + r"\b", t) for k, t in self.fntexts if k == key for x in self.extra)

    def type(self, arg):
        p = arg.split(None, 2)
        it = find_item(p[0], p[1], ("struct", "enum", "type"))
        opts = p[2] if len(p) > 2 else ""
        t = L.strip_attrs(it.toks)
        dm = re.search(r"drop=(\S+)", opts)
        km = re.search(r"keep=(\S+)", opts)
        kept = set()
        if it.kind == "struct" and t[-1].s == "}":
            b = next(x for x, k in enumerate(t) if k.s == "{")
            fields = split_args(t[b + 1:-1], True)
            fs = []
            for f in fields:
                f = [x for x in f]
                if f and f[0].s == "pub":
                    f = f[1:]
                    if f[0].s == "(":
                        f = f[match(f, 0) + 1:]
                if not f: continue
                if dm and f[0].s in dm.group(1).split(","):
                    continue
                if km and f[0].s not in km.group(1).split(",") and not self.wanted(f):
                    continue
                if km:
                    kept.add(f[0].s)
                fs.append("    pub " + text(f).strip() + ",")
            head = re.sub(r"^pub(\([a-z]+\))?\s+", "", text(t[:b]))
            s = "pub " + head.strip() + " {\n" + "\n".join(fs) + "\n}"
        else:
            s = "pub " + re.sub(r"^pub(\([a-z]+\))?\s+", "", text(t))
        if km and set(km.group(1).split(",")) - kept:
            raise Lost(f"{p[1]}: fields {set(km.group(1).split(',')) - kept} not found")
        s = self.shimtext(s)
        m = re.search(r"derive\(([^)]*)\)", opts)
        if m:
            s = f"#[derive({m.group(1)})]\n" + s
        self.types.append(p[1])
        self.rules["R1"] = self.rules.get("R1", 0) + 1
        self.emit(s)

    def parse_block(self, blk):
        o = {"loop": {}, "closure": {}, "methods": {}, "ghost": set(), "paths": {}, "opaque": [], "spec": "", "entry": "", "exit": "", "ret": "r"}
        cur = None
        for ln in blk:
            m = re.match(r"\s*//%(\w+)\s*(.*)", ln)
            if m:
                d, a = m.group(1), m.group(2).strip()
                if d in ("spec", "entry", "exit"):
                    cur = (o, d); o[d] = o.get(d, "")
                elif d == "loop":
                    q = a.split()
                    n = int(q[0]); part = q[1] if len(q) > 1 else "inv"
                    o["loop"].setdefault(n, {})
                    if part == "it":
                        o["loop"][n]["it"] = q[2]; cur = None
                    else:
                        cur = (o["loop"][n], part); o["loop"][n].setdefault(part, "")
                elif d == "closure":
                    cur = (o["closure"], int(a)); o["closure"][int(a)] = ""
                elif d == "case":
                    o.setdefault("cases", []).append(a)
                elif d == "methods":
                    o["methods"].update(dict(x.split("=") for x in a.split()))
                elif d == "ghost":
                    o["ghost"] |= set(a.split())
                elif d == "paths":
                    x, y = a.split("=>"); o["paths"][x.strip()] = y.strip()
                elif d == "opaque":
                    q = re.match(r"(?:(\d+)\s+)?`(.*)`\s*=>\s*`(.*)`", a)
                    o["opaque"].append((q.group(2), q.group(3), int(q.group(1)) if q.group(1) else None))
                elif d in ("ret", "asserts", "attr", "as", "rettype", "wparam", "loops_free", "closures_free", "receiver", "params", "gen", "implgen", "free", "optmatch", "chain"):
                    o[d] = a or True
                else:
                    raise Exception(f"section {d}")
                continue
            if cur:
                c, k = cur
                c[k] = (c.get(k, "") + "\n" + ln) if c.get(k) else ln
        return o

    def rewrite(self, item, toks, o):
        b = Body(self, item, o)
        t = b.opaque(toks)
        t = b.drop_logging(t)
        t = b.anyhow(t)
        t = self.inline(item, t, o, 0)
        t = b.quotes(b.each(t))
        t = b.fmt(t)
        t = b.asserts(t)
        t = b.break_values(t)
        t = b.unroll(b.chains(b.optmatch(t)))
        t = b.closures(t)
        t = b.renames(t)
        t = b.loops(t)
        self.flags += b.flags
        return t

    # --- R11
    def inline(self, item, t, o, depth):
        fns = {}
        for it in L.load(item.file):
            if it.kind == "fn" and not any("cfg(test)" in a for a in it.attrs):
                fns.setdefault(it.name, []).append(it)
        out, i = [], 0
        while i < len(t):
            if t[i].k == "id" and i + 1 < len(t) and t[i + 1].s == "(" and t[i].s in fns and t[i].s not in self.ghost:
                prev = t[i - 1].s if i else ""
                pp = t[i - 2].s if i > 1 else ""
                cand = None
                cut = 0
                for it in fns[t[i].s]:
                    if it.impl is None and prev not in (".", "::"):
                        cand = it
                    elif it.impl and prev == "." and pp == "self" and item.impl and it.impl["self"] == item.impl["self"]:
                        cand, cut = it, 2
                    elif it.impl and prev == "::" and pp in ("Self", it.impl["self"]) and (i < 3 or t[i - 3].s != "::"):
                        cand, cut = it, 2
                if cand is not None and cand.key not in self.provided and "~" + cand.name not in self.provided and cand.key != item.key:
                    sig = split_fn(cand)
                    body = L.strip_attrs(sig["body"])
                    bad = any(x.s in ("return", "?") for x in body)
                    e = match(t, i + 1)
                    args = split_args(t[i + 2:e])
                    ps = sig["params"]
                    hasself = ps and any(x.s == "self" for x in ps[0])
                    if hasself:
                        ps = ps[1:]
                        if cut and pp != "self":
                            bad = True
                    clo = {}
                    if not bad and len(ps) == len(args):
                        for p, a in zip(ps, args):
                            if a and a[0].s == "|":
                                # a closure: put its body where the helper calls it
                                f = p[0].s
                                at = [x for x in range(len(body) - 1) if body[x].s == f and body[x + 1].s == "("]
                                mine = {x.s for x in a[3:] if x.k == "id"}
                                theirs = {q[0].s for q in ps} | {body[x + 1].s for x in range(len(body) - 1) if body[x].s == "let"}
                                if len(at) != 1 or sum(x.s == f for x in body) != 1 or not (a[1].k == "id" and a[2].s == "|") or mine & theirs:
                                    bad = True; break
                                z = match(body, at[0] + 1)
                                arg = body[at[0] + 2:z]
                                new = []
                                for x in a[3:]:
                                    new += arg if x.k == "id" and x.s == a[1].s else [x]
                                body = body[:at[0]] + [T("o", "{", " ")] + new + [T("c", "}", " ")] + body[z + 1:]
                                self.rules["R16"] = self.rules.get("R16", 0) + 1
                    if bad or depth > 3 or len(ps) != len(args):
                        self.flags.append(f"{item.key} calls {cand.key}, which has no contract and cannot be inlined")
                    else:
                        names, tys = [], []
                        for p in ps:
                            c = next(x for x, q in enumerate(p) if q.s == ":")
                            names.append(p[:c]); tys.append(p[c + 1:])
                        if cut:
                            del out[-cut:]
                        gen = {x.s for x in sig["gen"] or [] if x.k == "id"}
                        lets = []
                        for a, (nm, ar) in list(enumerate(zip(names, args))):
                            if ar and ar[0].s == "|":
                                continue
                            lets += toks_of(f"let __a{depth}_{a} = ") + ar + [T("p", ";")]
                        for a, (nm, ty) in enumerate(zip(names, tys)):
                            if args[a] and args[a][0].s == "|":
                                continue
                            tystr = text(ty)
                            if any(x.s in gen for x in ty) or "impl" in tystr or "'" in tystr or "&mut" in tystr:
                                lets += toks_of("let ") + nm + toks_of(f"= __a{depth}_{a};")
                            else:
                                lets += toks_of("let ") + nm + toks_of(": ") + ty + toks_of(f"= __a{depth}_{a};")
                        bb = Body(self, item, o)
                        body = bb.anyhow(bb.drop_logging(body))
                        body = self.inline(cand, body, o, depth + 1)
                        out += [T("o", "{", " ")] + lets + body + [T("c", "}", " ")]
                        if cand.name not in self.expected:
                            self.inlined.append(f"{cand.key} into {item.key}")
                        self.rules["R11"] = self.rules.get("R11", 0) + 1
                        i = e + 1
                        continue
            out.append(t[i])
            i += 1
        return out

    def fn(self, arg, blk):
        file, key = arg.split(None, 1)
        it = find_item(file, key, ("fn",))
        o = self.parse_block(blk)
        sig = split_fn(it)
        if sig["unsafe"]:
            raise Lost(f"{key} became unsafe")
        raw = sig["body"]
        if any(text(p).strip() == "mut self" for p in sig["params"]):
            raw = [T(x.k, "__self", x.ws) if x.s == "self" else x for x in raw]
        body = self.rewrite(it, raw, o) if not self.trust else []
        ret = text(sig["ret"]).strip()
        if o.get("rettype"):
            ret = o["rettype"]
        ret = self.shimtext(ret)
        ps = []
        for p in sig["params"]:
            s = self.shimtext(text(p).strip())
            if s == "mut self":
                s = "self"
                body = toks_of("let mut __self = self;") + body
            m = re.match(r"mut (\w+)\s*:\s*(.*)", s, re.S)
            if m:
                s = f"{m.group(1)}: {m.group(2)}"
                body = toks_of(f"let mut {m.group(1)} = {m.group(1)};") + body
            m = re.match(r"([A-Z(&][^:]*(?:::[^:]+)*)(?<!:):(?!:)\s*(.*)", s, re.S)
            if m and not s.startswith("&self") and not s.startswith("&mut self"):
                # a pattern parameter: bound to a name first
                body = toks_of(f"let {m.group(1).strip()} = __p{len(ps)};") + body
                s = f"__p{len(ps)}: {m.group(2)}"
            ps.append(s)
        if o.get("receiver"):
            ps[0] = o["receiver"]
        if o.get("wparam"):
            ps.append("Tracked(w): Tracked<&mut World>")
        gen = self.shimtext(text(sig["gen"]).strip())
        if o.get("gen"):
            gen = "" if o["gen"] in (True, "none") else o["gen"]
        name = o["as"] if isinstance(o.get("as"), str) else sig["name"]
        where = self.shimtext(text(sig["where"]).strip()) if sig["where"] and not o.get("gen") else ""
        head = f"pub fn {name}{gen}({', '.join(ps)})"
        if ret:
            head += f" -> ({o['ret']}: {ret})"
        if where:
            head += " " + where.rstrip(",")
        attr = o.get("attr", "")
        s = ""
        if it.impl and not o.get("free"):
            ig = self.shimtext(it.impl["generics"])
            st = self.shimtext(it.impl["self_text"].strip())
            if isinstance(o.get("implgen"), str):
                ig, _, st = o["implgen"].partition("|")
            s += f"impl{ig} {st} {{\n"
        pre = s
        code = ""
        if attr:
            code += (attr if isinstance(attr, str) else "") + "\n"
        if self.trust:
            code += "#[verifier::external_body]\n" + head + "\n" + o["spec"] + "\n{ unimplemented!() }\n"
            self.emit(pre.rstrip("\n")) if pre else None
            self.emit(code.rstrip("\n"))
            if pre:
                self.emit("}")
            self.assumed.append(f"{it.key}: contract proved in {self.trust}")
            return
        if o.get("cases") and not self.trust:
            # proof by cases: the function is verified once per case; callers see the contract without the case
            self.emit("#[verifier::external_body]\n" + head + "\n" + o["spec"] + "\n{ unimplemented!() }")
            plist = ", ".join(ps)
            self.emit(f"proof fn {name}__cases{gen}({plist}) ensures " + " || ".join(f"({c})" for c in o["cases"]) + " {}")
            btxt = self.shimtext(text(body)) if body else ""
            for n, c in enumerate(o["cases"]):
                sp = o["spec"].strip()
                sp = f"    requires ({c}),\n" + ("    " + sp[len("requires"):] if sp.startswith("requires") else "    " + sp)
                first = len(self.out) + 1
                self.emit(code + head.replace(f"pub fn {name}", f"pub fn {name}__case{n}", 1) + "\n" + sp + "\n{\n" + ("proof { assert(false); }\n" if self.vacuity else "") + (o["entry"] + "\n" if o["entry"] else "") + btxt + "\n}")
                self.spans.append((first, len(self.out), it.key, file, it.toks[0].line))
            self.fns.append(it.key)
            self.rules["R3"] = self.rules.get("R3", 0) + 1
            return
        code += head + "\n" + o["spec"] + "\n{\n"
        if self.vacuity:
            code += "proof { assert(false); }\n"
        if o["entry"]:
            code += o["entry"] + "\n"
        btxt = self.shimtext(text(body)) if body else ""
        if o.get("exit"):
            # the value of the body named, so that it can be reasoned about (R3)
            btxt = f"let {o['ret']} = {{ {btxt} }};\n{o['exit']}\n{o['ret']}"
        code += btxt + "\n}\n"
        self.emit(pre.rstrip("\n")) if pre else None
        first = len(self.out) + 1
        self.emit(code.rstrip("\n"))
        last = len(self.out)
        if pre:
            self.emit("}")
        self.spans.append((first, last, it.key, file, it.toks[0].line))
        self.fns.append(it.key)
        self.rules["R3"] = self.rules.get("R3", 0) + 1

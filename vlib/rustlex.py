"""A small Rust lexer and item finder (tokens keep their exact source text and position)."""
import re

class Tok:
    __slots__ = ("k", "s", "pos", "line", "ws")
    def __init__(self, k, s, pos, line, ws):
        self.k, self.s, self.pos, self.line, self.ws = k, s, pos, line, ws
    def __repr__(self):
        return f"{self.k}:{self.s!r}@{self.line}"

ID = re.compile(r"(?:r#)?[A-Za-z_\u0080-\uffff][A-Za-z0-9_\u0080-\uffff]*")
NUM = re.compile(r"0[xob][0-9a-fA-F_]+(?:[iu](?:8|16|32|64|128|size))?|[0-9][0-9_]*(?:\.(?![.A-Za-z_])[0-9_]*)?(?:[eE][+-]?[0-9_]+)?(?:[iuf](?:8|16|32|64|128|size))?")
PUNCTS = ["<<=", ">>=", "...", "..=", "::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=",
          "/=", "%=", "^=", "&=", "|=", "..", "<<"]   # '>>' is left split, for generics

class LexError(Exception):
    pass

def lex(src):
    """Tokenise; comments (doc comments included) become part of the dropped whitespace."""
    toks = []
    i, n, line = 0, len(src), 1
    ws = ""
    def add(k, j):
        nonlocal i, line, ws
        s = src[i:j]
        toks.append(Tok(k, s, i, line, ws))
        line += s.count("\n")
        ws = ""
        i = j
    while i < n:
        c = src[i]
        if c.isspace():
            j = i
            while j < n and src[j].isspace():
                j += 1
            ws += src[i:j]
            line += src.count("\n", i, j)
            i = j
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            depth, j = 1, i + 2
            while j < n and depth:
                if src.startswith("/*", j):
                    depth += 1; j += 2
                elif src.startswith("*/", j):
                    depth -= 1; j += 2
                else:
                    j += 1
            line += src.count("\n", i, j)
            ws += " "
            i = j
            continue
        m = re.match(r"(?:b|c|br|cr|r)?(#*)\"", src[i:i + 40])
        if m and (c == '"' or c in "bcr"):
            pre = m.group(0)
            if "r" in pre:
                end = '"' + m.group(1)
                j = src.find(end, i + len(pre))
                if j < 0:
                    raise LexError("raw string")
                add("str", j + len(end))
                continue
            if not m.group(1):
                j = i + len(pre)
                while src[j] != '"':
                    j += 2 if src[j] == "\\" else 1
                add("str", j + 1)
                continue
        m = re.match(r"b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^'\\\n])'", src[i:i + 16], re.S)
        if m:
            add("char", i + m.end())
            continue
        if c == "'":
            m = ID.match(src, i + 1)
            if not m:
                raise LexError(f"quote at line {line}")
            add("life", m.end())
            continue
        m = ID.match(src, i)
        if m:
            add("id", m.end())
            continue
        if c.isdigit():
            add("num", NUM.match(src, i).end())
            continue
        for p in PUNCTS:
            if src.startswith(p, i):
                add("p", i + len(p))
                break
        else:
            add("o" if c in "([{" else "c" if c in ")]}" else "p", i + 1)
    return toks

PAIR = {"(": ")", "[": "]", "{": "}"}

def match(toks, i):
    """Index of the token closing the bracket at toks[i]."""
    depth = 0
    for j in range(i, len(toks)):
        if toks[j].k == "o":
            depth += 1
        elif toks[j].k == "c":
            depth -= 1
            if depth == 0:
                return j
    raise LexError(f"unbalanced bracket at line {toks[i].line}")

def text(toks):
    """Source text of a token list (comments removed, original spacing kept)."""
    out, prev = [], None
    for t in toks:
        if prev is not None:
            w = t.ws
            if not w and prev.k in ("id", "num", "life") and t.k in ("id", "num", "life", "str"):
                w = " "
            out.append(w)
        out.append(t.s)
        prev = t
    return "".join(out)

def strip_attrs(toks):
    """Remove #[..] and #![..] everywhere in a token list."""
    out, i = [], 0
    while i < len(toks):
        if toks[i].s == "#" and i + 1 < len(toks) and toks[i + 1].s == "[":
            i = match(toks, i + 1) + 1
            continue
        if toks[i].s == "#" and i + 2 < len(toks) and toks[i + 1].s == "!" and toks[i + 2].s == "[":
            i = match(toks, i + 2) + 1
            continue
        out.append(toks[i])
        i += 1
    return out

ITEM_KW = {"fn", "struct", "enum", "impl", "mod", "const", "static", "type", "trait", "use", "union", "macro_rules", "extern"}
QUAL = {"pub", "unsafe", "async", "default"}

class Item:
    """kind, name, self_ty/trait (for fns in impls), tokens (without attributes), attrs text."""
    def __init__(self, kind, name, toks, attrs, impl=None, parent=()):
        self.kind, self.name, self.toks, self.attrs, self.impl, self.parent = kind, name, toks, attrs, impl, parent
        self.file = None
    @property
    def key(self):
        return (self.impl["self"] + "::" if self.impl else "") + self.name

def skip_angle(toks, i):
    """toks[i] is '<': index just past the matching '>'."""
    d = 0
    while i < len(toks):
        s = toks[i].s
        if s == "<":
            d += 1
        elif s == ">":
            d -= 1
            if d == 0:
                return i + 1
        elif toks[i].k == "o":
            i = match(toks, i)
        i += 1
    raise LexError("angle")

def parse_items(toks, impl=None, parent=()):
    items, i, n = [], 0, len(toks)
    while i < n:
        attrs = []
        while i < n and toks[i].s == "#":
            j = i + (2 if toks[i + 1].s == "!" else 1)
            e = match(toks, j)
            attrs.append(text(toks[i:e + 1]))
            i = e + 1
        if i >= n:
            break
        st = i
        while i < n:
            if toks[i].s == "pub":
                i += 1
                if i < n and toks[i].s == "(":
                    i = match(toks, i) + 1
            elif toks[i].s in QUAL:
                i += 1
            elif toks[i].s == "const" and i + 1 < n and toks[i + 1].s in ("fn", "unsafe", "async"):
                i += 1
            elif toks[i].s == "extern" and i + 1 < n and toks[i + 1].k == "str" and toks[i + 2].s == "fn":
                i += 2
            else:
                break
        if i >= n:
            break
        kw = toks[i].s
        if kw == "fn":
            name = toks[i + 1].s
            j = i + 2
            while toks[j].s not in ("{", ";"):
                if toks[j].k == "o":
                    j = match(toks, j)
                j += 1
            e = match(toks, j) if toks[j].s == "{" else j
            items.append(Item("fn", name, toks[st:e + 1], attrs, impl, parent))
            i = e + 1
        elif kw in ("struct", "enum", "union", "trait"):
            name = toks[i + 1].s
            j = i + 2
            while toks[j].s not in ("{", ";"):
                if toks[j].k == "o":
                    j = match(toks, j)
                j += 1
            e = match(toks, j) if toks[j].s == "{" else j
            items.append(Item(kw, name, toks[st:e + 1], attrs, None, parent))
            i = e + 1
        elif kw == "impl":
            j = i + 1
            if toks[j].s == "<":
                j = skip_angle(toks, j)
            h = j
            while toks[j].s != "{":
                if toks[j].k == "o":
                    j = match(toks, j)
                j += 1
            head = toks[h:j]
            e = match(toks, j)
            w = next((x for x, t in enumerate(head) if t.s == "where"), len(head))
            hd = head[:w]
            f = None
            d = 0
            for x, t in enumerate(hd):
                if t.s == "<":
                    d += 1
                elif t.s == ">":
                    d -= 1
                elif t.s == "for" and d == 0:
                    f = x
            tr = text(hd[:f]) if f is not None else None
            sty = hd[f + 1:] if f is not None else hd
            sname = "".join(t.s for t in sty)
            base = re.sub(r"<.*", "", sname).lstrip("&").split("::")[-1]
            inf = {"self": base, "trait": tr, "generics": text(toks[i + 1:h]), "self_text": text(sty), "where": text(head[w:])}
            items += parse_items(toks[j + 1:e], inf, parent)
            i = e + 1
        elif kw == "mod":
            name = toks[i + 1].s
            if toks[i + 2].s == ";":
                i += 3
            else:
                e = match(toks, i + 2)
                istest = any("test" in a for a in attrs)
                if not istest:
                    items += parse_items(toks[i + 3:e], None, parent + (name,))
                i = e + 1
        elif kw == "macro_rules":
            j = i
            while toks[j].k != "o":
                j += 1
            i = match(toks, j) + 1
        elif kw in ("const", "static", "type", "use", "extern"):
            name = toks[i + 1].s
            if name == "mut":
                name = toks[i + 2].s
            j = i
            while toks[j].s != ";":
                if toks[j].k == "o":
                    j = match(toks, j)
                j += 1
            items.append(Item(kw, name, toks[st:j + 1], attrs, impl, parent))
            i = j + 1
        else:
            # macro invocation item, e.g. thread_local! { .. }
            j = i
            while j < n and toks[j].k != "o" and toks[j].s != ";":
                j += 1
            if j >= n:
                break
            i = (match(toks, j) if toks[j].k == "o" else j) + 1
            if i < n and toks[i].s == ";":
                i += 1
    return items

_cache = {}
def load(path):
    src = open(path, encoding="utf-8").read()
    if (path, src) not in _cache:
        its = parse_items(lex(src))
        for it in its:
            it.file = path
        _cache[(path, src)] = its
    return _cache[(path, src)]

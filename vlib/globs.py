"""Glob and filter semantics written from the documentation, independent of the code."""
import re
def rx(g):
    """A glob on a whole path as a regex: * and ? do not cross /, ** only as a whole component."""
    out, i = "", 0
    while i < len(g):
        if g.startswith("**/", i) and (i == 0 or g[i - 1] == "/"):
            out += "(?:.*/)?"; i += 3
        elif g[i:] == "**" and (i == 0 or g[i - 1] == "/"):
            out += ".*" if i == 0 else ".+"; i += 2
        elif g[i] == "*": out += "[^/]*"; i += 1
        elif g[i] == "?": out += "[^/]"; i += 1
        elif g[i] == "[":
            j = g.index("]", i + 2)
            body = g[i + 1:j]
            if body[0] == "!": body = "^" + body[1:]
            out += f"(?!/)[{body}]"; i = j + 1
        elif g[i] == "{":
            j = g.index("}", i)
            out += "(?:" + "|".join(rx(x) for x in g[i + 1:j].split(",")) + ")"; i = j + 1
        else: out += re.escape(g[i]); i += 1
    return out
def match(g, path):
    if "/" in g:
        return re.fullmatch(rx(g), path, re.S) is not None
    # a name: any component of the path
    return any(re.fullmatch(rx(g), c, re.S) for c in path.split("/"))
def path_ok(inc, exc, path):
    return (not inc or any(match(g, path) for g in inc)) and not any(match(g, path) for g in exc)
def name_ok(inc, exc, name):
    return (not inc or any(re.search(r, name) for r in inc)) and not any(re.search(r, name) for r in exc)

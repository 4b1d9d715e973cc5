"""Strict application of unified diffs."""
import re
def apply(src, d):
    """Strict application of a unified diff of one file; None if it does not apply."""
    ls = d.split("\n")
    if len(ls) < 3 or not ls[0].startswith("--- ") or not ls[1].startswith("+++ "):
        return None
    lines = src.split("\n")
    nonl = lines[-1] != ""
    old = [x + "\n" for x in lines[:-1]] + ([lines[-1]] if nonl else [])
    out, at, i = [], 0, 2
    while i < len(ls):
        if ls[i] == "" and i == len(ls) - 1: break
        h = re.match(r"@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@", ls[i])
        if not h: return None
        a, n, m = int(h[1]), int(h[2] or 1), int(h[4] or 1)
        a = a - 1 if n else a
        if a < at: return None
        out += old[at:a]; at = a
        i += 1
        while n or m or (i < len(ls) and ls[i].startswith("\\")):
            if i >= len(ls) or not ls[i]: return None
            k, t = ls[i][0], ls[i][1:] + "\n"
            no = i + 1 < len(ls) and ls[i + 1].startswith("\\")
            if no: t = t[:-1]
            if k in " -":
                if at >= len(old) or old[at] != t: return None
                at += 1; n -= 1
            if k in " +":
                out.append(t); m -= 1
            if k not in " -+": return None
            i += 2 if no else 1
            if n < 0 or m < 0: return None
    return "".join(out + old[at:])

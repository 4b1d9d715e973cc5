"""Command-line runs of the real program against the scripted cargo, and the executable contracts on what it did."""
import fcntl, json, os, pty, re, shutil, signal, struct, subprocess, termios, threading, time
import rt

MARKER = "/* ~ changed by cargo-mutants ~ */"

def positions(s):
    out, l, c = [], 1, 1
    for ch in s:
        out.append((l, c))
        if ch == "\n": l, c = l + 1, 1
        else: c += 1
    out.append((l, c))
    return {p: i for i, p in enumerate(out)}

def span_idx(s, sp):
    pos = positions(s)
    a = pos.get((sp["start"]["line"], sp["start"]["column"]))
    b = pos.get((sp["end"]["line"], sp["end"]["column"]))
    return a, b

class Tree:
    """A source tree in the scratch directory."""
    def __init__(self, ctx, files, name="tree", git=False):
        self.ctx, self.files = ctx, files
        ctx._n = getattr(ctx, "_n", 0) + 1
        self.base = os.path.join(ctx.scratch, f"t{ctx._n}")
        self.dir = os.path.join(self.base, name)
        for f, t in files.items():
            p = os.path.join(self.dir, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w", newline="").write(t)

    def sources(self):
        return {f: t.replace("\r\n", "\n") for f, t in self.files.items() if f.endswith(".rs")}

    def read(self, f):
        p = os.path.join(self.dir, f)
        return open(p, newline="").read() if os.path.exists(p) else None

    def remove(self):
        shutil.rmtree(self.base, ignore_errors=True)

def simple_pkg(name="pkg", extra=""):
    return f'[package]\nname = "{name}"\nversion = "0.1.0"\nedition = "2021"\n{extra}'

class Run:
    """One run of cargo-mutants."""
    def __init__(self, ctx, tree, args=(), plan=None, env=None, timeout=200, outdir=None, cwd=None, interrupt=None, snap=(), walk=False, cargo_path=None, peek=(), path_only=False, times=False, tty=None):
        self.ctx, self.tree, self.args = ctx, tree, list(args)
        ctx._r = getattr(ctx, "_r", 0) + 1
        self.fd = os.path.join(ctx.scratch, f"f{ctx._r}")
        os.makedirs(self.fd)
        self.tmp = os.path.join(self.fd, "tmp")
        os.makedirs(self.tmp)
        fake = os.path.join(self.fd, "cargo")
        shutil.copy(os.path.join(rt.VERIF, "vlib", "fakecargo.py"), fake)
        os.chmod(fake, 0o755)
        plan = dict(plan or {})
        plan.setdefault("seed", ctx.seed)
        plan["tree"] = {f: t for f, t in tree.files.items() if f.endswith(".rs")}
        plan["snap"], plan["walk"], plan["self"] = list(snap), walk, fake
        self.plan = plan
        e = rt.base_env()
        e.update(CARGO=fake if cargo_path is None else cargo_path, VERIF_FAKE_DIR=self.fd, TMPDIR=self.tmp)
        if path_only:
            del e["CARGO"]
            e["PATH"] = self.fd + ":" + e["PATH"]
        e.update(env or {})
        self.outdir = outdir or os.path.join(self.fd, "out")
        a = [ctx.bin, "mutants", "--no-shuffle", *(["-d", tree.dir] if cwd is None else []), *([] if times else ["--no-times"]), *([] if any(x.startswith("--colors") for x in self.args) else ["--colors=never"])]
        if "--list" not in self.args and not any(x.startswith(("-o", "--output")) for x in self.args) and outdir != "default":
            os.makedirs(self.outdir, exist_ok=True)
            a += ["-o", self.outdir]
        if outdir == "default":
            self.outdir = tree.dir
        self.argv = a + self.args
        plan["peek"] = [os.path.join(self.outdir, "mutants.out", x) for x in peek]
        json.dump(plan, open(os.path.join(self.fd, "plan.json"), "w"))
        t0 = time.time()
        err, mine = open(self.fd + "/stderr", "wb"), None
        if tty:      # standard error is a terminal of that many columns
            mine, theirs = pty.openpty()
            fcntl.ioctl(theirs, termios.TIOCSWINSZ, struct.pack("HHHH", 24, tty, 0, 0))
            def drain():
                while True:
                    try: b = os.read(mine, 65536)
                    except OSError: return
                    if not b: return
                    err.write(b); err.flush()
            th = threading.Thread(target=drain, daemon=True); th.start()
        p = subprocess.Popen(self.argv, cwd=cwd or tree.dir, env=e, stdin=subprocess.DEVNULL, stdout=open(self.fd + "/stdout", "w"), stderr=theirs if tty else err)
        if tty: os.close(theirs)
        self.hung = False
        try:
            if interrupt:
                interrupt(self, p)
            self.rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            self.hung = True
            p.kill(); p.wait(); self.rc = None
        self.wall = time.time() - t0
        if tty:
            th.join(10); os.close(mine)
        err.close()
        self.stdout = open(self.fd + "/stdout", errors="replace").read()
        self.stderr = open(self.fd + "/stderr", errors="replace").read()
        self.mo = os.path.join(self.outdir, "mutants.out")
        self.log = self.read_log()

    def read_log(self):
        p = os.path.join(self.fd, "log.jsonl")
        rs = [json.loads(x) for x in open(p)] if os.path.exists(p) else []
        self.ends = {r["id"]: r["t"] for r in rs if r["ev"] == "end"}
        self.gone = {r["id"]: r["t"] for r in rs if r["ev"] == "gone"}
        self.children = [r for r in rs if r["ev"] == "child"]
        return [r for r in rs if r["ev"] == "start"]

    def out_json(self, n):
        p = os.path.join(self.mo, n)
        try:
            return json.load(open(p))
        except (OSError, ValueError):
            return None

    def lines(self, n):
        p = os.path.join(self.mo, n)
        return open(p).read().split("\n")[:-1] if os.path.exists(p) else None

    def clean(self):
        shutil.rmtree(self.fd, ignore_errors=True)

    def desc(self):
        return dict(args=self.args, plan={k: v for k, v in self.plan.items() if k in ("rules", "seed")}, rc=self.rc, stderr=self.stderr[-1500:], stdout=self.stdout[-800:],
                    files={k: v[:1500] for k, v in self.tree.files.items()})

def mutated_text(src, m):
    a, b = span_idx(src, m["span"])
    if a is None or b is None or a > b:
        return None
    return src[:a] + m["replacement"] + " " + MARKER + src[b:]

def mname(m):
    sp = m["span"]["start"]
    return f"{m['file']}:{sp['line']}:{sp['column']}: " 

def exit_of(action, timed_out):
    if timed_out: return "Timeout"
    if action.get("signal"): return {"Signalled": action["signal"]}
    c = action.get("exit", 0)
    return "Success" if c == 0 else {"Failure": c}

def verdict(phases, statuses, baseline):
    """C03 as an executable contract."""
    fail = lambda s: isinstance(s, dict) and "Failure" in s
    if baseline:
        if "Timeout" in statuses: return "Timeout"
        return "Success" if statuses[-1] == "Success" else "Failure"
    if any(p != "Test" and fail(s) for p, s in zip(phases, statuses)): return "Unviable"
    if "Timeout" in statuses: return "Timeout"
    if phases[-1] == "Test" and fail(statuses[-1]): return "CaughtMutant"
    if phases[-1] == "Test" and statuses[-1] == "Success": return "MissedMutant"
    if statuses[-1] == "Success": return "Success"
    return "Failure"

class Scenario:
    def __init__(self, idx, m):
        self.idx, self.m, self.calls = idx, m, []

class Monitor:
    """Decodes a finished run; each check picks the contracts that belong to its property."""
    def __init__(self, run):
        self.r = run
        self.src = run.tree.sources()
        self.mutants = run.out_json("mutants.json") or []
        self.outcomes = run.out_json("outcomes.json")
        self.by_text = {}
        self.bad_spans = []
        for i, m in enumerate(self.mutants):
            t = mutated_text(self.src.get(m["file"], ""), m) if m["file"] in self.src else None
            if t is None:
                self.bad_spans.append(m); continue
            self.by_text.setdefault((m["file"], t), []).append(i)
        self.base_calls, self.calls, self.unknown = [], {}, []
        for c in run.log:
            ch = {f: t for f, t in c["changed"].items()}
            # a build dir holds the file with its original line endings until it is rewritten
            ch = {f: t for f, t in ch.items() if t.replace("\r\n", "\n") != self.src.get(f)}
            if not ch:
                self.base_calls.append(c)
            elif len(ch) == 1 and next(iter(ch.items())) in self.by_text:
                i = self.by_text[next(iter(ch.items()))][0]
                self.calls.setdefault(i, []).append(c)
            else:
                self.unknown.append(c)

    def name_of(self, m):
        """Full name of a mutant, from its parts."""
        a = m["span"]["start"]
        f = m.get("function") or {}
        fn = f.get("function_name", "")
        src = self.src.get(m["file"], "")
        i, j = span_idx(src, m["span"])
        orig = src[i:j] if i is not None and j is not None else "?"
        rep, inn = m["replacement"], f" in {fn}" if fn else ""
        g = m["genre"]
        if g == "FnValue":
            d = f"replace {fn}" + (f" {f['return_type']}" if f.get("return_type") else "") + f" with {rep}"
        elif g == "MatchArmGuard":
            d = f"replace match guard with {rep}"
        elif g == "MatchArm":
            d = "delete match arm"
        else:
            d = (f"replace {orig} with {rep}" if rep else f"delete {orig}") + inn
        return f"{m['file']}:{a['line']}:{a['column']}: {d}"

    def timed_out(self, c):
        return c["id"] not in self.r.ends

    def out_by_mutant(self):
        d = {}
        for o in (self.outcomes or {}).get("outcomes", []):
            s = o["scenario"]
            if s == "Baseline":
                d.setdefault(None, []).append(o)
            else:
                m = s["Mutant"]
                i = next((i for i, x in enumerate(self.mutants) if x == m or {k: x.get(k) for k in m} == m), "?")
                d.setdefault(i, []).append(o)
        return d

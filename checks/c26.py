import fcntl, json, os, shutil, signal, subprocess, time
import e2e, labruns as lr
UNITS = ["iterate", "mainfn", "options"]
RULE = "histories of whole runs over output directories with random earlier contents, placed by --output, environment, configuration or default, with the lock held by another process, by another run, runs killed and interrupted, and listing and refused commands in between; the directory is read before and after; non-trivial: distinct (place, earlier contents, step)"
NEW = {"caught.txt", "missed.txt", "timeout.txt", "unviable.txt", "debug.log", "lock.json", "log", "diff", "mutants.json", "outcomes.json"}
X0, X101 = lr.X0, lr.X101
LIB = "pub fn add(x: i32, y: i32) -> i32 {\n    x + y\n}\npub fn flag(x: bool) -> bool {\n    !x\n}\n"

def shot(d, skip=()):
    """Everything beneath d: path -> text of a file, target of a link, None for a directory."""
    out = {}
    if not os.path.lexists(d): return out
    for base, ds, fs in os.walk(d):
        for x in ds + fs:
            p = os.path.join(base, x)
            r = os.path.relpath(p, d)
            if r in skip: continue
            out[r] = ("link", os.readlink(p)) if os.path.islink(p) else ("dir",) if os.path.isdir(p) else ("file", open(p, "rb").read())
    return out

def part(s, name):
    return {p[len(name) + 1:]: v for p, v in s.items() if p.startswith(name + "/")}

def rest(s):
    return {p: v for p, v in s.items() if p.split("/")[0] not in ("mutants.out", "mutants.out.old")}

def diffs(a, b):
    return sorted(p for p in set(a) | set(b) if a.get(p) != b.get(p))[:5]

def litter(rng, d, like_run):
    """Something an earlier run, or a user, left in d."""
    os.makedirs(d)
    names = rng.sample(["caught.txt", "missed.txt", "unviable.txt", "timeout.txt", "previously_caught.txt", "outcomes.json", "mutants.json", "debug.log", "lock.json", "log/baseline.log", "log/a.log", "diff/a.diff", "notes.txt", "x/y/z.txt", "mutants.out/caught.txt", "é/ü.txt", ".hidden"], rng.randint(0, 9))
    if like_run: names += ["caught.txt", "missed.txt", "lock.json", "log/old.log", "outcomes.json"]
    for n in names:
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(f"{n} {rng.randrange(10**9)}\n" * rng.randint(0, 4))
    if rng.random() < 0.4: os.makedirs(os.path.join(d, "empty", "dir"), exist_ok=True)
    if rng.random() < 0.3: os.symlink("/nonexistent/place", os.path.join(d, "dangling"))

class Place:
    def __init__(self, ctx, kind, fresh=False):
        self.ctx, self.kind = ctx, kind
        files = {"Cargo.toml": e2e.simple_pkg(), "src/lib.rs": LIB}
        ctx._p = getattr(ctx, "_p", 0) + 1
        base = os.path.join(ctx.scratch, f"place{ctx._p}")
        os.makedirs(base)
        self.args, self.env = [], {}
        self.t = e2e.Tree(ctx, files)
        d = os.path.join(base, "o ut")
        if kind == "--output": self.args = ["--output", d]
        elif kind == "-o relative": d = os.path.join(self.t.dir, "rel"); self.args = ["-o", "rel"]
        elif kind == "environment": self.env = {"CARGO_MUTANTS_OUTPUT": d}
        elif kind == "config":
            os.makedirs(os.path.join(self.t.dir, ".cargo"))
            open(os.path.join(self.t.dir, ".cargo/mutants.toml"), "w").write(f"output = {json.dumps(d)}\n")
        else: d = self.t.dir
        self.d = d
        if not fresh: os.makedirs(d, exist_ok=True)

    def run(self, args=(), plan=None, **kw):
        r = e2e.Run(self.ctx, self.t, [*self.args, *args], plan, env=self.env, outdir="default", timeout=120, **kw)
        r.outdir, r.mo = self.d, os.path.join(self.d, "mutants.out")
        return r

def plan(rng, slow=0):
    return dict(seed=rng.randrange(10**6), rules=[lr.rule(None, True, **X0), lr.rule("build", False, [X0, X0, X101]), lr.rule("test", False, [X0, X101] if not slow else [{"sleep": slow}, {"sleep": slow, "exit": 101}])])

def after(ctx, pl, what, before, r, killed=False, extra=()):
    """What must hold after a run that got as far as making its output directory."""
    now = shot(pl.d)
    mo0, mo1, old0, old1 = part(before, "mutants.out"), part(now, "mutants.out"), part(before, "mutants.out.old"), part(now, "mutants.out.old")
    if rest(before) != rest(now):
        ctx.fail(f"{what}: {diffs(rest(before), rest(now))} beside the output directories changed", **r.desc())
    if "mutants.out" in before:
        a, b = dict(mo0), dict(old1)
        a.pop("lock.json", None); b.pop("lock.json", None)
        if a != b or "mutants.out.old" not in now:
            ctx.fail(f"{what}: mutants.out.old differs from the mutants.out that was there in {diffs(a, b)}", **r.desc())
    elif old0 != old1 or ("mutants.out.old" in before) != ("mutants.out.old" in now):
        ctx.fail(f"{what}: there was no mutants.out, and mutants.out.old changed in {diffs(old0, old1)}", **r.desc())
    top = {p for p in mo1 if "/" not in p}
    if not killed and top != NEW | set(extra):
        ctx.fail(f"{what}: the new mutants.out has {sorted(top ^ (NEW | set(extra)))} more or less than it should", **r.desc())
    return now

def full(ctx, pl, what, args=(), **kw):
    before = shot(pl.d)
    want = pl.run(["--list", "--line-col=true", *args]).stdout.split("\n")[:-1]
    if shot(pl.d) != before:
        ctx.fail(f"{what}: --list changed {diffs(before, shot(pl.d))}")
    r = pl.run([*args, "--timeout=60"], plan(ctx.rng), **kw)
    after(ctx, pl, what, before, r, extra=["previously_caught.txt"] if "--iterate" in args else [])
    m = e2e.Monitor(r)
    ctx.case((what,), dict(case=what, place=pl.kind, args=list(args), earlier=len(before), listed=len(want)))
    if [m.name_of(x) for x in m.mutants] != want or not want:
        ctx.fail(f"{what}: mutants.json has {[m.name_of(x) for x in m.mutants]}, listed {want}", **r.desc())
    n = sorted(x for f in ("caught", "missed", "unviable", "timeout") for x in (r.lines(f + ".txt") or []))
    if n != sorted(want):
        ctx.fail(f"{what}: the lists have {n}, not the {len(want)} mutants of this run", **r.desc())
    return r

def quiet(ctx, pl, what, args, rc=None):
    """A command that must not touch the output directories."""
    before, src = shot(pl.d), shot(pl.t.dir)
    r = pl.run(args)
    ctx.case((what, tuple(args)), dict(case=what, args=args, rc=r.rc))
    if shot(pl.d) != before or os.path.exists(pl.d) != bool(before or os.path.isdir(pl.d)) or shot(pl.t.dir) != src:
        ctx.fail(f"{what}: {args} changed {diffs(before, shot(pl.d)) or diffs(src, shot(pl.t.dir))}", **r.desc())
    if rc is not None and (r.rc == 0) != (rc == 0):
        ctx.fail(f"{what}: {args} exited with {r.rc}", **r.desc())
    return r

LISTING = [["--list"], ["--list", "--json"], ["--list", "--diff"], ["--list", "--json", "--diff"], ["--list-files"], ["--list-files", "--json"], ["--list", "--iterate"], ["--list", "--shard=0/2"], ["--list", "--check"], ["--version"], ["--completions=bash"]]
REFUSED = [["--re", "("], ["--in-diff", "/nonexistent.diff"], ["--no-such-option"], ["--shard=2/2"], ["--list", "--jobs=x"]]

def held(ctx, pl, what, how):
    """Another process has the lock."""
    mo = os.path.join(pl.d, "mutants.out")
    lock = os.path.join(mo, "lock.json")
    f = open(lock, "r+")
    fcntl.flock(f, fcntl.LOCK_EX)
    before = shot(pl.d)
    seen = {}
    def during(run, p):
        for _ in range(8):
            time.sleep(0.15)
            now = shot(pl.d)
            if now != before: seen["changed"] = diffs(before, now)
        seen["early"] = [c for c in run.read_log()]
        if p.poll() is not None: seen["gone"] = p.returncode
        if how == "release": f.close()
        elif how == "interrupt": p.send_signal(signal.SIGINT)
    quiet(ctx, pl, what + " (listing meanwhile)", ["--list"], 0)
    r = pl.run(["--timeout=60"], plan(ctx.rng), interrupt=during)
    ctx.case((what, how), dict(case=what, how=how, rc=r.rc))
    if seen.get("changed"):
        ctx.fail(f"{what}: {seen['changed']} changed while another process had the lock", **r.desc())
    if seen.get("early"):
        ctx.fail(f"{what}: cargo was run while another process had the lock", **r.desc())
    if "gone" in seen:
        ctx.fail(f"{what}: the run did not wait for the lock: exit {seen['gone']}", **r.desc())
    if how == "release":
        after(ctx, pl, what, before, r)
    else:
        f.close()
        if shot(pl.d) != before or not r.rc:
            ctx.fail(f"{what}: interrupted while waiting: exit {r.rc}, {diffs(before, shot(pl.d))} changed", **r.desc())

def both(ctx, pl, what):
    """Two runs of the program at once: the second waits for the first, whose results are complete in mutants.out.old."""
    box = {}
    before = shot(pl.d)
    def second(run, p):
        for _ in range(200):
            time.sleep(0.02)
            if run.read_log(): break
        mid = shot(pl.d)
        b = pl.run(["--timeout=60"], plan(ctx.rng))
        box["b"], box["a_was_running"] = b, p.poll() is None
        box["mid"] = mid
    a = pl.run(["--timeout=60"], plan(ctx.rng, slow=0.25), interrupt=second)
    b = box["b"]
    ctx.case((what,), dict(case=what, rc=[a.rc, b.rc]))
    ends = [t for t in a.ends.values()]
    starts = [c["t"] for c in b.log]
    if not starts or not ends or min(starts) < max(ends):
        ctx.fail(f"{what}: the second run began testing {min(starts) if starts else None} before the first had ended {max(ends) if ends else None}", **b.desc())
    old = e2e.Monitor(a)
    p = os.path.join(pl.d, "mutants.out.old")
    try:
        oc, ms = json.load(open(p + "/outcomes.json")), json.load(open(p + "/mutants.json"))
    except (OSError, ValueError) as ex:
        ctx.fail(f"{what}: the first run's results in mutants.out.old: {ex}", **a.desc()); return
    if len(oc["outcomes"]) != len(ms) + 1 or not ms:
        ctx.fail(f"{what}: the first run's outcomes.json has {len(oc['outcomes'])} outcomes for {len(ms)} mutants", **a.desc())
    k = sum(open(f"{p}/{x}.txt").read().count("\n") for x in ("caught", "missed", "unviable", "timeout"))
    if k != len(ms):
        ctx.fail(f"{what}: the first run's lists have {k} lines for {len(ms)} mutants", **a.desc())
    m = e2e.Monitor(b)
    if not m.outcomes or len(m.outcomes["outcomes"]) != len(m.mutants) + 1:
        ctx.fail(f"{what}: the second run's own results are incomplete", **b.desc())
    if rest(before) != rest(shot(pl.d)):
        ctx.fail(f"{what}: something beside the output directories changed", **b.desc())

def concrete(ctx):
    ctx.build()
    rng = ctx.rng
    kinds = ["--output", "-o relative", "environment", "config", "default"]
    for rep in range(1 if not ctx.thorough else 12):
        for kind in kinds:
            for case in ("nothing", "earlier", "old only", "both"):
                pl = Place(ctx, kind)
                if rng.random() < 0.7: open(os.path.join(pl.d, "beside.txt"), "w").write("beside\n")
                if rng.random() < 0.5: litter(rng, os.path.join(pl.d, "mutants.output"), False); litter(rng, os.path.join(pl.d, "out.old"), False)
                if case in ("earlier", "both"): litter(rng, os.path.join(pl.d, "mutants.out"), rng.random() < 0.5)
                if case in ("old only", "both"): litter(rng, os.path.join(pl.d, "mutants.out.old"), rng.random() < 0.5)
                what = f"{kind}, {case} there, {rep}"
                for a in rng.sample(LISTING, 2): quiet(ctx, pl, what, a)
                quiet(ctx, pl, what, rng.choice(REFUSED), 1)
                full(ctx, pl, what)
                full(ctx, pl, what + ", again")
                pl.t.remove()
        # a directory that is not there yet
        for kind in ("--output", "environment", "config", "-o relative"):
            pl = Place(ctx, kind, fresh=True)
            for a in rng.sample(LISTING, 3) + [rng.choice(REFUSED)]:
                quiet(ctx, pl, f"{kind}, no directory, {rep}", a)
                if os.path.exists(pl.d): ctx.fail(f"{kind}: {a} made the output directory")
            full(ctx, pl, f"{kind}, no directory, {rep}")
        # something in the way
        pl = Place(ctx, rng.choice(kinds))
        open(os.path.join(pl.d, "mutants.out"), "w").write("not a directory\n")
        quiet(ctx, pl, f"a file called mutants.out, {rep}", [], 1)
        # locks
        for how in ("release", "interrupt"):
            pl = Place(ctx, rng.choice(kinds))
            litter(rng, os.path.join(pl.d, "mutants.out"), True)
            if rng.random() < 0.6: litter(rng, os.path.join(pl.d, "mutants.out.old"), True)
            held(ctx, pl, f"{pl.kind}, locked, {rep}", how)
        for first in (True, False):
            pl = Place(ctx, rng.choice(kinds))
            if not first: litter(rng, os.path.join(pl.d, "mutants.out"), True)
            both(ctx, pl, f"{pl.kind}, two runs at once, {'nothing' if first else 'something'} there, {rep}")
        # runs that are killed or interrupted, then another
        for sig in (signal.SIGKILL, signal.SIGINT):
            pl = Place(ctx, rng.choice(kinds))
            litter(rng, os.path.join(pl.d, "mutants.out"), True)
            n = rng.randint(1, 7)
            def stop(run, p):
                for _ in range(400):
                    time.sleep(0.01)
                    if len(run.read_log()) >= n: break
                p.send_signal(sig)
            before = shot(pl.d)
            r = pl.run(["--timeout=60"], plan(rng, slow=0.1), interrupt=stop)
            what = f"{pl.kind}, {sig.name} after {n} commands, {rep}"
            ctx.case((what,), dict(case=what, rc=r.rc))
            after(ctx, pl, what, before, r, killed=True)
            time.sleep(0.4)
            full(ctx, pl, what + ", then another run")

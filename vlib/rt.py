"""Concrete layer: build the real program (with the guarded call adapter), call it, run it against a scripted cargo."""
import atexit, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

class Inconclusive(Exception):
    pass

def base_env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e["PATH"]
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="")
    for k in list(e):
        if k in ("RUST_BACKTRACE", "RUST_LOG", "CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO") or k.startswith("CARGO_MUTANTS"):
            del e[k]
    return e

class Ctx:
    def __init__(self, prop, tier, seed, log):
        self.prop, self.tier, self.seed, self.log = prop, tier, seed, log
        self.rng = random.Random(f"{seed}/{prop}")
        self.failures, self.samples, self.notes = [], [], []
        self.evals, self.distinct = 0, set()
        self.hooked = False
        self.bin = None
        self._rpc = None
        self.scratch = tempfile.mkdtemp(prefix="verif-" + prop + "-")
        atexit.register(self.close)

    def close(self):
        if self._rpc:
            self._rpc.close(); self._rpc = None
        shutil.rmtree(self.scratch, ignore_errors=True)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def fail(self, what, key="", **data):
        """A concrete failing input."""
        if len(self.failures) < 50:
            self.failures.append(dict(what=what, key=key, data=data))

    def case(self, ident, sample=None, n=1):
        self.evals += n
        self.distinct.add(ident if isinstance(ident, (str, int, tuple)) else repr(ident))
        if sample is not None and len(self.samples) < 5:
            self.samples.append(sample)

    # ---- building
    def build(self, hooks=None):
        """Build /repo's current tree; with `hooks` (file names under /verif/hooks) also the call adapter."""
        out = os.path.join(VERIF, "build", self.prop)
        os.makedirs(out, exist_ok=True)
        h = hashlib.sha256()
        for root, ds, fs in os.walk(os.path.join(REPO, "src")):
            ds.sort()
            for f in sorted(fs):
                h.update(f.encode()); h.update(open(os.path.join(root, f), "rb").read())
        nonce = "verif_t" + h.hexdigest()[:16]
        err = ""
        for hk in ([hooks] if hooks else []) + [None]:
            env = base_env()
            args = ["cargo", "rustc", "--bin", "cargo-mutants", "--locked", "--offline", "--message-format=json-render-diagnostics", "--", "--cfg", nonce]
            if hk:
                hd = os.path.join(out, "hooks")
                os.makedirs(hd, exist_ok=True)
                txt = open(os.path.join(VERIF, "hooks", "common.rs")).read()
                arms = ""
                for f in hk:
                    txt += "\n" + open(os.path.join(VERIF, "hooks", f + ".rs")).read()
                    arms += f"    if let Some(r) = call_{f}(op, v) {{ return r; }}\n"
                txt += "\nfn dispatch(op: &str, v: &Value) -> Value {\n" + arms + "    panic!(\"unknown op\")\n}\n"
                open(os.path.join(hd, "hooks.rs"), "w").write(txt)
                env["VERIF_HOOK_DIR"] = hd
                args += ["--cfg", "verif_hooks", "--cfg", "verif_h" + hashlib.sha256(txt.encode()).hexdigest()[:12]]
            p = subprocess.run(args, cwd=REPO, env=env, capture_output=True, text=True)
            if p.returncode == 0:
                exe = None
                for ln in p.stdout.splitlines():
                    try:
                        d = json.loads(ln)
                    except ValueError:
                        continue
                    if d.get("reason") == "compiler-artifact" and d.get("executable") and d["target"]["name"] == "cargo-mutants":
                        exe = d["executable"]
                if not exe:
                    continue
                dst = os.path.join(self.scratch, "cargo-mutants")
                if os.path.exists(dst):
                    os.remove(dst)
                shutil.copy(exe, dst)
                self.bin = dst
                self.hooked = bool(hk)
                if hooks and not hk:
                    self.notes.append("call adapter did not compile on this tree; command-line runs only: " + err[-600:])
                return
            err = p.stderr
        raise Inconclusive("the tree does not build: " + err[-1500:])

    # ---- adapter calls
    def call(self, op, **kw):
        if not self._rpc:
            self._rpc = Rpc(self.bin, self.scratch)
        try:
            return self._rpc.call(op, kw)
        except Died as e:
            self._rpc.close(); self._rpc = None
            return {"died": str(e)}

class Died(Exception):
    pass

class Rpc:
    def __init__(self, exe, cwd):
        env = base_env(); env["VERIF_CALL"] = "1"
        self.errf = open(os.path.join(cwd, "rpc.err"), "w+")
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf, env=env, cwd=cwd, text=True)

    def call(self, op, kw):
        try:
            self.p.stdin.write(json.dumps(dict(op=op, **kw)) + "\n")
            self.p.stdin.flush()
            while True:
                ln = self.p.stdout.readline()
                if not ln:
                    raise Died(f"exit {self.p.wait()}")
                if ln.startswith("VERIF:"):
                    return json.loads(ln[6:])
        except BrokenPipeError:
            raise Died(f"exit {self.p.wait()}")

    def close(self):
        try:
            self.p.stdin.close()
        except Exception:
            pass
        try:
            self.p.wait(5)
        except Exception:
            self.p.kill()

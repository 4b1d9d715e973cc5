#!/usr/bin/python3 -ISs
# Scripted stand-in for cargo: records how it was called and what the tree looked like, then ends as the plan says.
import fcntl, hashlib, json, os, signal, subprocess, sys, time
D = os.environ["VERIF_FAKE_DIR"]
argv = sys.argv[1:]
if argv and argv[0] in ("metadata", "locate-project", "--version", "version"):
    env = dict(os.environ)
    env.pop("CARGO", None)
    env["PATH"] = ":".join(x for x in env["PATH"].split(":") if x != D)
    os.execvpe("cargo", ["cargo"] + argv, env)
plan = json.load(open(D + "/plan.json"))
def log(rec):
    with open(D + "/log.jsonl", "a") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        f.write(json.dumps(rec) + "\n")
root = os.getcwd()
changed, missing = {}, []
for rel, txt in plan["tree"].items():
    try:
        got = open(os.path.join(root, rel), newline="").read()
    except OSError as e:
        missing.append(rel); continue
    if got != txt:
        changed[rel] = got
if "--no-run" in argv: phase = "build"
elif argv and argv[0] == "check": phase = "check"
elif argv and argv[0] in ("test", "nextest"): phase = "test"
else: phase = "other"
base = not changed
ident = "" if base else hashlib.sha256(json.dumps(changed, sort_keys=True).encode()).hexdigest()[:16]
act = None
for r in plan.get("rules", []):
    if r.get("phase") not in (None, phase): continue
    if r.get("baseline") not in (None, base): continue
    if r.get("contains") and not any(r["contains"] in t for t in changed.values()): continue
    if r.get("pick"):
        h = int(hashlib.sha256((str(plan.get("seed", 0)) + phase + ident).encode()).hexdigest()[:8], 16)
        act = r["pick"][h % len(r["pick"])]
    else:
        act = r.get("do", {})
    break
act = act or {"exit": 0}
me = "%d-%d" % (os.getpid(), time.monotonic_ns())
keep = ("CARGO", "RUST", "INSTA", "MAKEFLAGS", "MFLAGS", "NEXTEST", "VERIFX")
ini = {}
for rel in plan.get("snap", []):
    p = os.path.join(root, rel)
    ini[rel] = open(p, newline="", errors="replace").read() if os.path.isfile(p) else None
for p in plan.get("peek", []):
    try:
        ini[p] = open(p, newline="", errors="replace").read()
    except OSError:
        ini[p] = None
rec = dict(id=me, t=time.monotonic(), ev="start", argv=argv, cwd=root, phase=phase, changed=changed, missing=missing, ident=ident, action=act,
           pgid=os.getpgid(0), pid=os.getpid(), snap=ini,
           env={k: v for k, v in os.environ.items() if k.startswith(keep)})
if plan.get("walk"):
    w = {}
    for dp, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(dp, n)
            rel = os.path.relpath(p, root)
            if os.path.islink(p): w[rel] = "->" + os.readlink(p)
            elif os.path.isdir(p): w[rel] = "/"
            else:
                st = os.stat(p)
                w[rel] = [hashlib.sha256(open(p, "rb").read()).hexdigest()[:16], st.st_mode & 0o777]
    rec["walk"] = w
log(rec)
print("VERIF-RUN", me, phase, ident, flush=True)
if act.get("raw"):
    sys.stdout.buffer.write(bytes.fromhex(act["raw"])); sys.stdout.flush()
if act.get("child"):
    # a grandchild in the same process group that outlives us unless the group is killed
    c = subprocess.Popen(["/bin/sh", "-c", "trap '' HUP; sleep %s; echo x > %s/survivor-%s" % (act["child"], D, me)])
    log(dict(id=me, ev="child", pid=c.pid))
if act.get("sigint_parent"):
    os.kill(os.getppid(), signal.SIGINT)
if act.get("hide_self"):
    # cargo cannot be started for a while
    subprocess.Popen(["/bin/sh", "-c", "mv %s %s.gone; sleep %s; mv %s.gone %s" % (plan["self"], plan["self"], act["hide_self"], plan["self"], plan["self"])])
    time.sleep(0.1)
if act.get("linger"):
    # told to stop, this one takes a while
    def term(n, f):
        time.sleep(act["linger"])
        log(dict(id=me, ev="gone", t=time.monotonic()))
        os._exit(0)
    signal.signal(signal.SIGTERM, term)
if act.get("sleep"):
    try:
        time.sleep(act["sleep"])
    except KeyboardInterrupt:
        os._exit(1)
log(dict(id=me, ev="end", t=time.monotonic()))
if act.get("rm_self"):
    # the next cargo start fails
    os.rename(plan["self"], plan["self"] + ".gone")
if act.get("signal"):
    signal.signal(act["signal"], signal.SIG_DFL) if act["signal"] not in (9, 19) else None
    os.kill(os.getpid(), act["signal"])
    time.sleep(10)
os._exit(act.get("exit", 0))

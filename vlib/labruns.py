"""Runs of the real program used by several checks: one tree, many ways for cargo to end."""
import json, os
import e2e

LIB = """mod a;
mod b;
pub fn add(x: i32, y: i32) -> i32 {
    x + y
}
pub fn flag(x: bool) -> bool {
    !x && add(1, 2) == 3
}
pub fn name() -> String {
    "é日本".to_owned()
}
"""
A = "pub fn le(x: u32) -> bool {\r\n    x <= 3\r\n}\r\n\r\npub fn nop(v: &mut u32) {\r\n    *v += 1;\r\n}\r\n"
B = "/// ü\npub fn pick(x: Option<u8>) -> u8 {\n    match x { Some(v) if v > 1 => v, Some(_) => 0, _ => 9 }\n}\n"

def tree(ctx, n=None, crlf=True, **kw):
    f = {"Cargo.toml": e2e.simple_pkg(), "src/lib.rs": LIB, "src/a.rs": A if crlf else A.replace("\r\n", "\n"), "src/b/mod.rs": B, "README": "hello\n"}
    f.update(kw)
    return e2e.Tree(ctx, f)

X0, X1, X101, X2 = {"exit": 0}, {"exit": 1}, {"exit": 101}, {"exit": 2}
SLOW = {"sleep": 60}
MIX_BUILD = [X0, X0, X0, X101, X1, {"signal": 9}]
MIX_TEST = [X0, X0, X101, X1, X2, {"exit": 255}, {"signal": 15}, {"signal": 6}]

def rule(phase=None, baseline=None, pick=None, **do):
    r = dict(phase=phase, baseline=baseline)
    if pick: r["pick"] = pick
    else: r["do"] = do
    return r

def mix(slow=False, sig=True):
    b = [a for a in MIX_BUILD if sig or "signal" not in a]
    t = [a for a in MIX_TEST if sig or "signal" not in a] + ([SLOW] if slow else [])
    return dict(rules=[rule(None, True, **X0), rule("build", False, b), rule("test", False, t), rule("check", False, b)])

def statuses(mon, calls):
    return [e2e.exit_of(c["action"], bool(c["action"].get("sleep", 0) > 20)) for c in calls]

def phase_list(calls):
    return [{"build": "Build", "test": "Test", "check": "Check"}.get(c["phase"], c["phase"]) for c in calls]

def listed_names(ctx, tree, args=()):
    """Full names in discovery order."""
    r = e2e.Run(ctx, tree, ["--list", "--line-col=true", *args])
    return r.stdout.split("\n")[:-1]

# ---------------------------------------------------------------- contracts on one finished run
def same_tree(ctx, run, tree, what, allow_lf=()):
    for f, t in tree.files.items():
        g = tree.read(f)
        if g != t and not (f in allow_lf and g == t.replace("\r\n", "\n")):
            ctx.fail(f"{what}: {f} of the source tree is {g!r}, it was {t!r}", **run.desc())

def each_call_clean(ctx, run, mon, what):
    """C02: what each cargo command saw is the original tree or the original with exactly one listed mutation."""
    for c in mon.unknown:
        ctx.fail(f"{what}: cargo {' '.join(c['argv'])} ran on a tree with other changes than one mutant's: { {f: t[-400:] for f, t in c['changed'].items()} }", **run.desc())
    for c in run.log:
        if c["missing"]:
            ctx.fail(f"{what}: files missing while cargo ran: {c['missing']}", **run.desc())

def leaked_clean(ctx, run, mon, what):
    """C02: the build directories left behind have the original text."""
    n = 0
    for d in sorted(os.listdir(run.tmp)):
        root = os.path.join(run.tmp, d)
        if not os.path.isdir(root) or not os.path.exists(os.path.join(root, "Cargo.toml")):
            continue
        n += 1
        for f, t in mon.src.items():
            p = os.path.join(root, f)
            g = open(p, newline="").read() if os.path.exists(p) else None
            if g is None or g.replace("\r\n", "\n") != t:
                ctx.fail(f"{what}: {f} in the build directory left at the end is {g!r}", **run.desc())
    return n

def verdicts(ctx, run, mon, what):
    """C03"""
    for i, os_ in mon.out_by_mutant().items():
        for o in os_:
            ph = [p["phase"] for p in o["phase_results"]]
            st = [p["process_status"] for p in o["phase_results"]]
            if not ph: continue
            want = e2e.verdict(ph, st, i is None)
            if o["summary"] != want:
                ctx.fail(f"{what}: phases {list(zip(ph, st))} recorded as {o['summary']}, not {want}", **run.desc())
            cs = mon.base_calls if i is None else mon.calls.get(i, [])
            real = statuses(mon, cs)
            if len(cs) == len(st):
                w2 = e2e.verdict(phase_list(cs), real, i is None)
                if o["summary"] != w2:
                    ctx.fail(f"{what}: cargo ended with {list(zip(phase_list(cs), real))} but the verdict is {o['summary']}, not {w2}", **run.desc())

def phase_order(ctx, run, mon, what, check=False):
    """C04"""
    full = ["check"] if check else ["build", "test"]
    outs = mon.out_by_mutant()
    for i, cs in list(mon.calls.items()) + ([(None, mon.base_calls)] if mon.base_calls else []):
        ph = [c["phase"] for c in cs]
        st = statuses(mon, cs)
        want = []
        for p, s in zip(full, st + [None] * 2):
            want.append(p)
            if s != "Success": break
        if ph != want:
            ctx.fail(f"{what}: phases run were {list(zip(ph, st))}, expected {want}", **run.desc())
        o = outs.get(i)
        if o:
            rec = [(p["phase"], p["process_status"]) for p in o[0]["phase_results"]]
            if rec != list(zip(phase_list(cs), st)):
                ctx.fail(f"{what}: recorded phases {rec}, but what ran was {list(zip(phase_list(cs), st))}", **run.desc())

LISTS = {"CaughtMutant": "caught.txt", "MissedMutant": "missed.txt", "Timeout": "timeout.txt", "Unviable": "unviable.txt"}
def totals(ctx, run, mon, what, outcomes=None, lists=None, expect=None):
    """C05"""
    j = outcomes if outcomes is not None else mon.outcomes
    if j is None:
        ctx.fail(f"{what}: no outcomes.json", **run.desc()); return
    muts = [o for o in j["outcomes"] if o["scenario"] != "Baseline"]
    c = lambda s: sum(o["summary"] == s for o in muts)
    for k, s in (("caught", "CaughtMutant"), ("missed", "MissedMutant"), ("timeout", "Timeout"), ("unviable", "Unviable"), ("success", "Success")):
        if j.get(k) != c(s):
            ctx.fail(f"{what}: total {k} is {j.get(k)} but {c(s)} mutant records have verdict {s}", **run.desc())
    if j["total_mutants"] != len(muts):
        ctx.fail(f"{what}: total_mutants {j['total_mutants']} with {len(muts)} mutant records", **run.desc())
    names = [json.dumps(o["scenario"]["Mutant"], sort_keys=True) for o in muts]
    if len(set(names)) != len(names):
        ctx.fail(f"{what}: a mutant is recorded twice", **run.desc())
    for s, f in LISTS.items():
        want = [mon.name_of(o["scenario"]["Mutant"]) for o in muts if o["summary"] == s]
        got = lists[f] if lists is not None else run.lines(f)
        if got != want:
            ctx.fail(f"{what}: {f} holds {got}, expected {want}", **run.desc())

def exit_code(ctx, run, mon, what, known_key="signalled"):
    """C06, from how cargo ended"""
    bs = statuses(mon, mon.base_calls)
    vs = [e2e.verdict(phase_list(cs), statuses(mon, cs), False) for cs in mon.calls.values()]
    if mon.base_calls and bs[-1] != "Success": want = 4
    elif "Timeout" in vs: want = 3
    elif "MissedMutant" in vs: want = 2
    else: want = 0
    if run.rc != want:
        ctx.fail(f"{what}: exit status {run.rc}, expected {want} (verdicts {sorted(vs)}, baseline {bs})", **run.desc())
    elif run.rc == 0 and "Failure" in vs:
        ctx.fail(f"{what}: exit status 0 although a mutant's cargo was killed by a signal and the mutant is neither caught nor unviable", key="killed-by-signal", **run.desc())
    return want

def once(ctx, run, mon, what):
    """C08"""
    outs = mon.out_by_mutant()
    if "?" in outs:
        ctx.fail(f"{what}: outcome for a mutant that is not in mutants.json", **run.desc())
    for i, m in enumerate(mon.mutants):
        cs = mon.calls.get(i, [])
        n = {}
        for c in cs: n[c["phase"]] = n.get(c["phase"], 0) + 1
        if not cs or max(n.values()) != 1:
            ctx.fail(f"{what}: mutant {m} was run {n}", **run.desc())
        if len({c["cwd"] for c in cs}) > 1:
            ctx.fail(f"{what}: phases of one mutant in different directories", **run.desc())
        if len(outs.get(i, [])) != 1:
            ctx.fail(f"{what}: mutant {m} has {len(outs.get(i, []))} records", **run.desc())
    if mon.unknown:
        ctx.fail(f"{what}: cargo ran on something that is no selected mutant", **run.desc())

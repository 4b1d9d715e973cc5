import json, collections
import e2e, rettypes
UNITS = ["fnvalue", "visitor"]
RULE = "generated functions with random nested return types, with and without error values from the command line and the configuration, listed with --list --json; the values given for each function are exactly those of the table, each once; non-trivial: distinct return type"
TRUSTED = ["syn parses the types and expressions; quote! makes the tokens it is given", "tokens are printed as text by the pretty-printer (spaces are not compared)"]
def concrete(ctx):
    ctx.build([])
    rng = ctx.rng
    for it in range(150 if ctx.thorough else 24):
        pool = ["MyErr", "anyhow!(\"mutated\")", "crate::E::A { x: 1 }", "-1", "a + b", "::x::y(\"é\")", "()", "None", "Box::new(E)"]
        errs = [rng.choice(pool) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
        errs = list(dict.fromkeys(errs))
        cut = rng.randrange(len(errs) + 1)
        g = rettypes.G(rng, [rettypes.S(e) for e in errs])
        want, src = {}, []
        for n in range(260):
            for _ in range(20):
                t, v = g.ty(rng.choice([0, 1, 2, 2, 3, 3, 4]))
                if len(v) <= 60: break
            else: t, v = "bool", ["true", "false"]
            if n == 0: t, v = None, ["()"]
            if rng.random() < 0.03: t, v = "!", []
            want[f"f{n}"] = (t, v)
            h = f"fn f{n}(x: &T{n})" + (f" -> {t}" if t is not None else "")
            f = rng.choice([" { body(x) }", " where T: X { body(x) }", None])
            f = f and h + f
            if f is None:
                # the values also inside the body, which is not one of them
                u = rng.choice(v) if v else "x"
                f = h + rng.choice([f" {{ if c(x) {{ {u} }} else {{ body(x) }} }}", f" {{ {{ {u} }} }}", f" {{ {u}; }}", f" {{ return {u} }}", f" {{ move || {{ {u} }} }}", f" {{ ({u}) }}"])
            k = rng.random()
            src.append(f"impl Z {{ pub {f} }}" if k < 0.2 else f"trait Y{n} {{ {f} }}" if k < 0.3 else f"pub async {f}" if k < 0.35 else f)
        files = {"Cargo.toml": e2e.simple_pkg(), "src/lib.rs": "\n".join(src) + "\n"}
        if errs[cut:]: files[".cargo/mutants.toml"] = "error_values = " + json.dumps(errs[cut:], ensure_ascii=False) + "\n"
        t = e2e.Tree(ctx, files)
        r = e2e.Run(ctx, t, ["--list", "--json"] + [x for e in errs[:cut] for x in (f"--error={e}",)])
        try: ms = json.loads(r.stdout)
        except Exception:
            ctx.fail(f"--list --json gave no list: {r.desc()} {r.stdout[-300:]}", files=files); return
        finally: r.clean()
        got = collections.defaultdict(list)
        for m in ms:
            if m["genre"] == "FnValue": got[m["function"]["function_name"].split("::")[-1]].append(rettypes.S(m["replacement"]))
        for f, (ty, v) in want.items():
            v = [rettypes.S(x) for x in v]
            ctx.case(ty, dict(ty=ty, errors=errs, values=got[f]) if len(v) < 6 else None)
            if sorted(got[f]) != sorted(v):
                ctx.fail(f"return type {ty} (error values {errs}): values {got[f]}, expected {v}", source=src[int(f[1:])])

"""Random trees of Rust modules with the files the compiler would load, for C24: written from the Rust reference
(items/modules, the path attribute) and rustc's own rule for #[path] files; knows nothing of the code under test."""
import os
class Tree:
    def __init__(self, rng, base=""):
        self.rng, self.base, self.files, self.want, self.n = rng, base, {}, [], 0
        self.why, self.dirs = {}, set()   # dirs: go through these with .., so they must exist
    def name(self):
        self.n += 1
        if self.rng.random() < 0.12: return self.rng.choice(["util", "common", "types"])      # the same name at several levels
        return self.rng.choice(["m", "n", "a", "zz", "lib", "main", "moda"]) + str(self.n) + self.rng.choice(["", "", "", "mod", "_mod", "_lib", "main", "_test", "build"])
    def fn(self, name): return f"pub fn f_{name}() -> bool {{ true }}\n"
    def put(self, path, text):
        assert path not in self.files, path
        self.files[path] = text
    def file(self, path, rel, depth, why):
        """a file that is loaded; rel: name of the directory its mods are in, None if next to it"""
        self.want.append(path); self.why[path] = why
        self.files[path] = ""
        d = os.path.dirname(path)
        body = self.body(d, rel, depth, path, [])
        self.files[path] = self.fn("top%d" % len(self.want)) + body
    def decoy(self, path):
        p = os.path.normpath(path)
        if p.startswith("..") or p in self.files or not self.free(p): return
        # a directory may stand where a file would
        for f in self.files:
            if f.startswith(p + "/") or p.startswith(f + "/"): return
        self.files[p] = "pub fn decoy() -> bool { true }\n"
    def body(self, d, rel, depth, owner, inl):
        rng, out = self.rng, ""
        for _ in range(rng.choice([1, 1, 2, 3]) if depth > 0 else 0):
            k = rng.random()
            nm = self.name()
            raw = rng.random() < 0.1
            ident = "r#" + nm if raw else nm
            vis = rng.choice(["pub ", "", "pub(crate) "])
            if k < 0.35:  # inline block
                if rng.random() < 0.4:
                    p = rng.choice([nm + "_dir", "x/" + nm, nm + ".d"])
                    out += f"#[path = \"{p}\"]\n{vis}mod {ident} {{\n" + self.body(os.path.join(d, p), None, depth - 1, owner, inl + [nm]) + "}\n"
                else:
                    sub = os.path.join(d, rel, nm) if rel else os.path.join(d, nm)
                    out += f"{vis}mod {ident} {{\n" + self.body(sub, None, depth - 1, owner, inl + [nm]) + "}\n"
            elif k < 0.60:  # file with a path attribute
                p = rng.choice([nm + "_file.rs", "y/" + nm + ".rs", nm + "/mod.rs", nm + "_mod.rs", "../" + nm + "_up.rs", nm + ".x.rs", "./" + nm + "q.rs"])
                full = os.path.normpath(os.path.join(d, p))
                if full.startswith("..") or not full.startswith(self.base) or not self.free(full): continue
                if p.startswith("../"): self.dirs.add(d)
                out += f"#[path = \"{p}\"]\n{vis}mod {ident};\n"
                self.file(full, None, depth - 1, f"mod {nm} (path {p}) in {owner} inside {inl}")
                stem = os.path.splitext(os.path.basename(owner))[0]
                for q in (os.path.join(os.path.dirname(owner), nm + ".rs"), os.path.join(os.path.dirname(owner), stem, p)):
                    if rng.random() < 0.3: self.decoy(q)
            elif k < 0.92:
                sub = os.path.join(d, rel) if rel else d
                modrs = rng.random() < 0.4
                full = os.path.normpath(os.path.join(sub, nm, "mod.rs") if modrs else os.path.join(sub, nm + ".rs"))
                if full.startswith("..") or not full.startswith(self.base) or not self.free(full): continue
                a = rng.choice(["", "", "#[allow(dead_code)]\n", "#[doc = \"x\"]\n", "/// words\n"])
                out += f"{a}{vis}mod {ident};\n"
                self.file(full, None if modrs else nm, depth - 1, f"mod {nm} in {owner} inside {inl}")
                if rng.random() < 0.3: self.decoy(os.path.join(os.path.dirname(owner), nm + ".rs"))
            elif k < 0.96:
                out += f"#[cfg(any())]\n{vis}mod {ident};\n"    # no such file: the compiler does not look
            else:
                sub = os.path.join(d, rel) if rel else d
                full = os.path.normpath(os.path.join(sub, nm + ".rs"))
                if full.startswith("..") or not full.startswith(self.base) or not self.free(full): continue
                out += f"#[cfg(test)]\n{vis}mod {ident};\n"
                self.files[full] = "pub fn in_test() -> bool { true }\n"
        return out + (self.fn(self.name()) if inl and rng.random() < 0.5 else "")
    def finish(self):
        for d in self.dirs: self.files[os.path.normpath(os.path.join(d, "keep.txt"))] = ""
        return self.files
    def free(self, p, top=False):
        if not top and os.path.basename(os.path.dirname(p)) in ("bin", "tests", "examples", "benches"): return False   # cargo takes these for targets
        alt = p[:-7] + ".rs" if p.endswith("/mod.rs") else p[:-3] + "/mod.rs"
        return p not in self.files and alt not in self.files and not any(f.startswith(p + "/") or p.startswith(f + "/") for f in self.files)

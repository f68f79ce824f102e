"""Extraction and loading of the MIR of /repo's current working tree.

The MIR is exported by driver/ (a rustc_private driver) under `cargo +nightly check`.
Exports are cached under build/, keyed by the content of every file that can influence
them (sources, manifests, lock file, the driver itself), so a changed tree is always
re-extracted."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

# name -> (cargo args, rustc flags)
CONFIGS = {
    # what release users get, with the optional checker/serde code, without trace noise and debug asserts
    "main": (["--features", "checker,enable-serde"], "-Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=off"),
    # default features only (what dependents get by default)
    "default": ([], "-Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=off"),
    # debug assertions on: to look at the assertions themselves
    "debug": (["--features", "checker,enable-serde"], "-Zmir-opt-level=0 -Cdebug-assertions=on -Coverflow-checks=on"),
    # everything, with logging enabled and debug assertions on
    "all": (["--all-features"], "-Zmir-opt-level=0 -Cdebug-assertions=on -Coverflow-checks=off"),
    # trace logging compiled in, nothing else changed
    "trace": (["--features", "checker,enable-serde,trace-log"], "-Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=off"),
    # the workspace as it is built for tests and the command line tool
    "tool": (["--workspace", "--all-features"], "-Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=off"),
}


class ExtractError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS",
              "RUSTC", "CARGO_BUILD_TARGET", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    return e


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=_env(), capture_output=True, text=True,
                          check=True).stdout.strip()


def _lock(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def driver():
    src = os.path.join(VERIF, "driver", "src", "main.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "mirx-" + h)
    with _lock("driver"):
        if not os.path.exists(out):
            root = sysroot()
            tmp = out + ".tmp%d" % os.getpid()
            r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", tmp,
                                "-C", "link-arg=-Wl,-rpath," + root + "/lib"], env=_env(), capture_output=True, text=True)
            if r.returncode != 0:
                raise ExtractError("the MIR driver does not build:\n" + r.stderr[-4000:])
            os.rename(tmp, out)
    return out, h


def repo_hash():
    h = hashlib.sha256()
    files = []
    for base in ("src", "regalloc2-tool"):
        for dp, dn, fn in os.walk(os.path.join(REPO, base)):
            dn[:] = sorted(d for d in dn if d != "target")
            for f in sorted(fn):
                if f.endswith((".rs", ".toml", ".lock", ".md")):
                    files.append(os.path.join(dp, f))
    for f in ("Cargo.toml", "Cargo.lock", "build.rs", "README.md", "rust-toolchain", "rust-toolchain.toml", ".cargo/config.toml"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            files.append(p)
    for dp, dn, fn in os.walk(os.path.join(REPO, "doc")):
        for f in sorted(fn):
            files.append(os.path.join(dp, f))
    for p in sorted(files):
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        h.update(open(p, "rb").read() + b"\0")
    return h.hexdigest()[:20]


def extract(config):
    drv, dh = driver()
    args, flags = CONFIGS[config]
    ch = hashlib.sha256(("|".join(args) + flags).encode()).hexdigest()[:8]
    out = os.path.join(BUILD, "mir", "%s-%s-%s-%s" % (config, repo_hash(), dh, ch))
    if os.path.exists(os.path.join(out, "OK")):
        return out
    with _lock("x-" + config):
        if os.path.exists(os.path.join(out, "OK")):
            return out
        for old in sorted(glob.glob(os.path.join(BUILD, "mir", config + "-*")), key=os.path.getmtime)[:-3]:
            shutil.rmtree(old, ignore_errors=True)
        for stale in glob.glob(os.path.join(BUILD, "mir", config + "-*.tmp*")):
            shutil.rmtree(stale, ignore_errors=True)
        tmp = out + ".tmp%d" % os.getpid()
        os.makedirs(tmp)
        tgt = os.path.join(BUILD, "target-" + config)
        # never let cargo's freshness cache skip the wrapper for workspace crates
        for sub in (".fingerprint", "build", "incremental"):
            for fp in glob.glob(os.path.join(tgt, "debug", sub, "regalloc2*")):
                shutil.rmtree(fp, ignore_errors=True)
        e = _env()
        e.update(VP_MIR_OUT=tmp, VP_RUSTC_FLAGS=flags, RUSTC_WORKSPACE_WRAPPER=drv, CARGO_TARGET_DIR=tgt,
                 LD_LIBRARY_PATH=sysroot() + "/lib")
        lock = os.path.join(REPO, "Cargo.lock")
        before = open(lock, "rb").read() if os.path.exists(lock) else None
        r = subprocess.run(["cargo", "+nightly", "check", "--offline"] + args, cwd=REPO, env=e, capture_output=True, text=True)
        after = open(lock, "rb").read() if os.path.exists(lock) else None
        if before is not None and after != before:
            open(lock, "wb").write(before)
        if r.returncode != 0:
            raise ExtractError("cargo check (%s) failed:\n%s" % (config, r.stderr[-4000:]))
        if not os.path.exists(os.path.join(tmp, "regalloc2.json")):
            raise ExtractError("no MIR was exported for crate regalloc2 (%s)" % config)
        open(os.path.join(tmp, "OK"), "w").write("ok\n")
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
    return out


class Body:
    __slots__ = ("j", "u", "path", "name", "kind", "argc", "locals", "blocks", "local", "self_ty", "trait", "pub",
                 "span", "parent", "promoted", "derived", "in_trait", "upvars", "generics", "db", "_loops", "_preds", "is_prom")

    def __init__(self, j, db):
        self.j = j
        self.db = db
        self.u = j.get("u")
        self.path = j.get("path")
        self.name = j.get("name")
        self.kind = j.get("kind")
        self.argc = j["argc"]
        self.locals = j["locals"]
        self.blocks = j["blocks"]
        self.local = j.get("local", True)
        self.self_ty = j.get("self")
        self.trait = j.get("trait")
        self.in_trait = j.get("in_trait")
        self.pub = j.get("pub", False)
        self.span = j.get("span", ["?", 0])
        self.parent = j.get("parent")
        self.derived = j.get("derived", False)
        self.upvars = j.get("upvars", [])
        self.generics = j.get("generics", [])
        self.is_prom = False
        self._loops = None
        self._preds = None
        self.promoted = []
        for n, p in enumerate(j.get("promoted", [])):
            b = Body(dict(p, u="%s#p%d" % (self.u, n), path=self.path, name=self.name, local=self.local, span=self.span), db)
            b.is_prom = True
            self.promoted.append(b)

    def lty(self, l):
        return self.locals[l][0]

    def lname(self, l):
        return self.locals[l][1] if len(self.locals[l]) > 1 else "_%d" % l

    def succs(self, b):
        t = self.blocks[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            r = []
            for _, x in t[2]:
                if x not in r:
                    r.append(x)
            if t[3] not in r:
                r.append(t[3])
            return r
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] >= 0 else []
        if k == "assert":
            return [t[4]]
        return []

    def preds(self):
        if self._preds is None:
            p = {i: [] for i in range(len(self.blocks))}
            for i in range(len(self.blocks)):
                for s in self.succs(i):
                    p[s].append(i)
            self._preds = p
        return self._preds

    def reachable(self, start=0):
        seen = {start}
        st = [start]
        while st:
            b = st.pop()
            for s in self.succs(b):
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen

    def loop_heads(self):
        """heads of natural loops (targets of retreating edges of a DFS)"""
        if self._loops is None:
            heads = set()
            color = {}
            st = [(0, iter(self.succs(0)))]
            color[0] = 1
            while st:
                b, it = st[-1]
                for s in it:
                    if color.get(s) == 1:
                        heads.add(s)
                    elif s not in color:
                        color[s] = 1
                        st.append((s, iter(self.succs(s))))
                        break
                else:
                    color[b] = 2
                    st.pop()
            self._loops = heads
        return self._loops

    def where(self):
        return "%s (%s)" % (self.path, self.span[0])


class DB:
    def __init__(self, path, crate="regalloc2"):
        self.dir = path
        with open(os.path.join(path, crate + ".json")) as f:
            j = json.load(f)
        self.crate = crate
        self.types = j["types"]
        self.adts = {a["path"]: a for a in j["adts"]}
        self.impls = j["impls"]
        self.traits = {t["path"]: t for t in j["traits"]}
        self.statics = j["statics"]
        self.bodies = {}
        for b in j["bodies"]:
            B = Body(b, self)
            self.bodies[B.u] = B
        self.by_path = {}
        for B in self.bodies.values():
            self.by_path.setdefault(B.path, []).append(B)

    def local_bodies(self):
        return [b for b in self.bodies.values() if b.local]

    def ty(self, i):
        return self.types[i]

    def adt_of(self, i, deref=True):
        """path of the ADT behind type i (through references)"""
        t = self.types[i]
        while deref and t["k"] in ("ref", "ptr"):
            t = self.types[t["t"]]
        return t["path"] if t["k"] == "adt" else None

    def find(self, name, self_adt=None, trait=None, module=None, local=True, closures=False):
        """bodies by method/function name, the ADT they are implemented on, the trait"""
        r = []
        for b in self.bodies.values():
            if b.name != name or (local and not b.local):
                continue
            if b.kind == "Closure":
                continue
            if self_adt is not None:
                if b.self_ty is None:
                    continue
                p = self.adt_of(b.self_ty, deref=False)
                if p is None or p.split("::")[-1] != self_adt:
                    continue
            if trait is not None and (b.trait is None or b.trait.split("::")[-1] != trait):
                continue
            if trait is None and self_adt is not None and b.trait is not None:
                continue
            if module is not None and module not in b.u:
                continue
            r.append(b)
        return r

    def fn(self, name, self_adt=None, trait=None, module=None):
        r = self.find(name, self_adt, trait, module)
        if len(r) != 1:
            raise MissingAnchor("%s%s%s%s: %d functions of that name found, expected 1" % (
                (module + "::") if module else "", (self_adt + "::") if self_adt else "", name,
                (" (trait %s)" % trait) if trait else "", len(r)))
        return r[0]


class MissingAnchor(Exception):
    pass


_cache = {}


def load(config="main", crate="regalloc2"):
    k = (config, crate)
    if k not in _cache:
        _cache[k] = DB(extract(config), crate)
    return _cache[k]


if __name__ == "__main__":
    for c in sys.argv[1:] or ["main"]:
        d = load(c)
        print(c, len(d.bodies), "bodies", len(d.local_bodies()), "local", len(d.types), "types")

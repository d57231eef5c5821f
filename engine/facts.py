"""Facts: obtains the MIR dump of /repo's current tree and indexes it."""
import json
import os
import re
import subprocess
import sys
import time
import terms

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NYX_REPO", "/repo")
CACHE = os.environ.get("NYX_CACHE", os.path.join(VERIF, "build"))
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"


class FactsError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_INCREMENTAL", "RUSTC", "RUSTDOCFLAGS"):
        e.pop(k, None)
    e["HOME"] = "/root"
    e["RUSTUP_TOOLCHAIN"] = NIGHTLY
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTFLAGS"] = "-C target-cpu=generic"
    e["PYO3_PYTHON"] = "/opt/vp/pyenv/bin/python3"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    return e


def _run(cmd, env, cwd):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def sysroot(env):
    rc, out = _run(["rustc", "--print", "sysroot"], env, "/")
    if rc:
        raise FactsError("no nightly toolchain: " + out)
    return out.strip()


def build_driver():
    env = _env()
    env["CARGO_TARGET_DIR"] = os.path.join(CACHE, "driver")
    env["RUSTFLAGS"] = ""
    rc, out = _run(["cargo", "build", "--offline", "-q"], env, os.path.join(VERIF, "driver"))
    if rc:
        raise FactsError("driver build failed:\n" + out[-3000:])
    return os.path.join(CACHE, "driver", "debug", "nyx-facts")


def tree_hash():
    """Hash of the sources the dump depends on (working tree, not the index)."""
    import hashlib
    h = hashlib.sha256()
    roots = ["Cargo.toml", "Cargo.lock", "nyx-core", "nyx-py"]
    files = []
    for r in roots:
        p = os.path.join(REPO, r)
        if os.path.isfile(p):
            files.append(p)
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "__pycache__"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock", ".py", ".pyi")):
                    files.append(os.path.join(d, f))
    for f in files:
        h.update(f.encode())
        h.update(open(f, "rb").read())
    for d in ("driver/src",):
        for f in sorted(os.listdir(os.path.join(VERIF, d))):
            h.update(open(os.path.join(VERIF, d, f), "rb").read())
    return h.hexdigest()[:24]


def obtain(force=False):
    """Return the directory holding the JSON facts for the current working tree."""
    if os.environ.get("NYX_FACTS"):
        return os.environ["NYX_FACTS"]
    import fcntl
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    key = tree_hash()
    out = os.path.join(CACHE, "facts", key)
    if not force and os.path.exists(os.path.join(out, "done")):
        return out
    drv = build_driver()
    env = _env()
    env["CARGO_TARGET_DIR"] = os.path.join(CACHE, "target")
    env["LD_LIBRARY_PATH"] = sysroot(env) + "/lib"
    env["RUSTC_WORKSPACE_WRAPPER"] = drv
    env["NYX_FACTS_DIR"] = out
    base = os.path.join(CACHE, "facts")
    if os.path.isdir(base):
        import shutil
        shutil.rmtree(base)
    os.makedirs(out)
    # cargo's freshness cache would skip the wrapper: drop the workspace crates' fingerprints
    for sub in ("debug/.fingerprint", "debug/incremental"):
        fpdir = os.path.join(CACHE, "target", sub)
        if os.path.isdir(fpdir):
            import shutil
            for d in os.listdir(fpdir):
                if d.startswith(("nyx-space-", "nyx-py-", "nyx_space-")):
                    shutil.rmtree(os.path.join(fpdir, d))
    rc, log = _run(["cargo", "check", "--offline", "-p", "nyx-space", "-p", "nyx-py", "--lib"], env, REPO)
    for n in ("nyx-space.json", "nyx-py.json"):
        if rc or not os.path.exists(os.path.join(out, n)):
            raise FactsError("fact extraction failed (rc=%s):\n%s" % (rc, log[-4000:]))
    open(os.path.join(out, "done"), "w").write("ok")
    return out


def strip_generics(s):
    out = []
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == "<":
            d += 1
        elif c == ">" and s[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out).replace("::::", "::").rstrip(":")


def base(ty):
    """Last path segment of a type, generics stripped."""
    t = ty.strip()
    while t.startswith("&"):
        t = t[1:].strip()
        if t.startswith("'"):
            t = t.split(" ", 1)[1] if " " in t else t
        if t.startswith("mut "):
            t = t[4:]
    if t.startswith("dyn "):
        t = t[4:]
    return strip_generics(t).split("::")[-1].strip()


class Body:
    def __init__(self, j, crate):
        self.j = j
        self.id = j["id"]
        self.crate = crate
        self.kind = j["kind"]
        self.file, self.line = j["span"]
        self.argc = j["argc"]
        self.locals = j["locals"]
        self.blocks = j["blocks"]
        self.impl_self = j.get("impl_self")
        self.impl_trait = j.get("impl_trait")
        self.name = re.sub(r".*::", "", strip_generics(self.id)) if self.kind != "closure" else "{closure}"
        self.self_base = base(self.impl_self) if self.impl_self else None
        self.trait_base = base(self.impl_trait) if self.impl_trait else None
        self._cfg = None

    @property
    def test(self):
        return "/tests" in self.file

    def where(self):
        return f"{self.file}:{self.line}"

    def cfg(self):
        if self._cfg is None:
            self._cfg = CFG(self)
        return self._cfg


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[3]]
    return []


class CFG:
    def __init__(self, body):
        bl = body.blocks
        n = len(bl)
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(bl):
            if b:
                s = []
                for x in succs(b["t"]):
                    if x not in s and bl[x]:
                        s.append(x)
                self.succ[i] = s
        # reachable RPO
        seen, order = set(), []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            u, it = st[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    st.append((v, iter(self.succ[v])))
                    break
            else:
                order.append(u)
                st.pop()
        self.rpo = order[::-1]
        self.pos = {b: i for i, b in enumerate(self.rpo)}
        self.pred = [[] for _ in range(n)]
        for u in self.rpo:
            for v in self.succ[u]:
                self.pred[v].append(u)
        self.idom = self._dom(self.rpo, self.pred, 0, self.pos)
        # natural loops
        self.loops = {}
        for u in self.rpo:
            for v in self.succ[u]:
                if self.dominates(v, u):
                    self.loops.setdefault(v, set()).add(v)
                    st = [u]
                    L = self.loops[v]
                    while st:
                        x = st.pop()
                        if x not in L:
                            L.add(x)
                            st.extend(self.pred[x])

    @staticmethod
    def _dom(rpo, pred, root, pos):
        idom = {root: root}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == root:
                    continue
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while pos[a] > pos[c]:
                                    a = idom[a]
                                while pos[c] > pos[a]:
                                    c = idom[c]
                            new = a
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        return idom

    def dominates(self, a, b):
        if b not in self.idom:
            return False
        while True:
            if a == b:
                return True
            p = self.idom[b]
            if p == b:
                return False
            b = p


class Facts:
    def __init__(self, d=None):
        t0 = time.time()
        d = d or obtain()
        self.dir = d
        self.bodies = {}
        self.by_name = {}
        self.consts = {}
        self.adts = {}
        self.impls = []
        self.trait_impls = {}
        self.all = []
        for n in ("nyx-space", "nyx-py"):
            j = json.load(open(os.path.join(d, n + ".json")))
            for b in j["bodies"]:
                x = Body(b, n)
                self.all.append(x)
                if x.id not in self.bodies:
                    self.bodies[x.id] = x
                if not (n == "nyx-py"):
                    self.by_name.setdefault(x.name, []).append(x)
            for k, v in j["consts"].items():
                self.consts.setdefault(k, v)
            for k, v in j["adts"].items():
                self.adts.setdefault(k, v)
                if v["kind"] == "enum":
                    terms.ADTS.setdefault(k, [(a["name"], a["discr"]) for a in v["variants"]])
            for i in j["impls"]:
                self.impls.append(i)
                if "trait" in i:
                    self.trait_impls.setdefault(i["trait"], []).append(i)
        self.load_s = time.time() - t0

    def find(self, name, self_base=None, trait=None, one=True, file=None):
        r = [b for b in self.by_name.get(name, ()) if b.kind in ("fn", "assocfn") and "closure" not in b.id
             and (self_base is None or b.self_base == self_base)
             and (trait is None or (b.trait_base or "") == trait)
             and (file is None or b.file.endswith(file))]
        if one:
            return r[0] if len(r) == 1 else (r[0] if r and len({x.id for x in r}) == 1 else None)
        return r

    def const(self, suffix):
        r = [(k, v) for k, v in self.consts.items() if k.endswith(suffix)]
        return r

    def adt(self, name):
        """ADT by last path segment, local ones first."""
        r = [(k, v) for k, v in self.adts.items() if v["local"] and k.split("::")[-1] == name] or [(k, v) for k, v in self.adts.items() if k.split("::")[-1] == name]
        return r[0] if len(r) == 1 else None

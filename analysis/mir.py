"""Obtains and loads the MIR of the crates under /repo (nothing is executed)."""
import json, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    for k in ("RUSTFLAGS", "RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def build_driver():
    """(Re)build the dumper when it is missing or older than its source."""
    d = os.path.join(VERIF, "driver")
    exe = os.path.join(d, "target", "release", "mirdump")
    src = [os.path.join(d, "src", "main.rs"), os.path.join(d, "Cargo.toml")]
    if os.path.exists(exe) and all(os.path.getmtime(exe) >= os.path.getmtime(s) for s in src):
        return exe
    r = subprocess.run(["cargo", "+nightly", "build", "--offline", "--release"], cwd=d, env=_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(exe):
        raise BuildError("driver does not build:\n" + r.stdout[-3000:])
    return exe


def dump(outdir, target=None):
    exe = build_driver()
    env = _env()
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=env, stdout=subprocess.PIPE, text=True).stdout.strip()
    target = target or os.path.join(VERIF, "build", "target")
    os.makedirs(target, exist_ok=True)
    os.makedirs(outdir, exist_ok=True)
    env.update(CARGO_INCREMENTAL="0", LD_LIBRARY_PATH=sysroot + "/lib", MIRDUMP_OUT=outdir, CARGO_TARGET_DIR=target, RUSTC_WORKSPACE_WRAPPER=exe)
    # cargo must not take the workspace crates for fresh: the wrapper would be skipped
    for d, pat in ((".fingerprint", r"(lib|cmd|basjoofan)-"), ("build", r"(lib|cmd|basjoofan)$"), ("incremental", r"(lib|cmd|basjoofan)-")):
        d = os.path.join(target, "debug", d)
        for n in os.listdir(d) if os.path.isdir(d) else []:
            if re.match(pat, n):
                shutil.rmtree(os.path.join(d, n), ignore_errors=True)
    for n in ("lib.json", "basjoofan.json"):
        p = os.path.join(outdir, n)
        if os.path.exists(p):
            os.remove(p)
    r = subprocess.run(["cargo", "+nightly", "check", "--workspace", "--offline"], cwd=REPO, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("cargo check of %s failed:\n%s" % (REPO, r.stdout[-3000:]))
    for n in ("lib.json", "basjoofan.json"):
        if not os.path.exists(os.path.join(outdir, n)):
            raise BuildError("no MIR dumped for " + n)


class Fn:
    __slots__ = ("j", "crate", "prog", "key", "path", "kind", "argc", "span", "name", "trait", "trait_ref", "self_ty",
                 "derived", "locals", "blocks", "pub", "upvars", "generics", "_cfg", "spread")

    def __init__(self, prog, crate, j):
        self.j, self.crate, self.prog = j, crate, prog
        self.key, self.path, self.kind, self.argc, self.span = j["key"], j["path"], j["kind"], j["argc"], j["span"]
        self.name = j.get("name")
        self.trait = j.get("trait")
        self.trait_ref = j.get("trait_ref")
        self.self_ty = j.get("self_ty")
        self.derived = j.get("derived", False)
        self.locals, self.blocks = j["locals"], j["blocks"]
        self.pub = j.get("pub", False)
        self.upvars = j.get("upvars", {})
        self.generics = j.get("generics", [])
        self.spread = j.get("spread")
        self._cfg = None

    def ty(self, i):
        return self.crate["tys"][i]

    def local_ty(self, i):
        return self.ty(self.locals[i]["ty"])

    def sig(self):
        """(argument types..., return type) as strings"""
        return tuple(self.local_ty(i)["s"] for i in range(1, self.argc + 1)), self.local_ty(0)["s"]

    def succs(self, b):
        t = self.blocks[b]["t"]
        k = t["k"]
        if k in ("goto", "drop", "assert"):
            return [t["t"]]
        if k == "switch":
            return list(dict.fromkeys([x[1] for x in t["vals"]] + [t["else"]]))
        if k == "call":
            return [t["t"]] if "t" in t else []
        return []

    def cfg(self):
        """(header -> set of blocks of its natural loop), reverse post order"""
        if self._cfg is not None:
            return self._cfg
        order, seen = [], set()
        stack = [(0, iter(self.succs(0)))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b):
                preds[s].append(b)
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True

        def dom(a, b):
            while b != a and b != 0:
                b = idom[b]
            return a == b

        loops = {}
        for b in rpo:
            for s in self.succs(b):
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in body:
                            continue
                        body.add(x)
                        work.extend(preds[x])
        self._cfg = (loops, rpo)
        return self._cfg


PULL = ("Iterator::next", "DoubleEndedIterator::next_back", "Receiver::<T>::recv", "Receiver::<T>::try_recv")


def rejoin(f):
    """x = next(); while let Some(..) = x { work; x = next(); } is
    loop { x = next(); match x { .. work .. } }: where a loop is entered and
    repeated after the same call on the same place, the two calls become one"""
    try:
        loops, rpo = f.cfg()
    except KeyError:
        return
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in f.succs(b):
            preds[s].append(b)
    B = f.blocks
    idle = lambda s: s[0] != "=" and s[0] != "setdiscr" or s[0] == "=" and not s[1][1] and s[2][0] == "use" and s[2][1][0] == "const" and s[2][1][1].get("zst")

    def pull(b):
        """(block of the call, variable it sets, function, place it is called on)"""
        if B[b]["t"]["k"] != "goto" or len(preds[b]) != 1:
            return None
        c = preds[b][0]
        t = B[c]["t"]
        work = [s for s in B[b]["s"] if not idle(s)]
        if t["k"] != "call" or t.get("t") != b or len(t["a"]) != 1 or t["d"][1] or t["f"][0] != "const" or "fn" not in t["f"][1]:
            return None
        fn = t["f"][1]["fn"]
        if not fn["path"].endswith(PULL):
            return None
        x = t["d"][0]
        if work:
            if len(work) != 1 or work[0][0] != "=" or work[0][1][1] or work[0][2][0] != "use" or work[0][2][1] != ["move", t["d"]]:
                return None
            x = work[0][1][0]
        a = t["a"][0]
        last = [s for s in B[c]["s"] if not idle(s)][-1:]
        if a[0] != "move" or a[1][1] or not last or last[0][0] != "=" or last[0][1] != a[1] or last[0][2][0] != "ref" or last[0][2][2][1]:
            return None
        return c, x, (fn["path"], fn.get("rpath")), last[0]

    for h, body in list(loops.items()):
        if h == 0:
            continue
        ins = [b for b in preds[h] if b not in body]
        outs = [b for b in preds[h] if b in body]
        if len(ins) != 1 or not outs:
            continue
        p = pull(ins[0])
        ls = [pull(b) for b in outs]
        if p is None or any(l is None or l[1:3] != p[1:3] or l[3][2] != p[3][2] for l in ls):
            continue
        c0, x, _, ref = p
        t0 = B[c0]["t"]
        m = len(B)
        B.append({"s": [ref], "t": dict(t0, t=h, d=[x, []]), "cleanup": False})
        for b, l in zip([ins[0]] + outs, [p] + ls):
            c, r = l[0], l[3]
            B[c]["s"] = [s for s in B[c]["s"] if s is not r] + [s for s in B[b]["s"] if idle(s)]
            B[c]["t"] = {"k": "goto", "t": m, "sp": B[c]["t"].get("sp", "")}
        f._cfg = None
        return rejoin(f)


class Program:
    def __init__(self, outdir):
        self.fns, self.adts, self.crates = {}, {}, {}
        self._statics = None
        for n in ("lib", "basjoofan"):
            c = json.load(open(os.path.join(outdir, n + ".json")))
            self.crates[n] = c
            for j in c["fns"]:
                f = Fn(self, c, j)
                rejoin(f)
                self.fns[f.key] = f
            for k, v in c["adts"].items():
                if k not in self.adts or v["local"]:
                    self.adts[k] = v
        self.by_path = {}
        for f in self.fns.values():
            self.by_path.setdefault(f.path, []).append(f)

    def statics(self):
        return [s for c in self.crates.values() for s in c["statics"]]

    def constant_statics(self):
        """keys of the statics that never change: immutable, or computed when first used"""
        if self._statics is None:
            self._statics = {s["key"] for s in self.statics() if not s["mut"] and s["key"] in self.fns
                             and (s["freeze"] or re.match(r"(std::)?(sync|cell)::(lazy_lock::|lazy::)?Lazy(Lock|Cell)<", self.fns[s["key"]].local_ty(0)["s"]))}
        return self._statics

    def variants(self, adt):
        return self.adts[adt]["variants"]

    def local_fns(self, kind=("fn", "closure")):
        return [f for f in self.fns.values() if f.kind in kind]

    def find(self, pred):
        return [f for f in self.fns.values() if pred(f)]

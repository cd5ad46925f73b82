"""Path-sensitive provenance analysis over MIR.

An abstract interpretation of MIR: values are provenance terms (how a value was
built from parameters, constants and calls), the state is partitioned by the
outcome of branches, local functions and closures are analysed in place, and a
loop is summarised once by a fixpoint over the cells it modifies (never
unrolled).  Nothing is executed and no solver decides anything; a branch is
pruned only when its condition contradicts a fact already on the path.

Result for a root: a list of Outcome (facts, ordered trace of events, value).
"""
import re
import sys

sys.setrecursionlimit(20000)


# ---------------------------------------------------------------- terms
class T:
    __slots__ = ("op", "a", "__weakref__")

    def __init__(self, op, a):
        self.op, self.a = op, a

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = _tab[k] = T(op, a)
    return t


UNIT = mk("tuple")
TRUE, FALSE = mk("bool", True), mk("bool", False)
OPTION, RESULT, FLOW = "core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow"
NONE = mk("adt", OPTION, 0)


def some(v):
    return mk("adt", OPTION, 1, v)


def ok(v):
    return mk("adt", RESULT, 0, v)


def err(v):
    return mk("adt", RESULT, 1, v)


def INT(n):
    return mk("int", n)


def STR(s):
    return mk("str", s)


def BOOL(b):
    return TRUE if b else FALSE


CONST_OPS = {"int", "bool", "char", "str", "bytes", "float"}


def is_const(t):
    return t.op in CONST_OPS


def show(t, depth=7):
    if not isinstance(t, T):
        return repr(t) if isinstance(t, str) else str(t)
    if depth == 0:
        return "…"
    o, a = t.op, t.a
    s = lambda x: show(x, depth - 1)
    if o in ("int", "bool", "float"):
        return str(a[0])
    if o in ("str", "char", "bytes"):
        return repr(a[0])
    if o == "param":
        return a[1] if len(a) > 1 and a[1] else "arg%s" % a[0]
    if o == "adt":
        n = a[0].rsplit("::", 1)[-1]
        return "%s#%d(%s)" % (n, a[1], ", ".join(s(x) for x in a[2:]))
    if o == "tuple":
        return "(%s)" % ", ".join(s(x) for x in a)
    if o == "fld":
        return "%s.%s%s" % (s(a[0]), "" if a[1] is None else "%d:" % a[1], a[2])
    if o == "call":
        n = a[0]
        return "%s(%s)" % ("::".join(n.split("::")[-2:]), ", ".join(s(x) for x in a[1:]))
    if o == "ptr":
        return "&%s%s" % (a[0] if not isinstance(a[0], tuple) else "/".join(str(x) for x in a[0]), list(a[1]) or "")
    return "%s(%s)" % (o, ", ".join(s(x) for x in a))


def subterms(t, seen=None):
    """all sub-terms (each once)"""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(x.a)


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def mentions(t, s):
    return any(x is s for x in subterms(t))


def rewrite(t, f, memo=None):
    """bottom-up rewriting"""
    memo = {} if memo is None else memo
    if isinstance(t, tuple):
        return tuple(rewrite(x, f, memo) for x in t)
    if not isinstance(t, T):
        return t
    if t in memo:
        return memo[t]
    a = tuple(rewrite(x, f, memo) for x in t.a)
    r = f(mk(t.op, *a))
    memo[t] = r
    return r


def before_last(a, b):
    """the length of a text less that of its last character, which it then has"""
    return a.op == "len" and b.op == "call" and b.a[0].endswith("char::methods::len_utf8") and b.a[1].op == "last" and b.a[1].a[0] is mk("call", "str::chars", a.a[0])


# ---- structured values
def proj(v, e):
    """e: (variant or None, index) | ('i', term) | ('s', from, to)"""
    o = v.op
    if e[0] == "i":
        i = e[1]
        if o in ("array", "seq") and isinstance(i, T) and i.op == "int" and 0 <= i.a[0] < len(v.a):
            return v.a[i.a[0]]
        if o == "upd":
            if v.a[1] == (e,):
                return v.a[2]
        if o == "push" and i.op == "int" and v.a[0].op == "seq" and i.a[0] < len(v.a[0].a):
            return v.a[0].a[i.a[0]]
        return mk("idx", v, i)
    if e[0] == "s":
        return mk("subslice", v, e[1], e[2], e[3])
    if e[0] == "k":
        if o == "upd" and v.a[1] == (e,):
            return v.a[2]
        if o == "insert" and v.a[1] is e[1]:
            return v.a[2]
        return mk("lookup", v, e[1])
    var, i = e
    if o == "adt":
        if var is None or var == v.a[1]:
            if i + 2 < len(v.a):
                return v.a[i + 2]
        return mk("bottom")
    if o in ("tuple", "closure_env"):
        if i < len(v.a):
            return v.a[i]
    if o == "closure":
        if i + 1 < len(v.a):
            return v.a[i + 1]
    if o == "upd":
        base, p, x = v.a
        if p[0] == e:
            if len(p) == 1:
                return x
            return set_path(proj(base, e), p[1:], x)
        return proj(base, e)
    if o == "ite":
        return mk("ite", v.a[0], proj(v.a[1], e), proj(v.a[2], e))
    return mk("fld", v, var, i)


def read_path(v, path):
    for e in path:
        v = proj(v, e)
    return v


def set_path(v, path, x):
    if not path:
        return x
    e = path[0]
    if e[0] == "i" and v.op in ("array", "seq") and isinstance(e[1], T) and e[1].op == "int" and 0 <= e[1].a[0] < len(v.a):
        a = list(v.a)
        a[e[1].a[0]] = set_path(a[e[1].a[0]], path[1:], x)
        return mk(v.op, *a)
    if e[0] not in ("i", "s", "k"):
        var, i = e
        if v.op == "adt" and (var is None or var == v.a[1]) and i + 2 < len(v.a):
            a = list(v.a)
            a[i + 2] = set_path(a[i + 2], path[1:], x)
            return mk("adt", *a)
        if v.op == "tuple" and i < len(v.a):
            a = list(v.a)
            a[i] = set_path(a[i], path[1:], x)
            return mk("tuple", *a)
        if v.op == "closure" and i + 1 < len(v.a):
            a = list(v.a)
            a[i + 1] = set_path(a[i + 1], path[1:], x)
            return mk("closure", *a)
    if v.op == "upd":
        base, p, y = v.a
        if p[: len(path)] == path:
            return set_path(base, path, x)
        if path[: len(p)] == p:
            return mk("upd", base, p, set_path(y, path[len(p):], x))
        if p > path if _cmp(p, path) else False:
            return mk("upd", set_path(base, path, x), p, y)
    return mk("upd", v, tuple(path), x)


def _cmp(p, q):
    try:
        p > q
        return True
    except TypeError:
        return False


def diff(v0, v1, path=()):
    """paths below which two values differ"""
    if v0 is v1:
        return []
    if v0.op == v1.op and v0.op in ("adt", "tuple", "closure"):
        k = 0 if v0.op == "tuple" else (2 if v0.op == "adt" else 1)
        if len(v0.a) == len(v1.a) and v0.a[:k] == v1.a[:k]:
            out = []
            for i in range(k, len(v0.a)):
                var = v0.a[1] if v0.op == "adt" else None
                if v0.op == "adt" and v0.a[0] not in _enum_cache:
                    var = None
                out += diff(v0.a[i], v1.a[i], path + ((var, i - k),))
            return out
    ps = set()
    b0, b1 = v0, v1
    while b0.op == "upd":
        ps.add(b0.a[1])
        b0 = b0.a[0]
    while b1.op == "upd":
        ps.add(b1.a[1])
        b1 = b1.a[0]
    if b0 is b1 and ps:
        out = []
        for p in ps:
            if any(q != p and p[: len(q)] == q for q in ps):
                continue
            out += diff(read_path(v0, p), read_path(v1, p), path + p)
        return out
    return [path]


_enum_cache = set()


# ---------------------------------------------------------------- events
class Ev:
    __slots__ = ("kind", "__dict__")

    def __init__(self, kind, **k):
        self.kind = kind
        self.__dict__.update(k)

    def __repr__(self):
        k = self.kind
        if k == "call":
            return "call %s(%s) -> %s @%s" % (self.name, ", ".join(show(x, 5) for x in self.args), show(self.res, 4), self.span)
        if k == "cond":
            return "cond %s %s %s" % (show(self.term, 5), "==" if self.eq else "!=", self.val)
        if k == "loop":
            return "loop#%s %d iteration paths @%s" % (self.id, len(self.iters), self.span)
        if k == "spawn":
            return "%s %s %d outcomes @%s" % (k, self.name, len(self.outs), self.span)
        return k + " " + " ".join("%s=%s" % (a, show(b, 4) if isinstance(b, T) else b) for a, b in self.__dict__.items() if a not in ("state",))


class Path:
    """one path: events in order, facts, final value/state"""
    __slots__ = ("events", "st", "val", "kind", "updates")

    def __init__(self, events, st, val=None, kind="ret", updates=None):
        self.events, self.st, self.val, self.kind, self.updates = events, st, val, kind, updates or {}

    @property
    def facts(self):
        return self.st.facts

    def calls(self, *names):
        return [e for e in self.events if e.kind == "call" and (not names or e.name in names)]

    def __repr__(self):
        return "<path %s %s>" % (self.kind, show(self.val, 5) if self.val is not None else "")


class State:
    __slots__ = ("mem", "facts", "ne", "trace")

    def __init__(self):
        self.mem, self.facts, self.ne, self.trace = {}, {}, {}, None

    def fork(self):
        s = State.__new__(State)
        s.mem, s.facts, s.ne, s.trace = dict(self.mem), dict(self.facts), dict(self.ne), self.trace
        return s

    def ev(self, e):
        self.trace = (self.trace, e)
        return e

    def events(self, base=None):
        out, t = [], self.trace
        while t is not None and t is not base:
            out.append(t[1])
            t = t[0]
        return out[::-1]

    # ---- memory
    def root(self, r):
        v = self.mem.get(r)
        if v is None:
            v = r[1] if r[0] == "sym" else mk("undef")
        return v

    def read(self, root, path=()):
        return read_path(self.root(root), path)

    def write(self, root, path, v):
        self.mem[root] = set_path(self.root(root), tuple(path), v) if path else v


class Limit(Exception):
    pass


# canonical names of callees
_gen = re.compile(r"::<(?:[^<>]|<(?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*>)*>")


def canon(path):
    p = path
    for _ in range(3):
        q = _gen.sub("", p)
        if q == p:
            break
        p = q
    p = re.sub(r"\b(?:std|core|alloc)::", "", p)
    p = p.replace("slice::<impl [T]>", "slice").replace("str::<impl str>", "str")
    return p


INT_RANGE = {
    "i8": (-2 ** 7, 2 ** 7 - 1), "i16": (-2 ** 15, 2 ** 15 - 1), "i32": (-2 ** 31, 2 ** 31 - 1), "i64": (-2 ** 63, 2 ** 63 - 1),
    "i128": (-2 ** 127, 2 ** 127 - 1), "isize": (-2 ** 63, 2 ** 63 - 1), "u8": (0, 255), "u16": (0, 65535), "u32": (0, 2 ** 32 - 1),
    "u64": (0, 2 ** 64 - 1), "usize": (0, 2 ** 64 - 1), "u128": (0, 2 ** 128 - 1),
}


class Engine:
    def __init__(self, prog, opaque=(), inline=(), max_paths=6000, opaque_pred=None, stubs=None):
        """opaque: names/paths of local functions kept as events; inline: local
        trait methods to look into (by default trait impls are kept opaque)."""
        self.p = prog
        self.opaque = set(opaque)
        self.inline = set(inline)
        self.opaque_pred = opaque_pred
        self.stubs = stubs or {}
        self.n = 0
        self.stack = []
        self.max_paths = max_paths
        self.stats = {"functions": set(), "paths": 0, "calls": 0, "loops": 0, "blocks": 0}
        self.loops = {}
        self.unrolled = set()
        self.panics = []
        self.type_of = {}
        self.loop_iter = {}
        self.clone_impls = {}
        self.default_impls = {}
        for f in prog.fns.values():
            if f.self_ty is not None and f.trait:
                t = f.ty(f.self_ty)
                if f.trait == "core::clone::Clone" and not f.derived and "adt" in t:
                    self.clone_impls[t["adt"]] = f
                if f.trait == "core::default::Default" and "adt" in t:
                    self.default_impls[t["adt"]] = f
        for k, v in prog.adts.items():
            if v["kind"] == "enum":
                _enum_cache.add(k)
        import models
        self.models = models.MODELS

    def elem_ty(self, ctx, ty):
        """element type of a (reference to a) vector or slice, as text"""
        f = ctx.fr.fn
        while ty.get("k") == "ref" and ty.get("args"):
            ty = f.ty(ty["args"][0])
        if ty.get("args"):
            return f.ty(ty["args"][0])["s"]
        return "?"

    def subst(self, fr, name):
        """type bound to a generic parameter of the function being analysed"""
        t = fr.targs.get(name) if getattr(fr, "targs", None) else None
        return t["s"] if t else None

    def uid(self):
        self.n += 1
        return self.n

    # ------------------------------------------------------------ entry points
    def analyse(self, fn, args=None, st=None):
        """all paths of a function from fresh parameters"""
        st = st or State()
        if args is None:
            args = []
            for i in range(1, fn.argc + 1):
                args.append(self.fresh(fn, i, mk("param", i, fn.locals[i].get("name", "")), ("P", i), st))
        self.panics = []
        outs = self.run_fn(fn, args, st)
        res = [Path(s.events(), s, v) for s, v in outs]
        res += [Path(s.events(), s, None, "panic") for s in self.panics]
        self.stats["paths"] += len(res)
        return res

    def fresh(self, fn, i, t, root, st):
        """an unknown argument: a reference gets a pointee of its own"""
        ty = fn.local_ty(i)
        if ty.get("k") == "ref" and ty.get("args"):
            inner = fn.ty(ty["args"][0])
            if inner.get("k") == "ref" and inner.get("args"):
                r2 = root + ("*",)
                st.mem[r2] = t
                st.mem[root] = mk("ptr", r2, (), bool(inner.get("mut")))
            else:
                st.mem[root] = t
            return mk("ptr", root, (), bool(ty.get("mut")))
        return t

    def const_value(self, key):
        f = self.p.fns.get(key)
        if f is None:
            return None
        st = State()
        save = self.panics
        outs = self.run_fn(f, [], st)
        self.panics = save
        if len(outs) != 1:
            return None
        s, v = outs[0]
        return self.norm(s, v)

    # ------------------------------------------------------------ values
    def norm(self, st, v, depth=12):
        """the value with pointers replaced by what they point to"""
        if not isinstance(v, T) or depth == 0:
            return v
        if v.op == "ptr":
            return self.norm(st, st.read(v.a[0], v.a[1]), depth - 1)
        if v.op in ("adt", "tuple", "closure", "array", "seq", "cat", "upd"):
            return mk(v.op, *[self.norm(st, x, depth - 1) if isinstance(x, T) else x for x in v.a])
        return v

    def content(self, st, v):
        """follow pointers"""
        n = 0
        while v.op == "ptr" and n < 20:
            v = st.read(v.a[0], v.a[1])
            n += 1
        return v

    def target(self, st, v):
        """the location a (chain of) pointer(s) denotes: innermost"""
        if v.op != "ptr":
            return ("sym", v), ()
        while True:
            w = st.read(v.a[0], v.a[1])
            if w.op != "ptr":
                return v.a[0], v.a[1]
            v = w

    # ------------------------------------------------------------ places
    def place(self, fr, st, pl):
        local, elems = pl
        root, path = ("L", fr.id, local), ()
        ty = fr.fn.local_ty(local)
        tys = fr.fn.crate["tys"]
        var = None
        for e in elems:
            k = e[0]
            if k == "d":
                v = st.read(root, path)
                if v.op == "ptr":
                    root, path = v.a[0], v.a[1]
                elif ty.get("adt") in BOXES:
                    pass
                else:
                    root, path = ("sym", v), ()
                ty = tys[ty["args"][0]] if ty.get("args") else {}
                var = None
            elif k == "v":
                var = e[1]
            elif k == "f":
                if ty.get("adt") in BOXES:
                    var = None
                    ty = tys[e[2]]
                    continue
                path = path + ((var if ty.get("adt") in _enum_cache or var is not None else None, e[1]),)
                ty = tys[e[2]]
                var = None
            elif k == "i":
                i = self.norm(st, st.read(("L", fr.id, e[1])))
                path = path + (("i", i),)
                ty = tys[ty["args"][0]] if ty.get("args") else {}
            elif k == "c":
                path = path + (("i", INT(e[1]) if not e[2] else mk("fromend", e[1])),)
                ty = tys[ty["args"][0]] if ty.get("args") else {}
            elif k == "s":
                path = path + (("s", e[1], e[2], e[3]),)
            else:
                path = path + (("i", mk("other")),)
        return root, path

    def operand(self, fr, st, o):
        k = o[0]
        if k in ("copy", "move"):
            r, p = self.place(fr, st, o[1])
            return st.read(r, p)
        if k == "const":
            return self.constant(fr, o[1])
        return mk("other", "rtcheck")

    def constant(self, fr, c):
        ty = fr.fn.ty(c["ty"])
        if "fn" in c:
            f = c["fn"]
            return mk("fn", f.get("rdef") or f["def"], f["path"])
        if "bool" in c:
            return BOOL(c["bool"])
        if "char" in c:
            return mk("char", c["char"])
        if "int" in c:
            v = int(c["int"])
            if ty["k"] == "adt" and ty.get("adt") in self.p.adts:
                for i, x in enumerate(self.p.variants(ty["adt"])):
                    if x["discr"] == c["int"]:
                        return mk("adt", ty["adt"], i)
            return INT(v)
        if "float" in c:
            return mk("float", c["float"])
        if "str" in c:
            return STR(c["str"])
        if "bytes" in c:
            return mk("bytes", tuple(c["bytes"]))
        if "zst" in c:
            if ty["k"] == "tuple":
                return UNIT
            if ty["k"] == "closure":
                return mk("closure", ty["def"])
            if ty["k"] == "adt":
                return mk("adt", ty["adt"], 0)
            return mk("zst", ty["s"])
        if "promoted" in c:
            v = self.const_value("%s#promoted[%d]" % (c["udef"], c["promoted"]))
            if v is not None:
                return v
        if "udef" in c and c.get("udef") in self.p.fns:
            v = self.const_value(c["udef"])
            if v is not None:
                return v
        if c.get("static") in self.p.constant_statics():
            v = self.const_value(c["static"])
            if v is not None:
                return v
        return mk("const", c.get("upath") or c.get("static") or c.get("opaque") or "?", ty["s"])

    # ------------------------------------------------------------ functions
    def bind(self, fr, info, f):
        """types bound to the generic parameters of a callee"""
        out = {}
        ts = info.get("rtargs") or info.get("targs") or []
        for n, i in zip(f.generics, ts):
            ty = fr.fn.ty(i)
            if ty.get("k") == "param":
                ty = (fr.targs or {}).get(ty["name"], ty)
            out[n] = ty
        return out

    def run_fn(self, fn, args, st, targs=None):
        if len(self.stack) > 60:
            raise Limit("inlining depth: " + " > ".join(x.fn.path for x in self.stack[-6:]))
        fr = Frame(self.uid(), fn)
        fr.targs = targs or (self.stack[-1].targs if fn.kind == "closure" and self.stack else None)
        self.stats["functions"].add(fn.path)
        for i, a in enumerate(args):
            st.mem[("L", fr.id, i + 1)] = a
        self.stack.append(fr)
        try:
            res = self.explore(fr, [(0, st)], None)
        finally:
            self.stack.pop()
        outs = []
        for kind, _, s, v in res:
            assert kind == "ret"
            # values returned must not point into the dead frame
            v = self.close(s, v, fr.id)
            for r in [r for r in s.mem if r[0] == "L" and r[1] == fr.id]:
                del s.mem[r]
            outs.append((s, v))
        return outs

    def close(self, st, v, fid):
        if not isinstance(v, T):
            return v
        if v.op == "ptr":
            if v.a[0][0] == "L" and v.a[0][1] == fid:
                return self.close(st, st.read(v.a[0], v.a[1]), fid)
            return v
        if v.op in ("adt", "tuple", "closure", "seq", "array", "iter", "call", "mapit", "enumerate", "zip", "rev", "adv", "filtermapit", "filterit", "byref", "chain"):
            a = tuple(self.close(st, x, fid) if isinstance(x, T) else x for x in v.a)
            return v if a == v.a else mk(v.op, *a)
        return v

    def explore(self, fr, work, ctx):
        """ctx: None or (header, blocks). Returns [(kind, block, state, value)]"""
        loops, _ = fr.fn.cfg()
        res = []
        work = list(work)
        start = ctx[0] if ctx else None
        n = 0
        first = True
        while work:
            b, st = work.pop()
            if ctx and b == ctx[0] and not (first and b == start):
                res.append(("back", b, st, None))
                continue
            if ctx and b not in ctx[1]:
                res.append(("exit", b, st, None))
                continue
            if b in loops and not (ctx and b == ctx[0]) and not self.finite_loop(fr, b, loops[b], st):
                for kind, blk, s, v in self.run_loop(fr, b, loops[b], st):
                    if kind == "ret":
                        res.append((kind, blk, s, v))
                    else:
                        work.append((blk, s))
                continue
            first = False
            n += 1
            if n > 40000 or len(res) > self.max_paths:
                raise Limit("too many paths in " + fr.fn.path)
            self.stats["blocks"] += 1
            for x in self.block(fr, b, st):
                if x[0] == "ret":
                    res.append(("ret", None, x[1], x[2]))
                else:
                    work.append((x[1], x[2]))
        return res

    # ------------------------------------------------------------ loops
    def finite_loop(self, fr, h, blocks, st):
        """a loop over a literal sequence: followed element by element"""
        key = (fr.fn.key, h)
        it = self.loop_iter.get(key, 0)
        if it == 0:
            it = None
            for b in sorted(blocks):
                t = fr.fn.blocks[b]["t"]
                if t["k"] == "call" and t["f"][0] == "const" and "fn" in t["f"][1] and canon(t["f"][1]["fn"]["path"]).endswith("Iterator::next") and t["a"]:
                    o = t["a"][0]
                    if o[0] in ("copy", "move") and not o[1][1]:
                        for s in fr.fn.blocks[b]["s"]:
                            if s[0] == "=" and s[1] == [o[1][0], []] and s[2][0] == "ref" and not s[2][2][1]:
                                it = s[2][2][0]
                        break
            self.loop_iter[key] = it
        if it is None:
            return False
        import models
        if not models.finite(self, st, st.read(("L", fr.id, it))):
            return False
        self.unrolled.add(key)
        return True

    def run_loop(self, fr, h, blocks, st0, cont=None):
        t = fr.fn.blocks[h]["t"]
        run = lambda st: self.explore(fr, [(h, st)], (h, blocks))
        return self.loop(st0, run, fr.fn, t.get("sp", ""), (fr.fn.key, h))

    def loop(self, st0, run, fn, span, site):
        """generic loop summary.  run(st) -> [(back|exit|ret, block, st, value)]"""
        lid = self.uid()
        self.stats["loops"] += 1
        cells = []
        derived, refused = {}, set()
        known = set(st0.mem)
        np = len(self.panics)
        for _ in range(40):
            del self.panics[np:]
            st = st0.fork()
            phis = {}
            for root, path in cells:
                if (root, path) in derived:
                    continue
                ph = mk("phi", lid, root, path)
                phis[(root, path)] = ph
                st.write(root, path, ph)
            for (root, path), g in derived.items():
                st.write(root, path, g)
            base = st.trace = (st.trace, Ev("loopstart", id=lid))
            start_mem = dict(st.mem)
            res = run(st)
            new = set()
            for kind, blk, s, v in res:
                if kind != "back":
                    continue
                for r in s.mem:
                    if r in start_mem:
                        a = start_mem[r]
                    elif r[0] == "sym" and not self._fresh(r[1], lid, known):
                        a = r[1]
                    else:
                        continue
                    b = s.mem[r]
                    if a is b:
                        continue
                    for path in diff(a, b):
                        if not any(r == cr and path[: len(cp)] == cp for cr, cp in cells):
                            new.add((r, path))
            if not new:
                backs = [x for kind, _, x, _ in res if kind == "back"]
                wrong = [c for c in derived if self._derived(c, phis, st0, backs) is not derived[c]]
                if wrong:
                    derived = {}
                    refused.update(wrong)
                    continue
                more = [(c, g) for c in cells if c not in derived and c not in refused for g in [self._derived(c, phis, st0, backs)] if g is not None]
                if more:
                    derived[more[0][0]] = more[0][1]
                    continue
                break
            derived = {}
            cells = [c for c in cells if not any(c[0] == r and c[1][: len(p)] == p for r, p in new)]
            new = [x for x in new if not any(x[0] == r and x[1] != p and x[1][: len(p)] == p for r, p in new)]
            cells += sorted(new, key=repr)
        else:
            raise Limit("loop does not stabilise in " + fn.path)
        cells = [c for c in cells if c in phis]
        init = {phis[c]: st0.read(*c) for c in cells}
        iters, outs = [], []
        ev = Ev("loop", id=lid, fn=fn, span=span, site=site, init=init, iters=iters, exits=[], pre=st0)
        for kind, blk, s, v in res:
            seg = s.events(base)
            p = Path(seg, s, v, kind, {phis[c]: s.read(*c) for c in cells})
            if kind == "back":
                iters.append(p)
            else:
                ev.exits.append(p)
                # splice: events before, the loop summary, the exiting partial iteration
                tr = (st0.trace, ev)
                for e in seg:
                    tr = (tr, e)
                s.trace = tr
                outs.append((kind, blk, s, v))
        self.loops[lid] = ev
        return outs

    def _derived(self, cell, phis, st0, backs):
        """a test kept in a variable: at every start of the loop cell is the same
        function of one other variable of it.  That function, or None"""
        if not backs:
            return None
        ups = [s.read(*cell) for s in backs]
        if any(u.op not in ("lt", "le", "eq", "not", "len") for u in ups):
            return None
        for other, ph in phis.items():
            if other == cell:
                continue
            gs = []
            for s, u in zip(backs, ups):
                y = s.read(*other)
                gs.append(rewrite(u, lambda x: ph if x is y else x))
            g = gs[0]
            mine = phis.get(cell)
            if any(x is not g for x in gs) or ph not in set(subterms(g)) or mine is not None and mine in set(subterms(g)):
                continue
            if rewrite(g, lambda x: st0.read(*other) if x is ph else x) is st0.read(*cell):
                return g
        return None

    def _fresh(self, t, lid, known):
        """a symbolic root that is created anew by each iteration"""
        for x in subterms(t):
            if x.op == "phi" and x.a[0] == lid:
                return True
            if x.op == "uid" and x.a[0] > lid:
                return True
        return False

    # ------------------------------------------------------------ blocks
    def block(self, fr, b, st):
        blk = fr.fn.blocks[b]
        for s in blk["s"]:
            if s[0] == "=":
                v = self.rvalue(fr, st, s[2], s[1])
                r, p = self.place(fr, st, s[1])
                st.write(r, p, v)
            elif s[0] == "setdiscr":
                r, p = self.place(fr, st, s[1])
                st.write(r, p, mk("setdiscr", st.read(r, p), s[2]))
        t = blk["t"]
        k = t["k"]
        if k == "goto":
            return [("go", t["t"], st)]
        if k == "return":
            return [("ret", st, st.read(("L", fr.id, 0)))]
        if k == "drop":
            ty = fr.fn.ty(t["ty"])
            r, p = self.place(fr, st, t["p"])
            v = st.read(r, p)
            st.ev(Ev("drop", ty=ty["s"], adt=ty.get("adt"), val=self.norm(st, v, 4), span=t["sp"], fn=fr.fn.path))
            return [("go", t["t"], st)]
        if k == "assert":
            if t["msg"] == "other":
                # alignment and null checks of the pointers behind `vec![..]`
                return [("go", t["t"], st)]
            c = self.operand(fr, st, t["o"])
            if self.decide(st, c) is bool(t["exp"]):
                c = BOOL(bool(t["exp"]))
            ops = [self.norm(st, self.operand(fr, st, o)) for o in t["ops"]]
            st.ev(Ev("assert", msg=t["msg"], cond=c, exp=t["exp"], ops=ops, tys=[self.operand_ty(fr, o) for o in t["ops"]], span=t["sp"], fn=fr.fn.path, state=st.fork()))
            s2 = st
            if c.op == "bool":
                if c.a[0] != t["exp"]:
                    self.panics.append(st)
                    return []
            else:
                self.asserting = True
                self.assume(s2, c, t["exp"])
                self.asserting = False
            return [("go", t["t"], s2)]
        if k == "switch":
            v = self.operand(fr, st, t["o"])
            return [("go", blk2, s2) for blk2, s2 in self.switch(fr, st, v, t)]
        if k == "call":
            return self.do_call(fr, st, t)
        if k in ("unreachable", "resume"):
            return []
        return []

    # ------------------------------------------------------------ branching
    def decide(self, st, v):
        """constant value of a scalar term on this path, or None"""
        if v.op in ("int", "bool", "char"):
            return v.a[0]
        if v in st.facts:
            return st.facts[v]
        if v.op == "not":
            d = self.decide(st, v.a[0])
            return None if d is None else (not d)
        if v.op == "eq":
            a, b = v.a
            if a is b:
                return True
            if is_const(b):
                d = self.decide(st, a)
                if d is not None:
                    return d == b.a[0]
                if b.a[0] in st.ne.get(a, ()):
                    return False
        if v.op in ("bitand", "bitor") and len(v.a) == 2:
            ds = [self.decide(st, x) for x in v.a]
            z = v.op == "bitor"
            if ds[0] is z or ds[1] is z:
                return z
            if ds[0] is (not z) and ds[1] is (not z):
                return not z
        if v.op == "discr":
            w = v.a[0]
            if w.op == "adt":
                vs = self.p.adts.get(w.a[0], {}).get("variants")
                return int(vs[w.a[1]]["discr"]) if vs else w.a[1]
            if w.op == "ite":
                d = self.decide(st, w.a[0])
                if d is not None:
                    return self.decide(st, mk("discr", w.a[1] if d else w.a[2]))
        return None

    def assume(self, st, v, val, eq=True):
        """add a fact; False if contradictory"""
        d = self.decide(st, v)
        if d is not None:
            return (d == val) == eq
        while v.op == "not" and isinstance(val, bool):
            v, val = v.a[0], not val
        if not eq and isinstance(val, bool):
            val, eq = not val, True
        if eq:
            if val in st.ne.get(v, ()):
                return False
            st.facts[v] = val
            if v.op == "eq" and is_const(v.a[1]):
                if val:
                    if not self.assume(st, v.a[0], v.a[1].a[0]):
                        return False
                    return True
                st.ne[v.a[0]] = st.ne.get(v.a[0], frozenset()) | {v.a[1].a[0]}
            if v.op == "eq" and v.a[1].op == "adt" and len(v.a[1].a) == 2 and val:
                self.assume(st, mk("discr", v.a[0]), v.a[1].a[1])
        else:
            st.ne[v] = st.ne.get(v, frozenset()) | {val}
        st.ev(Ev("cond", term=v, val=val, eq=eq, asserted=self.asserting))
        return True

    asserting = False  # the condition comes from a check that panics otherwise

    def switch(self, fr, st, v, t):
        ty = fr.fn.ty(t["ty"])
        vals = []
        for x, b in t["vals"]:
            n = int(x)
            if ty["k"] == "bool":
                n = bool(n)
            elif ty["k"] == "char":
                n = chr(n)
            vals.append((n, b))
        d = self.decide(st, v)
        if d is not None:
            for n, b in vals:
                if n == d:
                    return [(b, st)]
            return [(t["else"], st)]
        if ty["k"] == "bool":
            out = []
            listed = {n: b for n, b in vals}
            for n in (False, True):
                s = st.fork()
                if self.assume(s, v, n):
                    out.append((listed.get(n, t["else"]), s))
            return out
        if v.op == "cast" and v.a[1].op == "discr":
            pass
        out = []
        possible = None
        if v.op == "discr":
            possible = self.possible_discrs(st, v)
        for n, b in vals:
            if possible is not None and n not in possible:
                continue
            s = st.fork()
            if self.assume(s, v, n):
                out.append((b, s))
        rest = None if possible is None else [x for x in possible if x not in [n for n, _ in vals]]
        ek = fr.fn.blocks[t["else"]]
        if rest is not None and not rest:
            return out
        if ek["t"]["k"] == "unreachable" and not ek["s"]:
            return out
        s = st.fork()
        good = True
        if rest is not None and len(rest) == 1:
            good = self.assume(s, v, rest[0])
        else:
            for n, _ in vals:
                good = good and self.assume(s, v, n, False)
        if good:
            out.append((t["else"], s))
        return out

    def possible_discrs(self, st, v):
        adt = self.adt_of.get(v) if hasattr(self, "adt_of") else None
        if adt is None or adt not in self.p.adts:
            return None
        ne = st.ne.get(v, ())
        return [int(x["discr"]) for x in self.p.variants(adt) if int(x["discr"]) not in ne]

    adt_of = {}

    def fork_discr(self, st, v, n):
        """states in which the enum value v is variant 0..n-1: [(variant, state)]"""
        v = self.content(st, v)
        if v.op == "adt":
            return [(v.a[1], st)]
        dv = mk("discr", v)
        d = self.decide(st, dv)
        if d is not None:
            return [(d, st)]
        out = []
        for i in range(n):
            s = st.fork()
            if self.assume(s, dv, i):
                out.append((i, s))
        return out

    def fork_bool(self, st, v):
        d = self.decide(st, v)
        if d is not None:
            return [(d, st)]
        out = []
        for b in (True, False):
            s = st.fork()
            if self.assume(s, v, b):
                out.append((b, s))
        return out

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, r, dest):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k == "ref":
            root, path = self.place(fr, st, r[2])
            if root[0] == "sym" and not path and root not in st.mem:
                # reborrow of what an opaque reference points to
                return root[1] if not r[1] else mk("ptr", root, path, True)
            return mk("ptr", root, path, bool(r[1]))
        if k == "rawptr":
            root, path = self.place(fr, st, r[1])
            return mk("ptr", root, path, True)
        if k == "cast":
            v = self.operand(fr, st, r[2])
            to = fr.fn.ty(r[3])
            kind = r[1]
            if kind.startswith("IntToInt"):
                d = self.decide(st, v)
                if isinstance(d, bool):
                    return INT(int(d))
                if isinstance(d, int) and to["s"] in INT_RANGE:
                    lo, hi = INT_RANGE[to["s"]]
                    if lo <= d <= hi:
                        return INT(d)
                if v.op == "discr" or v.op == "bool":
                    return v
                return mk("cast", to["s"], self.norm(st, v))
            if kind.startswith(("IntToFloat", "FloatToInt", "FloatToFloat")):
                return mk("cast", to["s"], self.norm(st, v))
            return v
        if k == "bin":
            a, b = self.norm(st, self.operand(fr, st, r[2])), self.norm(st, self.operand(fr, st, r[3]))
            if r[1] in ("Lt", "Ge") and b is INT(0) or r[1] in ("Gt", "Le") and a is INT(0):
                # nothing is less than an unsigned 0
                if INT_RANGE.get(self.operand_ty(fr, r[2]), (-1,))[0] == 0:
                    return BOOL(r[1] in ("Ge", "Le"))
            return self.binop(st, r[1], a, b)
        if k == "un":
            v = self.norm(st, self.operand(fr, st, r[2]))
            op = r[1]
            if op == "Not":
                d = self.decide(st, v)
                if isinstance(d, bool):
                    return BOOL(not d)
                o = r[2]
                return mk("not", v) if self.is_bool(fr, o) else mk("bitnot", v)
            if op == "Neg":
                return INT(-v.a[0]) if v.op == "int" else mk("neg", v)
            if op == "PtrMetadata":
                return self.len_of(v)
            return mk("un", op, v)
        if k == "discr":
            root, path = self.place(fr, st, r[1])
            v = self.norm(st, st.read(root, path), 3)
            if v.op == "adt":
                vs = self.p.adts.get(v.a[0], {}).get("variants")
                return INT(int(vs[v.a[1]]["discr"])) if vs else INT(v.a[1])
            if v.op == "setdiscr":
                return INT(v.a[1])
            t = mk("discr", v)
            adt = self.place_adt(fr, r[1])
            if adt:
                self.adt_of[t] = adt
            return t
        if k == "agg":
            fs = [self.operand(fr, st, o) for o in r[2]]
            kind = r[1]
            if kind[0] == "adt":
                return mk("adt", kind[1], kind[2], *fs) if kind[3] < 0 else mk("union", fs[0])
            if kind[0] == "tuple":
                return mk("tuple", *fs)
            if kind[0] == "array":
                return mk("array", *fs)
            if kind[0] == "closure":
                return mk("closure", kind[1], *fs)
            return mk("agg", *fs)
        if k == "repeat":
            return mk("repeat", self.operand(fr, st, r[1]), r[2])
        if k == "len":
            root, path = self.place(fr, st, r[1])
            return self.len_of(self.norm(st, st.read(root, path)))
        return mk("other", k, mk("uid", self.uid()))

    def is_bool(self, fr, o):
        if o[0] == "const":
            return fr.fn.ty(o[1]["ty"])["k"] == "bool"
        return self.place_ty(fr, o[1]).get("k") == "bool"

    def operand_ty(self, fr, o):
        return (fr.fn.ty(o[1]["ty"]) if o[0] == "const" else self.place_ty(fr, o[1])).get("s", "?")

    def place_ty(self, fr, pl):
        ty = fr.fn.local_ty(pl[0])
        tys = fr.fn.crate["tys"]
        for e in pl[1]:
            if e[0] in ("d", "i", "c"):
                ty = tys[ty["args"][0]] if ty.get("args") else {}
            elif e[0] == "f":
                ty = tys[e[2]]
        return ty

    def place_adt(self, fr, pl):
        return self.place_ty(fr, pl).get("adt")

    def len_of(self, v):
        if v.op in ("array", "seq"):
            return INT(len(v.a))
        if v.op == "bytes":
            return INT(len(v.a[0]))
        if v.op == "str":
            return INT(len(v.a[0].encode()))
        return mk("len", v)

    def binop(self, st, op, a, b):
        name = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "Rem": "rem", "BitXor": "bitxor", "BitAnd": "bitand", "BitOr": "bitor",
                "Shl": "shl", "Shr": "shr"}
        if op.endswith("WithOverflow"):
            n = name[op[:-12]]
            return mk("tuple", self.arith(n, a, b), self.ovf(n, a, b))
        op = op.replace("Unchecked", "")
        if op in name:
            return self.arith(name[op], a, b)
        ca, cb = self.decide(st, a), self.decide(st, b)
        if ca is not None and cb is not None and a.op != "float" and b.op != "float":
            r = {"Eq": ca == cb, "Ne": ca != cb}
            if not isinstance(ca, bool):
                try:
                    r.update(Lt=ca < cb, Le=ca <= cb, Gt=ca > cb, Ge=ca >= cb)
                except TypeError:
                    pass
            if op in r:
                return BOOL(r[op])
        if op == "Eq" or op == "Ne":
            t = eq(a, b)
            if t.op == "bool":
                return BOOL(t.a[0] == (op == "Eq"))
            return t if op == "Eq" else mk("not", t)
        if op == "Lt":
            return mk("lt", a, b)
        if op == "Gt":
            return mk("lt", b, a)
        if op == "Le":
            return mk("le", a, b)
        if op == "Ge":
            return mk("le", b, a)
        return mk("bin", op, a, b)

    def arith(self, n, a, b):
        if a.op == "int" and b.op == "int":
            x, y = a.a[0], b.a[0]
            try:
                return INT({"add": x + y, "sub": x - y, "mul": x * y, "bitxor": x ^ y, "bitand": x & y, "bitor": x | y}[n])
            except KeyError:
                if n == "shl" and 0 <= y < 64:
                    return INT(x << y)
                if n == "shr" and 0 <= y < 64:
                    return INT(x >> y)
                if n == "div" and y > 0 and x >= 0:
                    return INT(x // y)
                if n == "rem" and y > 0 and x >= 0:
                    return INT(x % y)
        if a.op == "bool" or b.op == "bool":
            x, y = (a, b) if a.op == "bool" else (b, a)
            if n == "bitand":
                return y if x.a[0] else FALSE
            if n == "bitor":
                return TRUE if x.a[0] else y
        if n == "sub" and before_last(a, b):
            return mk("len", mk("init", a.a[0]))
        return mk(n, a, b)

    def ovf(self, n, a, b):
        if a.op == "int" and b.op == "int":
            r = self.arith(n, a, b)
            if r.op == "int" and abs(r.a[0]) < 2 ** 31 and r.a[0] >= 0:
                return FALSE
        if n == "sub" and before_last(a, b):
            return FALSE
        return mk("ovf", n, a, b)

    # ------------------------------------------------------------ calls
    def do_call(self, fr, st, t):
        args = [self.operand(fr, st, o) for o in t["a"]]
        fo = t["f"]
        self.stats["calls"] += 1
        info = None
        if fo[0] == "const" and "fn" in fo[1]:
            info = fo[1]["fn"]
            res = self.call(fr, st, info, args, t)
        else:
            fv = self.operand(fr, st, fo)
            res = self.call_value(fr, st, fv, args, t["sp"])
        out = []
        root, path = None, None
        for s, v in res:
            if "t" not in t:
                # does not return
                s.ev(Ev("diverge", name=canon(info["path"]) if info else "?", span=t["sp"], fn=fr.fn.path))
                self.panics.append(s)
                continue
            root, path = self.place(fr, s, t["d"])
            s.write(root, path, v)
            out.append(("go", t["t"], s))
        return out

    def lookup(self, info):
        f = self.p.fns.get(info.get("rdef") or info["def"])
        if f is not None and f.kind in ("fn", "closure"):
            return f
        return None

    def is_opaque(self, f):
        if f.kind == "closure":
            return False
        if f.path in self.opaque or f.name in self.opaque:
            return True
        if self.opaque_pred and self.opaque_pred(f):
            return True
        if f.path in self.inline or f.name in self.inline:
            return False
        if f.trait and f.trait != "core::default::Default" and not f.trait.startswith(("lib::", "basjoofan::")):
            return True
        return False

    def call(self, fr, st, info, args, t):
        name = canon(info["path"])
        f = self.lookup(info)
        ctx = CallCtx(self, fr, info, t, name)
        full = getattr(self.stubs.get(f.path if f is not None else name), "full", None)
        if full is not None:
            return full(ctx, st, args)
        if f is not None:
            if f.path in self.stubs or self.is_opaque(f) or any(x.fn is f for x in self.stack):
                if f.derived or f.trait in ("core::clone::Clone", "core::fmt::Display", "core::fmt::Debug"):
                    m = self.models.get(name)
                    if m:
                        return m(ctx, st, args)
                return self.opaque_call(ctx, st, f.path, args, f)
            if f.kind == "closure" and len(args) == 2:
                # called through FnOnce/FnMut/Fn: the arguments come as one tuple
                tup = self.content(st, args[1])
                if tup.op == "tuple":
                    return self.call_closure(fr, st, args[0], list(tup.a), t["sp"])
            return self.run_fn(f, args, st, self.bind(fr, info, f))
        # constructors used as functions
        c = self.ctor(info["path"])
        if c is not None:
            return [(st, mk("adt", c[0], c[1], *args))]
        import models
        m = self.models.get(name)
        if m is not None:
            try:
                r = m(ctx, st, args)
            except models.NoModel:
                r = None
            if r is not None:
                return r
        return self.opaque_call(ctx, st, name, args, None)

    def ctor(self, path):
        p = path
        for _ in range(3):
            q = _gen.sub("", p)
            if q == p:
                break
            p = q
        pre, _, last = p.rpartition("::")
        a = self.p.adts.get(pre)
        if a:
            for i, v in enumerate(a["variants"]):
                if v["name"] == last:
                    return pre, i
        if p in self.p.adts and self.p.adts[p]["kind"] == "struct":
            return p, 0
        return None

    def opaque_call(self, ctx, st, name, args, f, pure=None):
        """an event; mutable references are havocked"""
        vals = [self.norm(st, a) for a in args]
        muts = []
        closures = []
        for i, a in enumerate(args):
            if a.op == "ptr" and a.a[2]:
                muts.append((i, a))
            if a.op == "closure":
                closures.append(a)
            elif a.op == "adt" or a.op == "tuple":
                for x in a.a:
                    if isinstance(x, T) and x.op == "ptr" and x.a[2]:
                        muts.append((i, x))
                    if isinstance(x, T) and x.op == "closure":
                        closures.append(x)
        # a mutable parameter passed on as it is
        at = ctx.t.get("at", []) if ctx.t else []
        for i, a in enumerate(args):
            if a.op != "ptr" and i < len(at):
                ty = ctx.fr.fn.ty(at[i])
                if ty.get("k") == "ref" and ty.get("mut"):
                    muts.append((i, mk("ptr", ("sym", a), (), True)))
        if pure is None:
            import models
            pure = not muts and not closures and not models.effectful(name, f)
        if pure:
            res = mk("call", name, *vals)
            st.ev(Ev("call", name=name, args=vals, raw=args, res=res, span=ctx.span, fn=ctx.fr.fn.path if ctx.fr else "", pure=True, rty=ctx.rty,
                     callee=f, info=ctx.info, outs=None, site=(ctx.fr.fn.key if ctx.fr else "", ctx.span), stack=tuple(x.fn.path for x in self.stack)))
            return [(st, res)]
        u = mk("uid", self.uid())
        res = mk("call", name, *(vals + [u]))
        outs = None
        if closures:
            outs = []
            np = len(self.panics)
            for c in closures:
                outs += self.closure_outcomes(st, c)
            del self.panics[np:]
        ev = Ev("call", name=name, args=vals, raw=args, res=res, span=ctx.span, fn=ctx.fr.fn.path if ctx.fr else "", pure=False, rty=ctx.rty,
                callee=f, info=ctx.info, outs=outs, site=(ctx.fr.fn.key if ctx.fr else "", ctx.span), stack=tuple(x.fn.path for x in self.stack))
        st.ev(ev)
        for i, a in muts:
            root, path = self.target(st, a)
            old = self.norm(st, st.read(root, path))
            after = getattr(self.stubs.get(name), "after", None)
            st.write(root, path, after(old, u, i) if after else mk("after", res, i, old))
        for c in closures:
            # captured variables may have been changed by the closure
            for x in c.a[1:]:
                if x.op == "ptr" and x.a[2]:
                    root, path = self.target(st, x)
                    st.write(root, path, mk("after", res, "cap", st.read(root, path)))
        if name in self.stubs:
            alts = self.stubs[name](vals, u)
            if alts is not None:
                out = []
                for v in alts:
                    s = st.fork()
                    s.trace = s.trace[0]
                    k = dict(ev.__dict__)
                    k["res"] = v
                    s.ev(Ev("call", **k))
                    out.append((s, v))
                return out
        return [(st, res)]

    def closure_outcomes(self, st, c):
        f = self.p.fns.get(c.a[0])
        if f is None:
            return []
        s = st.fork()
        base = s.trace
        args = []
        for i in range(f.argc - 1):
            u = self.uid()
            args.append(self.fresh(f, i + 2, mk("carg", u, i), ("P", "c", u, i), s))
        outs = self.call_closure(None, s, c, args, "")
        return [Path(x.events(base), x, v) for x, v in outs]

    def call_value(self, fr, st, fv, args, span):
        """call of a closure / function value with (already untupled) args"""
        v = self.content(st, fv)
        if v.op == "closure":
            return self.call_closure(fr, st, fv, args, span)
        if v.op == "fn":
            key, path = v.a
            f = self.p.fns.get(key)
            info = {"def": key, "path": path, "rdef": key, "targs": []}
            t = {"sp": span, "at": [], "a": []}
            return self.call(fr or Frame(0, DUMMY), st, info, args, t)
        ctx = CallCtx(self, fr or Frame(0, DUMMY), {"path": "callvalue", "targs": []}, {"sp": span, "at": []}, "callvalue")
        return self.opaque_call(ctx, st, "callvalue", [fv] + list(args), None, pure=False)

    def call_closure(self, fr, st, fv, args, span):
        c = self.content(st, fv)
        f = self.p.fns[c.a[0]]
        if any(x.fn is f for x in self.stack):
            ctx = CallCtx(self, fr or Frame(0, DUMMY), {"path": f.path, "targs": []}, {"sp": span, "at": []}, f.path)
            return self.opaque_call(ctx, st, f.path, list(args), f, pure=False)
        selfty = f.local_ty(1)
        if selfty["k"] == "ref":
            if fv.op == "ptr":
                root, path = self.target(st, fv)
                a0 = mk("ptr", root, path, True)
            else:
                r = ("S", self.uid())
                st.mem[r] = c
                a0 = mk("ptr", r, (), True)
        else:
            a0 = c
        return self.run_fn(f, [a0] + list(args), st)


BOXES = {"alloc::boxed::Box", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull"}


def eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        if a.op == b.op:
            return BOOL(a.a[0] == b.a[0])
    if is_const(a) and not is_const(b):
        a, b = b, a
    if a.op == "adt" and b.op == "adt" and len(a.a) == 2 and len(b.a) == 2 and a.a[0] == b.a[0]:
        return BOOL(a.a[1] == b.a[1])
    if a.op == "adt" and b.op != "adt":
        a, b = b, a
    return mk("eq", a, b)


class Frame:
    __slots__ = ("id", "fn", "targs")

    def __init__(self, id, fn):
        self.id, self.fn, self.targs = id, fn, None


class _D:
    key = path = "?"
    crate = {"tys": []}
    locals = []

    def ty(self, i):
        return {"s": "?", "k": "other"}

    def local_ty(self, i):
        return {"s": "?", "k": "other"}


DUMMY = _D()


class CallCtx:
    __slots__ = ("eng", "fr", "info", "t", "name")

    def __init__(self, eng, fr, info, t, name):
        self.eng, self.fr, self.info, self.t, self.name = eng, fr, info, t, name

    @property
    def span(self):
        return self.t.get("sp", "") if self.t else ""

    @property
    def rty(self):
        """type of the result at this call site"""
        if self.t and self.fr is not None and "dt" in self.t:
            return self.fr.fn.ty(self.t["dt"])
        return None

    def sub(self, ty):
        if ty.get("k") == "param" and getattr(self.fr, "targs", None):
            return self.fr.targs.get(ty["name"], ty)
        return ty

    def targ(self, i):
        ts = self.info.get("targs") or []
        if i < len(ts):
            return self.sub(self.fr.fn.ty(ts[i]))
        return {"s": "?", "k": "other"}

    def argty(self, i):
        at = self.t.get("at") or []
        if i < len(at):
            return self.sub(self.fr.fn.ty(at[i]))
        return {"s": "?", "k": "other"}

    def retty(self):
        if "dt" in self.t:
            return self.sub(self.fr.fn.ty(self.t["dt"]))
        return {"s": "?", "k": "other"}

    def tys(self, i):
        return self.fr.fn.crate["tys"][i]

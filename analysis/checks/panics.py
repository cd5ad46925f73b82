"""P02: no panic is reachable from a text.

The sites that may panic are taken from the MIR: overflow, bounds and division
checks, and calls of library functions that are partial.  Each is discharged on
every path that reaches it from the conditions of the path, by difference
bounds over lengths and positions, character boundaries, the shape of regular
expressions, and invariants of private fields."""
import re

import absint
import models
from run import prop
from rules import *
from checks import calls as calls_, exchange
try:
    from re import _parser as RP, _constants as RK
except ImportError:  # pragma: no cover
    import sre_parse as RP
    import sre_constants as RK

# library functions that panic for some arguments; those of the first group are
# reported by the models with what they need
SHOWN = re.compile(r"(option::Option|result::Result)::(unwrap|expect|unwrap_err|expect_err)$|ops::index::Index(Mut)?(<.*>)?>?::index(_mut)?$|str::traits::index(_mut)?$|slice::index::index(_mut)?$"
                   r"|vec::Vec::(remove|swap_remove|insert|drain|split_off)$|string::String::(insert|insert_str|replace_range|drain)$|str::split_at$")
PARTIAL = re.compile(r"^panicking::|panic_fmt|begin_panic|unwrap_failed|expect_failed|process::(exit|abort)$|hint::unreachable_unchecked|intrinsics::abort"
                     r"|slice::(split_at|split_at_mut|copy_from_slice|clone_from_slice|swap|swap_with_slice|chunks|chunks_mut|chunks_exact|rchunks|windows|rotate_left|rotate_right|copy_within|select_nth_unstable\w*|as_chunks)$"
                     r"|vec::Vec::(splice|extend_from_within)$|vec_deque::VecDeque::(swap|insert|drain|split_off|range)$|str::(split_at|split_at_mut|char_indices_at)$"
                     r"|string::String::(remove|split_off|truncate|drain)$"
                     r"|num::(abs|pow|isqrt|ilog|ilog2|ilog10|rem_euclid|div_euclid|div_ceil|next_power_of_two|next_multiple_of|from_str_radix|strict_\w+)$|num::\w*::(abs|pow)$"
                     r"|char::methods::(to_digit|from_digit)$|char::convert::from_digit$|char::from_digit$"
                     r"|cell::RefCell::(borrow|borrow_mut|replace|replace_with|swap|take)$"
                     r"|Iterator::(step_by|sum|product|array_chunks)$|cmp::Ord::clamp$|f64::clamp$|num::clamp$"
                     r"|time::Duration::(from_secs_f64|from_secs_f32|mul_f64|mul_f32|div_f64|div_f32|new)$"
                     r"|(Duration|Instant|SystemTime|DateTime\w*) as ops::arith::(Add|Sub|Mul|Div|AddAssign|SubAssign|MulAssign|DivAssign)"
                     r"|rand::.*(random_range|gen_range|random_ratio|gen_ratio|random_bool|gen_bool|choose_weighted)$"
                     r"|Layout::from_size_align_unchecked|thread::local::LocalKey::with$")
MAXLEN = 2 ** 63 - 1
WIDTH = {"u8": (0, 255), "u16": (0, 2 ** 16 - 1), "u32": (0, 2 ** 32 - 1), "u64": (0, 2 ** 64 - 1), "usize": (0, 2 ** 64 - 1), "u128": (0, 2 ** 128 - 1),
         "i8": (-128, 127), "i16": (-2 ** 15, 2 ** 15 - 1), "i32": (-2 ** 31, 2 ** 31 - 1), "i64": (-2 ** 63, 2 ** 63 - 1), "isize": (-2 ** 63, 2 ** 63 - 1),
         "i128": (-2 ** 127, 2 ** 127 - 1)}
BITS = {k: hi.bit_length() + (lo < 0) for k, (lo, hi) in WIDTH.items()}
ZERO = mk("int", 0)


# ---------------------------------------------------------------- sites
class Site:
    def __init__(self, fn, kind, what, span):
        self.fn, self.kind, self.what, self.span = fn, kind, what, span

    def __str__(self):
        return "%s in %s" % (self.what, self.fn.path)


def sites(f):
    out = []
    for b in f.blocks:
        t = b["t"]
        if t["k"] == "assert" and t["msg"] != "other":
            out.append(Site(f, "assert", t["msg"], t["sp"]))
        elif t["k"] == "call" and t["f"][0] == "const" and "fn" in t["f"][1]:
            i = t["f"][1]["fn"]
            n = absint.canon(i["path"])
            r = absint.canon(i.get("rpath") or i["path"])
            if (i.get("rdef") or i["def"]) in f.prog.fns:
                continue
            if SHOWN.search(n) or SHOWN.search(r):
                out.append(Site(f, "shown", n, t["sp"]))
            elif PARTIAL.search(n) or PARTIAL.search(r):
                out.append(Site(f, "partial", r, t["sp"]))
    return out


def callees(f):
    """keys of the local functions and closures a function mentions"""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if "fn" in x:
                out.add(x["fn"].get("rdef") or x["fn"]["def"])
            if "static" in x:
                out.add(x["static"])
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            if len(x) > 1 and x[0] == "closure" and isinstance(x[1], str):
                out.add(x[1])
            for v in x:
                walk(v)
    for b in f.blocks:
        walk(b["t"])
        walk(b["s"])
    return {k for k in out if k in f.prog.fns}


def owner(p, f):
    """the function a closure is written in"""
    while f.kind == "closure":
        k = f.key.rsplit("::", 1)[0]
        g = p.fns.get(k)
        if g is None:
            return f
        f = g
    return f


# ---------------------------------------------------------------- difference bounds
class Bounds:
    """what is known about integers on a path: x - y <= c"""

    def __init__(self, known, inv=None):
        self.e = {}
        self.bools = {}
        self.neq = []
        self.done = set()
        self.inv = inv
        for t, v in known:
            self.learn(t, v)

    def lin(self, t):
        """{atom: coefficient}, constant"""
        o = t.op
        if o == "int":
            return {}, t.a[0]
        if o in ("add", "sub") and len(t.a) == 2:
            (x, a), (y, b) = self.lin(t.a[0]), self.lin(t.a[1])
            s = 1 if o == "add" else -1
            out = dict(x)
            for k, v in y.items():
                out[k] = out.get(k, 0) + s * v
            return {k: v for k, v in out.items() if v}, a + s * b
        if o == "len":
            v = t.a[0]
            if v.op == "slice" and len(v.a) == 3:
                return self.lin(mk("sub", mk("len", v.a[0]) if v.a[2] is NONE else v.a[2], v.a[1]))
            if v.op == "push":
                return self.lin(mk("add", mk("len", v.a[0]), INT(1)))
            if v.op in ("tail", "init"):
                return self.lin(mk("sub", mk("len", v.a[0]), INT(1)))
            if v.op in ("seq", "array"):
                return {}, len(v.a)
            if v.op == "str":
                return {}, len(v.a[0].encode())
            if v.op == "reversed":
                return self.lin(mk("len", v.a[0]))
        self.axioms(t)
        return {t: 1}, 0

    def edge(self, x, y, c):
        k = (x, y)
        if k not in self.e or self.e[k] > c:
            self.e[k] = c

    def le(self, a, b, c=0):
        """learn a - b <= c"""
        x, k = self.diff(a, b)
        pos = [t for t, v in x.items() if v == 1]
        neg = [t for t, v in x.items() if v == -1]
        if len(pos) + len(neg) != len(x) or len(pos) > 1 or len(neg) > 1:
            return
        self.edge(pos[0] if pos else ZERO, neg[0] if neg else ZERO, c - k)

    def diff(self, a, b):
        (x, k), (y, m) = self.lin(a), self.lin(b)
        out = dict(x)
        for t, v in y.items():
            out[t] = out.get(t, 0) - v
        return {t: v for t, v in out.items() if v}, k - m

    def axioms(self, t):
        if t in self.done:
            return
        self.done.add(t)
        o = t.op
        if o == "len":
            self.edge(ZERO, t, 0)
            self.edge(t, ZERO, MAXLEN)
            v = t.a[0]
            if v.op == "call" and v.a[0] in ("str::trim", "str::trim_start", "str::trim_end", "str::trim_matches", "str::trim_start_matches", "str::trim_end_matches"):
                self.le(t, mk("len", v.a[1]))
            n = least(v)
            if n:
                self.edge(ZERO, t, -n)
        elif o == "count":
            self.edge(ZERO, t, 0)
        elif o == "fld" and t.a[1:] == (1, 0) and t.a[0].op == "call":
            g = t.a[0]
            if g.a[0] in ("str::find", "str::rfind") and len(g.a) == 3:
                self.edge(ZERO, t, 0)
                n = needle(g.a[2])
                self.le(t, mk("len", g.a[1]), -(len(n.encode()) if n is not None else 0))
            elif g.a[0].rsplit("::", 1)[-1] in ("position", "rposition") and len(g.a) >= 2:
                self.edge(ZERO, t, 0)
        elif o == "cast" and t.a[0] in WIDTH:
            lo, hi = WIDTH[t.a[0]]
            self.edge(ZERO, t, -lo)
            self.edge(t, ZERO, hi)
            x = t.a[1]
            if isinstance(x, T) and self.holds(INT(lo), x) and self.holds(x, INT(hi)):
                # a value that fits is kept
                self.le(t, x)
                self.le(x, t)
        elif o in ("max", "min") and len(t.a) == 2:
            for x in t.a:
                if o == "max":
                    self.le(x, t)
                else:
                    self.le(t, x)
        elif o == "bitand" and any(x.op == "int" and x.a[0] >= 0 for x in t.a):
            self.edge(ZERO, t, 0)
            self.edge(t, ZERO, min(x.a[0] for x in t.a if x.op == "int"))
        elif o == "saturating_sub":
            self.edge(ZERO, t, 0)
            self.le(t, t.a[0])
        elif o == "rem" and self.holds(ZERO, t.a[0]) and self.holds(INT(1), t.a[1]):
            self.edge(ZERO, t, 0)
            self.le(t, t.a[1], -1)
        elif o == "div" and self.holds(ZERO, t.a[0]) and self.holds(INT(1), t.a[1]):
            self.edge(ZERO, t, 0)
            self.le(t, t.a[0])

    def typed(self, t, ty):
        if ty in WIDTH:
            x, k = self.lin(t)
            if len(x) == 1 and list(x.values()) == [1]:
                y = list(x)[0]
                self.edge(ZERO, y, k - WIDTH[ty][0])
                self.edge(y, ZERO, WIDTH[ty][1] - k)

    def learn(self, t, v):
        """a condition and its value"""
        if not isinstance(v, bool):
            return
        self.bools[t] = v
        if t.op == "not":
            return self.learn(t.a[0], not v)
        if t.op in ("lt", "le"):
            a, b = t.a
            if v:
                self.le(a, b, -1 if t.op == "lt" else 0)
            else:
                self.le(b, a, 0 if t.op == "lt" else -1)
        elif t.op == "eq" and len(t.a) == 2:
            a, b = t.a
            if v:
                self.le(a, b)
                self.le(b, a)
                if b.op == "str":
                    self.le(INT(len(b.a[0].encode())), mk("len", a))
            elif not any(x.op in ("str", "adt", "bool", "char") for x in t.a):
                self.neq.append((a, b))
                if b.op == "str" and b.a[0] == "":
                    self.le(INT(1), mk("len", a))
            elif b.op == "str" and b.a[0] == "":
                self.le(INT(1), mk("len", a))
        elif t.op == "call" and t.a[0] in ("str::starts_with", "str::ends_with") and v and len(t.a) == 3:
            n = needle(t.a[2])
            if n is not None:
                self.le(INT(len(n.encode())), mk("len", t.a[1]))
        elif t.op == "call" and t.a[0].endswith("is_char_boundary") and v and len(t.a) == 3:
            self.le(t.a[2], mk("len", t.a[1]))

    def path(self, x, y):
        """the least c known with x - y <= c"""
        dist = {x: 0}
        for _ in range(len(self.e) + 1):
            ch = False
            for (a, b), c in list(self.e.items()):
                if a in dist and dist[a] + c < dist.get(b, float("inf")):
                    dist[b] = dist[a] + c
                    ch = True
            if not ch:
                break
            if _ > 40:
                break
        return dist.get(y)

    def holds(self, a, b, c=0):
        """is a - b <= c?"""
        x, k = self.diff(a, b)
        if not x:
            return k <= c
        pos = [t for t, v in x.items() if v == 1]
        neg = [t for t, v in x.items() if v == -1]
        if len(pos) + len(neg) != len(x):
            return False
        for i, j in self.neq:
            # i <= j and i != j is i < j
            for m, n in ((i, j), (j, i)):
                if (m, n) not in self.done:
                    y, h = self.diff(m, n)
                    p = [t for t, v in y.items() if v == 1]
                    q = [t for t, v in y.items() if v == -1]
                    if len(p) + len(q) == len(y) and len(p) <= 1 and len(q) <= 1 and y:
                        d = self.path(p[0] if p else ZERO, q[0] if q else ZERO)
                        if d is not None and d + h <= 0:
                            self.done.add((m, n))
                            self.le(m, n, -1)
        if len(pos) <= 1 and len(neg) <= 1:
            d = self.path(pos[0] if pos else ZERO, neg[0] if neg else ZERO)
            return d is not None and d + k <= c
        # a sum: each part by itself
        tot = k
        for t in pos:
            d = self.path(t, ZERO)
            if d is None:
                return False
            tot += d
        for t in neg:
            d = self.path(ZERO, t)
            if d is None:
                return False
            tot += d
        return tot <= c

    def contradiction(self):
        """can the path not be taken?"""
        ks = {x for k in self.e for x in k}
        for x in ks:
            d = self.path(x, x)
            if d is not None and d < 0:
                return True
        return False


def needle(t):
    if t.op == "str":
        return t.a[0]
    if t.op == "char":
        return t.a[0] if isinstance(t.a[0], str) else chr(t.a[0])
    return None


def pattern(t):
    """the regular expression a match is one of, if t is the text of a match"""
    if t.op == "call" and t.a[0].endswith("Match::as_str"):
        for y in subterms(t.a[1]):
            m = calls_.match_of(y)
            if m is not None:
                return m[0]
    return None


def matches(t):
    if t.op == "reversed":
        t = t.a[0]
    return calls_.match_of(t)


def group(s, i):
    """does group i take part in every match of which s are the groups?"""
    if s.op != "each" or i.op != "int" or not called(s.a[1].a[0] if s.a[1].op == "reversed" else s.a[1], "Regex::captures_iter"):
        return False
    m = matches(s.a[1])
    if m is None:
        return False
    try:
        xs = RP.parse(m[0])
    except re.error:
        return False

    def always(xs):
        out = set()
        for op, av in xs:
            if op is RK.SUBPATTERN:
                out |= ({av[0]} if av[0] is not None else set()) | always(av[-1])
            elif op in (RK.MAX_REPEAT, RK.MIN_REPEAT) and av[0] >= 1:
                out |= always(av[2])
        return out
    return i.a[0] == 0 or i.a[0] in always(xs)


def edges(pat):
    """(characters every match begins with, ends with, least length) that are one byte each"""
    try:
        xs = list(RP.parse(pat))
    except re.error:
        return 0, 0, 0

    def lead(xs):
        n = 0
        for op, av in xs:
            if op is RK.LITERAL and av < 128:
                n += 1
            else:
                break
        return n
    lo = sum(RP.SubPattern(RP.State(), [x]).getwidth()[0] for x in xs)
    return lead(xs), lead(xs[::-1]), lo


def least(v):
    """a lower bound of the length of a text"""
    p = pattern(v)
    if p is not None:
        return edges(p)[2]
    return 0


def boundary(b, s, i, depth=0):
    """is position i between two characters of text s?"""
    if depth > 4:
        return False
    x, k = b.lin(i)
    if not x and k == 0:
        return True
    if b.holds(i, mk("len", s)) and b.holds(mk("len", s), i):
        return True
    if b.bools.get(mk("call", "str::is_char_boundary", s, i)):
        return True
    if not x:
        for t, v in b.bools.items():
            if v and t.op == "call" and t.a[0] == "str::starts_with" and t.a[1] is s:
                n = needle(t.a[2])
                if n is not None and cut(n, k):
                    return True
            if v and t.op == "eq" and t.a[0] is s and t.a[1].op == "str" and cut(t.a[1].a[0], k):
                return True
        p = pattern(s)
        if p is not None and 0 <= k <= edges(p)[0]:
            return True
    # from the end
    (y, m) = b.diff(mk("len", s), i)
    if not y:
        p = pattern(s)
        if p is not None and 0 <= m <= edges(p)[1]:
            return True
        for t, v in b.bools.items():
            if v and t.op == "call" and t.a[0] == "str::ends_with" and t.a[1] is s:
                n = needle(t.a[2])
                if n is not None and cut(n, len(n.encode()) - m):
                    return True
    # a match found in the text, or behind it
    for t in list(x):
        if t.op == "fld" and t.a[1:] == (1, 0) and t.a[0].op == "call" and t.a[0].a[0] in ("str::find", "str::rfind") and x.get(t) == 1:
            rest = {u: v for u, v in x.items() if u is not t}
            g, n = t.a[0], needle(t.a[0].a[2])
            for off in [0] + ([len(n[:j].encode()) for j in range(1, len(n) + 1)] if n else []):
                if g.a[1] is s and not rest and k == off:
                    return True
                if g.a[1].op == "slice" and g.a[1].a[0] is s:
                    lo = g.a[1].a[1]
                    if not b.diff(i, mk("add", mk("add", lo, t), INT(off)))[0] and b.diff(i, mk("add", mk("add", lo, t), INT(off)))[1] == 0 and boundary(b, s, lo, depth + 1):
                        return True
    return False


def cut(n, k):
    """is k the length of a prefix of n?"""
    return k in [len(n[:j].encode()) for j in range(len(n) + 1)]


# ---------------------------------------------------------------- discharge
class Visit:
    """an event at a site: what was known, and where in which path"""

    def __init__(self, ev, known, path, chain):
        self.ev, self.known, self.path, self.chain = ev, known, path, chain


def visits(path):
    """every event that may panic with the conditions before it"""
    def walk(p, known, chain):
        known = list(known)
        for x in p.events:
            if x.kind == "cond":
                if isinstance(x.val, bool):
                    v = x.val == bool(x.eq)
                else:
                    v = None
                    if isinstance(x.val, int) and x.term.op != "discr":
                        known.append((mk("eq", x.term, INT(x.val)), bool(x.eq), x))
                known.append((x.term, v, x))
            elif x.kind in ("assert", "maypanic"):
                yield Visit(x, list(known), p, chain)
            elif x.kind == "diverge" and not re.search(r"(Option|Result)::(unwrap|expect|unwrap_err|expect_err)$", x.name):
                yield Visit(x, list(known), p, chain)
            elif x.kind == "loop":
                for q in x.iters:
                    yield from walk(q, known, chain + [(p, x, q)])
            elif x.kind == "spawn" or x.kind == "call" and x.outs:
                for q in x.outs:
                    yield from walk(q, known, chain)
    yield from walk(path, [], [])


class Prover:
    def __init__(self, c, dom):
        self.c, self.dom = c, dom
        self.invs = {}
        self.loops = {}

    def bounds(self, v):
        known = []
        canon = [info(x).canon for p, x, q in v.chain]
        for t, val, e in v.known:
            known.append((t, val))
            for f in canon:
                u = f(t)
                if u is not t:
                    known.append((u, val))
        b = Bounds(known)
        for p, L, q in v.chain:
            for ph, v0 in L.init.items():
                ups = [z.updates[ph] for z in L.iters]
                if ups and all(u is ph or u.op == "add" and u.a[0] is ph and u.a[1].op == "int" and u.a[1].a[0] >= 0 for u in ups):
                    b.le(v0, ph)
            # a round that has its member is numbered below the number of members
            li = info(L)
            for ph, v0 in li.counters:
                if v0.op != "int":
                    continue
                for t, val in list(known):
                    if t.op == "left" and t.a[0] == L.id and val is True:
                        for coll in {t.a[1], close_path(p, t.a[1])}:
                            for n in {mk("len", coll), close_path(p, mk("len", coll))}:
                                b.le(mk("count", L.id, v0), n, v0.a[0] - 1)
        return b

    def canon(self, v, t):
        for p, x, q in v.chain:
            t = info(x).canon(t)
        # an iteration that ends half way stands by itself
        for i in {x.a[0] for x in subterms(t) if x.op == "phi"}:
            if i in self.loops:
                t = info(self.loops[i]).canon(t)
        return t

    def facts(self, v, *ts):
        """bounds, with the terms of interest in canonical form"""
        b = self.bounds(v)
        ts = [self.canon(v, t) for t in ts]
        for t in ts:
            for y in subterms(t):
                if y.op == "fld" and len(y.a) == 3 and y.a[1] is None:
                    for a, ks in self.partners(v, y):
                        if self.holds_always(a, ks, y.a[2]):
                            b.edge(ZERO, y, 0)
                            b.le(y, mk("len", proj(y.a[0], (None, ks))), -1)
        return (b,) + tuple(ts)

    def partners(self, v, y):
        """(type, list field) a position field may be bounded by"""
        for a, adt in self.c.p.adts.items():
            if adt.get("local") and len(adt["variants"]) == 1 and self.typed_as(v, y.a[0], a):
                fs = adt["variants"][0]["fields"]
                if y.a[2] < len(fs) and fs[y.a[2]]["tys"] == "usize":
                    for k, f in enumerate(fs):
                        if re.match(r"alloc::vec::Vec<|std::vec::Vec<|alloc::string::String|&.*\[", f["tys"]):
                            yield a, k

    def ok(self, v):
        x = v.ev
        if x.kind == "diverge":
            return self.impossible(v)
        if x.kind == "assert":
            return self.asserted(v)
        w = x.what
        if w == "index":
            return self.index(v)
        if w == "slice":
            return self.slice(v)
        if w == "unwrap":
            return self.unwrap(v)
        if w == "replace_range":
            return self.replace(v)
        if w.startswith("time_"):
            return self.time(v)
        return self.impossible(v)

    def asserted(self, v):
        x = v.ev
        m = x.msg
        if x.cond.op == "bool" and bool(x.cond.a[0]) == bool(x.exp):
            return True
        b, *ops = self.facts(v, *x.ops)
        for t, ty in zip(ops, x.tys):
            b.typed(t, ty)
        ty = x.tys[0] if x.tys else "?"
        if m == "bounds":
            return self.within(v, b, ops[1], ops[0]) if len(ops) == 2 else False
        if m in ("divzero", "remzero"):
            for y in v.path.events:
                if y.kind == "assert":
                    for t, ty in zip(y.ops, y.tys):
                        b.typed(self.canon(v, t), ty)
            return False if not ops else self.nonzero(v, b, x)
        if m.startswith("overflow:") and ty in WIDTH:
            lo, hi = WIDTH[ty]
            k = m.split(":")[1]
            if k == "Add":
                return b.holds(mk("add", *ops), INT(0), hi) and (lo == 0 or b.holds(INT(0), mk("add", *ops), -lo))
            if k == "Sub":
                s = mk("sub", *ops)
                return b.holds(ops[1], ops[0]) if lo == 0 else b.holds(s, INT(0), hi) and b.holds(INT(0), s, -lo)
            if k in ("Shl", "Shr"):
                return b.holds(ops[1], INT(0), BITS[ty] - 1) and b.holds(INT(0), ops[1])
            if k == "Mul" and all(o.op == "int" for o in ops):
                return lo <= ops[0].a[0] * ops[1].a[0] <= hi
            if k == "Mul":
                hs = []
                for o in ops:
                    if not b.holds(INT(0), o):
                        return False
                    y, h = b.lin(o)
                    d = b.path(list(y)[0], ZERO) if len(y) == 1 and list(y.values()) == [1] else 0 if not y else None
                    if d is None:
                        return False
                    hs.append(d + h)
                return hs[0] * hs[1] <= hi
            if k == "Neg":
                return lo < 0 and b.holds(INT(lo + 1), ops[0])
        return b.contradiction()

    def nonzero(self, v, b, x):
        # the divisor is what the condition compares with zero
        t = self.canon(v, x.cond)
        if t.op == "bool":
            return t.a[0] == x.exp
        if t.op == "eq":
            for d, z in (t.a, t.a[::-1]):
                if z is ZERO:
                    return b.holds(INT(1), d) or b.holds(d, INT(-1)) or any((i is d and j is z) or (j is d and i is z) for i, j in b.neq)
        return b.contradiction()

    def within(self, v, b, i, n):
        return b.holds(INT(0), i) and b.holds(i, n, -1) or b.contradiction()

    def index(self, v):
        b, s, i = self.facts(v, *v.ev.args)
        fn = v.ev.what
        b.typed(i, "usize")
        limit = mk("len", s)
        if self.invariant(v, s, i) or group(s, i):
            return True
        op = getattr(v.ev, "op", "")
        if op.endswith(("::insert", "::insert_str")):
            return (b.holds(i, limit) and ("String" not in op or boundary(b, s, i))) or b.contradiction()
        return self.within(v, b, i, limit)

    def slice(self, v):
        b, s, lo, hi = self.facts(v, *v.ev.args)
        b.typed(lo, "usize")
        n = mk("len", s)
        if self.between(v, s, lo, hi):
            return True
        if hi is NONE:
            hi = n
        else:
            b.typed(hi, "usize")
        if not (b.holds(lo, hi) and b.holds(hi, n)):
            return b.contradiction()
        if re.search(r"\bstr\b|String", v.ev.ty):
            return boundary(b, s, lo) and boundary(b, s, hi)
        return True

    def unwrap(self, v):
        t = self.canon(v, v.ev.args[0])
        if t.op == "call" and t.a[0].endswith("Regex::new") and t.a[1].op == "str":
            try:
                RP.parse(t.a[1].a[0])
                return not re.search(r"\(\?[=!<]|\\[1-9]", t.a[1].a[0])
            except re.error:
                return False
        if t.op == "call" and t.a[0].endswith("Captures::get") and group(t.a[1], t.a[2]):
            return True
        return self.impossible(v)

    def between(self, v, s, lo, hi):
        """are lo and hi (or the end) positions in s where matches start or end, in order?"""
        lo, hi = [x if x is NONE else simp(close_path(v.path, x)) for x in (lo, hi)]

        def match(t, which):
            """the match in s that starts or ends at t"""
            if t.op == "call" and t.a[0].endswith("Match::" + which):
                m = t.a[1]
                if m.op == "fld" and m.a[0].op == "call" and m.a[0].a[0].endswith("Captures::get") and m.a[0].a[2] is ZERO:
                    m = m.a[0].a[1]
                if m.op == "each" and matches(m.a[1]) is not None and matches(m.a[1])[1] is s:
                    return m
            return None

        def behind(t):
            """the loop over the matches in s, if t is where the match before ends, or 0"""
            if t.op == "lastof":
                v0, coll, lid, u = t.a
                m = match(u, "end")
                return (lid, coll) if v0 is ZERO and m is not None and m.a[0] == lid else None
            if t.op == "phi":
                for p, L, q in v.chain:
                    if t in L.init and L.init[t] is ZERO:
                        ms = {match(info(L).canon(close_path(z, z.updates[t], info(L))), "end") for z in L.iters}
                        if len(ms) == 1 and None not in ms and list(ms)[0].a[0] == L.id:
                            return (L.id, list(ms)[0].a[1])
            return None
        start, end = match(lo, "start"), None if hi is NONE else match(hi, "end")
        if hi is NONE:
            return behind(lo) is not None or start is not None or match(lo, "end") is not None
        if start is not None and start is end:
            return True
        m = match(hi, "start")
        if m is not None and m.a[1].op != "reversed":
            b = behind(lo)
            return lo is ZERO or b is not None and b == (m.a[0], m.a[1])
        return lo is ZERO and end is not None

    def impossible(self, v):
        """do the conditions contradict each other?"""
        return self.facts(v, *[t for t, val, e in v.known if isinstance(val, bool)])[0].contradiction()

    def replace(self, v):
        """a range of matches in the original text, replaced from the last to the first"""
        s, r = v.ev.args
        if v.chain:
            p, L, q = v.chain[-1]
            if s in L.init:
                t = close_path(p, s)
                if t.op == "splice":
                    v0, coll, lid, alts = t.a
                    first = coll.a[0] if coll.op == "zip" else coll
                    found = first.a[0] if first.op == "reversed" else None
                    m = mk("each", lid, first)
                    return found is not None and found.op == "call" and found.a[0].endswith(("Regex::find_iter", "Regex::captures_iter")) and found.a[2] is v0 and all(a is None or calls_.is_range(a[0], m) for cs, a in alts)
        b = self.bounds(v)
        if r.op == "adt" and len(r.a) == 4 and r.a[0].endswith("range::Range"):
            lo, hi = self.canon(v, r.a[2]), self.canon(v, r.a[3])
            s = self.canon(v, s)
            return b.holds(lo, hi) and b.holds(hi, mk("len", s)) and boundary(b, s, lo) and boundary(b, s, hi)
        return b.contradiction()

    def time(self, v):
        """differences of durations: decided on the exchange as a whole"""
        k = self.c.cache
        if "p02 time" not in k:
            good, bad = set(), set()
            x = exchange.Exchange(self.c)
            for p in x.ps:
                L = exchange.Linear(p)
                for y in all_events(p):
                    if y.kind == "maypanic" and y.what.startswith("time_"):
                        a, b = y.args
                        g = None
                        if not (a.op == "call" and y.what == "time_add"):
                            g = L.gaps(mk("since" if a.op == "call" and a in L.at else "dsub" if y.what == "time_sub" else "dadd", a, b))
                        (good if g is not None and all(n >= 0 for n in g.values()) else bad).add((y.fn, y.span))
            k["p02 time"] = good - bad
        return (v.ev.fn, v.ev.span) in k["p02 time"]

    # ---- invariants of private fields
    def invariant(self, v, s, i):
        """an index field that always lies within a vector field of the same value"""
        for a in self.c.p.adts:
            adt = self.c.p.adts[a]
            if not adt.get("local") or len(adt["variants"]) != 1:
                continue
            n = len(adt["variants"][0]["fields"])
            for ks in range(n):
                for ki in range(n):
                    if ks != ki and s.op == "fld" and i.op == "fld" and s.a[0] is i.a[0] and s.a[1:] == (None, ks) and i.a[1:] == (None, ki) and self.typed_as(v, s.a[0], a):
                        return self.holds_always(a, ks, ki)
        return False

    def typed_as(self, v, t, adt):
        """is t (the pointee of) a parameter of this type in the function under analysis?"""
        while t.op == "after":
            t = t.a[2]
        if t.op != "param" or not isinstance(t.a[0], int):
            return False
        f = self.now
        ty = f.local_ty(t.a[0])
        while ty.get("k") == "ref" and ty.get("args"):
            ty = f.ty(ty["args"][0])
        return ty.get("adt") == adt

    def holds_always(self, a, ks, ki):
        k = (a, ks, ki)
        if k not in self.invs:
            self.invs[k] = True  # induction
            self.invs[k] = self.check_invariant(a, ks, ki)
        return self.invs[k]

    def check_invariant(self, a, ks, ki):
        save = self.now
        try:
            makers, writers = set(), set()
            for f in self.c.p.local_fns(("fn", "closure")):
                for b in f.blocks:
                    for s in b["s"]:
                        if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == a:
                            makers.add(owner(self.c.p, f).key)
                for x, i, span in calls_.field_writes(f, a):
                    if x == a and i in (ks, ki):
                        writers.add(owner(self.c.p, f).key)
            for key in makers | writers:
                f = self.c.p.fns[key]
                if not self.keeps(f, a, ks, ki, key in makers):
                    return False
            return True
        finally:
            self.now = save

    def keeps(self, f, a, ks, ki, maker):
        inl = set()
        for _ in range(6):
            more = set()
            good = True
            e, ps = run(self.c, self.dom, f, inl)
            self.now = f
            for p in ps:
                if p.kind != "ret":
                    continue
                vals = [y for y in subterms(e.norm(p.st, p.val)) if y.op == "adt" and y.a[0] == a]
                start = {}
                for i in range(1, f.argc + 1):
                    ty = f.local_ty(i)
                    if ty.get("k") == "ref" and ty.get("mut") and ty.get("args") and f.ty(ty["args"][0]).get("adt") == a:
                        x = e.norm(p.st, p.st.mem[("P", i)])
                        vals.append(x)
                        start[x] = mk("param", i, f.locals[i].get("name", ""))
                known = [(t.term, t.val == bool(t.eq)) for t in conds(p) if isinstance(t.val, bool)]
                for x in vals:
                    s, i = proj(x, (None, ks)), proj(x, (None, ki))
                    if self.whole(x, start.get(x)) or start.get(x) is not None and s is proj(start[x], (None, ks)) and i is proj(start[x], (None, ki)):
                        continue
                    b = Bounds(known)
                    if start.get(x) is not None:
                        s0, i0 = proj(start[x], (None, ks)), proj(start[x], (None, ki))
                        b.le(i0, mk("len", s0), -1)
                        b.edge(ZERO, i0, 0)
                    if not (b.holds(INT(0), i) and b.holds(i, mk("len", s), -1)) and not b.contradiction():
                        good = False
                        more |= opaque_locals(self.c.p, [s, i]) - inl
            if good:
                return True
            if not more:
                return False
            inl |= more
        return False

    def whole(self, x, start):
        """the value as a call left it"""
        while x.op == "after":
            x = x.a[2]
        return x is start


def opaque_locals(p, ts):
    """paths of local functions whose results occur in the terms"""
    out = set()
    for t in ts:
        for y in subterms(t):
            if y.op == "call" and y.a[0] in p.by_path:
                out.add(y.a[0])
    return out


def run(c, dom, f, inl=()):
    k = ("p02 run", f.key, tuple(sorted(inl)))
    if k not in c.cache:
        if f.kind == "static":
            # computed when first used, by a closure that captures nothing
            gs = [g for g in map(c.p.fns.get, callees(f)) if g.kind == "closure" and not g.upvars]
            f = gs[0] if len(gs) == 1 else f
        e, ps = c.run(f, opaque={g.path for g in dom if g is not f and g.kind == "fn"} - set(inl))
        c.cache[k] = (e, ps)
    return c.cache[k]


# ---------------------------------------------------------------- P02
def domain(c):
    """functions of the interpreter: what the parser, the evaluator and the trait
    implementations of the library reach"""
    p = c.p
    lib = [f for f in p.fns.values() if f.prog is p and f.crate is p.crates["lib"]]
    roots = [f for f in lib if f.trait or f.path in ("lib::parser::Parser::new", "lib::parser::Parser::parse", "lib::evaluator::eval_block")]
    seen, work = set(), [f.key for f in roots]
    while work:
        k = work.pop()
        if k in seen:
            continue
        seen.add(k)
        work += callees(p.fns[k])
    return [f for f in lib if f.key in seen]


@prop("P02", floor=20, technique="inventory of the partial operations in the MIR, each discharged on all paths that reach it by difference bounds, character boundaries, pattern shapes and field invariants",
      assumptions=["writing to standard output succeeds", "threads can be started", "library functions not known to be partial are total", "no text or collection is longer than isize::MAX"],
      explain="every overflow, bounds and division check and every call of a partial library function that the interpreter can reach is a site")
def p02(c):
    dom = domain(c)
    names = {f.path for f in dom}
    for n in ("lib::parser::Parser::parse", "lib::evaluator::eval_block"):
        if n not in names:
            raise Missing(n)
    P = Prover(c, dom)
    inv = {}
    for f in dom:
        for s in sites(f):
            inv.setdefault(owner(c.p, f).key, []).append(s)
    c.ob(len(dom) >= 60, "domain", "functions of the interpreter: %d" % len(dom), "lib")
    total = 0
    for f in dom:
        n = 0
        for b in f.blocks:
            if b["t"]["k"] == "call":
                n += 1
        total += n
    c.note("%d calls in %d functions were classified" % (total, len(dom)))
    for key, ss in sorted(inv.items()):
        decide(c, P, dom, c.p.fns[key], ss)


def decide(c, P, dom, f, ss):
    open_ = None
    for s in ss:
        if s.kind == "partial" and not s.what.startswith(("panicking::",)) and "as ops::arith" not in s.what and "panic_fmt" not in s.what:
            c.ob(False, "partial", "%s is never called, or only with arguments it is defined for" % s.what, "%s (%s)" % (s.fn.path, s.span))
    left = settle(c, P, dom, f, ss, frozenset(), 0)
    for s in ss:
        if s.kind == "partial" and not s.what.startswith(("panicking::",)) and "as ops::arith" not in s.what and "panic_fmt" not in s.what:
            continue
        k = (s.fn.path, s.span)
        c.ob(k not in left, "%s %s" % (s.fn.path, s.what), "%s cannot fail%s" % (s.what, ": " + left[k] if k in left else ""), "%s (%s)" % (s.fn.path, s.span))


def settle(c, P, dom, f, ss, inl, depth):
    """the sites of f that are not discharged: {(function, line): why}"""
    spots = {(s.fn.path, s.span) for s in ss}
    left, tried = {}, False
    for _ in range(8):
        new, more, wide = {}, set(), set()
        try:
            e, ps = run(c, dom, f, inl)
        except absint.Limit:
            if not tried:
                left = {k: "not analysed: too many paths" for k in spots}
            break
        tried, left = True, new
        P.now = f
        P.loops = e.loops
        reach = set(e.stats["functions"])
        for p in ps:
            for v in visits(p):
                k = (v.ev.fn, v.ev.span)
                if k not in spots or k in left:
                    continue
                if not P.ok(v):
                    ts = v.ev.args if v.ev.kind == "maypanic" else v.ev.ops if v.ev.kind == "assert" else []
                    left[k] = "%s with %s" % (v.ev.what if v.ev.kind == "maypanic" else v.ev.msg if v.ev.kind == "assert" else v.ev.name, ", ".join(show(t, 5) for t in ts))
                    more |= opaque_locals(c.p, ts) - set(inl)
                    wide |= opaque_locals(c.p, [t for t, val, x in v.known]) - set(inl)
        for s in ss:
            if s.fn.path not in reach:
                left.setdefault((s.fn.path, s.span), "the closure is not called by the function that makes it")
        more = more or wide
        if not left or not more:
            break
        inl = frozenset(set(inl) | more)
    if not left or depth >= 2:
        return left
    # in the contexts it is called from
    callers = [g for g in dom if f.key in callees(g)]
    own = {owner(c.p, g).key for g in callers}
    if not own or f.trait or f.key in own:
        return left
    rest = {}
    ss2 = [s for s in ss if (s.fn.path, s.span) in left]
    for k in own:
        h = c.p.fns[k]
        for s, why in settle(c, P, dom, h, ss2, frozenset({f.path}) | inl, depth + 1).items():
            rest[s] = left.get(s, why)
        # every closure that calls it must have been followed
        try:
            seen = set(run(c, dom, h, frozenset({f.path}) | inl)[0].stats["functions"])
        except absint.Limit:
            return left
        if any(g.key != k and owner(c.p, g).key == k and g.path not in seen for g in callers):
            return left
    return rest


# ---------------------------------------------------------------- P33
SYSTEM = re.compile(r"(^|::)(fs::|File::|current_dir)")


def refused(v, read):
    """the failure follows the refusal of a system call: the source cannot be read, the record
    file cannot be created, the current directory does not exist"""
    x = v.ev
    system = lambda t: any(y.op == "call" and (y.a[0] == read or SYSTEM.search(y.a[0])) for y in subterms(t))
    if x.kind == "maypanic" and x.what == "unwrap" and x.args:
        return system(x.args[0])
    # the condition decided last is the failure of the call
    for t, val, e in reversed(v.known):
        if t.op == "discr":
            return t.a[0].op == "call" and system(t.a[0]) and e.val == 1
    return False


@prop("P33", floor=6, technique="inventory of the partial operations in the MIR of the command, the statistics and the record writer, each discharged on every path that reaches it or shown to follow a refused system call",
      assumptions=["no count, sum or size reaches the limit of its type", "threads can be started and standard output can be written", "library functions not known to be partial are total"],
      explain="every overflow, bounds and division check and every call of a partial library function outside the interpreter is a site; a failure to read the source or to create a record file is announced")
def p33(c):
    from . import command
    C = command.Command(c)
    P = Prover(c, [f for f in c.p.fns.values() if f.prog is c.p])
    inside = {f.key for f in domain(c)}
    rest = [f for f in c.p.fns.values() if f.prog is c.p and f.key not in inside]
    cmd = [f for f in rest if f.path.startswith("basjoofan::")]
    lib = [f for f in rest if f.crate is c.p.crates["lib"]]
    c.ob(len(cmd) >= 5 and len(lib) >= 10, "domain", "functions of the command: %d, of the library outside the interpreter: %d" % (len(cmd), len(lib)), C.where)
    counts = lambda s: s.kind == "assert" and s.what in ("overflow:Add", "overflow:Mul")
    # the command, in the runs of its main function
    spots = {}
    for f in cmd:
        for s in sites(f):
            spots.setdefault((s.fn.path, s.span), []).append(s)
    P.now, P.loops = C.main, C.e.loops
    seen, left = {}, {}
    for p in C.ps:
        for v in visits(p):
            k = (v.ev.fn, v.ev.span)
            if k not in spots:
                continue
            seen[k] = seen.get(k, 0) + 1
            if k in left or v.ev.kind == "assert" and v.ev.msg in ("overflow:Add", "overflow:Mul"):
                continue
            if not P.ok(v) and not refused(v, C.read):
                left[k] = ", ".join(map(show, v.ev.args if v.ev.kind == "maypanic" else v.ev.ops if v.ev.kind == "assert" else []))
    reach = set(C.e.stats["functions"])
    for k, ss in sorted(spots.items()):
        for s in ss:
            if counts(s):
                continue
            if k in seen or s.fn.path in reach:
                c.ob(k not in left, "%s %s" % (s.fn.path, s.what), "%s cannot fail unless a system call is refused%s" % (s.what, ": " + left[k] if k in left else ""), "%s (%s)" % k)
            else:
                settled(c, P, cmd, s)
    inv = {}
    for f in lib:
        for s in sites(f):
            if not counts(s):
                inv.setdefault(owner(c.p, f).key, []).append(s)
    for key, ss in sorted(inv.items()):
        decide(c, P, lib, c.p.fns[key], ss)


def settled(c, P, dom, s):
    decide(c, P, dom, owner(c.p, s.fn), [s])

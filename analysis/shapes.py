"""Abstract texts: sequences of literal pieces and pieces of unknown content of
which it is known what they do not contain.  A set of such shapes partitions
all texts; searching, splitting, slicing and trimming are exact on them, so the
summary of a text function can be decided per shape, however the function finds
its way through the text."""
from absint import mk, T, OPTION, show

WS = " \t\r\n"


class Unknown(Exception):
    pass


class Atom:
    """a piece of unknown content
    no: characters or texts it does not contain; blank: True (white space only),
    False (has something else) or None; word: no white space and not empty;
    neq: texts it is not; eq_ci: lower-cased text it equals without regard to case"""

    def __init__(self, name, no=(), blank=None, word=False, neq=(), starts=None, notstarts=(), ci=None, ci_neq=()):
        self.name, self.no, self.blank, self.word, self.neq = name, set(no), blank, word, set(neq)
        self.notstarts = set(notstarts)
        self.ci, self.ci_neq = ci, set(ci_neq)
        if word:
            self.blank = False
            self.no |= set(WS)

    def lacks(self, pat):
        return pat in self.no or any(ch in self.no for ch in pat) or self.blank is True and any(not ch.isspace() for ch in pat)


class Text:
    """pieces: str or (Atom, trimmed left, trimmed right)"""

    def __init__(self, *pieces):
        out = []
        for p in pieces:
            if isinstance(p, Atom):
                p = (p, p.word, p.word)
            if p == "":
                continue
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        self.p = tuple(out)

    def key(self):
        return tuple(x if isinstance(x, str) else (x[0].name, x[1], x[2]) for x in self.p)

    def __eq__(self, o):
        return isinstance(o, Text) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return " ".join(repr(x) if isinstance(x, str) else x[0].name + (".trimmed" if x[1] and x[2] and not x[0].word else "") for x in self.p) or "''"

    # ---- facts
    def literal(self):
        if not self.p:
            return ""
        return self.p[0] if len(self.p) == 1 and isinstance(self.p[0], str) else None

    def empty(self):
        if not self.p:
            return True
        for x in self.p:
            if isinstance(x, str) or x[0].blank is False:
                return False
            if x[0].blank is True and x[1] and x[2]:
                continue
        return None

    def length(self):
        n, syms = 0, []
        for x in self.p:
            if isinstance(x, str):
                n += len(x)
            else:
                syms.append((x[0].name, x[1], x[2]))
        r = Num(n, syms)
        r.low += sum(1 for x in self.p if not isinstance(x, str) and x[0].blank is False)
        return r

    def find(self, pat, last=False):
        """position of the first (last) occurrence, None if there is none"""
        if len(pat) == 0:
            raise Unknown("empty pattern")
        ps = self.p
        def over(i):
            """an occurrence over the boundary after piece i"""
            for k in range(1, len(pat)):
                if i + 1 < len(ps) and self.may_end(ps[i], pat[:k]) and self.may_start(ps[i + 1], pat[k:]):
                    raise Unknown("the text may contain %r over a boundary" % pat)
        for i in (reversed(range(len(ps))) if last else range(len(ps))):
            if last:
                over(i)
            x = ps[i]
            if isinstance(x, str):
                j = x.rfind(pat) if last else x.find(pat)
                if j >= 0:
                    return Text(*ps[:i]).length() + Num(j), (i, j)
            elif not x[0].lacks(pat):
                raise Unknown("%s may contain %r" % (x[0].name, pat))
            if not last:
                over(i)
        return None

    @staticmethod
    def may_end(x, s):
        if isinstance(x, str):
            return x.endswith(s) or len(x) < len(s) and s.endswith(x)
        return not x[0].lacks(s)

    @staticmethod
    def may_start(x, s):
        if isinstance(x, str):
            return x.startswith(s) or len(x) < len(s) and s.startswith(x)
        return not x[0].lacks(s)

    def cut(self, at):
        """(before, after) at a position"""
        for i in range(len(self.p) + 1):
            n = Text(*self.p[:i]).length()
            d = at.minus(n)
            if d is None:
                continue
            if d == 0:
                return Text(*self.p[:i]), Text(*self.p[i:])
            if d > 0 and i < len(self.p) and isinstance(self.p[i], str) and d <= len(self.p[i]):
                return Text(*(self.p[:i] + (self.p[i][:d],))), Text(*((self.p[i][d:],) + self.p[i + 1:]))
        raise Unknown("no boundary at %s of %s" % (at, self))

    def split(self, pat, n=None):
        out, t = [], self
        while n is None or len(out) < n - 1:
            h = t.find(pat)
            if h is None:
                break
            a, b = t.cut(h[0])
            out.append(a)
            t = b.cut(Num(len(pat)))[1]
        return out + [t]

    def trim(self, left=True, right=True):
        ps = list(self.p)
        while ps and left:
            x = ps[0]
            if isinstance(x, str):
                y = x.lstrip()
                if y:
                    ps[0] = y
                    break
                ps.pop(0)
            elif x[0].blank is True:
                ps.pop(0)
            elif x[0].blank is False or len(ps) == 1 or isinstance(ps[1], str) and not ps[1][0].isspace():
                ps[0] = (x[0], True, x[2])
                break
            else:
                raise Unknown("trimming " + repr(self))
        while ps and right:
            x = ps[-1]
            if isinstance(x, str):
                y = x.rstrip()
                if y:
                    ps[-1] = y
                    break
                ps.pop()
            elif x[0].blank is True:
                ps.pop()
            elif x[0].blank is False or len(ps) == 1 or isinstance(ps[-2], str) and not ps[-2][-1].isspace():
                ps[-1] = (x[0], x[1], True)
                break
            else:
                raise Unknown("trimming " + repr(self))
        return Text(*ps)

    def starts(self, s, left=True):
        if not self.p:
            return s == ""
        x = self.p[0] if left else self.p[-1]
        if isinstance(x, str):
            if len(x) >= len(s) or len(self.p) == 1:
                return x.startswith(s) if left else x.endswith(s)
            return None if (s.startswith(x) if left else s.endswith(x)) else False
        if x[0].lacks(s) and (x[0].blank is False) and len(s) == 1 or left and x[0].lacks(s) and len(s) == 1 and len(self.p) > 1 and isinstance(self.p[1], str) and not self.p[1].startswith(s):
            return False
        if left and s in x[0].notstarts:
            return False
        return None

    def equals(self, s, ci=False):
        l = self.literal()
        if l is not None:
            return l.lower() == s.lower() if ci else l == s
        if len(self.p) == 1:
            a = self.p[0][0]
            if ci and a.ci is not None:
                return a.ci == s.lower()
            if not ci and a.ci is not None and a.ci != s.lower():
                return False
            if ci and s.lower() in a.ci_neq:
                return False
            if not ci and (s in a.neq or s.lower() in a.ci_neq):
                return False
        if s == "":
            e = self.empty()
            return e
        for x in self.p:
            if isinstance(x, str) and (x.lower() not in s.lower() if ci else x not in s):
                return False
        return None


class Num:
    def __init__(self, n=0, syms=()):
        self.n, self.syms = n, tuple(sorted(syms))
        self.low = n  # no length is negative

    def __add__(self, o):
        r = Num(self.n + o.n, self.syms + o.syms)
        r.low = self.low + o.low
        return r

    def minus(self, o):
        """self - o if that is a number"""
        return self.n - o.n if self.syms == o.syms else None

    def __repr__(self):
        return "+".join([str(self.n)] + ["len(%s)" % s[0] for s in self.syms])


class Opt:
    def __init__(self, v):
        self.v = v


class Res(Opt):
    """a Result whose Ok is known (v) or that is known to be Err (None)"""


class Sym:
    """anything else, with its operands evaluated"""

    def __init__(self, op, *a):
        self.op, self.a = op, a

    def key(self):
        return (self.op,) + tuple(x.key() if hasattr(x, "key") else x for x in self.a)

    def __eq__(self, o):
        return isinstance(o, (Sym, Text)) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "%s(%s)" % (self.op, ", ".join(repr(x) for x in self.a))


def pat_of(t):
    if t.op in ("char", "str"):
        return t.a[0]
    if t.op == "int":
        return chr(t.a[0])
    return None


class Eval:
    """env: term -> value; oracle(op, args) decides what the shape leaves open"""

    def __init__(self, env, oracle=None):
        self.env, self.oracle = dict(env), oracle
        self.memo = {}

    def __call__(self, t):
        if not isinstance(t, T):
            return t
        if t in self.memo:
            return self.memo[t]
        r = self.memo[t] = self.ev(t)
        return r

    def text(self, t):
        v = self(t)
        if isinstance(v, Text):
            return v
        raise Unknown("no text: %s" % show(t, 4))

    def num(self, t):
        v = self(t)
        if isinstance(v, Num):
            return v
        raise Unknown("no position: %s" % show(t, 4))

    def sym(self, t):
        return Sym(t.op, *[self(x) if isinstance(x, T) else x for x in t.a])

    def ev(self, t):
        if t in self.env:
            return self.env[t]
        o, a = t.op, t.a
        if o == "str":
            return Text(a[0])
        if o == "char":
            return Text(a[0])
        if o == "int":
            return Num(a[0])
        if o == "bool":
            return a[0]
        if o == "cat":
            out = []
            for x in a:
                v = self(x)
                if not isinstance(v, Text):
                    return self.sym(t)
                out += v.p
            return Text(*out)
        if o == "display":
            v = self(a[0])
            return v if isinstance(v, Text) else self.sym(t)
        if o in ("add", "sub"):
            x, y = self(a[0]), self(a[1])
            if isinstance(x, Num) and isinstance(y, Num):
                if o == "add":
                    return x + y
                if not y.syms:
                    return Num(x.n - y.n, x.syms)
            return self.sym(t)
        if o == "not":
            v = self(a[0])
            return (not v) if isinstance(v, bool) else self.sym(t)
        if o in ("bitor", "bitand"):
            v, x = self(a[0]), self(a[1])
            if isinstance(v, bool) and isinstance(x, bool):
                return v or x if o == "bitor" else v and x
            for y, z in ((v, x), (x, v)):
                if isinstance(y, bool):
                    return y if y is (o == "bitor") else z
            return self.sym(t)
        if o == "len":
            v = self(a[0])
            if isinstance(v, Text):
                return v.length()
            if isinstance(v, list):
                return Num(len(v))
            return self.sym(t)
        if o == "idx":
            v, i = self(a[0]), self(a[1])
            if isinstance(v, list) and isinstance(i, Num) and not i.syms:
                if i.n < len(v):
                    return v[i.n]
                raise Unknown("index %d of %d" % (i.n, len(v)))
            return self.sym(t)
        if o in ("lt", "le", "eq"):
            return self.compare(t)
        if o == "ovf":
            return False
        if o == "slice":
            v = self(a[0])
            if isinstance(v, Text):
                lo = self.num(a[1])
                hi = None if a[2].op == "adt" and a[2].a[1] == 0 else self.num(a[2])
                if hi is not None:
                    v = v.cut(hi)[0]
                return v.cut(lo)[1]
            if isinstance(v, list):
                lo = self.num(a[1])
                hi = Num(len(v)) if a[2].op == "adt" else self.num(a[2])
                return v[lo.n:hi.n]
            return self.sym(t)
        if o == "tail":
            v = self(a[0])
            if isinstance(v, list):
                return v[1:]
            return self.sym(t)
        if o == "join":
            v, s = self(a[0]), self(a[1])
            if isinstance(v, list) and isinstance(s, Text):
                out = []
                for i, x in enumerate(v):
                    if not isinstance(x, Text):
                        return self.sym(t)
                    out += (list(s.p) if i else []) + list(x.p)
                return Text(*out)
            return self.sym(t)
        if o == "adt":
            if a[0] == OPTION:
                return Opt(self(a[2]) if a[1] == 1 else None)
            return self.sym(t)
        if o == "tuple":
            return tuple(self(x) for x in a)
        if o == "discr":
            v = self(a[0])
            if isinstance(v, Res):
                return Num(0 if v.v is not None else 1)
            if isinstance(v, Opt):
                return Num(1 if v.v is not None else 0)
            if isinstance(v, Sym) and v.op == "adt":
                return Num(v.a[1])
            return self.sym(t)
        if o == "fld":
            v = self(a[0])
            if isinstance(v, Opt) and a[1] in (0, 1):
                if v.v is None:
                    raise Unknown("payload of nothing")
                return v.v
            if isinstance(v, tuple) and a[1] is None:
                return v[a[2]]
            return Sym("fld", v, a[1], a[2])
        if o == "call":
            return self.callv(t)
        return self.sym(t)

    def compare(self, t):
        o, (x, y) = t.op, t.a
        v, w = self(x), self(y)
        if isinstance(v, Num) and isinstance(w, Num):
            if v.syms == w.syms:
                return {"lt": v.n < w.n, "le": v.n <= w.n, "eq": v.n == w.n}[o]
            if not v.syms and not w.syms:
                return {"lt": v.n < w.n, "le": v.n <= w.n, "eq": v.n == w.n}[o]
            if not w.syms and v.low >= w.n + (o != "lt"):
                return False
            if not v.syms and (w.low >= v.n + (o != "le")):
                return o != "eq"
            # emptiness
            tx = self(y.a[0]) if y.op == "len" else None
            if isinstance(tx, Text) and (o == "lt" and v.n == 0 or o == "le" and v.n == 1) and not v.syms:
                e = tx.empty()
                return (not e) if e is not None else self.sym(t)
            tx = self(x.a[0]) if x.op == "len" else None
            if isinstance(tx, Text) and (o == "eq" and w.n == 0 or o == "le" and w.n == 0 or o == "lt" and w.n == 1) and not w.syms:
                e = tx.empty()
                return e if e is not None else self.sym(t)
            return self.sym(t)
        if o == "eq" and isinstance(v, Text) and isinstance(w, Text):
            if v == w:
                return True
            r = None
            if w.literal() is not None:
                r = v.equals(w.literal())
            elif v.literal() is not None:
                r = w.equals(v.literal())
            return r if r is not None else self.sym(t)
        if o == "eq" and isinstance(v, bool) and isinstance(w, bool):
            return v == w
        return self.sym(t)

    LOWER = ("str::to_lowercase", "str::to_ascii_lowercase")
    UPPER = ("str::to_uppercase", "str::to_ascii_uppercase")

    def callv(self, t):
        n, a = t.a[0], t.a[1:]
        if n.startswith("str::") or n.startswith("alloc::string::") or n.startswith("core::str") or n.startswith("slice::"):
            k = n.rsplit("::", 1)[1]
            v = self(a[0])
            if isinstance(v, Text):
                if k == "trim_newline":
                    if v.p and isinstance(v.p[-1], str) and v.p[-1].endswith("\n"):
                        z = v.p[-1][:-1]
                        return Text(*(v.p[:-1] + (z[:-1] if z.endswith("\r") else z,)))
                    return v
                if k in ("trim", "trim_ascii"):
                    return v.trim()
                if k in ("trim_start", "trim_left", "trim_ascii_start"):
                    return v.trim(True, False)
                if k in ("trim_end", "trim_right", "trim_ascii_end"):
                    return v.trim(False, True)
                if k in ("to_lowercase", "to_ascii_lowercase", "to_uppercase", "to_ascii_uppercase"):
                    l = v.literal()
                    if l is not None:
                        return Text(l.lower() if "lower" in k else l.upper())
                    if len(v.p) == 1:
                        b = v.p[0][0]
                        if b.ci is not None and v.p[0][1] and v.p[0][2]:
                            return Text(b.ci if "lower" in k else b.ci.upper())
                        return Text((Atom(("lower:" if "lower" in k else "upper:") + b.name, neq=b.ci_neq | {x.upper() for x in b.ci_neq}, blank=b.blank), v.p[0][1], v.p[0][2]))
                    return self.sym(t)
                p = pat_of(a[1]) if len(a) > 1 else None
                if k == "is_empty":
                    e = v.empty()
                    return e if e is not None else self.sym(t)
                if k == "len":
                    return v.length()
                if p is not None:
                    if k in ("find", "rfind"):
                        h = v.find(p, k == "rfind")
                        return Opt(h[0] if h else None)
                    if k == "contains":
                        return v.find(p) is not None
                    if k == "split_once":
                        h = v.split(p, 2)
                        return Opt(tuple(h) if len(h) == 2 else None)
                    if k == "rsplit_once":
                        h = v.find(p, True)
                        if h is None:
                            return Opt(None)
                        x, y = v.cut(h[0])
                        return Opt((x, y.cut(Num(len(p)))[1]))
                    if k == "split":
                        return v.split(p)
                    if k == "starts_with":
                        r = v.starts(p)
                        return r if r is not None else self.sym(t)
                    if k == "ends_with":
                        r = v.starts(p, False)
                        return r if r is not None else self.sym(t)
                    if k == "strip_prefix":
                        r = v.starts(p)
                        if r is None:
                            raise Unknown("strip_prefix of %s" % v)
                        return Opt(v.cut(Num(len(p)))[1] if r else None)
                    if k == "strip_suffix":
                        r = v.starts(p, False)
                        if r is None:
                            raise Unknown("strip_suffix of %s" % v)
                        return Opt(Text(*(v.p[:-1] + (v.p[-1][:-len(p)],))) if r else None)
                    if k in ("eq_ignore_ascii_case",):
                        r = v.equals(p, True)
                        return r if r is not None else self.sym(t)
                if k == "splitn" and len(a) == 3 and pat_of(a[2]) is not None:
                    return v.split(pat_of(a[2]), self.num(a[1]).n)
                if k == "split_at":
                    return v.cut(self.num(a[1]))
                if k == "split_whitespace" or k == "split_ascii_whitespace":
                    out, cur = [], None
                    for x in v.p:
                        if isinstance(x, str):
                            for ch in x:
                                if ch.isspace():
                                    if cur is not None:
                                        out.append(cur)
                                    cur = None
                                else:
                                    cur = Text(*((cur.p if cur else ()) + (ch,)))
                        elif x[0].word:
                            cur = Text(*((cur.p if cur else ()) + (x,)))
                        elif x[0].blank is True:
                            if cur is not None:
                                out.append(cur)
                            cur = None
                        else:
                            raise Unknown("words of " + repr(v))
                    return out + ([cur] if cur is not None else [])
        if self.oracle:
            s = self.sym(t)
            r = self.oracle(n, s.a[1:])
            if r is not None:
                return r
            return s
        return self.sym(t)


def may(ev, cond):
    """may a condition event hold under the shape? (None: left open)"""
    try:
        v = ev(cond.term)
    except Unknown:
        return None
    if isinstance(v, Num) and not v.syms:
        v = v.n
    if isinstance(v, Num) and isinstance(cond.val, int) and v.low > cond.val:
        return not cond.eq
    if isinstance(v, bool) or isinstance(v, int):
        return (v == cond.val) == cond.eq
    if isinstance(v, Text) and isinstance(cond.val, str):
        r = v.equals(cond.val)
        return None if r is None else r == cond.eq
    return None


def feasible(ev, events):
    """paths whose conditions can hold under the shape"""
    for e in events:
        if e.kind == "cond" and may(ev, e) is False:
            return False
    return True

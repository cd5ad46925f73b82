"""Equality of the languages of two small regular expressions (syntax common to
the regex crate and Python's parser), by subset construction over a set of
representative characters."""
import re
try:
    from re import _parser as P, _constants as K
except ImportError:  # pragma: no cover
    import sre_parse as P
    import sre_constants as K

ALPHABET = [chr(i) for i in range(128)] + list("\u00e9\u00df\u0130\u0663\u00b2\u2003\u00a0\u6f22\u2028\u0301")


class Unsupported(Exception):
    pass


def same(p, q):
    try:
        a, b = Nfa(p), Nfa(q)
    except (Unsupported, re.error):
        return None
    seen, work = set(), [(a.close({a.start}), b.close({b.start}))]
    while work:
        x, y = work.pop()
        if (x, y) in seen:
            continue
        seen.add((x, y))
        if (a.end in x) != (b.end in y):
            return False
        for ch in ALPHABET:
            work.append((a.step(x, ch), b.step(y, ch)))
    return True


class Nfa:
    def __init__(self, pat):
        self.n, self.eps, self.arcs = 0, {}, {}
        self.start, self.end = self.build(P.parse(pat))

    def new(self):
        self.n += 1
        return self.n

    def e(self, a, b):
        self.eps.setdefault(a, []).append(b)

    def build(self, seq):
        s = cur = self.new()
        for op, av in seq:
            cur = self.item(op, av, cur)
        return s, cur

    def item(self, op, av, cur):
        t = self.new()
        if op is K.LITERAL:
            self.arcs.setdefault(cur, []).append((lambda c, v=chr(av): c == v, t))
        elif op is K.NOT_LITERAL:
            self.arcs.setdefault(cur, []).append((lambda c, v=chr(av): c != v, t))
        elif op is K.ANY:
            self.arcs.setdefault(cur, []).append((lambda c: c != "\n", t))
        elif op is K.IN:
            self.arcs.setdefault(cur, []).append((cls(av), t))
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT) or getattr(K, "POSSESSIVE_REPEAT", None) is op:
            lo, hi, sub = av
            for _ in range(lo):
                a, b = self.build(sub)
                self.e(cur, a)
                cur = b
            if hi is K.MAXREPEAT:
                a, b = self.build(sub)
                self.e(cur, a)
                self.e(b, a)
                self.e(b, t)
                self.e(cur, t)
            else:
                for _ in range(hi - lo):
                    self.e(cur, t)
                    a, b = self.build(sub)
                    self.e(cur, a)
                    cur = b
                self.e(cur, t)
        elif op is K.SUBPATTERN:
            a, b = self.build(av[3])
            self.e(cur, a)
            self.e(b, t)
        elif op is K.BRANCH:
            for alt in av[1]:
                a, b = self.build(alt)
                self.e(cur, a)
                self.e(b, t)
        else:
            raise Unsupported(str(op))
        return t

    def close(self, s):
        out, work = set(s), list(s)
        while work:
            for y in self.eps.get(work.pop(), ()):
                if y not in out:
                    out.add(y)
                    work.append(y)
        return frozenset(out)

    def step(self, s, ch):
        return self.close({t for x in s for f, t in self.arcs.get(x, ()) if f(ch)})


def cls(av):
    tests, neg = [], False
    for op, v in av:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            tests.append(lambda c, v=chr(v): c == v)
        elif op is K.RANGE:
            tests.append(lambda c, a=chr(v[0]), b=chr(v[1]): a <= c <= b)
        elif op is K.CATEGORY:
            f = {K.CATEGORY_SPACE: str.isspace, K.CATEGORY_DIGIT: str.isdecimal, K.CATEGORY_WORD: lambda c: c.isalnum() or c == "_"}
            g = {K.CATEGORY_NOT_SPACE: str.isspace, K.CATEGORY_NOT_DIGIT: str.isdecimal, K.CATEGORY_NOT_WORD: lambda c: c.isalnum() or c == "_"}
            if v in f:
                tests.append(f[v])
            elif v in g:
                tests.append(lambda c, h=g[v]: not h(c))
            else:
                raise Unsupported(str(v))
        else:
            raise Unsupported(str(op))
    return lambda c: any(t(c) for t in tests) != neg

"""Text to expressions: P01 (termination), P04 (operators), P05 (precedence),
P07 (tokens), P16 (declarations)."""
from run import prop
from rules import *
from checks.evaluation import roles, run_expr, token, ARITH, COMPARE, LOGIC, VAL
from checks.calls import OPS, same_cmp, outcomes, field_writes

# ---------------------------------------------------------------- lexer
SPELL = {"=": "Assign", "==": "Eq", "!": "Not", "!=": "Ne", "+": "Add", "-": "Sub", "*": "Mul", "/": "Div", "%": "Rem", "^": "Bx", "|": "Bo", "||": "Lo",
         "&": "Ba", "&&": "La", "<": "Lt", "<=": "Le", "<<": "Sl", ">": "Gt", ">=": "Ge", ">>": "Sr", ",": "Comma", ";": "Semi", ":": "Colon", ".": "Dot",
         "(": "Lp", ")": "Rp", "{": "Lb", "}": "Rb", "[": "Ls", "]": "Rs"}
WORDS = {"true": "True", "false": "False", "request": "Request", "let": "Let", "if": "If", "else": "Else", "test": "Test"}
WHITE = [9, 10, 11, 12, 13, 32, 0x85, 0xA0, 0x1680] + list(range(0x2000, 0x200B)) + [0x2028, 0x2029, 0x202F, 0x205F, 0x3000]
CHARS = [chr(i) for i in range(0x80)] + [chr(i) for i in WHITE if i > 0x7F] + list("\xa2\xaa\xb2\xc9\xe9\u0660\u0967\u4e2d\uff11\uff21\uff41\u00a7\u2260\ufeff\u200b") + ["\U0001F600", "\U0010FFFF"]


def digit(ch):
    return "0" <= ch <= "9"


def alpha(ch):
    return "a" <= ch <= "z" or "A" <= ch <= "Z"


PRED = {"is_whitespace": lambda x: ord(x) in WHITE, "is_ascii_digit": digit, "is_ascii_alphabetic": alpha, "is_ascii_alphanumeric": lambda x: alpha(x) or digit(x),
        "is_ascii_whitespace": lambda x: x in "\t\n\x0c\r ", "is_alphabetic": str.isalpha, "is_alphanumeric": str.isalnum, "is_numeric": str.isnumeric, "is_ascii": lambda x: ord(x) < 128,
        "is_ascii_uppercase": lambda x: "A" <= x <= "Z", "is_ascii_lowercase": lambda x: "a" <= x <= "z", "is_uppercase": str.isupper, "is_lowercase": str.islower,
        "is_ascii_punctuation": lambda x: x in "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~", "is_control": lambda x: ord(x) < 32 or 127 <= ord(x) < 160,
        "is_ascii_hexdigit": lambda x: x in "0123456789abcdefABCDEF"}


def value(t, env):
    """a term over known characters, numbers and texts; None if not determined"""
    if t in env:
        return env[t]
    o = t.op
    if o in ("int", "str", "bool", "char"):
        return t.a[0]
    if o == "not":
        x = value(t.a[0], env)
        return None if x is None else not x
    if o in ("lt", "le", "eq"):
        x, y = value(t.a[0], env), value(t.a[1], env)
        if x is None or y is None:
            return None
        if isinstance(x, str) and isinstance(y, int) and len(x) == 1:
            x = ord(x)
        if isinstance(y, str) and isinstance(x, int) and len(y) == 1:
            y = ord(y)
        if type(x) is not type(y) and not (isinstance(x, int) and isinstance(y, int)):
            return None
        return {"lt": lambda: x < y, "le": lambda: x <= y, "eq": lambda: x == y}[o]()
    if o in ("bitand", "bitor"):
        x, y = value(t.a[0], env), value(t.a[1], env)
        if isinstance(x, bool) and isinstance(y, bool):
            return (x and y) if o == "bitand" else (x or y)
        return None
    if o in ("add", "sub"):
        x, y = value(t.a[0], env), value(t.a[1], env)
        if isinstance(x, int) and isinstance(y, int):
            return x + y if o == "add" else x - y
        return None
    if o == "call":
        n = t.a[0].rsplit("::", 1)[-1]
        if n in PRED and len(t.a) == 2:
            x = value(t.a[1], env)
            return PRED[n](x) if isinstance(x, str) and len(x) == 1 else None
        if n in ("contains",) and len(t.a) == 3:
            x, y = value(t.a[1], env), value(t.a[2], env)
            return y in x if isinstance(x, str) and isinstance(y, str) else None
    return None


def holds(ev, env):
    """may the condition hold?  False only if it certainly does not"""
    x = value(ev.term, env)
    if x is None:
        return True
    v = ev.val
    if isinstance(x, str) and len(x) == 1 and isinstance(v, int) and not isinstance(v, bool):
        x = ord(x)
    if isinstance(v, str) and isinstance(x, int) and len(v) == 1:
        v = ord(v)
    return (x == v) == ev.eq


def possible(p, env):
    return all(holds(x, env) for x in conds(p))


class Lexer:
    def __init__(self, c):
        self.c = c
        self.fn = c.fn("lexer::segment", sig=(("&str",), "alloc::vec::Vec<token::Token>"))
        self.K, self.TOK = c.adt("token::Kind"), c.adt("token::Token")
        self.kinds = [v["name"] for v in c.p.variants(self.K)]
        e, ps = c.run(self.fn)
        self.e, self.ps = e, [p for p in ps if p.kind == "ret"]
        if not self.ps:
            raise Missing("a way through the lexer")
        self.p = self.ps[0]
        text = mk("param", 1, self.fn.locals[1].get("name", ""))
        self.loop = None
        for x in self.p.events:
            if x.kind == "loop":
                for ph, v0 in x.init.items():
                    if v0 is mk("cursor", mk("call", "str::chars", text)):
                        self.loop, self.cur = x, ph
        if self.loop is None:
            raise Missing("the loop of the lexer over the characters of the text")
        self.acc = None
        for ph, v0 in self.loop.init.items():
            if v0 is mk("seq"):
                self.acc = ph

    def chain(self, pos, ev=None, p=None):
        """what lies between the loop's current position and pos: characters
        (their item terms) and inner loops"""
        ev = ev or self.loop
        if pos.op == "phi" and pos.a[0] == ev.id:
            return []
        if pos.op == "adv":
            return self.chain(pos.a[0], ev, p) + [mk("item", pos.a[0])]
        if pos.op == "phi":
            for x in all_loops(p):
                if x.id == pos.a[0]:
                    return self.chain(x.init[pos], ev, p) + [x]
        raise Missing("the position %s is not reached by reading on" % show(pos))

    def is_pos(self, v):
        while v.op == "adv":
            v = v.a[0]
        return v is self.cur or v.op == "cursor" or v.op == "phi" and v.a[1:] == self.cur.a[1:]

    def kind(self, t):
        i = self.c.field(self.TOK, "kind")
        k = proj(t, (None, i))
        return self.kinds[k.a[1]] if k.op == "adt" else None

    def kinds_of(self, t, p):
        """the kinds a token may have on a path"""
        todo, seen, out = [proj(t, (None, self.c.field(self.TOK, "kind")))], set(), set()
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            xs = [x for x in all_loops(p) if k.op == "phi" and x.id == k.a[0] and k in x.init]
            for x in xs:
                todo += [x.init[k]] + [q.updates[k] for q in x.iters]
            if not xs:
                out.add(self.kinds[k.a[1]] if k.op == "adt" and k.a[0] == self.K else None)
        return out

    def literal(self, t):
        return proj(t, (None, self.c.field(self.TOK, "literal")))

    def token(self, p):
        """the token an iteration path adds, None if none, or raises"""
        u = p.updates[self.acc]
        if u is self.acc:
            return None
        if u.op == "push" and u.a[0] is self.acc:
            return u.a[1]
        raise Missing("an iteration that adds one token: %s" % show(u, 4))


def all_loops(p):
    return [x for x in all_events(p) if x.kind == "loop"]


def lexer(c):
    if "lexer" not in c.cache:
        c.cache["lexer"] = Lexer(c)
    return c.cache["lexer"]


QUOTES = {'"': "String", "`": "Template"}


# ---------------------------------------------------------------- parser
BINARY = [["Lo"], ["La"], ["Bo"], ["Bx"], ["Ba"], ["Eq", "Ne"], ["Lt", "Gt", "Le", "Ge"], ["Sl", "Sr"], ["Add", "Sub"], ["Mul", "Div", "Rem"]]
POSTFIX = ["Lp", "Ls", "Dot"]
GROUP = {k: i for i, g in enumerate(BINARY) for k in g}
HEADS = ["Ident", "Integer", "Float", "True", "False", "String", "Let", "Not", "Sub", "Lp", "If", "Ls", "Lb"]
# the symbols of the constructs after their first token: E an expression, * any number of times
SEQ = lambda *x: ("seq",) + x
ALT = lambda *x: ("alt",) + x
STAR = lambda x: ("star", x)
OPT = lambda x: ("alt", x, ("seq",))
LIST = lambda end: SEQ(STAR(SEQ("E", "Comma")), OPT("E"), end)
BLOCK = SEQ("Lb", STAR(SEQ("E", OPT("Semi"))), "Rb")
GRAMMAR = {"Ident": SEQ(), "Integer": SEQ(), "Float": SEQ(), "True": SEQ(), "False": SEQ(), "String": SEQ(),
           "Let": SEQ("Ident", "Assign", "E", OPT("Semi")), "Not": SEQ("E"), "Sub": SEQ("E"), "Lp": SEQ("E", "Rp"),
           "If": SEQ("Lp", "E", "Rp", BLOCK, OPT(SEQ("Else", BLOCK))), "Ls": LIST("Rs"),
           "Lb": SEQ(STAR(SEQ("E", "Colon", "E", "Comma")), OPT(SEQ("E", "Colon", "E")), "Rb")}
INFIX = {"Lp": LIST("Rp"), "Ls": SEQ("E", "Rs"), "Dot": SEQ("Ident")}
TOP = {"Request": SEQ("Ident", "Template", OPT(SEQ("Ls", LIST("Rs")))), "Test": SEQ("Ident", BLOCK)}


class NFA:
    """transitions over token kinds and ('E', kind of its first token); look: the
    next symbol must start with one of these kinds"""

    def __init__(self, every):
        self.n, self.eps, self.tr, self.every = 0, {}, {}, frozenset(every)

    def new(self):
        self.n += 1
        return self.n

    def add(self, a, sym, b):
        self.tr.setdefault(a, []).append((sym, b))

    def link(self, a, b, look=None):
        self.eps.setdefault(a, []).append((look, b))

    def spec(self, a, s):
        """extends from a by the grammar term; the end state"""
        if s == "E":
            b = self.new()
            for h in HEADS:
                self.add(a, ("E", h), b)
            return b
        if isinstance(s, str):
            b = self.new()
            self.add(a, s, b)
            return b
        if s[0] == "seq":
            for x in s[1:]:
                a = self.spec(a, x)
            return a
        if s[0] == "alt":
            b = self.new()
            for x in s[1:]:
                self.link(self.spec(a, x), b)
            return b
        m = self.new()
        self.link(a, m)
        self.link(self.spec(m, s[1]), m)
        b = self.new()
        self.link(m, b)
        return b

    def close(self, states):
        """states: {(node, look)}"""
        out, work = set(states), list(states)
        while work:
            n, l = work.pop()
            for look, m in self.eps.get(n, ()):
                l2 = l if look is None else look if l is None else l & look
                if l2 is not None and not l2:
                    continue
                if (m, l2) not in out:
                    out.add((m, l2))
                    work.append((m, l2))
        return frozenset(out)

    def step(self, states, sym):
        k = sym[1] if isinstance(sym, tuple) else sym
        return self.close({(m, None) for n, l in states if l is None or k in l for s, m in self.tr.get(n, ()) if s == sym})


def differ(A, sa, fa, B, sb, fb, alphabet):
    """a word accepted by only one of the two: (word, by which) or None"""
    s0 = (A.close({(sa, None)}), B.close({(sb, None)}))
    seen, work = {s0: ()}, [s0]
    while work:
        x, y = s = work.pop(0)
        ina, inb = any(n in fa for n, l in x), any(n in fb for n, l in y)
        if ina != inb:
            return seen[s], "source" if ina else "language"
        for sym in alphabet:
            t = (A.step(x, sym), B.step(y, sym))
            if (t[0] or t[1]) and t not in seen:
                seen[t] = seen[s] + (sym,)
                work.append(t)
    return None


def word(w):
    return " ".join(x if isinstance(x, str) else "expression(%s…)" % x[1] for x in w) or "nothing"


def parsed(u):
    return mk("parsed", u)


class Parser:
    def __init__(self, c):
        self.c = c
        self.P = c.adt("parser::Parser")
        self.TOK, self.K, self.E = c.adt("token::Token"), c.adt("token::Kind"), c.adt("syntax::Expr")
        self.kinds = [v["name"] for v in c.p.variants(self.K)]
        fs = c.p.variants(self.P)[0]["fields"]
        tys = [c.p.crates["lib"].types[f["ty"]]["s"] if False else f for f in fs]
        names = [f["name"] for f in fs]
        self.it, self.ii = names.index("tokens"), names.index("index")
        self.nf = len(names)
        S = "&mut parser::Parser"
        ints = ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64")

        def is_expr(f):
            s = f.sig()
            return s[0] and len(s[0]) == 2 and s[0][0] == S and s[0][1] in ints and s[1].startswith("core::result::Result<syntax::Expr,")
        self.expr = c.fn("Parser::parse_expr", pred=is_expr)
        self.parse = c.fn("Parser::parse", pred=lambda f: f.pub and f.sig()[0] == (S,) and "parser::Source" in f.sig()[1])
        self.tokens, self.index, self.prec = c.sym("tokens"), c.sym("index"), c.sym("precedence")
        self.ti, self.tl = c.field(self.TOK, "kind"), c.field(self.TOK, "literal")

        def st(vals, u):
            return [ok(parsed(u)), err(mk("perr", u))]

        def after(old, u, i):
            if i != 0 and not (old.op == "adt" and old.a[0] == self.P):
                return old
            return self.state(proj(old, (None, self.it)), mk("later", u, proj(old, (None, self.ii))))
        st.after = after
        self.stub = {self.expr.path: st}
        self.runs = {}

    def state(self, tokens, index):
        v = [None] * self.nf
        v[self.it], v[self.ii] = tokens, index
        return mk("adt", self.P, 0, *[x if x is not None else self.c.sym("pf%d" % i) for i, x in enumerate(v)])

    def kind_at(self, pos):
        return mk("discr", proj(mk("idx", self.tokens, pos), (None, self.ti)))

    def lit_at(self, pos):
        return proj(mk("idx", self.tokens, pos), (None, self.tl))

    def run_head(self, kind):
        if kind not in self.runs:
            s0 = State()
            s0.facts[self.kind_at(self.index)] = self.kinds.index(kind)
            e, ps = self.c.run(self.expr, {1: self.state(self.tokens, self.index), 2: self.prec}, stubs=self.stub, st=s0)
            self.runs[kind] = e, [p for p in ps if p.kind == "ret"]
        return self.runs[kind]

    def run_top(self):
        if "" not in self.runs:
            e, ps = self.c.run(self.parse, {1: self.state(self.tokens, self.index)}, stubs=self.stub)
            self.runs[""] = e, [p for p in ps if p.kind == "ret"]
        return self.runs[""]

    # ---- facts about tokens
    def facts(self, cs, start=None):
        """{position: set of kinds}, and the positions known to be last"""
        ks, last = {}, set()
        every = frozenset(self.kinds)
        LEN = mk("len", self.tokens)
        for e in cs:
            t, v = e.term, e.val
            if t.op == "not":
                t, v = t.a[0], (not v)
            if t.op == "eq" and isinstance(v, bool):
                a, b = t.a
                for a, b in ((a, b), (b, a)):
                    n = None
                    if b.op == "int" and a.op == "discr":
                        n = b.a[0]
                    elif b.op == "adt" and b.a[0] == self.K:
                        n, a = b.a[1], mk("discr", a)
                    if n is not None and a.op == "discr":
                        pos = self.tok_pos(a.a[0])
                        if pos is not None:
                            s = frozenset([self.kinds[n]])
                            ks[pos] = ks.get(pos, every) & (s if v == e.eq else every - s)
            elif t.op == "discr":
                pos = self.tok_pos(t.a[0])
                if pos is not None:
                    s = frozenset([self.kinds[v]])
                    ks[pos] = ks.get(pos, every) & (s if e.eq else every - s)
            elif t.op in ("lt", "le") and isinstance(v, bool):
                a, b = t.a
                v = v == e.eq
                if t.op == "lt" and b is LEN and not v:
                    last.add(prev(a))
                elif t.op == "le" and a is LEN and v:
                    last.add(prev(b))
            if t.op == "eq" and LEN in t.a and isinstance(v, bool) and v == e.eq:
                last.add(prev(t.a[0] if t.a[1] is LEN else t.a[1]))
        if start is not None:
            ks[self.index] = ks.get(self.index, every) & frozenset(start)
        return ks, last - {None}

    def tok_pos(self, t):
        if t.op == "fld" and t.a[2] == self.ti and t.a[0].op == "idx" and t.a[0].a[0] is self.tokens:
            return t.a[0].a[1]
        return None

    # ---- symbols between two positions
    def chain(self, p, pos, start, head=False):
        """[('tok', position) | ('E', uid, position) | ('loop', event, phi)] after
        start (with the token at start, if head) up to pos"""
        if pos is start:
            return [("tok", start)] if head else []
        if pos.op == "add" and pos.a[1] is INT(1):
            return self.chain(p, pos.a[0], start, head) + [("tok", pos)]
        if pos.op == "later":
            x = self.chain(p, pos.a[1], start, head)
            if not x or x[-1][0] != "tok":
                raise Mismatch("parses an expression at a token that has been used already")
            return x[:-1] + [("E", pos.a[0], pos.a[1])]
        if pos.op == "phi":
            for x in p.events:
                if x.kind == "loop" and x.id == pos.a[0]:
                    return self.chain(p, x.init[pos], start, head) + [("loop", x, pos)]
        raise Mismatch("the position %s" % show(pos, 4))

    def feasible(self, p, ks, last, start, nonempty=True):
        """the last token is the end marker: paths that go on from it are impossible"""
        for q in last:
            if q is start or q.op in ("later", "phi"):
                return False
            if "Eof" not in ks.get(q, ("Eof",)):
                return False
            if any(x.kind == "call" and x.name == self.expr.path and is_ok(x.res) and self.call_pos(x) is q for x in p.events):
                return False
        # two facts that exclude each other
        return all(ks.values())

    def call_pos(self, x):
        return proj(x.args[0], (None, self.ii))

    def build(self, A, p, pos, start, a, first=None, head=False):
        """extends the automaton from state a by the symbols of the path; end state"""
        ks, last = self.facts(conds(p), first)
        ch = self.chain(p, pos, start, head)

        def look(a, at):
            n = mk("add", at, INT(1))
            if n in ks:
                b = A.new()
                A.link(a, b, ks[n])
                return b
            return a
        at = start
        if not head:
            a = look(a, at)
        for s in ch:
            if s[0] == "tok":
                k = ks.get(s[1])
                if k is None or "Eof" in k and len(k) > 1:
                    raise Mismatch("a token is skipped without having been checked")
                b = A.new()
                for x in k:
                    A.add(a, x, b)
                a, at = b, s[1]
            elif s[0] == "E":
                b = A.new()
                k = ks.get(s[2], frozenset(self.kinds))
                for h in HEADS:
                    if h in k:
                        A.add(a, ("E", h), b)
                a, at = b, mk("later", s[1], s[2])
            else:
                # before the first iteration, and after it
                ev, ph = s[1], s[2]
                none, some = A.new(), A.new()
                A.link(a, none)
                for q in ev.iters:
                    qk, ql = self.facts(conds(q))
                    if not self.feasible(q, qk, ql, ph):
                        continue
                    e = collected(ev, q)
                    for m in (none, some):
                        if e is None or e == (m is none):
                            A.link(self.build(A, q, q.updates[ph], ph, m), some)
                e = collected(ev, p)
                a, at = A.new(), ph
                if e is not False:
                    A.link(none, a)
                if e is not True:
                    A.link(some, a)
            a = look(a, at)
        return a

    # ---- expressions in the order they were read
    def order(self, p, pos, start, cuts=(), head=False):
        """parsed expressions and loops; as sections separated by tokens of the kinds in cuts"""
        out = [[]]
        ks, _ = self.facts(conds(p))
        for s in self.chain(p, pos, start, head):
            if s[0] == "E":
                out[-1].append(parsed(s[1]))
            elif s[0] == "loop":
                out[-1].append(s[1])
            elif cuts and ks.get(s[1]) and ks[s[1]] <= set(cuts):
                out.append([])
        return out if cuts else out[0]

    def token_at(self, p, pos, start, kind, head=False):
        """position of the first token of this kind on the way"""
        ks, _ = self.facts(conds(p))
        for s in self.chain(p, pos, start, head):
            if s[0] == "tok" and ks.get(s[1]) == {kind}:
                return s[1]
        raise Mismatch("no %s is read" % kind)

    def items(self, t, p):
        """the expressions a value holds, in order"""
        if t.op == "parsed":
            return [t]
        if t is mk("seq"):
            return []
        if t.op == "seq" or t.op in ("tuple", "adt"):
            return [y for x in (t.a if t.op != "adt" else t.a[2:]) if isinstance(x, T) for y in self.items(x, p)]
        if t.op == "push":
            return self.items(t.a[0], p) + self.items(t.a[1], p)
        if t.op == "phi":
            for x in p.events:
                if x.kind == "loop" and x.id == t.a[0] and t in x.init:
                    good = True
                    pos = [k for k, v in x.init.items() if self.is_pos(k)]
                    for q in x.iters:
                        qk, ql = self.facts(conds(q))
                        if len(pos) != 1 or not self.feasible(q, qk, ql, pos[0]):
                            continue
                        u = q.updates[t]
                        if not (u.op == "push" and u.a[0] is t and self.items(u.a[1], q) == self.order(q, q.updates[pos[0]], pos[0])):
                            good = False
                    return self.items(x.init[t], p) + ([x] if good else [t])
        return [t]

    def is_pos(self, ph):
        return ph.a[1] == ("P", 1) and ph.a[2] == ((None, self.ii),)


def prev(t):
    return t.a[0] if t.op == "add" and t.a[1] is INT(1) else None


class Mismatch(Exception):
    pass


def parser(c):
    if "parser" not in c.cache:
        c.cache["parser"] = Parser(c)
    return c.cache["parser"]


def prefix_ends(P, kind):
    """(path, value, position) where the first part of an expression is complete,
    and the loop over what follows it"""
    e, ps = P.run_head(kind)
    out, seen = [], set()
    for p in ps:
        v = e.norm(p.st, p.val)
        if not is_ok(v):
            continue
        ks, last = P.facts(conds(p), [kind])
        if not P.feasible(p, ks, last, P.index):
            continue
        t = v.a[2]
        loop = [x for x in p.events if x.kind == "loop" and t.op == "phi" and x.id == t.a[0]]
        if loop:
            x = loop[0]
            pos = [k for k in x.init if P.is_pos(k)]
            q = Path([y for y in p.events[:p.events.index(x)]], p.st)
            end = (q, x.init[t], x.init[pos[0]] if pos else P.index, x, t, pos[0] if pos else P.index, p)
        else:
            st = p.st.mem[("P", 1)] if ("P", 1) in p.st.mem else None
            q = p
            end = (q, t, proj(e.norm(p.st, st), (None, P.ii)), None, None, None, p)
        out.append(end)
    return e, out


def loop_paths(P, loop, pos):
    for q in loop.iters:
        ks, last = P.facts(conds(q))
        if P.feasible(q, ks, last, pos):
            yield q, ks


def infix(P, kind):
    """the loop over what may follow an expression: (loop, left, position)"""
    e, out = prefix_ends(P, kind)
    got = {}
    for q, v, pos, loop, left, ph, p in out:
        if loop is not None:
            got[loop.id] = (loop, left, ph)
    return got


def collected(loop, p):
    """does the path know what the loop collects to be empty (True), or not (False)?"""
    for e in conds(p):
        t, v = e.term, e.val
        if not isinstance(v, bool):
            continue
        v = v == bool(e.eq)
        while t.op == "not":
            t, v = t.a[0], not v
        if t.op == "eq" and t.a[1] is INT(0):
            n = t.a[0]
        elif t.op == "lt" and t.a[0] is INT(0):
            n, v = t.a[1], not v
        else:
            continue
        if n.op == "len" and n.a[0] in loop.init and loop.init[n.a[0]] is mk("seq") and all(q.updates[n.a[0]].op == "push" for q in loop.iters):
            return v
    return None


def language(c, P, key, ends, spec, first=None, head=False, what=""):
    """the symbols of the paths are exactly the words of the grammar"""
    A, B = NFA(P.kinds), NFA(P.kinds)
    a0, b0 = A.new(), B.new()
    fa = set()
    w = c.where(P.expr if not head else P.parse)
    for p, pos, start in ends:
        try:
            fa.add(P.build(A, p, pos, start, a0, first, head))
        except Mismatch as x:
            return c.ob(False, key, str(x), w)
    fb = {B.spec(b0, spec)}
    d = differ(A, a0, fa, B, b0, fb, P.kinds + [("E", h) for h in HEADS])
    return c.ob(d is None, key, "%s reads exactly its tokens%s" % (what or key, "" if d is None else ": %s %s" % (word(d[0]), "is accepted but not in the language" if d[1] == "source" else "is in the language but not accepted")), w)


def is_literal(t, ty, lit):
    return t.op == "fld" and t.a[0].op == "call" and t.a[0].a[0].endswith(("str::parse", "FromStr::from_str")) and t.a[0].a[1] is lit and (len(t.a[0].a) < 3 or t.a[0].a[2] is STR(ty) or ty in str(t.a[0].a[2:]))


def head_value(P, kind, p, v, pos):
    """is v what the construct that starts with kind spells out?"""
    c = P.c
    var = lambda n: c.variant(P.E, n)
    if v.op != "adt" or v.a[0] != P.E:
        return False
    n, f = c.p.variants(P.E)[v.a[1]]["name"], v.a[2:]
    lit = P.lit_at(P.index)
    tok = mk("idx", P.tokens, P.index)
    order = lambda *cuts: P.order(p, pos, P.index, cuts)
    lst = lambda t: P.items(t, p)
    if kind in ("Ident", "String"):
        return n == kind and f == (lit,)
    if kind in ("Integer", "Float"):
        return n == kind and is_literal(f[0], {"Integer": "i64", "Float": "f64"}[kind], lit)
    if kind in ("True", "False"):
        return n == "Boolean" and (is_literal(f[0], "bool", lit) or f[0] is BOOL(kind == "True") or f[0] is absint.eq(lit, STR("true")))
    if kind in ("Not", "Sub"):
        return n == "Unary" and same_token(P, f[0], tok, kind) and [f[1]] == order()
    if kind == "Lp":
        return n == "Paren" and [f[0]] == order()
    if kind == "Let":
        return n == "Let" and f[0] is P.lit_at(P.token_at(p, pos, P.index, "Ident")) and [f[1]] == order()
    if kind == "If":
        o = order("Rp", "Else")
        return n == "If" and len(o) in (2, 3) and [f[0]] == o[0] and lst(f[1]) == o[1] and lst(f[2]) == (o[2] if len(o) == 3 else [])
    if kind == "Ls":
        return n == "Array" and lst(f[0]) == order()
    if kind == "Lb":
        return n == "Map" and lst(f[0]) == order() and pairs(P, f[0], p)
    return False


def same_token(P, t, tok, kind=None):
    if t is tok:
        return True
    return t.op == "adt" and t.a[0] == P.TOK and proj(t, (None, P.tl)) is proj(tok, (None, P.tl)) and \
        (proj(t, (None, P.ti)) is proj(tok, (None, P.ti)) or kind and proj(t, (None, P.ti)) is mk("adt", P.K, P.kinds.index(kind)))


def pairs(P, t, p):
    """every element pushed is a pair of one key and one value"""
    if t is mk("seq"):
        return True
    if t.op == "push":
        return pairs(P, t.a[0], p) and t.a[1].op == "tuple" and len(t.a[1].a) == 2 and all(x.op == "parsed" for x in t.a[1].a)
    if t.op == "phi":
        for x in p.events:
            if x.kind == "loop" and x.id == t.a[0]:
                return pairs(P, x.init[t], p) and all(q.updates[t] is t or q.updates[t].op == "push" and q.updates[t].a[0] is t and pairs(P, mk("push", mk("seq"), q.updates[t].a[1]), q) for q in x.iters)
    return False


def infix_value(P, q, k, left, ph, u, end):
    c = P.c
    if u.op != "adt" or u.a[0] != P.E:
        return False
    n, f = c.p.variants(P.E)[u.a[1]]["name"], u.a[2:]
    op = mk("add", ph, INT(1))
    order = P.order(q, end, ph)
    if k in GROUP:
        return n == "Binary" and same_token(P, f[0], mk("idx", P.tokens, op), k) and f[1] is left and [f[2]] == order
    if k == "Lp":
        return n == "Call" and f[0] is proj(left, (c.variant(P.E, "Ident"), 0)) and P.items(f[1], q) == order
    if k == "Ls":
        return n == "Index" and f[0] is left and [f[1]] == order
    if k == "Dot":
        return n == "Field" and f[0] is left and f[1] is P.lit_at(mk("add", op, INT(1)))
    return False


def structure(c, P):
    """constructs of expressions: tokens read and values built"""
    w = c.where(P.expr)
    for k in P.kinds:
        if k not in HEADS:
            e, ps = P.run_head(k)
            c.ob(ps and not any(is_ok(e.norm(p.st, p.val)) for p in ps), "start %s" % k, "no expression starts with %s" % k, w)
            continue
        e, out = prefix_ends(P, k)
        language(c, P, "tokens of %s" % k, [(q, pos, P.index) for q, v, pos, *_ in out], GRAMMAR[k], [k], what="an expression that starts with %s" % k)
        good = bool(out)
        for q, v, pos, *_ in out:
            try:
                good = good and head_value(P, k, q, v, pos)
            except Mismatch:
                good = False
        c.ob(good, "value of %s" % k, "an expression that starts with %s is built from exactly the parts read, in order%s" % (k, "" if good else ": %s" % [show(x[1], 5) for x in out[:2]]), w)
        for loop, left, ph in infix(P, k).values():
            if k == "Let":
                continue
            ends = [(q, q.updates[ph], ph) for q, ks in loop_paths(P, loop, ph)]
            language(c, P, "continuation after %s" % k, ends, ALT(*([SEQ(x, "E") for x in GROUP] + [SEQ(x, INFIX[x]) for x in INFIX])), what="what follows an operand")
            good, n = True, set()
            for q, ks in loop_paths(P, loop, ph):
                for x in ks.get(mk("add", ph, INT(1)), P.kinds):
                    n.add(x)
                    try:
                        if not infix_value(P, q, x, left, ph, q.updates[left], q.updates[ph]):
                            raise Mismatch("after %s: %s" % (x, show(q.updates[left], 5)))
                    except Mismatch as m:
                        good = good or None
                        good = False
                        c.ob(False, "value after %s %s" % (k, x), "an operator, call, index or field combines exactly the parts read: %s" % m, w)
            c.ob(good and n == set(GROUP) | set(INFIX), "values after %s" % k, "every operator, call, index and field combines the operand before it with the parts read", w)


def by_kinds(c, P, key, runs):
    """errors of the parser itself depend on the kinds of the tokens only, not on
    their text or on the expressions read: whatever a name or a text says, it is
    accepted. (A literal may be one that cannot be read, and only an identifier can
    be called.)"""
    w, seen, bad = c.where(P.expr), 0, {}
    lefts = {left for k in HEADS if k != "Let" for _, left, _ in infix(P, k).values()}
    for e, ps in runs:
        for p in ps:
            v = e.norm(p.st, p.val)
            if not is_err(v) or any(x.op == "perr" for x in absint.subterms(v.a[2])):
                continue
            seen += 1
            for x in conds(p):
                t = x.term
                while t.op == "not":
                    t = t.a[0]
                if t.op == "discr" and (t.a[0].op == "call" and t.a[0].a[0].endswith(("str::parse", "FromStr::from_str")) or t.a[0].op == "phi" and x.val == c.variant(P.E, "Ident") or P.tok_pos(t.a[0]) is not None):
                    continue
                sub = set(absint.subterms(t))
                text = [y for y in sub if y.op == "fld" and y.a[2] == P.tl and y.a[0].op == "idx" and y.a[0].a[0] is P.tokens]
                if text and all(is_kind_of_literal(P, t, y, p) for y in text):
                    continue
                # a position after a parsed expression is named by it
                if text or t.op in ("discr", "eq") and any(y.op == "parsed" or y in lefts for y in sub) or counted(t):
                    bad.setdefault(show(t, 5), x)
    for s, x in list(bad.items())[:3]:
        c.ob(False, key, "whether a text is accepted depends on the kinds of its tokens only, not on %s" % s[:160], w)
    c.ob(seen > 0 and not bad, key + " errors", "the errors of the parser are decided by the kinds of tokens", w)


def counted(t):
    """is this a question about how many parts have been collected (besides: none)?"""
    if t.op not in ("lt", "le", "eq"):
        return False
    for a, b in (t.a, t.a[::-1]):
        if a.op == "len" and a.a[0].op in ("phi", "push") and b.op == "int":
            return b.a[0] > 1 or b.a[0] == 1 and t.op == "eq"
    return False


def is_kind_of_literal(P, t, lit, p):
    """a question about the text of a number or a truth value that only says which one it is"""
    ks, _ = P.facts(conds(p))
    k = ks.get(lit.a[0].a[1], frozenset(P.kinds))
    if t.op == "eq" and lit in t.a and set(k) <= {"True", "False"}:
        return any(y in (STR("true"), STR("false")) for y in t.a)
    return set(k) <= {"Integer", "Float"} and "contains" in t.op


def ends_proper(P, p, pos, start, head=False, first=None):
    """the position is that of a token known not to be the end marker"""
    ks, _ = P.facts(conds(p), first)
    if pos is start or pos.op in ("later", "phi"):
        return True
    return "Eof" not in ks.get(pos, ("Eof",))


def top(P):
    """the loop over declarations: (engine, path, loop, position)"""
    e, ps = P.run_top()
    oks = [p for p in ps if is_ok(e.norm(p.st, p.val))]
    for p in oks:
        for x in p.events:
            if x.kind == "loop":
                for k, v in x.init.items():
                    if P.is_pos(k) and v is P.index:
                        return e, oks, x, k
    raise Missing("the loop over the declarations of a text")


@prop("P16", floor=60, technique="language equality between the token sequences of all parser paths (as automata over token kinds with lookahead) and the grammar; term rules for what each path builds",
      explain="for every kind of first token the paths through the expression parser, and the iteration paths of the declaration loop, are turned into an automaton over token kinds; it must accept exactly the words of the grammar, every token moved over must have been checked, errors must be decided by kinds of tokens alone (not by what a name says, what an expression is or how many there are), and the value built must consist of exactly the parts read, in order")
def p16(c):
    P = parser(c)
    structure(c, P)
    by_kinds(c, P, "expressions accepted", [P.run_head(k) for k in P.kinds])
    by_kinds(c, P, "declarations accepted", [P.run_top()])
    w = c.where(P.parse)
    e, oks, loop, ph = top(P)
    S = c.adt("parser::Source")
    F = {n: c.field(S, n) for n in ("exprs", "requests", "tests")}
    vals = [e.norm(p.st, p.val).a[2] for p in oks]
    acc = {}
    for n, i in F.items():
        xs = {proj(v, (None, i)) for v in vals}
        x = xs.pop()
        c.ob(not xs and x in loop.init and loop.init[x] in (mk("seq"), mk("emptymap")), n, "the %s of a text are those collected by the loop over its declarations, from none" % n, w)
        acc[n] = x
    for p in oks:
        ks, last = P.facts(conds(p))
        c.ob(ks.get(ph) == {"Eof"}, "end", "the text is parsed until the end marker", w)
    if any(x not in loop.init for x in acc.values()):
        return
    ends, by = [], {}
    for q in loop.iters:
        ks, last = P.facts(conds(q))
        if not P.feasible(q, ks, last, ph):
            continue
        u = q.updates[ph]
        pos = prev(u)
        if pos is None:
            c.ob(False, "next", "an iteration ends on the first token after its declaration: %s" % show(u, 4), w)
            continue
        ends.append((q, pos, ph))
        try:
            o = P.order(q, pos, ph, (), True)
            k = ks.get(ph)
            lit = lambda kind: P.lit_at(P.token_at(q, pos, ph, kind, True))
            ups = {n: q.updates[x] for n, x in acc.items()}
            if k == {"Request"}:
                r = ups["requests"]
                good = r.op == "insert" and r.a[0] is acc["requests"] and r.a[1] is lit("Ident") and r.a[2].op == "tuple" and r.a[2].a[0] is lit("Template") and P.items(r.a[2].a[1], q) == o
                good = good and all(ups[n] is acc[n] for n in ("exprs", "tests"))
            elif k == {"Test"}:
                r = ups["tests"]
                good = r.op == "insert" and r.a[0] is acc["tests"] and r.a[1] is lit("Ident") and P.items(r.a[2], q) == o and all(ups[n] is acc[n] for n in ("exprs", "requests"))
            else:
                r = ups["exprs"]
                good = r.op == "push" and r.a[0] is acc["exprs"] and [r.a[1]] == o and all(ups[n] is acc[n] for n in ("requests", "tests"))
                k = ("expression",)
            by.setdefault(tuple(k)[0], []).append(good)
            if not good:
                c.ob(False, "registers", "a declaration is registered with its own parts: %s after %s" % (show(r, 6), word([])), w)
        except Mismatch as m:
            c.ob(False, "registers", str(m), w)
    for k in ("Request", "Test", "expression"):
        c.ob(by.get(k) and all(by[k]), "registers " + k, "each %s is registered under its own name with its own parts in order" % k.lower(), w)
    spec = ALT(*([SEQ(k, TOP[k], OPT("Semi")) for k in TOP] + [SEQ("E", OPT("Semi"))]))
    language(c, P, "declarations", ends, spec, head=True, what="each declaration")


def continues(P, kind, loop, left, ph, outs, k, r):
    """(goes on, stops) when the next token is k and the expression was asked for with precedence r"""
    nxt = mk("add", ph, INT(1))
    env = {P.kind_at(nxt): P.kinds.index(k), P.prec: r, mk("lt", nxt, mk("len", P.tokens)): True, mk("discr", left): P.c.variant(P.E, "Ident")}

    def may(cs, after=None):
        for e in cs:
            if not holds(e, env):
                return False
            t = e.term
            if t.op == "eq" and any(x.op == "adt" and x.a[0] == P.K for x in t.a):
                a, b = t.a if t.a[1].op == "adt" else t.a[::-1]
                if mk("discr", a) is P.kind_at(nxt) and ((b.a[1] == P.kinds.index(k)) == e.val) != e.eq:
                    return False
        return True
    on = any(may(conds(q)) for q, ks in loop_paths(P, loop, ph))
    off = any(may([e for e in conds(p)[:] if e in p.events[p.events.index(loop):]]) for p in outs)
    return on, off


@prop("P05", floor=400, technique="decision table extracted from the continuation condition of the expression loop, for every operator pair; constants of the precedence function folded per token kind",
      explain="for every operator and every operator that may follow its right operand, the condition under which the expression loop continues is evaluated with the precedence the right operand was asked for; it must hold exactly if the following operator binds tighter")
def p05(c):
    P = parser(c)
    w = c.where(P.expr)
    OPS_ = list(GROUP) + POSTFIX
    e, out = prefix_ends(P, "Ident")
    loops = infix(P, "Ident")
    if not c.ob(len(loops) == 1, "loop", "one loop continues an expression", w):
        return
    (loop, left, ph), = loops.values()
    outs = [p for q, v, pos, l, lf, h, p in out if l is loop]
    # the precedence each construct asks its operands for
    asked = {}
    for q, ks in loop_paths(P, loop, ph):
        for k in ks.get(mk("add", ph, INT(1)), ()):
            for x in [y for y in all_events(q) if y.kind == "call" and y.name == P.expr.path]:
                asked.setdefault(k, set()).add(x.args[1])
    group = lambda k: GROUP.get(k, len(BINARY))

    def cont(k, r, key, want, what):
        on, off = continues(P, "Ident", loop, left, ph, outs, k, r)
        c.ob(on == want and off != want, key, "%s%s" % (what, "" if on == want and off != want else ": the source %s" % ("goes on" if on else "stops")), w)
    for k in GROUP:
        a = asked.get(k, set())
        if not c.ob(len(a) == 1 and all(x.op == "int" for x in a), "asks %s" % k, "the right operand of %s is read with a precedence of its own: %s" % (k, [show(x) for x in a]), w):
            continue
        r = list(a)[0].a[0]
        for k2 in OPS_:
            t = k2 in POSTFIX or GROUP[k2] > GROUP[k]
            cont(k2, r, "%s then %s" % (k, k2), t, "a %s b %s c groups to the %s" % (k, k2, "right" if t else "left"))
    for k in ("Lp", "Ls"):
        for x in asked.get(k, ()):
            for k2 in OPS_:
                if x.op != "int":
                    c.ob(False, "asks %s" % k, "the parts of %s are read whole" % k, w)
                else:
                    cont(k2, x.a[0], "within %s %s" % (k, k2), True, "an expression within a call or index is read whole")
    for h in HEADS:
        e2, out2 = prefix_ends(P, h)
        xs = set()
        for q, v, pos, *_ in out2:
            for x in all_events(q):
                if x.kind == "call" and x.name == P.expr.path:
                    xs.add(x.args[1])
        for x in xs:
            if x.op != "int":
                c.ob(False, "asks %s" % h, "the parts of %s are read with a known precedence: %s" % (h, show(x)), w)
                continue
            for k2 in OPS_:
                t = k2 in POSTFIX or h not in ("Not", "Sub")
                cont(k2, x.a[0], "prefix %s %s" % (h, k2), t, "the operand of a prefix operator takes only calls, indices and fields" if not t or h in ("Not", "Sub") else "an expression within %s is read whole" % h)
        # the loop after other first tokens decides the same
        for loop2, left2, ph2 in infix(P, h).values():
            outs2 = [p for q, v, pos, l, lf, hh, p in out2 if l is loop2]
            for k2 in OPS_:
                for r in (0,):
                    on, off = continues(P, h, loop2, left2, ph2, outs2, k2, r)
                    t = h != "Let"
                    c.ob(on == t and off != t, "after %s %s" % (h, k2), "%s after an operand that starts with %s is %s" % (k2, h, "read on" if t else "not part of a binding"), w)
    # every other token ends the expression
    for k in P.kinds:
        if k not in OPS_:
            cont(k, 0, "end %s" % k, False, "%s ends an expression" % k)
    e3, ps3 = P.run_top()
    for x in {y.args[1] for p in ps3 for y in all_events(p) if y.kind == "call" and y.name == P.expr.path}:
        for k2 in OPS_:
            if c.ob(x.op == "int", "asks top", "an expression of the text is read with a known precedence", c.where(P.parse)):
                cont(k2, x.a[0], "top %s" % k2, True, "an expression of the text is read whole")


@prop("P04", floor=200, technique="product of the lexer's loop summary with the spellings of the language, explored over all classes of characters; operation table of the evaluator per operator kind; acceptance of every operator by the parser's loop",
      explain="the iteration paths of the lexer are followed in step with the spelling rules over all classes of characters (inner loops to a fixpoint) and must give the kind of the longest spelling; for every operator kind the evaluator's paths must apply that operator's own operation to the values of left and right operand, and comparisons must give the same truth as in assertions")
def p04(c):
    from checks import lexing
    lexing.spellings(c)
    r = roles(c)
    P = parser(c)
    a, b = c.sym("a"), c.sym("b")
    w = c.where(r.expr)
    ops = [f.path for f in c.p.local_fns(("fn",)) if f.trait and f.trait.startswith("core::ops::") and f.self_ty is not None and f.ty(f.self_ty)["s"] == "value::Value"]
    V = lambda n: c.variant(r.V, n)
    for k in list(ARITH) + list(COMPARE):
        e, ps = run_expr(c, r, mk("adt", r.E, c.variant(r.E, "Binary"), token(c, r, k), a, b), opaque=r.opaque + ops)
        n, good, last = 0, True, None
        for p in ps:
            if p.kind != "ret":
                continue
            evs = [x for x in p.events if x.kind == "call" and x.name == r.expr.path]
            if any(is_err(x.res) for x in evs):
                continue
            vals = {x.args[0]: x.res.a[2] for x in evs if is_ok(x.res)}
            v = last = final(e, p)
            n += 1
            if set(vals) != {a, b}:
                good = False
            elif k in ARITH:
                t = v
                while t.op == "adt" and t.a[0] == RESULT and t.a[2].op == "fld" and t.a[2].a[0].op == "call":
                    t = t.a[2].a[0]
                good = good and t.op == "call" and t.a[0].endswith(ARITH[k]) and t.a[1:] == (vals[a], vals[b])
            else:
                good = good and is_ok(v) and v.a[2].op == "adt" and v.a[2].a[1] == V("Boolean") and same_cmp(v.a[2].a[2], OPS[k](vals[a], vals[b]), vals[a], vals[b])
        c.ob(good and n, "operation %s" % k, "%s applies its own operation to left and right operand%s" % (k, "" if good else ": %s" % show(last, 6)), w)
    judged = set()

    def judgement(ok, key, text, where):
        k, _, what = key.partition(" ")
        if k in COMPARE and what == "result":
            judged.add(k)
            c.ob(ok, "assertion %s" % k, "an assertion judges %s as an expression does%s" % (k, "" if ok else ": " + text), where)
        return ok
    outcomes(c, judgement)
    for k in COMPARE:
        c.ob(k in judged, "assertions with %s" % k, "assertions judge %s" % k, w)
    for loop, left, ph in infix(P, "Ident").values():
        acc = {}
        for q, ks in loop_paths(P, loop, ph):
            for k in ks.get(mk("add", ph, INT(1)), ()):
                u = q.updates[left]
                t = u.a[2] if u.op == "adt" and u.a[0] == P.E and u.a[1] == c.variant(P.E, "Binary") else None
                acc.setdefault(k, []).append(t is not None and same_token(P, t, mk("idx", P.tokens, mk("add", ph, INT(1))), k))
        for k in GROUP:
            c.ob(acc.get(k) and all(acc[k]), "accepts %s" % k, "the parser accepts %s between two operands and keeps it as the operator" % k, c.where(P.expr))


@prop("P01", floor=80, technique="ranking rule: every loop iteration path and every recursive call of lexer and parser moves a position of a finite sequence forward; typestate of the position by field-write scan",
      explain="every iteration path of every loop in lexer and parser strictly advances a position over the characters or tokens, every recursive call starts at a later token than its caller, and no construct ends on the end marker, so a position that cannot advance is never reached again")
def p01(c):
    L, P = lexer(c), parser(c)
    w = c.where(L.fn)
    for p in L.ps:
        for x in all_loops(p):
            pos = [k for k, v in x.init.items() if L.is_pos(v)]
            for i, q in enumerate(x.iters):
                moved = False
                for k in pos:
                    try:
                        moved = moved or bool(L.chain(q.updates[k], x, q))
                    except Missing:
                        pass
                c.ob(moved, "lexer loop", "iteration path %d of the loop at %s moves over a character" % (i, short(x.span)), w)
    eofs = [p for p in L.loop.iters if L.token(p) is not None and L.kinds_of(L.token(p), p) & {"Eof", None}]
    fs = [final(L.e, p) for p in L.ps]
    c.ob(not eofs and all(f.op == "push" and L.kind(f.a[1]) == "Eof" for f in fs), "end marker", "the tokens end with the end marker and it occurs nowhere before", w)
    w = c.where(P.expr)
    runs = [(k, P.run_head(k), [k]) for k in P.kinds] + [("declarations", P.run_top(), None)]
    for key, (e, ps), first in runs:
        head = first is None
        w = c.where(P.parse if head else P.expr)
        seen = set()
        for p in ps:
            for x in p.events:
                if x.kind == "loop":
                    loop_moves(c, P, x, key, w, seen)
            calls_move(c, P, p.events, P.index, key, w, first, seen, p)
            v = e.norm(p.st, p.val)
            ks, last = P.facts(conds(p), first)
            if is_ok(v) and not head and P.feasible(p, ks, last, P.index):
                pos = proj(e.norm(p.st, p.st.mem[("P", 1)]), (None, P.ii))
                if (key, pos) not in seen:
                    seen.add((key, pos))
                    c.ob(ends_proper(P, p, pos, P.index, False, first), "%s ends" % key, "an expression that starts with %s ends on a token that is not the end marker: %s" % (key, show(pos, 4)), w)
    # nothing else moves the position or changes the tokens
    known = c.functions
    for f in c.p.local_fns(("fn", "closure")):
        for a, i, span in field_writes(f, P.P):
            c.ob(f.path in known or f.path.startswith("lib::parser::"), "writes", "the position of a parser is changed by the analysed functions only: %s" % f.path, span)
        for blk in f.blocks:
            for s in blk["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == P.P:
                    e, ps = c.run(f)
                    good = all(p.kind == "ret" and built(P, L, e.norm(p.st, p.val)) for p in ps)
                    c.ob(good, "constructor", "a parser starts at the first token of a lexed text", f.span)


def built(P, L, v):
    return v.op == "adt" and v.a[0] == P.P and proj(v, (None, P.ii)) is INT(0) and proj(v, (None, P.it)).op == "push"


def short(s):
    return str(s)


def loop_moves(c, P, x, key, w, seen):
    pos = [k for k in x.init if P.is_pos(k)]
    for q in x.iters:
        ks, last = P.facts(conds(q))
        for y in q.events:
            if y.kind == "loop":
                loop_moves(c, P, y, key, w, seen)
        if len(pos) != 1:
            c.ob(False, key + " loop", "the loop at %s moves the position" % x.span, w)
            continue
        calls_move(c, P, q.events, pos[0], key, w, None, seen, q)
        if not P.feasible(q, ks, last, pos[0]):
            continue
        u = q.updates[pos[0]]
        if (key, x.span, u) in seen:
            continue
        seen.add((key, x.span, u))
        try:
            moved, why = bool(P.chain(q, u, pos[0])), ""
        except Mismatch as m:
            moved, why = False, str(m)
            if u.op == "add":
                # the iteration begins with an expression at the position itself
                try:
                    moved = bool(P.chain(q, u, pos[0], True)[1:])
                except Mismatch as m:
                    why = str(m)
        c.ob(moved, key + " loop", "every iteration of the loop at %s moves over a token %s" % (x.span, why), w)
        if not (P.parse and w.startswith(P.parse.path) and prev(u) is not None):
            c.ob(ends_proper(P, q, u, pos[0]), key + " loop end", "an iteration of the loop at %s ends on a token that is not the end marker: %s" % (x.span, show(u, 4)), w)


def calls_move(c, P, events, start, key, w, first, seen, p):
    """recursive calls start after the first token"""
    for i, y in enumerate(events):
        if y.kind != "call" or y.name != P.expr.path:
            continue
        pos = P.call_pos(y)
        if (key, start, pos) in seen:
            continue
        ks, last = P.facts([z for z in events[:i] if z.kind == "cond"], first)
        if any(q is start or q.op in ("later", "phi") for q in last):
            continue
        seen.add((key, start, pos))
        if pos is start:
            good = w.startswith(P.parse.path) or start.op == "phi" and False
        else:
            try:
                good = bool(P.chain(p, pos, start, True)[1:])
            except Mismatch:
                good = False
        c.ob(good, key + " descends", "an expression within %s starts after its first token" % key, w)

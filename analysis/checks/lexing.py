"""The lexer as a machine over classes of characters, run in step with the
spelling rules of the language (a product of the two, explored to its end).

The loop summary of the lexer gives the machine: an iteration path of its outer
loop reads characters, perhaps through inner loops, and adds at most one token.
States of inner loops are abstract: flags and kinds by value, texts by which part
of the characters read so far they hold, the word read so far only as long as it
is the start of a keyword."""
from run import prop
from rules import *
from checks import syntax
from checks.syntax import SPELL, WORDS, QUOTES, CHARS, PRED, alpha, digit, value, holds, possible, all_loops, lexer

WORD = lambda x: alpha(x) or digit(x) or x == "_"


class St:
    """a point on a path: where reading stands and what is known"""
    __slots__ = ("chars", "at", "spec", "word", "tail", "since", "env", "texts", "count")

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def copy(self):
        s = St(**{k: getattr(self, k) for k in self.__slots__})
        s.chars, s.env, s.texts = dict(self.chars), dict(self.env), dict(self.texts)
        return s


class Machine:
    def __init__(self, c, L):
        self.c, self.L = c, L
        self.bad = {}
        self.steps = 0
        self.states = 0
        self.cache = {}
        self.sub = {}
        self.words = set(WORDS)
        self.signatures()

    def report(self, first, what, text):
        self.bad.setdefault((first, what), text)

    # ---- classes of characters
    def signatures(self):
        L = self.L
        evs, consts, seen = [], set(), set()

        def terms(t):
            for x in subterms(t):
                if x.op in ("str", "char") and isinstance(x.a[0], str):
                    if len(x.a[0]) == 1:
                        consts.add(x.a[0])
                    elif x.a[0] and all(map(WORD, x.a[0])):
                        self.words.add(x.a[0])

        def visit(p):
            for x in all_events(p):
                if x.kind == "cond":
                    if (x.term, x.val) not in seen:
                        seen.add((x.term, x.val))
                        evs.append(x)
                        terms(x.term)
                        if isinstance(x.val, str) and len(x.val) == 1:
                            consts.add(x.val)
                elif x.kind == "loop":
                    for q in x.iters:
                        visit(q)
                        for u in q.updates.values():
                            terms(u)
            for u in (getattr(p, "updates", None) or {}).values():
                terms(u)
        for p in L.loop.iters:
            visit(p)
        for p in L.ps:
            visit(p)
        tests = []
        for x in evs:
            its = {y for y in subterms(x.term) if y.op == "item" or y.op == "phi"}
            tests += [(x.term, y, x.val) for y in its]
        self.prefixes = {w[:i] for w in self.words for i in range(1, len(w) + 1)}
        letters = set("".join(self.words))
        own = set(SPELL) | set(QUOTES) | letters | consts | {".", "_", "0"}
        sig = {}
        for ch in CHARS:
            s = [ch if ch in own else "", digit(ch), alpha(ch), PRED["is_whitespace"](ch)]
            for t, y, v in tests:
                x = value(t, {y: ch})
                s.append((x if isinstance(x, bool) else None, (ord(x) if isinstance(x, str) and len(x) == 1 and isinstance(v, int) and not isinstance(v, bool) else x) == v))
            sig.setdefault(tuple(s), []).append(ch)
        self.classes = sorted(sig.values())
        self.alphabet = [x[0] for x in self.classes] + [None]

    # ---- the language
    def step(self, s, ch):
        """the rest of the token after one more character; None if the token ends before it"""
        k = s[0]
        if k == "S":
            if PRED["is_whitespace"](ch):
                return s
            if ch in QUOTES:
                return ("Q", ch)
            if digit(ch):
                return ("N", False)
            if WORD(ch):
                return ("W", ch if ch in self.prefixes else None)
            return ("O", ch) if ch in SPELL else ("X",)
        if k == "Q":
            return ("E", s[1]) if ch == s[1] else s
        if k == "O":
            return ("O", s[1] + ch) if s[1] + ch in SPELL else None
        if k == "N":
            return s if digit(ch) else ("N", True) if ch == "." else None
        if k == "W":
            if not WORD(ch):
                return None
            return ("W", s[1] + ch if s[1] is not None and s[1] + ch in self.prefixes else None)
        return None

    def kind(self, s):
        return {"O": lambda: SPELL[s[1]], "Q": lambda: QUOTES[s[1]], "E": lambda: QUOTES[s[1]], "N": lambda: "Float" if s[1] else "Integer",
                "W": lambda: WORDS.get(s[1], "Ident"), "X": lambda: "Illegal"}[s[0]]()

    # ---- reading
    def look(self, st, pos):
        """the states in which the character at a position is known"""
        if pos in st.chars:
            yield st
            return
        if pos.op == "adv":
            for s in self.look(st, pos.a[0]):
                if s.chars[pos.a[0]] is None:
                    s = s.copy()
                    s.chars[pos] = None
                    yield s
                else:
                    for ch in self.alphabet:
                        x = s.copy()
                        x.chars[pos] = ch
                        yield x
            return
        if pos.op != "phi":
            raise Missing("a position in the text: %s" % show(pos))
        for ch in self.alphabet:
            x = st.copy()
            x.chars[pos] = ch
            yield x

    def between(self, a, b):
        out = []
        while b is not a:
            if b.op != "adv":
                raise Missing("the position %s is not reached by reading on" % show(b))
            b = b.a[0]
            out.append(b)
        return out[::-1]

    def consume(self, st, to):
        """read on to a position"""
        states = [st]
        for pos in self.between(st.at, to):
            more = []
            for s0 in states:
                for s in self.look(s0, pos):
                    ch = s.chars[pos]
                    if ch is None:
                        self.report(self.first, "end", "reads past the end of the text")
                        continue
                    n = self.step(s.spec, ch)
                    if n is None:
                        self.report(self.first, "extent", "the %s token goes on over %r" % (self.kind(s.spec), ch))
                        continue
                    s = s.copy()
                    s.at = mk("adv", pos)
                    s.count = s.count + 1 if s.count < 2 else 2
                    if n[0] == "S":
                        s.word, s.since = "", ""
                    else:
                        s.since += ch
                        if s.word is not None:
                            s.word += ch
                    s.spec = n
                    more.append(s)
            states = more
        return states

    # ---- values
    def text(self, t, st):
        """("c", text) or ("r", hypotheses) with what was appended to it, or None"""
        o = t.op
        if o == "str" or o == "char":
            return ("c", t.a[0])
        if t in st.texts:
            return ("r", st.texts[t], "")
        if t in st.env:
            return ("c", st.env[t]) if isinstance(st.env[t], str) else None
        if o == "item":
            ch = st.chars.get(t.a[0])
            return ("c", ch) if ch is not None else None
        if o == "display":
            return self.text(t.a[0], st)
        if o == "cat":
            out = ("c", "")
            for x in t.a:
                y = self.text(x, st)
                if y is None:
                    return None
                if y[0] == "c":
                    out = ("c", out[1] + y[1]) if out[0] == "c" else ("r", out[1], out[2] + y[1])
                elif out == ("c", ""):
                    out = y
                else:
                    return None
            return out
        return None

    def parts(self, st, v):
        """which parts (from, short of the end) of the characters read since the token began a text is"""
        if v is None:
            return frozenset()
        if v[0] == "c":
            w = st.word
            if w is None:
                return frozenset()
            return frozenset((i, g) for i in (0, 1) for g in (0, 1, 2) if len(w) - g - i >= 0 and w[i:len(w) - g] == v[1])
        out = set()
        for i, g in v[1]:
            have = (st.tail[-g:] if g else "") + st.since
            if g <= len(st.tail) and have.startswith(v[2]):
                out.add((i, len(have) - len(v[2])))
        return frozenset(x for x in out if x[1] <= 2)

    def known(self, t, st):
        """the text of a term, "" + None if it is a longer or other word than any keyword"""
        v = self.text(t, st)
        if v is None:
            return None
        if v[0] == "c":
            return (v[1],)
        if (0, 0) in self.parts(st, v) and st.spec[0] == "W":
            return (st.spec[1],)
        return None

    def inside(self, t):
        """the subterms whose value may be known"""
        if t not in self.sub:
            self.sub[t] = [x for x in subterms(t) if x.op in ("item", "more", "phi", "eq", "call", "len", "discr")]
        return self.sub[t]

    def env(self, t, st):
        """values of what occurs in a term"""
        env = {}
        for x in self.inside(t):
            if x.op == "item" and st.chars.get(x.a[0]) is not None:
                env[x] = st.chars[x.a[0]]
            elif x.op == "more" and x.a[0] in st.chars:
                env[x] = st.chars[x.a[0]] is not None
            elif x in st.env:
                env[x] = st.env[x]
            elif x.op == "eq" and len(x.a) == 2:
                for a, b in (x.a, x.a[::-1]):
                    if b.op == "str" and a.op != "str":
                        k = self.known(a, st)
                        if k is not None:
                            env[x] = k[0] == b.a[0]
            elif x.op == "call" and x.a[0].rsplit("::", 1)[-1] == "contains" and len(x.a) == 3:
                v = self.text(x.a[1], st)
                ch = value(x.a[2], {})
                ch = chr(ch) if isinstance(ch, int) else ch
                if v is not None and v[0] == "c" and isinstance(ch, str):
                    env[x] = ch in v[1]
                elif v is not None and (0, 0) in self.parts(st, v) and st.spec[0] == "N" and ch == ".":
                    env[x] = st.spec[1]
            elif x.op == "len" and x not in env:
                v = self.text(x.a[0], st)
                if v is not None and v[0] == "c":
                    env[x] = len(v[1].encode())
            elif x.op == "discr" and x.a[0] in st.env and isinstance(st.env[x.a[0]], T) and st.env[x.a[0]].op == "adt":
                env[x] = st.env[x.a[0]].a[1]
        return env

    def closed(self, t, st):
        """the value of a flag, a character or a constant"""
        if t in st.env:
            return st.env[t]
        v = value(t, self.env(t, st))
        if v is not None:
            return v
        if t.op == "adt" and len(t.a) == 2:
            return t
        v = self.text(t, st)
        return v[1] if v is not None and v[0] == "c" else None

    def follow(self, events, st):
        """the states in which a path can be followed to its end"""
        states = [st]
        for x in events:
            if not states:
                return []
            if x.kind == "cond":
                out = []
                pos = []
                for y in self.inside(x.term):
                    if y.op in ("item", "more") and y.a[0] not in pos and y.a[0].op in ("phi", "adv"):
                        pos.append(y.a[0])
                for s0 in states:
                    group = [s0]
                    for y in pos:
                        group = [s for g in group for s in self.look(g, y)] if self.reached(s0, y) else group
                    for s in group:
                        self.steps += 1
                        env = self.env(x.term, s)
                        if isinstance(x.val, str) and x.term not in env:
                            k = self.known(x.term, s)
                            if k is not None:
                                env[x.term] = "another word" if k[0] is None else k[0]
                        if holds(x, env):
                            out.append(s)
                states = out
            elif x.kind == "loop":
                states = [s for s0 in states for s in self.enter(x, s0)]
        return states

    def reached(self, st, pos):
        while pos.op == "adv":
            if pos is st.at or pos in st.chars:
                return True
            pos = pos.a[0]
        return pos is st.at or pos in st.chars

    def enter(self, x, st):
        """the states at the head of an inner loop"""
        ph = None
        for k, v in x.init.items():
            y = v
            while y.op == "adv" and y is not st.at:
                y = y.a[0]
            if y is st.at:
                if ph is not None:
                    raise Missing("one position in the text at %s" % x.span)
                ph = k
        if ph is None:
            return [st]
        grown = {k for k in x.init for q in x.iters if q.updates[k].op == "cat" and k in q.updates[k].a}
        free = {y for q in x.iters for z in all_events(q) if z.kind == "cond" for y in subterms(z.term)} | {y for q in x.iters for u in q.updates.values() for y in subterms(u)}
        out = []
        for s in self.consume(st, x.init[ph]):
            e = s.copy()
            e.at = ph
            if x.init[ph] in s.chars:
                e.chars[ph] = s.chars[x.init[ph]]
            for k, v in x.init.items():
                if k is ph:
                    continue
                if k in grown:
                    e.texts[k] = self.parts(s, self.text(v, s))
                else:
                    val = self.closed(v, s)
                    if val is not None:
                        e.env[k] = val
            # what the loop can see of the state
            base = e
            key = self.face(x, ph, grown, e, free)
            if (x.id, key) not in self.cache:
                self.cache[x.id, key] = list(self.around(x, ph, grown, e, free))
            for h in self.cache[x.id, key]:
                n = base.copy()
                n.at, n.spec, n.word, n.tail, n.since, n.count = ph, h.spec, h.word, h.tail, h.since, max(base.count, h.count)
                for k in x.init:
                    for d in ("chars", "env", "texts"):
                        getattr(n, d).pop(k, None)
                        if k in getattr(h, d):
                            getattr(n, d)[k] = getattr(h, d)[k]
                out.append(n)
        return out

    def face(self, x, ph, grown, s, free):
        lag = any(g for k in grown for i, g in s.texts.get(k, ()))
        return (s.spec, s.chars.get(ph, "?"), s.word if s.word is not None and len(s.word) < 3 else None, s.tail if lag else "",
                tuple(sorted(((id(k), v if not isinstance(v, T) else id(v)) for k, v in s.env.items() if k in free or k in x.init), key=str)),
                tuple((k.id if hasattr(k, "id") else id(k), s.texts.get(k)) for k in sorted(grown, key=id)),
                tuple(sorted((id(k), str(v)) for k, v in s.chars.items() if k is not ph and mk("item", k) in free)))

    def around(self, x, ph, grown, st, free):
        """all states at the head of the loop, from one"""
        first = st.copy()
        # texts are measured against what was read; the word so far only matters at first
        first.tail, first.since = (st.since or st.tail)[-2:] if st.word is None else st.word[-2:], ""
        seen, todo = {}, [first]
        while todo:
            s = todo.pop()
            key = self.face(x, ph, grown, s, free)
            if key in seen:
                continue
            seen[key] = s
            self.states += 1
            if len(seen) > 20000:
                raise Missing("finitely many states of the loop at %s" % x.span)
            for q in x.iters:
                for y in self.follow(q.events, s):
                    for z in self.consume(y, q.updates[ph]):
                        n = z.copy()
                        n.at = ph
                        moved = q.updates[ph]
                        n.chars = {k: v for k, v in st.chars.items() if k not in x.init}
                        if moved in z.chars:
                            n.chars[ph] = z.chars[moved]
                        for k, u in q.updates.items():
                            if k is ph:
                                continue
                            n.env.pop(k, None)
                            n.texts.pop(k, None)
                            if k in grown:
                                v = self.text(u, z)
                                n.texts[k] = self.parts(z, v)
                                if z.spec[0] == "S":
                                    n.texts[k] = frozenset(h for h in s.texts.get(k, ()) if u is k and h == (0, 0))
                            else:
                                val = self.closed(u, z)
                                if val is not None:
                                    n.env[k] = val
                        if z.spec[0] == "S":
                            n.word, n.tail, n.since = "", "", ""
                        else:
                            n.tail = (z.tail + z.since)[-2:]
                            n.word = None if z.word is None or len(z.word) > 2 else z.word
                            n.since = ""
                        todo.append(n)
        return seen.values()

    # ---- one turn of the outer loop
    def start(self, first):
        cur = self.L.cur
        return St(chars={cur: first}, at=cur, spec=("S",), word="", tail="", since="", env={}, texts={}, count=0)

    def turn(self, first, p):
        L = self.L
        n = 0
        for st in self.follow(p.events, self.start(first)):
            n += 1
            for s in self.consume(st, p.updates[L.cur]):
                t = L.token(p)
                if s.count == 0:
                    self.report(first, "extent", "reads nothing")
                    continue
                if t is None:
                    if s.spec[0] != "S":
                        self.report(first, "lost", "no token holds what was read, of kind %s" % self.kind(s.spec))
                    continue
                if s.spec[0] == "S":
                    self.report(first, "text", "a token %s of white space" % show(t, 3))
                    continue
                k = self.closed(proj(t, (None, self.c.field(L.TOK, "kind"))), s)
                k = L.kinds[k.a[1]] if isinstance(k, T) and k.op == "adt" and k.a[0] == L.K else None
                want = self.kind(s.spec)
                lo, hi = {"E": (1, 1), "Q": (1, 0)}.get(s.spec[0], (0, 0))
                text = self.text(L.literal(t), s)
                if (lo, hi) not in self.parts(s, text):
                    self.report(first, "text %s" % want, "the %s token does not carry exactly the characters read, but %s" % (want, show(L.literal(t), 4)))
                # the longest token: nothing that follows belongs to it
                for z in self.look(s, s.at):
                    d = z.chars[s.at]
                    if d is not None and self.step(s.spec, d) is not None:
                        self.report(first, "extent", "the %s token ends before %r" % (want, d))
                    elif k != want:
                        self.report(first, "kind", "read %s as %s%s" % (want, k, "" if s.word is None else ": %r" % s.word))
        return n

    def leave(self, first, p):
        """the way out of the loop"""
        L = self.L
        i = [k for k, x in enumerate(p.events) if x is L.loop]
        n = 0
        for s in self.follow(p.events[i[0] + 1:] if i else [], self.start(first)):
            n += 1
            if s.chars.get(s.at, "?") is not None or s.spec[0] != "S":
                self.report(first, "lost", "the loop is left before the end of the text")
        return n

    def run(self):
        L = self.L
        for first in self.alphabet:
            n, self.first = 0, first
            env = {mk("item", L.cur): first, mk("more", L.cur): first is not None}
            for f, ps in ((self.turn, [p for p in L.loop.iters if possible(p, env)]), (self.leave, L.ps)):
                for p in ps:
                    n += f(first, p)
            if not n:
                self.report(first, "kind", "nothing is done with it")
        return self


def machine(c):
    if "machine" not in c.cache:
        c.cache["machine"] = Machine(c, lexer(c)).run()
    return c.cache["machine"]


def told(c, m, what, key, text, chars=CHARS):
    """one obligation per character: no disagreement of these kinds on what starts with it"""
    w = c.where(m.L.fn)
    rep = {ch: x[0] for x in m.classes for ch in x}
    for ch in chars:
        bad = [t for (f, k), t in m.bad.items() if f == rep[ch] and any(k.startswith(y) for y in what)]
        c.ob(not bad, "%s %r" % (key, ch), "%s%s" % (text % ch, ": " + bad[0] if bad else ""), w)


def spellings(c):
    m = machine(c)
    told(c, m, ("kind", "extent"), "spelling", "%r and what follows it become the token of the longest spelling")
    for x in WORDS:
        bad = [t for (f, k), t in m.bad.items() if f == x[0] and k in ("kind", "extent")]
        c.ob(not bad, "word %s" % x, "the word %s is a token of its own kind, and only that word%s" % (x, ": " + bad[0] if bad else ""), c.where(m.L.fn))


@prop("P07", floor=320, technique="product of the lexer's loop summary with the spelling rules, explored over all classes of characters: extent, characters and number of the tokens of every iteration path",
      explain="the iteration paths of the lexer's loop, with the loops inside them followed to a fixpoint, are run in step with the spelling rules over all classes of characters; on each of them exactly one token is added (none for white space), it ends where the spelling ends, its literal is the characters read, without the quotes of a string or template; the loop is left only at the end of the text and the end marker is added once")
def p07(c):
    L = lexer(c)
    w = c.where(L.fn)
    c.ob(L.acc is not None and all([x for x in p.events if x.kind == "loop"][:1] == [L.loop] for p in L.ps), "one loop", "the text is read by one loop that collects the tokens", w)
    eof = mk("push", L.acc, mk("adt", L.TOK, 0, *[{"kind": mk("adt", L.K, L.kinds.index("Eof")), "literal": STR("")}[n] for n in c.fields(L.TOK)]))
    for p in L.ps:
        c.ob(final(L.e, p) is eof, "end", "the tokens end with one end marker: %s" % show(final(L.e, p), 4), w)
    m = machine(c)
    told(c, m, ("extent", "end"), "extent", "the token that starts with %r ends where its spelling ends")
    told(c, m, ("text", "lost"), "characters", "what starts with %r is in one token, which carries exactly the characters read")
    bad = [(k, t) for (f, k), t in m.bad.items() if f is None]
    c.ob(not bad, "at the end", "at the end of the text nothing more is read%s" % ("" if not bad else ": %s" % bad[0][1]), w)
    c.notes.append("%d classes of characters, %d states of inner loops, %d conditions decided" % (len(m.classes), m.states, m.steps))

"""The command: P40 (records of a run), P41 (numbers of runs), P42 (separate
workers), P43 (end of a run), P44 (stopping), P45 (session), P46 (statistics),
P47 (source files), P48 (durations)."""
import re

import absint
import models
from run import prop
from rules import *
from checks import evaluation, records, effects

PARSED = "clap_builder::derive::Parser::parse"
PRINT = "io::stdio::_print"
SEND = "sync::mpsc::Sender::send"
JOIN = "thread::join_handle::JoinHandle::join"


def holds(events, t):
    """the value a path knows a boolean or tag to have"""
    for e in events:
        if e.kind == "cond" and e.term is t:
            if isinstance(e.val, bool):
                return (e.val is True) == bool(e.eq)
            if e.eq:
                return e.val
            if t.op == "discr" and e.val in (0, 1):
                return 1 - e.val
    return None


def reader(c):
    """the function that appends the sources below a path to a text"""
    return c.fn("command::read", pred=lambda f: any("Path" in x for x in f.sig()[0]) and "&mut alloc::string::String" in f.sig()[0] and "io::error::Error" in f.sig()[1])


class Worker:
    """a thread that evaluates tests: the spawn, the loops it is started in with
    their iterations, and what the starting path did before"""

    def __init__(self, s, chain, p):
        self.s, self.chain, self.p = s, chain, p
        self.before = []
        evs = p.events
        for ev, q in chain:
            self.before += evs[:evs.index(ev)]
            evs = q.events
        self.before += evs[:evs.index(s)]
        self.rest = evs[evs.index(s) + 1:]

    def canon(self, t):
        for ev, q in self.chain:
            t = info(ev).canon(t)
        return t


class Segment:
    """a stretch of a worker in which a test is evaluated"""

    def __init__(self, w, path, loop, seen):
        self.w, self.path, self.loop = w, path, loop
        self.events = path.events
        self.seen = seen + [x for x in path.events if x.kind == "loop"]

    def canon(self, t):
        for ev in self.seen + ([self.loop] if self.loop else []):
            t = info(ev).canon(t)
        return self.w.canon(t)

    def fact(self, t):
        v = holds(self.events, t)
        return v if v is not None else holds(self.w.before + self.w.rest, t)


class Command:
    def __init__(self, c):
        self.c = c
        self.block = evaluation.roles(c).block.path
        W = records.Writers(c)
        self.new, self.write = W.new.path, W.write.path
        self.C = c.adt("context::Context")
        self.S = c.adt("Source")
        self.R = W.R
        self.rec = [i for i, f in enumerate(c.p.variants(self.C)[0]["fields"]) if "Record" in f["tys"]]
        if len(self.rec) != 1:
            raise Missing("the records of a context")
        self.rec = self.rec[0]
        self.main = c.fn("basjoofan::main")
        self.add = c.fn("Stats::add", pred=lambda f: f.path.endswith("Stats::add")).path
        self.read = reader(c).path
        lib = [f.path for f in c.p.local_fns(("fn",)) if f.path in ("lib::parser::Parser::new", "lib::parser::Parser::parse")]
        if len(lib) != 2:
            raise Missing("the parser")
        self.parser, self.parse = lib if lib[0].endswith("new") else lib[::-1]
        if "command" not in c.cache:
            c.cache["command"] = c.run(self.main, opaque={self.block, self.new, self.write, self.add, self.read, *lib})
        self.e, self.ps = c.cache["command"]
        self.where = c.where(self.main)
        A = [x.res for p in self.ps for x in p.events if x.kind == "call" and x.name == PARSED]
        if not A or any(a is not A[0] for a in A):
            raise Missing("the parsed arguments")
        I = c.adt("Interface")
        self.top = proj(A[0], (None, c.field(I, "command")))
        self.cmd = proj(self.top, (1, 0))
        K = c.adt("Commands")
        self.var = {}
        for i, v in enumerate(c.p.variants(K)):
            names = [f["name"] for f in v["fields"]]
            if "threads" in names:
                self.var["test"] = i
                self.args = {n: proj(self.cmd, (i, k)) for k, n in enumerate(names)}
            elif names == ["text"] or "text" in names:
                self.var["eval"] = i
                self.text = proj(self.cmd, (i, names.index("text")))
        if len(self.var) != 2:
            raise Missing("the commands eval and test")
        for n in ("name", "threads", "duration", "number", "path", "record", "stat"):
            if n not in self.args:
                raise Missing("the argument %s of the test command" % n)

    def some(self, n):
        return proj(self.args[n], (1, 0))

    def given(self, n):
        return mk("discr", self.args[n])

    def paths(self, mode, kinds=("ret",)):
        out = []
        for p in self.ps:
            if p.kind not in kinds:
                continue
            t = holds(p.events, mk("discr", self.top))
            k = holds(p.events, mk("discr", self.cmd))
            if mode == "repl" and t == 0 or t == 1 and mode in self.var and k == self.var[mode]:
                out.append(p)
        return out

    # ---- the test command
    def evals(self, events):
        return [x for x in events if x.kind == "call" and x.name == self.block]

    def workers(self):
        out, seen = [], set()

        def walk(events, chain, p):
            for x in events:
                if x.kind == "spawn" and any(self.evals(all_events(o)) for o in x.outs):
                    k = (id(x),) + tuple(id(y) for a in chain for y in a)
                    if k not in seen:
                        seen.add(k)
                        out.append(Worker(x, chain, p))
                elif x.kind == "loop":
                    for q in x.iters:
                        walk(q.events, chain + [(x, q)], p)
        for p in self.paths("test"):
            walk(p.events, [], p)
        return out

    def segments(self, w):
        out, seen = [], set()

        def walk(path, loop, before):
            if self.evals(path.events) or loop is None:
                out.append(Segment(w, path, loop, before))
            before = before + ([loop] if loop else [])
            for x in path.events:
                if x.kind == "loop":
                    if id(x) not in seen and any(self.evals(all_events(q)) for q in x.iters):
                        seen.add(id(x))
                        for q in x.iters:
                            walk(q, x, before)
                    before = before + [x]
        for o in w.s.outs:
            walk(o, None, [])
        return out

    def source(self, p):
        """the parsed source of a run, None if there is none"""
        xs = [x for x in p.events if x.kind == "call" and x.name == self.parse]
        if len(xs) != 1 or holds(p.events, mk("discr", xs[0].res)) != 0:
            return None
        return proj(xs[0].res, (0, 0))

    def tests(self, p):
        s = self.source(p)
        return None if s is None else proj(s, (None, self.c.field(self.S, "tests")))

    def unit(self, w, x):
        """(name, which) of the test that call x evaluates"""
        tests = self.tests(w.p)
        b = bare(w.canon(x.args[0]))
        if b.op == "lookup" and b.a[0] is tests:
            return b.a[1], "named"
        for ev, q in w.chain:
            it = mk("each", ev.id, tests) if tests is not None else None
            if it is not None and b is proj(it, (None, 1)):
                return proj(it, (None, 0)), "all"
        return None, show(b, 5)


def bare(t):
    """what is behind a view of a value"""
    while t.op == "call" and len(t.a) == 2 and re.search(r"as_ref|AsRef|Deref|deref|Borrow|as_slice|as_str", t.a[0]):
        t = t.a[1]
    return t


def base(t, loops):
    """the value a loop variable started from, through what was done with it"""
    seen = set()
    while t not in seen:
        seen.add(t)
        if t.op == "after":
            t = t.a[2]
        elif t.op == "phi":
            for ev in loops:
                if t in ev.init:
                    if all(base_step(q.updates[t], t) for q in ev.iters):
                        t = ev.init[t]
                    break
    return t


def base_step(u, ph):
    while u.op == "after":
        u = u.a[2]
    return u is ph


def number_of(s, t):
    """the number of an iteration: ("count", loop, start) or an integer"""
    t = s.canon(t)
    while t.op == "cast":
        t = t.a[1]
    return t


# ---------------------------------------------------------------- P40
def p40_segment(c, C, w, s, wf):
    xs = C.evals(s.events)
    c.ob(len(xs) == 1, "once", "an iteration of a worker evaluates the test once: %d times" % len(xs), wf)
    if len(xs) != 1:
        return
    x = xs[0]
    name, which = C.unit(w, x)
    c.ob(name is not None, "test", "what is evaluated is a test of the source: %s" % which, wf)
    i = s.events.index(x)
    after = s.events[i + 1:]
    # nothing is lost before: a test starts without records
    c.ob(clear(C, s, x.args[1]), "fresh", "an iteration starts without records of an earlier one", wf)
    ctx = mk("after", x.res, 1, x.args[1])
    R = proj(ctx, (None, C.rec))
    # printed
    n = 0
    for y in after:
        if y.kind == "loop" and any(z.kind == "call" and z.name == PRINT for q in list(y.iters) + list(y.exits) for z in all_events(q)):
            li = info(y)
            over = li.coll is R
            it = mk("each", y.id, R)
            good = over and all(exhausts(li, q) for q in y.exits)
            for q in y.iters:
                pr = [z for z in all_events(q) if z.kind == "call" and z.name == PRINT]
                good = good and len(pr) == 1 and pr[0] in q.events and shown(li.canon(pr[0].args[0]), it) == 1
            c.ob(good, "printed", "the loop at %s prints every record of the iteration once" % y.span, wf)
            n += 1
        elif y.kind == "call" and y.name == PRINT:
            t = close_path(s.path, y.args[0])
            k = sum(1 for z in subterms(t) if z.op == "joined" and z.a[0] is R and shown(z.a[2], mk("each", z.a[1], R)) == 1)
            if k:
                n += k
            else:
                c.ob(not any(z is R for z in subterms(t)), "printed", "records are printed one by one: %s" % show(t, 5), wf)
    c.ob(n == 1, "printed", "the records of an iteration are printed once, %d times here" % n, wf)
    # recorded
    wr = [y for y in after if y.kind == "call" and y.name == C.write]
    inner = [y for z in after if z.kind == "loop" for q in list(z.iters) + list(z.exits) for y in all_events(q) if y.kind == "call" and y.name in (C.write, SEND)]
    c.ob(not inner, "once", "records are handed over as a whole", wf)
    rec = s.fact(C.given("record"))
    c.ob(rec is not None, "recorded", "whether to record is the argument record", wf)
    c.ob(len(wr) == (1 if rec == 1 else 0), "recorded", "with%s recording, the records of an iteration are written %d times" % ("" if rec == 1 else "out", len(wr)), wf)
    for y in wr:
        c.ob(bare(y.args[1]) is R, "recorded", "what is written are the records of the iteration: %s" % show(y.args[1], 4), wf)
        got = [bare(s.canon(a)) for a in y.args[2:]]
        c.ob(len(got) == 3 and name is not None and got[0] is bare(s.canon(name)), "label", "records are written under the name of the test: %s" % [show(g, 5) for g in got[:1]], wf)
        th, nr = [number_of(s, a) for a in y.args[3:5]] if len(got) == 3 else (None, None)
        outer = [mk("count", ev.id, INT(0)) for ev, q in w.chain]
        c.ob(th in outer, "label", "records carry the number of their worker: %s" % (show(th, 4) if th is not None else None), wf)
        own = [mk("count", ev.id, INT(0)) for ev in s.seen + ([s.loop] if s.loop else []) if any(C.evals(q.events) for q in ev.iters)]
        c.ob(nr in own if own else nr is INT(0), "label", "records carry the number of the iteration: %s" % (show(nr, 4) if nr is not None else None), wf)
    # counted
    se = [y for y in after if y.kind == "call" and y.name == SEND]
    stat = s.fact(C.args["stat"])
    c.ob(stat is not None, "counted", "whether to count is the argument stat", wf)
    if stat:
        good = len(se) == 1 and se[0].args[0].op == "sender" and se[0].args[1] is R
        c.ob(good, "counted", "with statistics, the records of an iteration are sent once: %s" % [show(y.args[1], 4) for y in se], wf)
    early = [y for y in s.events[:i] if y.kind == "call" and y.name in (C.write, SEND)]
    c.ob(not early, "once", "nothing is handed over before the test is evaluated", wf)


def exhausts(li, q):
    return any(li.canon(e.term).op == "left" and ((e.val is False) == bool(e.eq)) for e in conds(q))


def shown(t, it):
    """how often the text t shows the item"""
    parts = t.a if t.op == "cat" else [t]
    n = 0
    for x in parts:
        if x.op == "display" and x.a[0] is it or x is it:
            n += 1
        elif any(y is it for y in subterms(x)) or not (x.op == "str" and not x.a[0].strip()):
            n += 100  # not as it is
    return n


def clear(C, s, ctx):
    """a context without records"""
    empty = mk("seq")
    t = proj(ctx, (None, C.rec))
    if t is empty:
        return True
    loops = s.seen + ([s.loop] if s.loop else [])
    for ev in loops:
        for ph, v0 in ev.init.items():
            if ctx is ph:
                return proj(v0, (None, C.rec)) is empty and all(proj(q.updates[ph], (None, C.rec)) is empty for q in ev.iters)
            if t is ph:
                return v0 is empty and all(q.updates[ph] is empty for q in ev.iters)
    return False


@prop("P40", floor=60, technique="conservation of the records of an iteration over the summaries of the worker threads: on every path that evaluates a test, the records in the context afterwards flow exactly once into the print loop, into the record writer and into the channel",
      explain="every thread started by the test command that evaluates a test is found in the summary of main; each of its paths and loop iterations is decided")
def p40(c):
    C = Command(c)
    ws = C.workers()
    kinds = set()
    for w in ws:
        wf = "%s (%s)" % (w.s.fn, w.s.span)
        ss = C.segments(w)
        for s in ss:
            if C.evals(s.events):
                kinds.add(C.unit(w, C.evals(s.events)[0])[1])
                p40_segment(c, C, w, s, wf)
            else:
                c.ob(not [y for y in all_events(s.path) if y.kind == "call" and y.name in (C.write, SEND) and not inside_loop(s.path, y)], "once",
                     "records are handed over only where a test was evaluated", wf)
    c.ob(kinds >= {"named", "all"}, "modes", "a named test and all tests are run: %s" % sorted(kinds), C.where)
    counted_stats(c, C)


def inside_loop(p, y):
    return not any(z is y for z in p.events)


RECV = "mpsc::Receiver::recv"


def takes_messages(L):
    """does this loop take messages from a channel, in whatever way?"""
    li = info(L)
    if li.coll is not None and any(z.op == "received" for z in subterms(li.coll)):
        return True
    return any(y.kind == "call" and y.name.endswith(RECV) for q in list(L.iters) + list(L.exits) for y in q.events)


def until_closed(L):
    """does the loop end with the last sender only?"""
    li = info(L)
    if li.coll is not None:
        return all(exhausts(li, q) for q in L.exits)
    for q in list(L.iters) + list(L.exits):
        rs = [y for y in q.events if y.kind == "call" and y.name.endswith(RECV)]
        if len(rs) != 1 or holds(q.events, mk("discr", rs[0].res)) != (0 if any(q is z for z in L.iters) else 1):
            return False
    return bool(L.iters and L.exits)


def message(L, q):
    li = info(L)
    if li.coll is not None:
        return mk("each", L.id, li.coll)
    rs = [y for y in q.events if y.kind == "call" and y.name.endswith(RECV)]
    return proj(rs[0].res, (0, 0)) if len(rs) == 1 else None


def counted_stats(c, C):
    """the thread that counts takes every record of every message once"""
    n = 0
    for p in C.paths("test"):
        for x in p.events:
            if x.kind != "spawn" or not any(y.op == "receiver" for y in subterms(x.env)):
                continue
            for o in x.outs:
                if holds(o.events, C.args["stat"]) is False or holds(p.events, C.args["stat"]) is False:
                    continue
                n += 1
                ls = [y for y in o.events if y.kind == "loop" and takes_messages(y)]
                c.ob(len(ls) == 1 and until_closed(ls[0]), "counting", "the counting thread takes messages until the last sender is gone", c.where(C.main))
                for L in ls:
                    li = info(L)
                    for q in L.iters:
                        if li.coll is not None and li.coll.op == "flat" and li.coll.a[0].op == "received":
                            # a loop over the records of all messages
                            ad = [v for v in all_events(q) if v.kind == "call" and v.name == C.add]
                            c.ob(len(ad) == 1 and within(li.canon(ad[0].args[1]), mk("each", L.id, li.coll)), "counting", "every record of a message is counted once", c.where(C.main))
                            continue
                        msg = message(L, q)
                        ins = [y for y in q.events if y.kind == "loop"]
                        good = len(ins) == 1
                        for y in ins:
                            lj = info(y)
                            good = good and lj.coll is not None and li.canon(lj.coll) is msg and all(exhausts(lj, z) for z in y.exits)
                            for z in y.iters:
                                ad = [v for v in all_events(z) if v.kind == "call" and v.name == C.add]
                                it = proj(mk("each", y.id, lj.coll), (None, 0)) if lj.coll is not None else None
                                good = good and len(ad) == 1 and within(lj.canon(ad[0].args[1]), mk("each", y.id, lj.coll))
                        extra = [v for v in q.events if v.kind == "call" and v.name == C.add]
                        c.ob(good and not extra, "counting", "every record of a message is counted once", c.where(C.main))
    c.ob(n > 0, "counting", "a thread counts what is sent", C.where)


def within(t, want):
    t = bare(t)
    while t is not want:
        if t.op != "fld":
            return False
        t = bare(t.a[0])
    return True


# ---------------------------------------------------------------- P41
class Open(Exception):
    pass


class Lin:
    """a*q + b for a q that may be any number from 0"""

    def __init__(self, a, b):
        self.a, self.b = a, b


def lin(x):
    return x if isinstance(x, Lin) else Lin(0, int(x))


def calc(t, env):
    """the value of a term over integers: linear in q, exact for every q"""
    if t in env:
        return env[t]
    o = t.op
    if o == "int":
        return lin(t.a[0])
    if o == "bool":
        return t.a[0]
    if o == "cast":
        x = calc(t.a[1], env)
        if t.a[0] not in ("u32", "u64", "usize", "i64", "u128", "i128", "isize"):
            raise Open(show(t, 3))
        return lin(x)
    if o == "call" and len(t.a) == 2 and re.search(r"From::from|Into::into", t.a[0]):
        return lin(calc(t.a[1], env))
    if o == "not":
        return not calc(t.a[0], env)
    if o in ("add", "sub", "mul", "div", "rem", "max", "min", "lt", "le", "eq", "bitand", "bitor", "wrapping_add", "saturating_sub"):
        x, y = calc(t.a[0], env), calc(t.a[1], env)
        if isinstance(x, bool) and isinstance(y, bool) and o in ("bitand", "bitor", "eq"):
            return {"bitand": x and y, "bitor": x or y, "eq": x == y}[o]
        x, y = lin(x), lin(y)
        if o == "add":
            return Lin(x.a + y.a, x.b + y.b)
        if o == "sub":
            return Lin(x.a - y.a, x.b - y.b)
        if o == "mul":
            if x.a and y.a:
                raise Open(show(t, 3))
            return Lin(x.a * y.b + y.a * x.b, x.b * y.b)
        if o in ("div", "rem"):
            if y.a or y.b <= 0 or x.a % y.b:
                raise Open(show(t, 3))
            return Lin(x.a // y.b, x.b // y.b) if o == "div" else Lin(0, x.b % y.b)
        d = sign(Lin(x.a - y.a, x.b - y.b))
        if o in ("max", "min"):
            return x if (d >= 0) == (o == "max") else y
        if o == "saturating_sub":
            return Lin(x.a - y.a, x.b - y.b) if d >= 0 else lin(0)
        if o == "lt":
            return d < 0
        if o == "le":
            return d <= 0
        if o == "eq":
            return d == 0
    raise Open(show(t, 3))


def sign(x):
    """the sign of a*q + b for every q from 0, if it is one"""
    if x.a == 0:
        return (x.b > 0) - (x.b < 0)
    if x.a > 0 and x.b > 0:
        return 1
    if x.a < 0 and x.b < 0:
        return -1
    raise Open("%d*q%+d" % (x.a, x.b))


GATES = {}


def gates(events, names, canon):
    """the conditions of a path over the given names only, with what they must be"""
    k = (id(events), tuple(names))
    if k not in GATES:
        out = []
        for e in events:
            if e.kind == "cond" and isinstance(e.val, bool):
                t = canon(e.term)
                if closed(t, names) and not any(t is x for x, v in out):
                    out.append((t, e.val == bool(e.eq)))
            elif e.kind == "cond" and isinstance(e.val, int):
                # a number that is, or is not, a certain one
                t = mk("eq", canon(e.term), INT(e.val))
                if closed(t, names) and not any(t is x for x, v in out):
                    out.append((t, bool(e.eq)))
        GATES[k] = (events, out)
    return GATES[k][1]


def closed(t, names):
    """is the term a number over these names?"""
    if t in names:
        return True
    kids = [x for x in t.a if isinstance(x, T)]
    return all(closed(x, names) for x in kids) if kids else t.op in ("int", "bool")


def admitted(events, env, canon):
    """may a path be taken under env? conditions over other things are left open"""
    for t, v in gates(events, env, canon):
        try:
            x = calc(t, env)
        except Open:
            continue
        if isinstance(x, bool) and x != v:
            return False
    return True


def bound(li, q):
    """how many iterations the path's conditions allow: term B of count < B"""
    out = []
    for e in conds(q):
        t = li.canon(e.term)
        v = (e.val is True) == bool(e.eq) if isinstance(e.val, bool) else None
        if v is None or t.op not in ("lt", "le"):
            continue
        x, y = t.a
        if x.op == "count" and x.a[0] == li.ev.id and (t.op == "lt") == v and v:
            out.append(sub_start(y, x.a[1]))
        elif x.op == "count" and x.a[0] == li.ev.id and t.op == "le" and v:
            out.append(mk("add", sub_start(y, x.a[1]), INT(1)))
        elif y.op == "count" and y.a[0] == li.ev.id and t.op == "le" and not v:
            out.append(sub_start(x, y.a[1]))
        elif y.op == "phi" and y in li.ev.init and x is INT(0) and t.op == "lt" and v and all(u.updates[y] is mk("sub", y, INT(1)) for u in li.ev.iters):
            out.append(li.ev.init[y])
    return out


def bounds(li):
    """the bounds that all iterations have in common"""
    out = None
    for q in li.ev.iters:
        b = bound(li, q)
        out = b if out is None else [x for x in out if x in b]
    return list(dict.fromkeys(out or []))


def sub_start(t, v0):
    return t if v0 is INT(0) else mk("sub", t, v0)


GRID, SMALL = 48, 20


def p41_named(c, C, ws, p, ev, wf):
    """the workers of one path of the command that are started by loop ev"""
    li = info(ev)
    n = INT(2 ** 32 - 1) if holds(p.events, C.given("duration")) == 1 else C.args["number"]
    th = C.args["threads"]
    cases = []
    for w in ws:
        q = w.chain[-1][1]
        for o in w.s.outs:
            ls = [y for y in o.events if y.kind == "loop" and any(C.evals(all_events(z)) for z in list(y.iters) + list(y.exits))]
            c.ob(len(ls) == 1, "loop", "a worker of a named test runs it in one loop: %d" % len(ls), wf)
            if len(ls) != 1:
                return
            L = ls[0]
            lj = info(L)
            bs = set()
            for z in L.iters:
                b = bounds(lj)
                c.ob(len(b) == 1, "bound", "every iteration is counted against the runs of the worker: %s" % [show(x, 4) for x in b], wf)
                bs |= set(li.canon(x) for x in b)
                xs = C.evals(z.events)
                c.ob(len(xs) == 1 and not [x for y in z.events if y.kind == "loop" for r in y.iters for x in C.evals(all_events(r))], "each", "an iteration runs the test once", wf)
                oks = [x for x in xs if holds(z.events, mk("discr", x.res)) == 0]
                c.ob(len(oks) == len(xs), "goes-on", "a worker goes on after a test that passed", wf)
            c.ob(len(bs) == 1, "bound", "a worker has one number of runs: %s" % [show(b, 5) for b in bs], wf)
            for z in L.exits:
                xs = C.evals(z.events)
                done = [e for e in conds(z) for t in [lj.canon(e.term)] if t.op in ("lt", "le") and any(y.op == "count" and y.a[0] == L.id or y in L.init for y in t.a)
                        and isinstance(e.val, bool) and not admits(t, (e.val is True) == bool(e.eq), lj)]
                stopped = [e for e in conds(z) if flag_read(e) is not None and flag_read(e) is False]
                failed = [x for x in xs if holds(z.events, mk("discr", x.res)) == 1]
                c.ob(done or stopped or failed, "leaves", "a worker ends only after its runs, a failed test, or when stopped", wf)
                c.ob(not xs or failed, "leaves", "a run that ends the worker is one that failed", wf)
            for b in bs:
                cases.append((w, q, b))
    if not cases:
        c.ob(False, "bound", "the number of runs of a worker is known", wf)
        return
    # the loop over the workers
    T = [(q, b) for q in ev.iters for b in bounds(li)]
    c.ob(len(T) == len(ev.iters), "workers", "workers are counted: %s" % [show(b, 4) for q, b in T[:3]], wf)
    for q in ev.exits:
        c.ob(any(e for e in conds(q) for t in [li.canon(e.term)] if t.op in ("lt", "le") and isinstance(e.val, bool) and not admits(t, (e.val is True) == bool(e.eq), li)), "workers",
             "the loop that starts the workers ends with the last", wf)
    for q in ev.iters:
        c.ob(sum(1 for x in q.events if x.kind == "spawn" and any(w.s is x for w in ws)) == 1, "workers", "each iteration starts one worker", wf)
    i = mk("count", ev.id, INT(0))
    bad, n0, lemma = None, 0, all(split(b, n, T[0][1], i) for w, q, b in cases) if T else False
    before = p.events[:p.events.index(ev)]
    grid = SMALL if lemma else GRID
    for t in range(0, grid + 1):
        want = max(t, 1)
        for r in range(want):
            env = {th: lin(t)}
            total = Lin(want, r)
            if n.op == "int":
                if r != n.a[0] % want:
                    continue
                total = lin(n.a[0])
            else:
                env[n] = total
            if not admitted(before, env, lambda x: x):
                continue
            try:
                ts = {calc(b, env).b if calc(b, env).a == 0 else None for q, b in T if admitted(q.events, {**env, i: lin(0)}, li.canon)}
                if ts != {want}:
                    bad = "%d threads start %s workers" % (t, ts)
                    break
                sa = sb = 0
                for k in range(want):
                    ek = {**env, i: lin(k)}
                    vs = {(lin(calc(b, ek)).a, lin(calc(b, ek)).b) for w, q, b in cases if admitted(q.events, ek, li.canon)}
                    if len(vs) != 1:
                        bad = "worker %d of %d has %d numbers of runs" % (k, want, len(vs))
                        break
                    a, b = vs.pop()
                    if a < 0 or a == 0 and b < 0 or b < 0:
                        bad = "worker %d of %d has %d*q%+d runs" % (k, want, a, b)
                        break
                    sa, sb = sa + a, sb + b
                if bad is None and (sa, sb) != (total.a, total.b):
                    bad = "%d workers make %d*q%+d runs instead of %d*q%+d (q any)" % (want, sa, sb, total.a, total.b)
                n0 += 1
            except Open as x:
                bad = "cannot decide the number of runs: %s" % x
            if bad:
                break
        if bad:
            break
    c.ob(bad is None and n0 > 0, "total", bad or "the runs of all workers add up to the number asked for, for up to %d workers and every number%s" % (
        grid, " (and for any number of workers: n/t + (i < n%t) over i < t adds up to n)" if lemma else ""), wf)
    if not lemma:
        c.note("the division of the runs is none of the known forms: decided for up to %d workers and every number" % GRID)


def split(b, n, t, i):
    """n / t + (i < n % t)"""
    if b.op != "add":
        return False
    for x, y in (b.a, b.a[::-1]):
        while y.op == "cast" or y.op == "call" and len(y.a) == 2 and "From" in y.a[0]:
            y = y.a[-1]
        if x is mk("div", n, t) and y.op == "lt" and y.a[0] is i and y.a[1] is mk("rem", n, t):
            return True
    return False


def admits(t, v, li):
    """does this comparison with the counter let an iteration run?"""
    x, y = t.a
    cnt = lambda z: z.op == "count" and z.a[0] == li.ev.id
    if cnt(x):
        return v
    if cnt(y):
        return not v
    if y in li.ev.init:
        return v
    return True


def flag_read(e):
    """the value of an atomic flag a condition reads"""
    t, v = e.term, (e.val is True) == bool(e.eq) if isinstance(e.val, bool) else None
    if v is not None and t.op == "call" and t.a[0].endswith("Atomic::load"):
        f = t.a[1]
        if f.op == "call" and f.a[0].endswith("Atomic::new") and f.a[1].op == "bool":
            return v == f.a[1].a[0]
    return None


@prop("P41", floor=40, technique="symbolic division of the runs: the loop bound of each worker as a term in number, threads and worker index; its sum over the workers is decided in linear forms (exact for every number), the loops' exits by their conditions",
      explain="the bound of every worker loop and of the loop that starts the workers is read off their summaries")
def p41(c):
    C = Command(c)
    ws = C.workers()
    groups = {}
    for w in ws:
        wf = "%s (%s)" % (w.s.fn, w.s.span)
        xs = [x for o in w.s.outs for x in C.evals(all_events(o))]
        kinds = {C.unit(w, x)[1] for x in xs}
        if kinds == {"named"} and w.chain:
            groups.setdefault((id(w.p), id(w.chain[-1][0])), (w.p, w.chain[-1][0], wf, []))[3].append(w)
            name = {C.unit(w, x)[0] for x in xs}
            c.ob(name == {C.some("name")}, "name", "the test that runs is the one named", wf)
        elif kinds == {"all"}:
            ev, q = w.chain[-1]
            li = info(ev)
            c.ob(li.coll is C.tests(w.p) and all(exhausts(li, z) for z in ev.exits), "all", "all tests of the source are run", wf)
            c.ob(len(w.chain) == 1 and sum(1 for x in q.events if x.kind == "spawn" and x is w.s) == 1, "all", "each test has one worker", wf)
            for z in ev.iters:
                c.ob(sum(1 for x in z.events if x.kind == "spawn" and any(C.evals(all_events(o)) for o in x.outs)) == 1, "all", "each test has one worker", wf)
            for o in w.s.outs:
                c.ob(len(C.evals(o.events)) == 1 and len(C.evals(all_events(o))) == 1, "all", "each test is run once", wf)
        else:
            c.ob(False, "kind", "a worker runs the named test, or one of all tests: %s" % sorted(kinds), wf)
    for p, ev, wf, g in groups.values():
        p41_named(c, C, g, p, ev, wf)
    # which mode runs
    for p in C.paths("test"):
        named = holds(p.events, C.given("name"))
        if C.source(p) is None or any(holds(p.events, mk("discr", x.res)) == 1 for x in C.evals(p.events)):
            continue
        loops = [x for x in p.events if x.kind == "loop" and any(y.kind == "spawn" for q in x.iters for y in q.events)]
        has = [e for e in conds(p) if e.term.op == "has"]
        found = not has or holds(p.events, has[0].term)
        want = 0 if named == 1 and not found else 1
        c.ob(len(loops) == want, "mode", "a run starts its workers in one loop: %d" % len(loops), C.where)
        if named == 1:
            c.ob(len(has) == 1 and has[0].term.a[1] is C.some("name") and has[0].term.a[0] is C.tests(p), "mode", "a named test is looked for among the tests of the source", C.where)
            if not found:
                c.ob(any(x.kind == "call" and x.name == PRINT and any(y is C.some("name") for y in subterms(x.args[0])) for x in p.events), "mode", "a test that is not there is reported", C.where)
            mine = {id(w.chain[-1][0]) for w in ws if any(w.chain[-1][0] is x for x in loops) and all(C.unit(w, x)[1] == "named" for o in w.s.outs for x in C.evals(all_events(o)))}
        else:
            mine = {id(w.chain[-1][0]) for w in ws if any(w.chain[-1][0] is x for x in loops) and all(C.unit(w, x)[1] == "all" for o in w.s.outs for x in C.evals(all_events(o)))}
        c.ob(len(mine) == len(loops), "mode", "with a name the named test runs, without all tests run", C.where)


# ---------------------------------------------------------------- P42
SHARED = re.compile(r"\b(Mutex|RwLock|RefCell|Cell|UnsafeCell|OnceCell|OnceLock|LazyLock|LazyCell|Rc|Atomic\w*)<|\*mut |\*const |&mut |\bAtomic(Bool|U\d+|I\d+|Usize|Isize)\b|Condvar|Barrier")


def reach(p, s, seen=None):
    """type strings of the fields reachable from a local type named in s"""
    seen = set() if seen is None else seen
    out = {s}
    for k, a in p.adts.items():
        if not a.get("local") or k in seen or not re.search(r"(?<![\w:])%s(?!\w)" % re.escape(k), s) and not re.search(r"::%s(?!\w)" % re.escape(k.rsplit("::", 1)[-1]), s):
            continue
        seen.add(k)
        for v in a["variants"]:
            for f in v["fields"]:
                out |= reach(p, f["tys"], seen)
    return out


def upvars(c, s):
    """type strings of what a closure captures"""
    f = c.p.fns.get(s.closure.a[0]) if s.closure.op == "closure" else None
    if f is None:
        fs = [g for g in c.p.fns.values() if g.kind == "closure" and s.closure.op == "closure" and g.path == s.closure.a[0]]
        f = fs[0] if len(fs) == 1 else None
    if f is None:
        raise Missing("the closure a worker runs: %s" % show(s.closure, 2))
    t = f.ty(f.locals[1]["ty"])
    while t["k"] == "ref":
        t = f.ty(t["args"][0])
    return [f.ty(a)["s"] for a in t["args"]]


def injective(t, i):
    """a text that differs for different i and the same rest"""
    if t.op == "cat":
        n = [x for x in t.a if any(y is i for y in subterms(x))]
        return len(n) == 1 and injective(n[0], i)
    if t.op == "display":
        t = t.a[0]
        while t.op == "cast" and t.a[0] in ("u32", "u64", "usize", "i64", "u128"):
            t = t.a[1]
        return t is i
    if t.op == "spec":
        opts = dict(t.a[1]) if isinstance(t.a[1], tuple) else {}
        return injective(t.a[0], i) and "precision" not in opts
    return False


@prop("P42", floor=40, technique="ownership and provenance of what a worker captures: variables and declarations are copies of those after loading, records empty, the record file is created per worker under a name injective in the worker's number; types captured have no shared mutability but the stop flag and the channel; no mutable statics",
      explain="the captured environment of every worker in the summary of main, and the types of its closure")
def p42(c):
    C = Command(c)
    ws = C.workers()
    names = c.fields(C.C)
    for w in ws:
        wf = "%s (%s)" % (w.s.fn, w.s.span)
        load = [x for x in w.p.events if x.kind == "call" and x.name == C.block]
        c.ob(len(load) == 1, "load", "the source is evaluated once before the workers start", wf)
        main = mk("after", load[0].res, 1, load[0].args[1]) if load else None
        for s in C.segments(w):
            for x in C.evals(s.events):
                ctx = x.args[1]
                loops = s.seen + ([s.loop] if s.loop else [])
                t = ctx
                for ev in loops:
                    if t in ev.init:
                        t = ev.init[t]
                for k, n in enumerate(names):
                    got, want = proj(t, (None, k)), proj(main, (None, k))
                    if k == C.rec:
                        c.ob(got is mk("seq"), "records", "a worker starts without records: %s" % show(got, 4), wf)
                    else:
                        c.ob(got is want, "start", "a worker starts with the %s there are after loading: %s" % (n, show(got, 4)), wf)
        for ty in upvars(c, w.s):
            inner = re.sub(r"^&+", "", ty)
            r = set(reach(c.p, inner))
            shared = [x for x in r if SHARED.search(x)]
            flag = re.fullmatch(r"alloc::rcs::arc::Arc<core::sync::atomic::Atomic<bool>>|std::sync::Arc<.*AtomicBool>|alloc::sync::Arc<.*Atomic.*bool.*>", inner)
            c.ob(not shared or flag, "captured", "nothing a worker captures is shared and mutable: %s %s" % (ty, shared[:2]), wf)
            c.ob(not ty.startswith("&mut"), "captured", "a worker borrows nothing mutably: %s" % ty, wf)
        # record files
        mine = w.before
        made = [x for x in mine if x.kind == "call" and x.name == C.new]
        rec = holds(mine + w.rest, C.given("record"))
        c.ob(len(made) == (1 if rec == 1 else 0), "file", "a worker has a record file of its own if recording: %d" % len(made), wf)
        own = w.chain[-1][1].events if w.chain else []
        for x in made:
            c.ob(x in own, "file", "the record file of a worker is made for it alone", wf)
            cr = [y for y in own if y.kind == "call" and y.name.endswith("File::create") and x.args[0] is proj(y.res, (0, 0))]
            c.ob(len(cr) == 1, "file", "a record file is created anew: %s" % show(x.args[0], 4), wf)
            for y in cr:
                t = y.args[0]
                i = mk("count", w.chain[-1][0].id, INT(0))
                j = w.canon(t)
                good = j.op == "call" and j.a[0].endswith("Path::join") and bare(j.a[1]) is C.some("record") and injective(j.a[2], i)
                c.ob(good, "name", "record files are named by the number of their worker: %s" % show(j, 6), wf)
            used = {base(v.args[0], s.seen + ([s.loop] if s.loop else [])) for s in C.segments(w) for v in s.events if v.kind == "call" and v.name == C.write}
            c.ob(used <= {x.res}, "file", "a worker writes to its own file", wf)
    c.ob(len({id(w.s) for w in ws}) >= 2, "modes", "workers were found: %d" % len(ws), C.where)
    # a copy of a context is one of its own
    for t in reach(c.p, C.C) - {C.C}:
        c.ob(not SHARED.search(t), "types", "nothing in a context is shared and mutable: %s" % t, C.C)
    for s in c.p.statics():
        if "augment_subcommands" in s["key"]:
            continue
        c.ob(not s["mut"] and (s["freeze"] or effects.lazy_constant(c, s["key"])[0]), "static", "no mutable state outside of the workers: %s" % s["key"], s["span"])


# ---------------------------------------------------------------- P39
def continued(C, names, L, ph, out):
    """what happens to the context ph in a round of loop L beside evaluating in it"""
    for q in L.iters:
        u = q.updates.get(ph, ph)
        xs = [x for x in C.evals(q.events) if x.args[1] is ph]
        inner = [y for y in q.events if y.kind == "loop" and any(C.evals(all_events(z)) for z in y.iters)]
        if len(xs) == 1:
            want = mk("after", xs[0].res, 1, ph)
        elif not xs and not inner and not C.evals(all_events(q)):
            want = ph
        elif not xs and len(inner) == 1:
            continue  # decided in the inner loop, see below
        else:
            out.append("evaluated in %d times" % len(xs))
            continue
        for k, n in enumerate(names):
            if k != C.rec and proj(u, (None, k)) is not proj(want, (None, k)):
                out.append("the %s the next run starts from are %s" % (n, show(proj(u, (None, k)), 4)))


@prop("P39", floor=4, technique="loop invariant of the workers' summaries: the context a run evaluates in is the loop-carried one, and in every round its variables and declarations in the next round are those after the evaluation of this one",
      explain="per worker loop, the context argument of the evaluation and the loop-carried value of every field but the records")
def p39(c):
    C = Command(c)
    names = c.fields(C.C)
    n = 0
    for w in C.workers():
        wf = "%s (%s)" % (w.s.fn, w.s.span)
        for s in C.segments(w):
            if s.loop is None or not C.evals(s.events):
                continue
            for x in C.evals(s.events):
                ctx, L = x.args[1], s.loop
                c.ob(ctx in L.init, "carried", "a run is evaluated in the context of the worker's run before it: %s" % show(ctx, 4), wf)
                if ctx not in L.init:
                    continue
                n += 1
                bad = []
                continued(C, names, L, ctx, bad)
                for k, f in enumerate(names):
                    if k != C.rec:
                        c.ob(not [b for b in bad if b.startswith("the %s " % f)], f, "nothing but its runs changes a worker's %s: %s" % (f, bad[:1]), wf)
                c.ob(not [b for b in bad if b.startswith("evaluated")], "run", "a round runs the test in the worker's context: %s" % bad[:1], wf)
                # a loop around it hands on what this one left
                t = L.init[ctx]
                for M in s.seen:
                    if t in M.init and M is not L:
                        ups = [q.updates[t] for q in M.iters if L in q.events]
                        c.ob(all(any(y is ctx or y.op in ("phi", "exit", "after") and y.a[0] in (L.id, ctx) for y in subterms(u)) for u in ups), "outer", "the loop around the runs hands the context on: %s" % [show(u, 4) for u in ups][:1], wf)
    c.ob(n, "loops", "workers that run a test repeatedly were found", C.where)


# ---------------------------------------------------------------- P43
LEAK = re.compile(r"mem::forget$|ManuallyDrop|Box::leak|Arc::into_raw|process::(exit|abort)$|Vec::leak|thread::park")


@prop("P43", floor=20, technique="ownership and liveness of the channel's senders and the thread handles: every spawned worker's handle and the counting thread's reach the join loop, the command's own sender is dropped before the first join, no thread that is not joined holds a sender",
      explain="drop and join events of the summary of main")
def p43(c):
    C = Command(c)
    ws = C.workers()
    for p in C.paths("test", ("ret", "panic", "diverge")):
        joins = [x for x in p.events if x.kind == "loop" and any(y.kind == "call" and y.name == JOIN for q in x.iters for y in all_events(q))]
        direct = [x for x in p.events if x.kind == "call" and x.name == JOIN]
        c.ob(p.kind == "ret" or not joins and not direct, "joined", "how a worker ended does not end the command", C.where)
        spawned = [(x, None) for x in p.events if x.kind == "spawn"]
        loops = [x for x in p.events if x.kind == "loop"]
        for L in loops:
            spawned += [(x, L) for q in L.iters for x in q.events if x.kind == "spawn"]
        deep = [x for x in all_events(p) if x.kind == "spawn"]
        c.ob(len({id(x) for x in deep}) == len({id(x) for x, L in spawned}), "spawned", "threads are started by the command itself", C.where)
        if p.kind != "ret" or not spawned:
            continue
        first = min([p.events.index(x) for x in joins + direct] or [len(p.events)])
        c.ob(first < len(p.events), "joined", "a run joins its threads", C.where)
        mustjoin = [(x, L) for x, L in spawned if any(y.op in ("sender", "receiver") for y in subterms(x.env)) or any(w.s is x for w in ws)]
        for x, L in mustjoin:
            wf = "%s (%s)" % (x.fn, x.span)
            got = x in [s for d in direct for s, l in spawned if d.args[0] is s.res]
            for J in joins:
                li = info(J)
                coll = li.coll
                ok_ = coll is not None and all(exhausts(li, q) for q in J.exits) and all(
                    [li.canon(y.args[0]) for y in q.events if y.kind == "call" and y.name == JOIN] == [mk("each", J.id, coll)] for q in J.iters)
                got = got or ok_ and member(x, L, coll, p)
            c.ob(got, "joined", "the thread started at %s is joined" % x.span, wf)
            c.ob(all(p.events.index(J) > p.events.index(x if L is None else L) for J in joins), "joined", "threads are joined after all have been started", wf)
        # the statistics
        takers = [x for x, L in spawned if any(y.op == "receiver" for y in subterms(x.env))]
        off = holds(p.events, C.args["stat"]) is False
        c.ob(len(takers) == 1 or off and not takers, "counting", "one thread counts", C.where)
        for x in takers:
            c.ob(not any(y.op == "sender" for y in subterms(x.env)), "sender", "the counting thread does not keep its own channel open", x.span)
            c.ob(not x.panics, "counting", "the counting thread comes to its end", x.span)
            for o in x.outs:
                if holds(o.events, C.args["stat"]) is False or holds(p.events, C.args["stat"]) is False:
                    continue
                rl = [k for k, y in enumerate(o.events) if y.kind == "loop" and takes_messages(y)]
                pr = [k for k, y in enumerate(o.events) if y.kind == "call" and y.name == PRINT]
                c.ob(len(rl) == 1 and len(pr) == 1 and pr[0] > rl[0], "counting", "statistics are printed once, after the channel was closed", x.span)
                for k in pr:
                    L = o.events[rl[0]] if rl else None
                    shown_ = [y for y in subterms(o.events[k].args[0]) if y.op == "display"]
                    c.ob(L is not None and len(shown_) == 1 and shown_[0].a[0] in L.init, "counting", "what is printed are the statistics", x.span)
        # senders
        drops = [k for k, x in enumerate(p.events) if x.kind == "drop" and "mpsc::" in x.ty and "Sender" in x.ty]
        early = [k for k in drops if k < first]
        clones = sum(1 for x in p.events if x.kind == "call" and x.name == "Sender::clone")
        held = [x for x in p.events if x.kind == "spawn" and any(y.op == "sender" for y in subterms(x.env))]
        c.ob(len(early) == len(drops) and len(drops) + len(held) == 1 + clones, "sender", "the command drops its sender before it waits: %d of %d before" % (len(early), len(drops)), C.where)
        for L in loops:
            for q in L.iters:
                n = sum(1 for x in q.events if x.kind == "call" and x.name == "Sender::clone")
                h = sum(1 for x in q.events if x.kind == "spawn" and any(y.op == "sender" for y in subterms(x.env)))
                d = sum(1 for x in q.events if x.kind == "drop" and "mpsc::" in x.ty and "Sender" in x.ty)
                c.ob(n == h + d, "sender", "senders made for a worker go with it", C.where)
        for x, L in spawned:
            if (x, L) not in mustjoin:
                c.ob(not any(y.op == "sender" for y in subterms(x.env)), "sender", "a thread nobody waits for holds no sender", x.span)
        for x in all_events(p):
            if x.kind == "call":
                c.ob(not LEAK.search(x.name), "leak", "nothing is kept from being dropped: %s" % x.name, C.where)
                if x.name.endswith("set_handler"):
                    c.ob(not any(y.op == "sender" for a in x.args for y in subterms(a)), "sender", "the interrupt handler holds no sender", C.where)


def member(x, L, coll, p):
    """is the handle of thread x, started in loop L (or directly), in coll?"""
    if L is None:
        return any(y is x.res for y in subterms(coll)) and kept(coll)
    for ph, v0 in L.init.items():
        good = [q for q in L.iters if x in q.events]
        if good and all(pushed(q.updates[ph], ph, x.res) for q in good) and all(grows(q.updates[ph], ph) for q in L.iters):
            if any(y is ph for y in subterms(coll)) and kept(coll):
                return True
    cl = [info(L).closed(ph) for ph in L.init]
    return any(k is not None and any(y is x.res for y in subterms(k)) and any(y is k for y in subterms(coll)) for k in cl) and kept(coll)


def kept(t):
    """a collection built by adding only"""
    return all(y.op in ("push", "concat", "seq", "phi", "mapped", "cat", "array") or y.op == "call" for y in tops(t))


def tops(t):
    yield t
    if t.op == "push":
        yield from tops(t.a[0])
    elif t.op in ("concat",):
        for y in t.a:
            yield from tops(y)


def pushed(u, ph, res):
    while u.op == "push":
        if u.a[1] is res:
            return True
        u = u.a[0]
    return False


def grows(u, ph):
    while u.op == "push":
        u = u.a[0]
    return u is ph


# ---------------------------------------------------------------- P44
@prop("P44", floor=30, technique="typestate of the stop flag: created unset once per run, read before every evaluation of a named test, only ever written with the stop value by the timer thread (after sleeping the given duration) and the interrupt handler",
      explain="all atomic operations in the summary of main")
def p44(c):
    C = Command(c)
    ws = [w for w in C.workers() if any(C.unit(w, x)[1] == "named" for o in w.s.outs for x in C.evals(all_events(o)))]
    flags = {}
    for w in ws:
        wf = "%s (%s)" % (w.s.fn, w.s.span)
        made = [x for x in w.p.events if x.kind == "call" and x.name.endswith("Atomic::new")]
        for s in C.segments(w):
            for x in C.evals(s.events):
                i = s.events.index(x)
                rd = [e for e in s.events[:i] if e.kind == "cond" and flag_read(e) is True]
                c.ob(bool(rd), "read", "an iteration starts only if the run is not stopped", wf)
                c.ob(all(any(y.res is e.term.a[1] for y in made) for e in rd), "one", "all workers look at the one flag of the run", wf)
                for e in rd:
                    flags[id(w.p)] = (w.p, e.term.a[1])
                    # read in this iteration: the load is among its events
                    c.ob(any(y.kind == "call" and y.res is e.term for y in s.events[:i]), "fresh", "the flag is read anew before each iteration", wf)
        for s in C.segments(w):
            if s.loop:
                for q in s.loop.exits:
                    pass
    c.ob(bool(flags), "flag", "named tests have a stop flag", C.where)
    for p, f in flags.values():
        keep = f.a[1].a[0]
        timers = ints = 0
        for x in everything(p.events):
            if x.kind == "call" and "Atomic" in x.name and not x.name.endswith(("Atomic::load", "Atomic::new")):
                v = [a for a in x.args[1:] if a.op == "bool"]
                okay = x.name.endswith(("store", "swap")) and v and v[0].a[0] is not keep
                c.ob(okay, "set", "the flag is only ever set to stop: %s %s" % (x.name, [show(a, 2) for a in x.args[1:]]), "%s" % x.span)
        for x in p.events:
            if x.kind == "spawn":
                for o in x.outs:
                    st = stores(o.events, f)
                    if st and not C.evals(all_events(o)):
                        timers += 1
                        sl = [y for y in o.events if y.kind == "call" and y.name.endswith("sleep")]
                        d = holds(p.events, C.given("duration"))
                        before = [y for y in o.events[:o.events.index(st[0])] if y.kind == "cond"]
                        if d == 1:
                            c.ob(len(sl) == 1 and sl[0].args[0] is C.some("duration") and o.events.index(sl[0]) < o.events.index(st[0]), "timer",
                                 "the run is stopped after the given duration: %s" % [show(y.args[0], 4) for y in sl], x.span)
                        else:
                            c.ob(len(sl) == 1 and forever(sl[0].args[0]), "timer", "without a duration nothing stops the run but an interrupt: %s" % [show(y.args[0], 4) for y in sl], x.span)
                        c.ob(not before, "timer", "the timer stops the run whatever happens", x.span)
                    elif any(y.kind == "call" and y.name.endswith("sleep") for y in o.events):
                        c.ob(False, "timer", "a timer that ends stops the run", x.span)
            elif x.kind == "call" and x.name.endswith("set_handler"):
                g = handler(c, x)
                good = bool(g) and all(stores(q.events, f) for q in g)
                ints += 1
                c.ob(good, "interrupt", "an interrupt stops the run", "%s" % x.span)
        d = holds(p.events, C.given("duration"))
        c.ob(d is not None, "timer", "whether there is a duration is the argument duration", C.where)
        c.ob(timers >= 1 or d == 0, "timer", "a duration has its timer", C.where)
        c.ob(ints == 1, "interrupt", "a named run handles interrupts", C.where)


def everything(events):
    return all_events(events)


def stores(events, f):
    return [y for y in events if y.kind == "call" and y.name.endswith(("Atomic::store", "Atomic::swap")) and y.args[0] is f and y.args[1].op == "bool" and y.args[1].a[0] is not f.a[1].a[0]]


def forever(t):
    """Duration::MAX"""
    return "MAX" in show(t, 6) or t.op in ("const", "adt") and any(y.op == "int" and y.a[0] >= 2 ** 63 for y in subterms(t))


def handler(c, x):
    """the paths of the closure given to set_handler"""
    outs = getattr(x, "outs", None)
    return [o for o in outs] if outs else []


# ---------------------------------------------------------------- P45
def text_is(events, t, s):
    """does the path know text t to be s?"""
    for e in events:
        if e.kind != "cond":
            continue
        if e.term is t and e.val == s:
            return bool(e.eq)
        if isinstance(e.val, bool) and e.term.op == "eq" and t in e.term.a and STR(s) in e.term.a:
            return (e.val is True) == bool(e.eq)
    return None


def blank(events, t):
    """does the path know text t to be blank?"""
    for e in events:
        if e.kind != "cond" or not isinstance(e.val, bool):
            continue
        for y in subterms(e.term):
            if y.op == "call" and y.a[0].endswith("str::trim") and bare(y.a[1]) is t:
                v = records.emptiness([e], y)
                if v is not None:
                    return v
                if text_is([e], y, "") is not None:
                    return text_is([e], y, "")
    return None


def once(c, C, events, text, ctx, wf, key):
    """text is parsed and, if it parses, evaluated once after its requests are
    declared; returns the context afterwards"""
    ps = [x for x in events if x.kind == "call" and x.name == C.parse]
    ns = [x for x in events if x.kind == "call" and x.name == C.parser]
    xs = C.evals(events)
    prints = [x for x in events if x.kind == "call" and x.name == PRINT]
    if not c.ob(len(ps) == 1 and len(ns) == 1 and bare(ns[0].args[0]) is text and within_after(ps[0].args[0], ns[0].res), key, "what is entered is parsed once, as it is", wf):
        return ctx
    good = holds(events, mk("discr", ps[0].res))
    if good == 1:
        c.ob(not xs, key, "what does not parse is not evaluated", wf)
        c.ob(len(prints) == 1 and any(y is proj(ps[0].res, (1, 0)) for y in subterms(prints[0].args[0])), key, "a syntax error is shown", wf)
        return ctx
    if not c.ob(good == 0 and len(xs) == 1, key, "what parses is evaluated once: %d times" % len(xs), wf):
        return ctx
    src = proj(ps[0].res, (0, 0))
    x = xs[0]
    c.ob(bare(x.args[0]) is proj(src, (None, C.c.field(C.S, "exprs"))), key, "all expressions of the text are evaluated: %s" % show(x.args[0], 4), wf)
    names = C.c.fields(C.C)
    for k, n in enumerate(names):
        got, old = proj(x.args[1], (None, k)), proj(ctx, (None, k))
        if n == "requests":
            want = proj(src, (None, C.c.field(C.S, "requests")))
            c.ob(got.op == "extended" and got.a[0] is old and got.a[1] is want or old.op == "emptymap" and got is want, key, "declared requests are added to those before: %s" % show(got, 4), wf)
        elif k != C.rec:
            c.ob(got is old, key, "the %s of the session are those before: %s" % (n, show(got, 4)), wf)
    out = holds(events, mk("discr", x.res))
    shown_ = len(prints) == 1 and any(y is proj(x.res, (out, 0)) for y in subterms(prints[0].args[0])) if out in (0, 1) else False
    c.ob(shown_, key, "the value or the error is shown", wf)
    return mk("after", x.res, 1, x.args[1])


def within_after(t, want):
    while t is not want and t.op == "after":
        t = t.a[2]
    return t is want


@prop("P45", floor=25, technique="loop summary of the session: per kind of line (read error, exit, blank, syntax error, evaluated) what is evaluated and how the session context of the next iteration derives from this one's; exits by their conditions",
      explain="the session loop and the eval command in the summary of main")
def p45(c):
    C = Command(c)
    ps = C.paths("repl", ("ret", "panic", "diverge"))
    names = c.fields(C.C)
    seen = set()
    c.ob(len(ps) > 0, "session", "without a command there is a session", C.where)
    for p in ps:
        c.ob(p.kind == "ret", "end", "the session ends normally", C.where)
        loops = [x for x in p.events if x.kind == "loop"]
        if not c.ob(len(loops) == 1, "loop", "the session is one loop", C.where):
            continue
        L = loops[0]
        if id(L) in seen:
            continue
        seen.add(id(L))
        li = info(L)
        wf = "%s (%s)" % (L.fn.path, L.span)
        coll = li.coll
        good = coll is not None and coll.op == "call" and coll.a[0].endswith("BufRead::lines") and any(y.op == "call" and y.a[0].endswith("io::stdio::stdin") for y in subterms(coll))
        if not c.ob(good, "lines", "the session reads the lines of the standard input: %s" % (show(coll, 5) if coll is not None else None), wf):
            continue
        it = mk("each", L.id, coll)
        line = proj(it, (0, 0))
        sess = [ph for ph, v in L.init.items() if v.op == "adt" and v.a[0] == C.C]
        if not c.ob(len(sess) == 1, "context", "the session has one context", wf):
            continue
        sess = sess[0]
        v0 = L.init[sess]
        for k, n in enumerate(names):
            c.ob(proj(v0, (None, k)).op in ("emptymap", "seq"), "context", "a session starts with empty %s" % n, wf)
        kinds = set()
        for q in list(L.iters) + list(L.exits):
            leave = q not in L.iters
            ev = [rename(li, e) for e in q.events]
            more = [e for e in ev if e.kind == "cond" and e.term.op == "left"]
            used_up = bool(more) and not holds(ev, more[0].term)
            if used_up:
                c.ob(leave, "end", "at the end of the input the session ends", wf)
                kinds.add("end")
                continue
            got = holds(ev, mk("discr", it))
            if got == 1:
                c.ob(leave, "error", "at a read error the session ends", wf)
                kinds.add("error")
                continue
            if not c.ob(got == 0, "line", "it is known whether a line could be read", wf):
                continue
            ex = text_is(ev, line, "exit")
            if ex:
                c.ob(leave and not C.evals(ev), "exit", "at the line exit the session ends", wf)
                kinds.add("exit")
                continue
            c.ob(not leave, "goes-on", "the session does not end at another line", wf)
            c.ob(ex is False, "exit", "every line is compared with exit", wf)
            if leave:
                continue
            after = li.canon(q.updates[sess])
            if blank(ev, line):
                c.ob(not C.evals(ev) and after is sess, "blank", "a blank line changes nothing", wf)
                kinds.add("blank")
                continue
            kinds.add("line")
            ctx = once(c, C, ev, line, sess, wf, "line")
            for k, n in enumerate(names):
                if k != C.rec:
                    c.ob(proj(after, (None, k)) is proj(ctx, (None, k)), "kept", "the session goes on with the %s after the line: %s" % (n, show(after, 4)), wf)
        c.ob(kinds >= {"end", "error", "exit", "line"}, "kinds", "ends of input, read errors, exit and other lines are told apart: %s" % sorted(kinds), wf)
    n = 0
    for p in C.paths("eval"):
        n += 1
        fresh = [x for x in C.evals(p.events)]
        ctx = c.make(C.C, 0, *[mk("seq") if k == C.rec else mk("emptymap") for k in range(len(names))])
        once(c, C, p.events, C.text, ctx, C.where, "eval")
    c.ob(n >= 3, "eval", "the eval command evaluates its text", C.where)


def rename(li, e):
    """an event with the loop's element named independently of how it is reached"""
    d = {k: (li.canon(v) if isinstance(v, T) else [li.canon(y) if isinstance(y, T) else y for y in v] if k == "args" else v) for k, v in vars(e).items()}
    d.pop("kind", None)
    return Ev(e.kind, **d)


# ---------------------------------------------------------------- P46
def flat_maps(t):
    """look-ups in maps that were just changed, resolved"""
    def f(x):
        if x.op == "lookup":
            return look(x.a[0], x.a[1])
        if x.op == "fld":
            return proj(x.a[0], (x.a[1], x.a[2]))
        return x
    return rewrite(t, f)


def look(m, k):
    if m.op == "upd" and m.a[1][0] == ("k", k):
        rest = m.a[1][1:]
        return m.a[2] if not rest else mk("upd", look(m.a[0], k), rest, m.a[2])
    if m.op == "insert" and m.a[1] is k:
        return m.a[2]
    return mk("lookup", m, k)


def map_base(m, k, touched):
    while True:
        if m.op == "upd" and m.a[1][0] == ("k", k):
            m = m.a[0]
        elif m.op == "insert" and m.a[1] is k:
            m = m.a[0]
        elif m.op == "upd":
            touched.append(m)
            m = m.a[0]
        else:
            return m


@prop("P46", floor=30, technique="algebraic summary of the aggregation: every field of the entry of the added name after an addition as a term over its old fields and the duration, extremes decided by the feasible outcomes of comparison; output by provenance of the printed figures",
      explain="the summaries of the statistics' functions and of the counting thread")
def p46(c):
    add = c.fn("Stats::add", pred=lambda f: f.path.endswith("Stats::add"))
    ST, SS = c.adt("stat::Stat"), c.adt("stat::Stats")
    F = {n: c.field(ST, n) for n in ("count", "sum", "avg", "max", "min")}
    w = c.where(add)
    e, ps = c.run(add)
    self_, name, ms = [mk("param", i, add.locals[i].get("name", "")) for i in (1, 2, 3)]
    table = proj(self_, (None, 0))
    kinds = set()
    for p in ps:
        if p.kind != "ret":
            continue
        m = proj(e.norm(p.st, p.st.mem[root(p, 1)]), (None, 0))
        has = [x for x in conds(p) if x.term.op == "has" and x.term.a[0] is table and bare(x.term.a[1]) is name]
        known = holds(p.events, has[0].term) if has else None
        if not c.ob(known is not None, "entry", "an addition looks for the entry of its name", w):
            continue
        other = []
        key = has[0].term.a[1]
        c.ob(map_base(m, key, other) is table and not other, "others", "an addition changes the entry of its name only", w)
        new = flat_maps(look(m, key))
        got = {n: flat_maps(proj(new, (None, k))) for n, k in F.items()}
        if known is False:
            kinds.add("first")
            c.ob(got["count"] is INT(1) and got["sum"] is ms and got["max"] is ms and got["min"] is ms and avg(got), "first", "the first addition of a name makes one: %s" % {n: show(t, 4) for n, t in got.items()}, w)
            continue
        old = {n: proj(mk("lookup", table, key), (None, k)) for n, k in F.items()}
        cs = [(flat_maps(x.term), x.val, x.eq) for x in conds(p)]
        okc = got["count"] in (mk("add", old["count"], INT(1)), mk("add", INT(1), old["count"]))
        oks = got["sum"] in (mk("add", old["sum"], ms), mk("add", ms, old["sum"]))
        c.ob(okc, "count", "an addition counts one more: %s" % show(got["count"], 4), w)
        c.ob(oks, "sum", "an addition adds its duration: %s" % show(got["sum"], 4), w)
        c.ob(avg(got), "average", "the average is sum divided by count: %s" % show(got["avg"], 4), w)
        for n, better in (("max", "gt"), ("min", "lt")):
            for rel in ("lt", "eq", "gt"):
                if not possible(cs, ms, old[n], rel):
                    continue
                kinds.add((n, rel))
                v = pick(got[n], ms, old[n], rel)
                want = {"gt": ms, "lt": old[n]}[rel] if n == "max" and rel != "eq" else {"lt": ms, "gt": old[n]}[rel] if rel != "eq" else None
                c.ob(v in (ms, old[n]) if rel == "eq" else v is want, n, "%s of an addition that is %s: %s" % (n, {"lt": "less", "gt": "greater", "eq": "equal"}[rel], show(got[n], 4)), w)
    c.ob(kinds >= {"first"} | {(n, r) for n in ("max", "min") for r in ("lt", "eq", "gt")}, "cases", "first and later additions, less, equal and greater: %s" % sorted(map(str, kinds)), w)
    # printed
    for ty, adt in (("stat::Stat", ST), ("stat::Stats", SS)):
        d = c.impl("fmt::Display", ty, "fmt")
        wd = c.where(d)
        inl = [f.path for f in c.p.local_fns(("fn",)) if f.trait == "core::fmt::Display" and f.self_ty is not None and f.ty(f.self_ty).get("adt") == ST]
        e, ps = c.run(d, opaque=[x for x in inl if x != d.path])
        s = mk("param", 1, d.locals[1].get("name", ""))
        for p in ps:
            if p.kind != "ret":
                c.ob(False, "printed", "printing statistics does not fail by itself", wd)
                continue
            out = final(e, p)
            if adt == ST:
                txt = "".join(flat_text(y) for x in records.sinks(p.events) for y in (x.args[1].a if x.args[1].op == "cat" else [x.args[1]]))
                if failed_output(p, out):
                    continue
                for n, k in F.items():
                    c.ob(re.search(r"%s\s*[=:]\s*<%d>(?!\w)" % (n, k), txt), "printed", "the %s of an entry is printed as such: %s" % (n, txt), wd)
                    c.ob(txt.count("<%d>" % k) == 1, "printed", "each figure is printed once: %s" % txt, wd)
            else:
                if failed_output(p, out):
                    continue
                tbl = proj(s, (None, 0))
                ls = [x for x in p.events if x.kind == "loop" and info(x).coll is tbl]
                if not c.ob(len(ls) == 1 and all(exhausts(info(ls[0]), q) or failed_output(q, None) for q in ls[0].exits) and exhausted_after(p, ls[0]), "printed", "all entries are printed", wd):
                    continue
                li = info(ls[0])
                it = mk("each", ls[0].id, tbl)
                for q in ls[0].iters:
                    ss = [li.canon(x.args[1]) for x in records.sinks(q.events)]
                    parts = [y for t in ss for y in (t.a if t.op == "cat" else [t])]
                    nm = [k for k, y in enumerate(parts) if y in (proj(it, (None, 0)), mk("display", proj(it, (None, 0))))]
                    st_ = [k for k, y in enumerate(parts) if y is mk("display", proj(it, (None, 1)))]
                    c.ob(len(nm) == 1 and len(st_) == 1 and nm[0] < st_[0] and len(parts) > st_[0] + 1 and parts[-1].op == "str" and parts[-1].a[0].endswith("\n"), "printed",
                         "an entry is printed once, on a line of its own, with its name: %s" % [show(y, 3) for y in parts], wd)
    # what is added
    C = Command(c)
    n = 0
    R = C.R
    fn_, ft = c.field(R, "name"), c.field(R, "time")
    TM = [k for k in c.p.adts if k.endswith("client::Time") or k.endswith("::Time")]
    seen = set()
    for p in C.paths("test"):
        for x in p.events:
            if x.kind != "spawn":
                continue
            for y in everything_in(x):
                ev, loops = y
                if ev.kind != "call" or ev.name != C.add or id(ev) in seen:
                    continue
                seen.add(id(ev))
                n += 1
                a = [ev.args[1], ev.args[2]]
                for L in loops:
                    a = [info(L).canon(t) for t in a]
                rec = mk("each", loops[-1].id, info(loops[-1]).coll)
                nm = bare(a[0]) is proj(rec, (None, fn_))
                d = uncasts(a[1])
                tt = d.a[1] if d.op == "call" and d.a[0].endswith("Duration::as_millis") else None
                c.ob(nm and tt is not None and tt.op == "fld" and tt.a[0] is proj(rec, (None, ft)) and total_field(c, tt.a[2]), "added",
                     "a record is added under its name with its total duration in milliseconds: %s %s" % (show(a[0], 4), show(a[1], 5)), C.where)
                acc = loops[0].init if loops else {}
                b = base_through(ev.args[0], loops)
                c.ob(b is not None and b.op == "adt" and b.a[0] == SS, "added", "all records are added to the same statistics", C.where)
    c.ob(n > 0, "added", "records are added to the statistics", C.where)


def root(p, i):
    r = ("P", i)
    while p.st.mem[r].op == "ptr":
        r = p.st.mem[r].a[0]
    return r


def avg(got):
    return got["avg"] is mk("div", got["sum"], got["count"]) or got["count"] is INT(1) and got["avg"] is got["sum"]


def possible(cs, a, b, rel):
    for t, val, eq in cs:
        v = cmp_eval(t, a, b, rel)
        if v is not None and isinstance(val, bool) and (v == val) != bool(eq):
            return False
    return True


def pick(t, a, b, rel):
    if t.op in ("max", "min") and set(t.a) == {a, b}:
        if rel == "eq":
            return a
        return a if (rel == "gt") == (t.op == "max") else b
    if t.op == "ite":
        v = cmp_eval(t.a[0], a, b, rel)
        return t if v is None else t.a[1] if v else t.a[2]
    return t


def flat_text(t):
    if t.op == "str":
        return t.a[0]
    if t.op == "display":
        t = t.a[0]
    if t.op == "fld" and t.a[0].op == "param":
        return "<%d>" % t.a[2]
    return "<?>"


def failed_output(p, out):
    """a path on which writing failed"""
    for e in conds(p):
        if e.term.op == "discr" and e.term.a[0].op == "call" and e.term.a[0].a[0] == "sink" and holds(p.events, e.term) == 1:
            return True
    return False


def exhausted_after(p, L):
    li = info(L)
    return li.exhausted(p)


def everything_in(spawn):
    def walk(events, loops):
        for x in events:
            yield x, loops
            if x.kind == "loop":
                for q in x.iters:
                    yield from walk(q.events, loops + [x])
    for o in spawn.outs:
        yield from walk(o.events, [])


def uncasts(t):
    while t.op == "cast":
        t = t.a[1]
    return t


def total_field(c, k):
    for a, d in c.p.adts.items():
        if d.get("local") and a.rsplit("::", 1)[-1] == "Time":
            return d["variants"][0]["fields"][k]["name"] == "total"
    return False


def base_through(t, loops):
    seen = set()
    while t is not None and t not in seen:
        seen.add(t)
        if t.op == "after":
            t = t.a[2]
        elif t.op == "phi":
            nxt = None
            for L in loops:
                if t in L.init:
                    nxt = L.init[t]
            t = nxt if nxt is not None else t
        else:
            return t
    return t


# ---------------------------------------------------------------- P47
STATS = ("try_exists", "fs::metadata", "Path::metadata", "symlink_metadata", "fs::read_dir", "fs::read_to_string", "fs::exists")


def extension(events, path):
    """is the extension of the path known to be fan?"""
    x = None
    for e in events:
        for y in subterms(e.term) if e.kind == "cond" else ():
            if y.op == "call" and y.a[0].endswith("Path::extension") and bare(y.a[1]) is path:
                x = y
    if x is None:
        return None
    for e in events:
        if e.kind == "cond" and e.term is mk("eq", mk("discr", x), INT(1)):
            return False if not ((e.val is True) == bool(e.eq)) else extension_text(events, x)
    d = holds(events, mk("discr", x))
    if d == 0:
        return False
    return extension_text(events, x)


def extension_text(events, x):
    t = proj(x, (1, 0))
    for e in events:
        if e.kind == "cond":
            for y in subterms(e.term):
                if y is t or bare(y) is t:
                    v = text_is([e], y, "fan")
                    if v is not None:
                        return v
                z = proj(y, (1, 0)) if y.op == "call" and len(y.a) == 2 and bare(y.a[1]) is t else None
                if z is not None and text_is([e], z, "fan") is not None:
                    return text_is([e], z, "fan")
    return None


@prop("P47", floor=25, technique="case analysis of the summary of the loading function over directory, source file and other file: entries flow completely and sorted into the recursive calls, contents completely into the text, and every Ok result requires the fallible calls on its path to be known successful",
      explain="the loading function (its recursive calls summarised by its own contract) and its use in main")
def p47(c):
    f = reader(c)
    w = c.where(f)
    e, ps = c.run(f, opaque=[f.path])
    pi = [k for k, x in enumerate(f.sig()[0]) if "Path" in x][0] + 1
    ti = [k for k, x in enumerate(f.sig()[0]) if x == "&mut alloc::string::String"][0] + 1
    path, text = [mk("param", i, f.locals[i].get("name", "")) for i in (pi, ti)]
    kinds = set()
    for p in ps:
        c.ob(p.kind == "ret", "total", "loading returns: %s" % p.kind, w)
        if p.kind != "ret":
            continue
        out = e.norm(p.st, p.val)
        fall = [x for x in p.events if x.kind == "call" and (x.name.endswith(STATS) or x.name == f.path)]
        outcome = {x.res: holds(p.events, mk("discr", x.res)) for x in fall}
        after = e.norm(p.st, p.st.mem[root(p, ti)])
        if is_err(out):
            bad = [t for t, v in outcome.items() if v == 1]
            bad += [e2.term.a[0] for e2 in conds(p) if e2.term.op == "discr" and e2.term.a[0].op == "item" and holds(p.events, e2.term) == 1]
            c.ob(any(out.a[2] is proj(t, (1, 0)) for t in bad), "failure", "what is reported is the failure of this path: %s" % show(out, 5), w)
            kinds.add("error")
            continue
        c.ob(is_ok(out), "result", "the outcome is known: %s" % show(out, 4), w)
        c.ob(all(v == 0 for v in outcome.values()), "failure", "no failure is passed over: %s" % [show(t, 3) for t, v in outcome.items() if v != 0], w)
        dirs = [x for x in p.events if x.kind == "call" and x.name.endswith("fs::read_dir")]
        isdir = directory(p.events, path)
        if dirs:
            kinds.add("directory")
            c.ob(len(dirs) == 1 and bare(dirs[0].args[0]) is path and isdir is not False, "directory", "a directory is read", w)
            directory_path(c, f, p, e, dirs[0], text, after, ti, pi, w)
            continue
        c.ob(isdir is False, "directory", "what is not read as a directory is none", w)
        ext = extension(p.events, path)
        if not c.ob(ext is not None, "extension", "a file is told by its extension", w):
            continue
        reads = [x for x in p.events if x.kind == "call" and x.name.endswith("fs::read_to_string")]
        if ext:
            kinds.add("source")
            good = len(reads) == 1 and bare(reads[0].args[0]) is path and after.op == "cat" and after.a[0] is text and after.a[1] is proj(reads[0].res, (0, 0))
            c.ob(good, "source", "the whole content of a source is added behind what is there: %s" % show(after, 4), w)
            tail = after.a[2:] if after.op == "cat" else ()
            c.ob(len(tail) == 1 and tail[0].op == "str" and tail[0].a[0] and not tail[0].a[0].strip(), "separated", "sources are separated by a space: %s" % [show(x, 2) for x in tail], w)
        else:
            kinds.add("other")
            c.ob(not reads and after is text, "other", "other files are left out", w)
            # not a directory must be known, not only "could not be looked at"
            looked = [x for x in fall if x.name.endswith(("try_exists", "metadata", "exists")) and bare(x.args[0]) is path and outcome[x.res] == 0]
            c.ob(bool(looked), "skipped", "a path is only left out after it could be looked at", w)
    c.ob(kinds >= {"directory", "source", "other", "error"}, "cases", "directories, sources, other files and failures: %s" % sorted(kinds), w)
    # the use
    C = Command(c)
    n = 0
    for p in C.paths("test", ("ret", "panic", "diverge")):
        ns = [x for x in p.events if x.kind == "call" and x.name == C.parser]
        rd = [x for x in p.events if x.kind == "call" and x.name == f.path]
        for x in rd:
            top = bare(x.args[pi - 1])
            cwd = [y for y in p.events if y.kind == "call" and y.name.endswith("env::current_dir")]
            g = holds(p.events, C.given("path"))
            want = C.some("path") if g == 1 else proj(cwd[0].res, (0, 0)) if cwd and g == 0 else None
            c.ob(want is not None and top is want and x.args[ti - 1] is STR(""), "top", "what is loaded is the path given, or the current directory: %s" % show(top, 4), C.where)
        if not ns:
            c.ob(p.kind != "ret", "failure", "a run without a source is a failure", C.where)
            continue
        n += 1
        good = len(rd) == 1 and holds(p.events, mk("discr", rd[0].res)) == 0 and bare(ns[0].args[0]) is mk("after", rd[0].res, ti - 1, STR(""))
        c.ob(good, "used", "what runs is what was loaded without failure", C.where)
        seen = [x for x in p.events if x.kind == "call" and x.name.endswith(("fs::metadata", "Path::metadata", "fs::read_dir")) and rd and bare(x.args[0]) is bare(rd[0].args[pi - 1]) and holds(p.events, mk("discr", x.res)) == 0]
        seen += [x for x in p.events if x.kind == "call" and x.name.endswith("try_exists") and rd and bare(x.args[0]) is bare(rd[0].args[pi - 1]) and holds(p.events, proj(x.res, (0, 0))) is True]
        c.ob(bool(seen), "used", "a path that is not there is a failure", C.where)
    c.ob(n > 0, "used", "the test command loads its source", C.where)


def directory(events, path):
    """is the path known to be a directory?"""
    for e in events:
        if e.kind != "cond" or not isinstance(e.val, bool):
            continue
        t = e.term
        v = (e.val is True) == bool(e.eq)
        if t.op == "call" and t.a[0].endswith(("Path::is_dir", "Metadata::is_dir", "FileType::is_dir")) and (bare(t.a[1]) is path or any(y is path for y in subterms(t.a[1]))):
            return v
        if t.op == "fld" and t.a[0].op == "call" and t.a[0].a[0].endswith(("try_exists", "fs::exists")) and bare(t.a[0].a[1]) is path and not v:
            return False
        if t.op == "call" and t.a[0].endswith("Path::is_file") and bare(t.a[1]) is path and v:
            return False
    return None


def directory_path(c, f, p, e, rd, text, after, ti, pi, w):
    loops = [x for x in p.events if x.kind == "loop"]
    rec = [L for L in loops if any(x.kind == "call" and x.name == f.path for q in L.iters for x in all_events(q))]
    if not c.ob(len(rec) == 1, "entries", "the entries of a directory are loaded in one loop: %d" % len(rec), w):
        return
    L = rec[0]
    li = info(L)
    coll = li.coll
    c.ob(coll is not None and coll.op == "sorted", "sorted", "entries are loaded in sorted order: %s" % (show(coll, 4) if coll is not None else None), w)
    c.ob(exhausted_after(p, L), "entries", "all entries are loaded", w)
    it = mk("each", L.id, coll) if coll is not None else None
    tv = [ph for ph, v in L.init.items() if v is text]
    for q in L.iters:
        xs = [x for x in all_events(q) if x.kind == "call" and x.name == f.path]
        good = len(xs) == 1 and xs[0] in q.events and it is not None and bare(li.canon(xs[0].args[pi - 1])) is it and holds(q.events, mk("discr", xs[0].res)) == 0
        c.ob(good, "entries", "each entry is loaded once, and without failure", w)
        c.ob(len(tv) == 1 and xs and xs[0].args[ti - 1] is tv[0] and q.updates[tv[0]] is mk("after", xs[0].res, ti - 1, tv[0]), "entries", "each entry adds to the same text", w)
    c.ob(bool(tv) and after is tv[0], "entries", "the text after a directory is that of its entries", w)
    # where the sorted list comes from
    if coll is None or coll.op != "sorted":
        return
    src = coll.a[0]
    G = [x for x in loops if src in x.init]
    ok_ = False
    if len(G) == 1:
        g = info(G[0])
        ph = src
        sw = [k for k, v in G[0].init.items() if bare(v) is proj(rd.res, (0, 0)) or v.op == "cursor" and v.a[0] is proj(rd.res, (0, 0))]
        ok_ = len(sw) == 1 and G[0].init[ph] is mk("seq") and p.events.index(G[0]) < p.events.index(L)
        for q in G[0].iters:
            item = mk("item", sw[0]) if sw else None
            if item is None:
                break
            u = q.updates[ph]
            good = holds(q.events, mk("discr", item)) == 0 and u.op == "push" and u.a[0] is ph and u.a[1].op == "call" and u.a[1].a[0].endswith("DirEntry::path") and u.a[1].a[1] is proj(item, (0, 0)) and q.updates[sw[0]] is mk("adv", sw[0])
            ok_ = ok_ and good
        if sw:
            more = [x for x in p.events[p.events.index(G[0]) + 1:] if x.kind == "cond"]
            ok_ = ok_ and bool(more) and more[0].term is mk("more", sw[0]) and holds([more[0]], more[0].term) is False
    c.ob(ok_, "listed", "every entry of the directory is listed, and listing did not fail", w)


# ---------------------------------------------------------------- P48
UNITS = {"s": 1, "m": 60, "h": 3600}


@prop("P48", floor=15, technique="case analysis of the summary of the duration parser: every Ok result is from_secs of the checked product of the parsed leading part and the factor of the unit the last character is known to be; every unit has such a path",
      explain="the summary of the value parser of the duration argument")
def p48(c):
    f = c.fn("parse_duration", pred=lambda f: f.sig()[0] == ("&str",) and f.sig()[1].startswith("core::result::Result<core::time::Duration"))
    w = c.where(f)
    e, ps = c.run(f)
    s = mk("param", 1, f.locals[1].get("name", ""))
    kinds = {}
    for p in ps:
        if p.kind != "ret":
            c.ob(False, "total", "every argument has a result: %s" % p.kind, w)
            continue
        out = final(e, p)
        lt = [y for x in conds(p) for y in subterms(x.term) if y.op == "last" and any(z is s for z in subterms(y))]
        unit = None
        for x in conds(p):
            if x.term in lt and x.eq:
                unit = x.val
            elif x.term.op == "eq" and isinstance(x.val, bool) and (x.val is True) == bool(x.eq):
                for a, b in (x.term.a, x.term.a[::-1]):
                    if a in lt and b.op in ("char", "str", "int"):
                        unit = b.a[0] if b.op != "int" else chr(b.a[0])
        sfx = [x for x in conds(p) if x.term.op == "call" and x.term.a[0].endswith(("ends_with", "strip_suffix"))]
        if is_err(out):
            kinds.setdefault("error", 0)
            c.ob(refused(p, s, lt), "refused", "only a text without a number, a unit or a product in range is refused: %s" % [(show(x.term, 4), x.val, x.eq) for x in conds(p)], w)
            continue
        if not c.ob(is_ok(out), "result", "the outcome is known: %s" % show(out, 4), w):
            continue
        v = out.a[2]
        if not c.ob(unit in UNITS, "unit", "a duration has one of the units s, m and h: %s" % unit, w):
            continue
        kinds[unit] = kinds.get(unit, 0) + 1
        num, k, good = seconds(p, v)
        c.ob(good, "range", "the number of seconds is checked to be in range: %s" % show(v, 5), w)
        c.ob(k == UNITS[unit], "factor", "%s means %d seconds: %s" % (unit, UNITS[unit], k), w)
        good = num is not None and num.op == "fld" and num.a[1] == 0 and num.a[0].op == "call" and num.a[0].a[0].endswith(("str::parse", "from_str")) and holds(p.events, mk("discr", num.a[0])) == 0
        c.ob(good, "number", "the number is parsed, and parsing succeeded: %s" % (show(num, 5) if num is not None else None), w)
        if good:
            t = num.a[0]
            c.ob(t.a[1] is mk("init", s) or t.a[1] is mk("init", mk("call", "str::chars", s)), "number", "the number is all before the unit: %s" % show(t.a[1], 4), w)
            c.ob(any(x in ("u64", "u32", "u128", "usize") for x in t.a[2:]) or any(getattr(x, "op", "") == "str" and x.a[0] in ("u64", "u32", "u128", "usize") for x in t.a[2:]), "number", "the number has no sign: %s" % show(t, 4), w)
    for u in UNITS:
        c.ob(kinds.get(u), "units", "a duration may have the unit %s" % u, w)
    c.ob("error" in kinds, "units", "other texts are errors", w)
    C = Command(c)
    n = 0
    for p in C.paths("test"):
        for x in all_events(p):
            if x.kind == "call" and x.name.endswith("thread::functions::sleep") and holds(p.events, C.given("duration")) == 1:
                n += 1
                c.ob(x.args[0] is C.some("duration"), "used", "the run lasts as long as the argument says: %s" % show(x.args[0], 4), C.where)
    c.ob(n > 0, "used", "the duration is used", C.where)


def refused(p, s, lt):
    """does the path of an error establish that the text is no duration?"""
    cs = conds(p)
    out = set()
    about = lambda t: any(z is s for z in subterms(t))
    for x in cs:
        t = x.term
        yes = isinstance(x.val, bool) and (x.val is True) == bool(x.eq)
        no = isinstance(x.val, bool) and not yes
        if t.op == "discr" and t.a[0].op == "call":
            n = t.a[0].a[0]
            v = holds(p.events, t)
            # no number, or one out of range
            if n.endswith(("str::parse", "from_str")) and v == 1 and about(t):
                return True
            if n.endswith("checked_mul") and v == 0:
                return True
            # the text ends before its unit
            if n.endswith(("strip_suffix", "rsplit_once", "split_last", "split_at_checked", "split_off")) and v == 0 and about(t):
                out |= {a.a[0] for a in t.a[0].a[1:] if getattr(a, "op", "") in ("char", "str")}
        # an empty text, or one shorter than a number and a unit
        if about(t) and t.op == "lt":
            a, b = t.a
            if a.op == "int" and a.a[0] in (0, 1) and b.op == "len" and no:
                return True
            if b.op == "int" and b.a[0] in (1, 2) and a.op == "len" and yes:
                return True
        if about(t) and t.op in ("more", "moreback") and no:
            return True
        if about(t) and t.op == "eq" and yes and any(a.op == "len" and b.op == "int" and b.a[0] in (0, 1) or b.op == "str" and len(b.a[0]) < 2 for a, b in (t.a, t.a[::-1])):
            return True
        # the last character is not the unit
        if t in lt and not isinstance(x.val, bool) and not x.eq:
            out.add(x.val)
        if t in lt and not isinstance(x.val, bool) and x.eq and x.val not in UNITS:
            return True
        if t.op == "eq" and no:
            for a, b in (t.a, t.a[::-1]):
                if a in lt and b.op in ("char", "str", "int"):
                    out.add(b.a[0] if b.op != "int" else chr(b.a[0]))
        if t.op == "call" and t.a[0].endswith(("ends_with", "strip_suffix")) and no and about(t):
            out |= {a.a[0] for a in t.a[1:] if getattr(a, "op", "") in ("char", "str")}
    return set(UNITS) <= out


def seconds(p, v):
    """(number, factor, in range) of a duration value"""
    v0 = v
    mul = 1
    if v.op == "call" and v.a[0].endswith(("Duration::from_mins", "Duration::from_hours")):
        mul = 60 if v.a[0].endswith("mins") else 3600
        return v.a[1], mul, False
    if not (v.op == "call" and v.a[0].endswith("Duration::from_secs")):
        return None, None, False
    t = v.a[1]
    if t.op == "fld" and t.a[0].op == "call" and t.a[0].a[0].endswith("checked_mul"):
        m = t.a[0]
        a, b = m.a[1], m.a[2]
        if a.op == "int":
            a, b = b, a
        good = holds(p.events, mk("discr", m)) == 1 and t.a[1] == 1
        return a, b.a[0] if b.op == "int" else None, good
    if t.op == "mul":
        a, b = t.a
        if a.op == "int":
            a, b = b, a
        # an unchecked product is in range only where the build checks it
        return a, b.a[0] if b.op == "int" else None, False
    return t, 1, True

"""P36 evaluating, exchanging and reporting end: every repetition outside the parser has a
measure that decreases, every recursion descends."""
import re
import absint
from absint import canon
from run import prop
from rules import *
from checks import evaluation, calls, panics, effects

BLOCKING = re.compile(r"sync::.*(condvar|Condvar|barrier|Barrier).*::wait|^thread::(functions::)?park|^sync::.*(mutex::)?Mutex::lock|^sync::.*RwLock::(read|write)$|^hint::spin_loop|^thread::(functions::)?yield_now")
ENDLESS = re.compile(r"^iter::sources::(repeat_with|successors)::|^iter::traits::iterator::Iterator::cycle$")


def holds_true(q, t):
    """t is known to hold on this path"""
    return any(e.term is t and isinstance(e.val, bool) and e.val == bool(e.eq) for e in conds(q))


def denied(q, t):
    return any(e.term is t and isinstance(e.val, bool) and e.val != bool(e.eq) for e in conds(q))


def halved(u):
    """a number shifted to the right or divided: less than before unless it was zero"""
    return u.op in ("shr", "div") and u.a[1].op == "int" and u.a[1].a[0] >= (1 if u.op == "shr" else 2)


class Ending:
    def __init__(self, c):
        self.c, self.p = c, c.p
        self.loops = {}
        self.memo = {}

    # ---- what is walked over ends
    def finite(self, t, depth=0):
        o = t.op
        if depth > 30:
            return False
        f = lambda x: self.finite(x, depth + 1)
        if o in ("cursor", "adv", "advback", "reversed", "sorted", "tail", "init", "rest", "fld", "each", "item", "lastitem", "idx"):
            return f(t.a[0]) if isinstance(t.a[0], T) else True
        if o == "zip":
            return any(f(x) for x in t.a if isinstance(x, T))
        if o == "after":
            return f(t.a[2])
        if o == "phi":
            L = self.loops.get(t.a[0])
            return L is None or t not in L.init or f(L.init[t])
        if o == "repeated":
            return len(t.a) > 1
        if o == "adt" and t.a[0].startswith("it::"):
            k = t.a[0][4:]
            xs = [x for x in t.a[2:] if isinstance(x, T)]
            if k == "Take":
                return True
            if k == "Cycle":
                return False
            if k == "Zip":
                return any(f(x) for x in xs)
            if k == "Chain":
                return all(f(x) for x in xs)
            if k == "FromFn":
                return self.generator(xs[0])
            return f(xs[0]) if xs else True
        if o == "adt" and t.a[0].endswith("::RangeFrom"):
            return False
        if o == "call":
            if ENDLESS.search(t.a[0]):
                return False
            g = self.p.by_path.get(t.a[0])
            if g and len(g) == 1 and g[0].kind == "fn":
                return self.returned(g[0]) and all(f(x) for x in t.a[1:] if isinstance(x, T) and x.op in ("adt", "cursor", "call"))
        return True

    def returned(self, g):
        """what a function of the program returns can be walked over to an end"""
        if g.key not in self.memo:
            self.memo[g.key] = True
            if "from_fn::FromFn" in g.sig()[1] or "impl " in g.sig()[1] or "iter::" in g.sig()[1]:
                e, ps = self.c.run(g)
                self.memo[g.key] = all(p.kind != "ret" or self.finite(e.norm(p.st, p.val)) for p in ps)
        return self.memo[g.key]

    def generator(self, clo):
        """a closure that yields a next element: each yielded element uses something up"""
        if clo.op != "closure":
            return False
        fs = [f for f in self.p.fns.values() if f.key == clo.a[0]]
        if len(fs) != 1:
            return False
        e, ps = self.c.run(fs[0])
        steps = []
        for p in ps:
            v = e.norm(p.st, p.val) if p.val is not None else None
            if p.kind != "ret" or v is None or v.op == "adt" and v.a[1] == 0:
                continue
            steps.append(p)
        if not steps:
            return True
        n = len(clo.a) - 1
        ends = []
        for p in steps:
            v = e.norm(p.st, p.st.mem[("P", 1)])
            ends.append([proj(v, (None, i)) for i in range(n)])
        root = e_root(e, steps[0])
        if root is None:
            return False
        ms = [proj(root, (None, i)) for i in range(n)]
        for i, x in enumerate(clo.a[1:]):
            if isinstance(x, T) and x.op in ("cursor", "adt", "call") and not self.finite(x):
                return False
        return self.rank(ms, [(p, {m: u for m, u in zip(ms, us)}) for p, us in zip(steps, ends)])

    # ---- measures
    def back(self, u, m, seen=()):
        """states between u and m if u is m after elements were taken off it"""
        out = []
        while u is not m:
            if u.op in ("adv", "advback", "tail", "init"):
                out.append(u.a[0])
                u = u.a[0]
            elif halved(u):
                out.append(u.a[0])
                u = u.a[0]
            elif u.op == "phi" and u not in seen and u.a[0] in self.loops and u in self.loops[u.a[0]].init:
                L = self.loops[u.a[0]]
                if any(self.back(q.updates[u], u, seen + (u,)) is None for q in L.iters):
                    return None
                out.append(u)
                u = L.init[u]
            else:
                return None
        return out

    def strict(self, q, m, u, own):
        """None: m may grow; False: m stays or shrinks; True: m gets smaller"""
        if u is m:
            return False
        # a number counting up to or down to a bound
        if u.op in ("add", "sub") and u.a[0] is m and u.a[1].op == "int":
            k = u.a[1].a[0] if u.op == "add" else -u.a[1].a[0]
            for e in conds(q):
                t, v = e.term, e.val
                if not isinstance(v, bool) or t.op not in ("lt", "le"):
                    continue
                yes = v == bool(e.eq)
                a, b = t.a
                if not yes:
                    a, b = b, a
                if k > 0 and self.below(a, m, k) and not own(b) or k < 0 and self.below(b, m, -k) and not own(a):
                    return True
            # not equal to the bound it is counted to, one at a time, from the near side
            return None
        xs = self.back(u, m)
        if xs is None:
            # an option that is emptied
            if u.op == "adt" and u.a[1] == 0 and u.a[0].endswith("Option") and any(e.term.op == "discr" and e.term.a[0] is m and e.val == 1 and e.eq for e in conds(q)):
                return True
            return None
        for x in [m] + xs:
            if holds_true(q, mk("more", x)) or holds_true(q, mk("moreback", x)) or holds_true(q, mk("lt", ZERO_, mk("len", x))):
                return True
            if any(self.positive(e, x) for e in conds(q)):
                return True
            if any(e.term.op == "eq" and x in e.term.a and INT(0) in e.term.a and e.val is False and e.eq for e in conds(q)) and halved(u):
                return True
        return False

    def positive(self, e, x):
        """the condition says that x is more than zero"""
        if e.term.op not in ("lt", "le") or not isinstance(e.val, bool):
            return False
        a, b = e.term.a
        strict = e.term.op == "lt"
        if e.val != bool(e.eq):
            a, b, strict = b, a, not strict
        return b is x and a.op == "int" and a.a[0] >= (0 if strict else 1)

    def below(self, t, m, k):
        """t is m, or m plus less than the step"""
        return t is m or t.op == "add" and t.a[0] is m and t.a[1].op == "int" and 0 <= t.a[1].a[0] <= k

    def rank(self, ms, steps, used=()):
        if not steps:
            return True
        own = lambda t: any(x in ms for x in subterms(t))
        for m in ms:
            if m in used:
                continue
            ks = [self.strict(q, m, us[m], own) for q, us in steps]
            if None in ks or True not in ks:
                continue
            if m.op == "phi" and not self.finite(m):
                continue
            if self.rank(ms, [s for s, k in zip(steps, ks) if not k], used + (m,)):
                return True
        return False

    def ends(self, L):
        steps = [(q, q.updates) for q in L.iters]
        if self.rank(list(L.init), steps):
            return True
        # lines read from a stream: every repetition found a line that is not empty
        if bool(steps) and all(self.read_on(q) for q, _ in steps):
            return True
        # the same, with the line read at the end of the repetition before
        line = lambda t: t.op == "after" and t.a[1] == 1 and t.a[2] is STR("") and t.a[0].op == "call" and t.a[0].a[0].endswith("BufRead::read_line")
        for ph, v in L.init.items():
            if steps and line(v) and all(line(u[ph]) and u[ph] is not v and any(x.kind == "call" and x.res is u[ph].a[0] for x in q.events) and self.not_empty(q, ph) for q, u in steps):
                return True
        return False

    def not_empty(self, q, ph):
        for e in conds(q):
            t = e.term
            if t.op == "lt" and t.a[0] is ZERO_ and t.a[1].op == "len" and isinstance(e.val, bool) and e.val == bool(e.eq):
                t = t.a[1].a[0]
                while t.op == "call" and t.a[0].startswith("str::trim"):
                    t = t.a[1]
                if t is ph:
                    return True
        return False

    def read_on(self, q):
        for x in q.events:
            if x.kind == "call" and re.search(r"mpsc::Receiver::(try_)?recv(_timeout|_deadline)?$", x.name):
                # a message was taken from a channel
                if any(e.term.op == "discr" and e.term.a[0] is x.res and e.val == 0 and e.eq for e in conds(q)):
                    return True
            if x.kind != "call" or not x.name.endswith(("BufRead::read_line", "BufRead::read_until")):
                continue
            for e in conds(q):
                t = e.term
                yes = isinstance(e.val, bool) and e.val == bool(e.eq)
                # the text it left is not empty, or the number of bytes is not zero
                if t.op == "lt" and t.a[0] is ZERO_ and yes and t.a[1].op == "len" and of_line(t.a[1].a[0], x.res):
                    return True
                if t.op == "lt" and t.a[0] is ZERO_ and yes and t.a[1] is proj(x.res, (0, 0)):
                    return True
                if t.op == "eq" and isinstance(e.val, bool) and not yes and proj(x.res, (0, 0)) in t.a and ZERO_ in t.a:
                    return True
                if t is proj(x.res, (0, 0)) and (e.val == 0 and not e.eq):
                    return True
        return False


ZERO_ = INT(0)


def of_line(t, res):
    """the line a call left, perhaps trimmed; it was empty before"""
    while t.op == "call" and t.a[0].startswith("str::trim"):
        t = t.a[1]
    return t.op == "after" and t.a[0] is res and t.a[1] == 1 and t.a[2] is STR("")


def e_root(e, p):
    """the state a closure was called in"""
    v = p.st.mem[("P", 1)]
    while v.op == "upd":
        v = v.a[0]
    return v


def own_path(p, k):
    return panics.owner(p, p.fns[k]).key


def components(G):
    """strongly connected components with a cycle"""
    idx, low, st, on, out = {}, {}, [], set(), []

    def visit(v0):
        work = [(v0, iter(sorted(G.get(v0, ()))))]
        idx[v0] = low[v0] = len(idx)
        st.append(v0)
        on.add(v0)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = len(idx)
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(G.get(w, ())))))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    if len(comp) > 1 or v in G.get(v, ()):
                        out.append(comp)
    for v in sorted(G):
        if v not in idx:
            visit(v)
    return out


@prop("P36", floor=60, technique="termination: a decreasing measure for every loop summary outside the parser, size-change of the expression arguments over every recursive component of the call graph",
      assumptions=["the peer's stream and standard input end or the read times out", "the workers of a run end, so that the channels they send on close (P25, P43)", "the directory tree is finite"],
      explain="every loop of the MIR outside the parser (P01 decides that one) must have a measure that every repeating path decreases; every recursive call must pass a part of what it was given")
def p36(c):
    N = Ending(c)
    W = effects.World(c)
    p = c.p
    parser = W.cone([c.fn("lib::parser::Parser::new"), c.fn("lib::parser::Parser::parse")])
    fns = [f for f in p.fns.values() if f.kind == "fn" and not effects.generated(f) and f.key not in parser]
    c.ob(len(fns) >= 60, "domain", "functions outside the parser: %d" % len(fns), "")
    every = {g.path for g in p.fns.values() if g.kind == "fn"}
    group = {}
    for g in p.fns.values():
        if g.kind in ("fn", "closure") and not effects.generated(g):
            group.setdefault(panics.owner(p, g).key, []).append(g)
    done, missing = {}, []

    def look(f):
        e, ps = c.run(f, opaque=every - {f.path})
        N.loops.update(e.loops)
        sites = set(e.unrolled)
        for q in ps:
            for x in all_events(q):
                if x.kind != "loop":
                    continue
                sites.add(x.site[:2])
                if id(x) in done:
                    continue
                done[id(x)] = x
                c.ob(N.ends(x), "loop %s" % x.fn.path, "every repetition uses something up, and it ends: %s" % describe(x), "%s (%s)" % (x.fn.path, x.span))
        return e, sites
    for f in fns:
        here = {(g.key, h) for g in group[f.key] for h in g.cfg()[0]}
        try:
            e, sites = look(f)
        except absint.Limit as x:
            c.ob(not here, "loops of " + f.path, "the loops can be followed: %s" % x, c.where(f))
            continue
        for g, h in sorted(here - sites):
            # a closure that is handed on
            try:
                _, more = look(p.fns[g])
            except absint.Limit:
                more = set()
            c.ob((g, h) in more or (g, h) in sites or not reachable(p.fns[g], h), "loop " + p.fns[g].path, "the loop is followed", c.where(p.fns[g]))
        for g in group[f.key]:
            for name, crate, i in effects.externals(g):
                if BLOCKING.search(name):
                    c.ob(False, "waiting " + g.path, "nothing waits for a condition that need not come: %s" % name, c.where(g))
                if ENDLESS.search(name):
                    c.ob(False, "endless " + g.path, "nothing is repeated without end: %s" % name, c.where(g))
    c.ob(len(done) >= 30, "loops", "loops outside the parser: %d" % len(done), "")
    # ---- recursion
    G = {}
    for k, vs in W.next.items():
        if k not in parser and not effects.generated(p.fns[k]):
            for v in vs:
                if v not in parser and not effects.generated(p.fns[v]):
                    a, b = own_path(p, k), own_path(p, v)
                    if a != b or p.fns[v].kind == "fn":
                        G.setdefault(a, set()).add(b)
    r = evaluation.roles(c)
    ctx = calls.Ctx(c)
    n = 0
    for comp in components(G):
        n += 1
        descends(c, N, [p.fns[k] for k in comp], ctx, every, W)
    c.ob(n >= 1, "recursion", "recursive components: %d" % n, "")
    # the declarations never change during an evaluation
    for k in W.cone([r.block]):
        f = p.fns[k]
        bad = [i for a, i, sp in calls.field_writes(f, ctx.adt) if i == ctx.requests]
        c.ob(not bad, "declarations", "nothing adds a declaration while expressions are evaluated", c.where(f))


def reachable(f, h):
    return h in f.cfg()[1]


def describe(L):
    return "; ".join("%s := %s" % (show(m, 2), " / ".join(sorted({show(q.updates[m], 3)[:80] for q in L.iters}))) for m in list(L.init)[:4])


PART = 1
WHOLE = 0


def part_of(N, t, roots, depth=0):
    """WHOLE or PART if t is, or is a proper part of, one of the roots"""
    if t in roots:
        return WHOLE
    if depth > 30:
        return None
    o = t.op
    if o == "fld" or o in ("item", "lastitem", "idx", "last", "each", "lookup"):
        x = t.a[1] if o == "each" else t.a[0]
        k = part_of(N, x, roots, depth + 1)
        return None if k is None else PART
    if o in ("cursor", "adv", "advback", "tail", "init", "slice", "reversed", "rest"):
        return part_of(N, t.a[0], roots, depth + 1)
    if o == "phi":
        L = N.loops.get(t.a[0])
        if L is None or t not in L.init or any(N.back(q.updates[t], t) is None and q.updates[t] is not t for q in L.iters):
            return None
        return part_of(N, L.init[t], roots, depth + 1)
    if o == "call" and t.a[0].endswith(("slice::get", "slice::first", "slice::last")) and len(t.a) > 1:
        return part_of(N, t.a[1], roots, depth + 1)
    return None


def descends(c, N, comp, ctx, every, W):
    p = c.p
    paths = {f.path: f for f in comp}
    exprs = lambda f: [i for i in range(1, f.argc + 1) if "syntax::Expr" in f.local_ty(i)["s"]]
    keep = {f.path for f in p.fns.values() if f.path.startswith("lib::context::")}
    edges = {}
    named = "{%s}" % ", ".join(sorted(paths))
    if not all(exprs(f) for f in comp):
        # recursion over something else than expressions: only directories
        for f in comp:
            e, ps = c.run(f, opaque=set(paths))
            N.loops.update(e.loops)
            for q in ps:
                for x in all_events(q):
                    if x.kind == "call" and x.name in paths:
                        ok = any(y.op == "call" and y.a[0].endswith("fs::DirEntry::path") for a in x.args for y in walked(N, a))
                        c.ob(ok, "recursion %s" % f.path, "the recursion descends into the entries of a directory: %s" % show(x.args[0], 6), c.where(f))
        return
    for f in comp:
        e, ps = c.run(f, opaque=every - {f.path} - keep | {f.path})
        N.loops.update(e.loops)
        mine = exprs(f)
        roots = set()
        for i in mine:
            roots.add(mk("param", i, f.locals[i].get("name", "")))
        own = {mk("param", i, f.locals[i].get("name", "")) for i in range(1, f.argc + 1) if "context::Context" in f.local_ty(i)["s"]}
        met = {}
        for q in ps:
            if q.kind == "panic":
                continue
            for x in all_events(q):
                if x.kind != "call" or x.name not in paths:
                    continue
                g = paths[x.name]
                for_ctx = [i for i in range(1, g.argc + 1) if "context::Context" in g.local_ty(i)["s"]]
                ks = [part_of(N, x.args[i - 1], roots) for i in exprs(g)]
                state = x.args[for_ctx[0] - 1] if for_ctx else None
                same = state is None or bases(N, state) <= own
                if None not in ks:
                    # the context is the caller's, or one without declarations
                    ok = same or bare(N, state, ctx)
                    key = (g.path, tuple(ks), bool(ok))
                    if key not in met:
                        met[key] = c.ob(ok, "recursion %s -> %s" % (f.path, g.path), "the context stays the caller's: %s" % (show(state, 5) if state is not None else ""), c.where(f))
                        edges.setdefault(f.path, {})
                    edges[f.path][g.path] = min(edges[f.path].get(g.path, PART), min(ks) if ks else WHOLE)
                    continue
                ok = state is not None and bare(N, state, ctx) and from_declared(N, x, exprs(g), ctx, own)
                key = (g.path, tuple(ks), bool(ok))
                if key not in met:
                    met[key] = c.ob(ok, "recursion %s -> %s" % (f.path, g.path), "what is evaluated next is a part of what is being evaluated, or an assertion in a context without declarations: %s in %s" % (
                        ", ".join(show(x.args[i - 1], 6) for i in exprs(g)), ", ".join(show(y, 5) for y in bases(N, state)) if state is not None else ""), c.where(f))
        c.ob(True, "recursive " + f.path, "%d recursive calls" % len(met), c.where(f))
    # no cycle passes the whole on
    G = {a: {b for b, k in bs.items() if k == WHOLE} for a, bs in edges.items()}
    cyc = components(G)
    c.ob(not cyc, "descent", "no cycle of calls passes on the same expression: %s in %s" % (cyc, named), "")


def walked(N, t):
    """the terms a value is taken from, loops resolved"""
    seen, work = set(), [t]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        work += [y for y in x.a if isinstance(y, T)]
        if x.op == "phi" and x.a[0] in N.loops and x in N.loops[x.a[0]].init:
            L = N.loops[x.a[0]]
            work += [L.init[x]] + [q.updates[x] for q in L.iters]


def bases(N, t, seen=None):
    """the states a context may have had before any calls"""
    seen = set() if seen is None else seen
    if t in seen:
        return set()
    seen.add(t)
    if t.op == "after":
        return bases(N, t.a[2], seen)
    if t.op == "upd":
        return bases(N, t.a[0], seen)
    if t.op == "phi" and t.a[0] in N.loops and t in N.loops[t.a[0]].init:
        L = N.loops[t.a[0]]
        out = bases(N, L.init[t], seen)
        for q in L.iters:
            out |= bases(N, q.updates[t], seen)
        return out
    return {t}


def bare(N, t, ctx):
    """a context made without declarations"""
    return all(x.op == "adt" and x.a[0] == ctx.adt and proj(x, (None, ctx.requests)).op == "emptymap" for x in bases(N, t))


def from_declared(N, x, idx, ctx, own):
    """the expressions come from a declaration of the caller's context"""
    for i in idx:
        good = False
        for y in walked(N, x.args[i - 1]):
            if y.op == "fld" and y.a[2] == ctx.requests and bases(N, y.a[0]) <= own:
                good = True
        if not good:
            return False
    return True

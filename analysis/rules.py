"""Rule support: anchors, obligations, partial evaluation of roots by case, and
small deciders on the summaries (comparison-only reasoning, loop shapes)."""
import os
import time

import absint
import mir
from absint import (mk, T, INT, STR, BOOL, TRUE, FALSE, NONE, OPTION, RESULT, FLOW, UNIT, State, Engine, Path, Ev, show, subterms,
                    contains, mentions, rewrite, proj, read_path, is_const, some, ok, err)
import models


class Missing(Exception):
    """an anchor of the rule is not in the source"""


class Check:
    def __init__(self, pid, prog, tier="quick"):
        self.pid, self.p, self.tier = pid, prog, tier
        self.obs = []
        self.engines = []
        self.functions = set()
        self.paths = 0
        self.notes = []
        self.t0 = time.time()
        self.cache = {}

    # ---- obligations
    def ob(self, okay, key, what, where=""):
        """one decided obligation; key identifies the instance (no line numbers)"""
        self.obs.append((bool(okay), key, what, where))
        return bool(okay)

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    @property
    def failed(self):
        return [o for o in self.obs if not o[0]]

    # ---- anchors
    def fn(self, *names, sig=None, trait=None, self_ty=None, pred=None, crate=None):
        """the one function with one of these path suffixes, or by signature"""
        fs = self.p.local_fns(("fn",))
        for n in names:
            c = [f for f in fs if f.path == n or f.path.endswith("::" + n)]
            if len(c) == 1:
                return c[0]
        if trait or sig or pred:
            c = [f for f in fs if (not trait or f.trait == trait) and (not sig or f.sig() == sig)
                 and (not self_ty or (f.self_ty is not None and f.ty(f.self_ty)["s"] == self_ty))
                 and (not pred or pred(f)) and (not crate or f.crate is self.p.crates[crate])]
            if len(c) == 1:
                return c[0]
            if len(c) > 1 and names:
                c2 = [f for f in c if f.name in [n.rsplit("::", 1)[-1] for n in names]]
                if len(c2) == 1:
                    return c2[0]
        raise Missing("no function %s %s" % (" / ".join(names), sig or trait or ""))

    def impl(self, trait, self_ty, name, trait_args=None):
        fs = [f for f in self.p.local_fns(("fn",)) if f.trait and (f.trait == trait or f.trait.endswith("::" + trait)) and f.name == name
              and f.self_ty is not None and f.ty(f.self_ty)["s"] == self_ty]
        if trait_args is not None:
            fs = [f for f in fs if trait_args in f.path]
        if len(fs) != 1:
            raise Missing("no %s of %s for %s" % (name, trait, self_ty))
        return fs[0]

    def adt(self, suffix):
        c = [k for k in self.p.adts if k == suffix or k.endswith("::" + suffix)]
        loc = [k for k in c if self.p.adts[k].get("local")]
        if len(loc) == 1:
            return loc[0]
        if len(c) == 1:
            return c[0]
        raise Missing("no type " + suffix)

    def variant(self, adt, name):
        for i, v in enumerate(self.p.variants(adt)):
            if v["name"] == name:
                return i
        raise Missing("no variant %s of %s" % (name, adt))

    def field(self, adt, name, variant=0):
        for i, f in enumerate(self.p.variants(adt)[variant]["fields"]):
            if f["name"] == name:
                return i
        raise Missing("no field %s of %s" % (name, adt))

    def fields(self, adt, variant=0):
        return [f["name"] for f in self.p.variants(adt)[variant]["fields"]]

    # ---- analyses
    def engine(self, opaque=(), inline=(), **k):
        e = Engine(self.p, opaque=opaque, inline=inline, **k)
        self.engines.append(e)
        return e

    def run(self, fn, values=None, opaque=(), inline=(), st=None, **k):
        """paths of fn; values: {parameter index (1-based): value} fixes (the
        pointee of) a parameter to a partially known value"""
        e = self.engine(opaque, inline, **k)
        st = st or State()
        args = []
        values = values or {}
        for i in range(1, fn.argc + 1):
            a = e.fresh(fn, i, mk("param", i, fn.locals[i].get("name", "")), ("P", i), st)
            if i in values:
                if a.op == "ptr":
                    r = ("P", i)
                    while st.mem[r].op == "ptr":
                        r = st.mem[r].a[0]
                    st.mem[r] = values[i]
                else:
                    a = values[i]
            args.append(a)
        ps = Flatten()(e.analyse(fn, args, st))
        self.paths += len(ps)
        self.functions |= e.stats["functions"]
        return e, ps

    def where(self, fn):
        return "%s (%s)" % (fn.path, fn.span)

    def sym(self, name):
        return mk("param", name, name)

    def make(self, adt, variant=0, *vals):
        """a value of a known variant with symbolic fields (in field order)"""
        n = len(self.p.variants(adt)[variant]["fields"])
        vals = list(vals)
        assert len(vals) == n, (adt, variant, n)
        return mk("adt", adt, variant, *vals)

    def coverage(self):
        loops = sum(e.stats["loops"] for e in self.engines)
        return {
            "functions_analysed": len(self.functions),
            "function_list": sorted(self.functions)[:80],
            "paths": self.paths,
            "calls_resolved": sum(e.stats["calls"] for e in self.engines),
            "blocks": sum(e.stats["blocks"] for e in self.engines),
            "loop_fixpoints": loops,
        }


# ---------------------------------------------------------------- comparison-only reasoning
REL = ("lt", "eq", "gt", "un")  # the possible outcomes of comparing two values
RELS = REL + ("ue",)  # and, for values of the language, equal without an order, like null


def cmp_eval(t, l, r, rel):
    """truth of a boolean term under an assumed outcome of comparing l and r;
    None if the term does not depend on the two through comparisons only"""
    if t.op == "bool":
        return t.a[0]
    if t.op == "not":
        x = cmp_eval(t.a[0], l, r, rel)
        return None if x is None else not x
    if t.op in ("lt", "le", "eq"):
        a, b = t.a
        if t.op == "eq" and a.op == "discr" or t.op == "eq" and b.op == "adt":
            return ord_test(t, l, r, rel)
        if (a is l and b is r) or (a is r and b is l):
            x = rel
            if a is r and l is not r:
                x = {"lt": "gt", "gt": "lt"}.get(rel, rel)
            return {"lt": x == "lt", "le": x in ("lt", "eq"), "eq": x in ("eq", "ue")}[t.op]
    return None


ORDERING = "core::cmp::Ordering"
ORD = {"lt": -1, "eq": 0, "gt": 1}


def ordering_of(t, l, r, rel):
    """an Ordering valued term as 'lt' 'eq' 'gt', or None"""
    if t.op == "adt" and t.a[0] == ORDERING:
        return ("lt", "eq", "gt")[t.a[1]]
    if t.op == "call" and t.a[0].endswith(("Ord::cmp", "f64::total_cmp")) and len(t.a) >= 3 and rel not in ("un", "ue") and "total" not in t.a[0]:
        if t.a[1] is l and t.a[2] is r:
            return rel
        if t.a[1] is r and t.a[2] is l:
            return {"lt": "gt", "gt": "lt"}.get(rel, rel)
    if t.op == "fld" and t.a[1] == 1:
        x = opt_ordering(t.a[0], l, r, rel)
        return x if x not in ("none", None) else None
    if t.op == "call" and t.a[0].endswith("Ordering::reverse"):
        x = ordering_of(t.a[1], l, r, rel)
        return {"lt": "gt", "gt": "lt"}.get(x, x)
    return None


def opt_ordering(t, l, r, rel):
    """an Option<Ordering> valued term as 'lt' 'eq' 'gt' 'none', or None"""
    if t.op == "adt" and t.a[0] == OPTION:
        return "none" if t.a[1] == 0 else ordering_of(t.a[2], l, r, rel)
    if t.op == "call" and t.a[0].endswith("PartialOrd::partial_cmp"):
        x = None
        if t.a[1] is l and t.a[2] is r:
            x = rel
        elif t.a[1] is r and t.a[2] is l:
            x = {"lt": "gt", "gt": "lt"}.get(rel, rel)
        return {"un": "none", "ue": "none"}.get(x, x)
    return None


def ord_test(t, l, r, rel):
    a, b = t.a
    if a.op == "discr":
        if b.op != "int":
            return None
        x = opt_ordering(a.a[0], l, r, rel)
        if x is not None and not (a.a[0].op == "fld"):
            return (0 if x == "none" else 1) == b.a[0]
        x = ordering_of(a.a[0], l, r, rel)
        return None if x is None else ORD[x] == b.a[0]
    x, y = opt_ordering(a, l, r, rel), opt_ordering(b, l, r, rel)
    if x and y:
        return x == y
    x, y = ordering_of(a, l, r, rel), ordering_of(b, l, r, rel)
    if x and y:
        return x == y
    return None


def feasible(p, l, r, rel):
    """may the path be taken when comparing l with r gives rel?"""
    for ev in p.events:
        if ev.kind != "cond":
            continue
        v = fact_under(ev, l, r, rel)
        if v is False:
            return False
    return True


def fact_under(ev, l, r, rel):
    t = ev.term
    if t.op == "discr":
        x = opt_ordering(t.a[0], l, r, rel)
        if x is not None:
            n = 0 if x == "none" else 1
            return (n == ev.val) == ev.eq
        x = ordering_of(t.a[0], l, r, rel)
        if x is not None:
            return (ORD[x] == (ev.val - 256 if ev.val > 127 else ev.val)) == ev.eq
        return None
    x = cmp_eval(t, l, r, rel)
    if x is None:
        return None
    return (x == ev.val) == ev.eq


# ---------------------------------------------------------------- paths
def conds(p):
    return [e for e in p.events if e.kind == "cond"]


def calls(p, *names):
    return [e for e in p.events if e.kind == "call" and (not names or e.name in names or any(n.startswith("*") and e.name.endswith(n[1:]) for n in names))]


def is_ok(v):
    return v.op == "adt" and v.a[0] == RESULT and v.a[1] == 0


def is_err(v):
    return v.op == "adt" and v.a[0] == RESULT and v.a[1] == 1


def nonempty_text(t):
    """certainly not the empty text"""
    if t.op == "str":
        return t.a[0] != ""
    if t.op == "cat":
        return any(nonempty_text(x) for x in t.a)
    return False


def text_has(t, s):
    if t.op == "str":
        return s in t.a[0]
    if t.op == "cat":
        return any(text_has(x, s) for x in t.a)
    return False


# ---------------------------------------------------------------- loops
def rev(x):
    return x.a[0] if x.op == "reversed" else mk("reversed", x)


def simp(t):
    """normal form of list terms: elements of mapped lists are their bodies"""
    def f(x):
        o = x.op
        if o == "fld":
            return proj(x.a[0], (x.a[1], x.a[2])) if x.a[0].op != "fld" else x
        if o == "cat":
            if any(y.op in ("cat", "joined") for y in x.a):
                x = models.cat(*x.a)
            return rejoin(refill(x)) if x.op == "cat" else x
        if o == "each":
            i, m = x.a
            if m.op == "mapped":
                c, j, b = m.a
                return subst_each(b, j, c, mk("each", i, c))
            if m.op == "reversed" and m.a[0].op == "mapped":
                c, j, b = m.a[0].a
                return subst_each(b, j, c, f(mk("each", i, rev(c))))
        elif o == "len":
            m = x.a[0]
            if m.op in ("mapped", "reversed"):
                return f(mk("len", m.a[0]))
        elif o == "reversed":
            if x.a[0].op == "reversed":
                return x.a[0].a[0]
        elif o in ("mapped", "splice", "resub", "copied", "joined", "lastof", "filtered", "mapinsert"):
            k = 0 if o in ("mapped", "joined") else 1
            c = x.a[k]
            if c.op == "mapped":
                return mk(o, *(x.a[:k] + (c.a[0],) + x.a[k + 1:]))
            if c.op == "reversed" and c.a[0].op == "mapped":
                return mk(o, *(x.a[:k] + (rev(c.a[0].a[0]),) + x.a[k + 1:]))
        elif o in ("left", "zip"):
            def base(c):
                if c.op == "mapped":
                    return c.a[0]
                if c.op == "reversed" and c.a[0].op == "mapped":
                    return rev(c.a[0].a[0])
                return c
            return mk("left", x.a[0], base(x.a[1])) if o == "left" else mk("zip", *[base(c) for c in x.a])
        elif o == "concat":
            if x.a[0] is mk("seq"):
                return x.a[1]
        return x
    return rewrite(t, f)


def called(t, suffix):
    return t.op == "call" and t.a[0].endswith(suffix)


def match_point(t, which, m):
    """is t where (start, end) the match m starts or ends?"""
    if not called(t, "Match::" + which):
        return False
    x = t.a[1]
    if x.op == "fld" and called(x.a[0], "Captures::get") and x.a[0].a[2] is INT(0):
        x = x.a[0].a[1]
    return x is m


def refill(x):
    """a text copied piece by piece, the matches in it replaced, with the piece
    behind the last match, is the text with its matches replaced"""
    out = []
    for y in x.a:
        if out and out[-1].op == "copied" and y.op == "slice" and y.a[2] is NONE and y.a[0] is out[-1].a[0] and y.a[1].op == "lastof":
            text, coll, lid, alts = out[-1].a
            v0, c, i, u = y.a[1].a
            if v0 is INT(0) and c is coll and i == lid and match_point(u, "end", mk("each", lid, coll.a[0] if coll.op == "zip" else coll)):
                out[-1] = mk("resub", text, coll, lid, alts)
                continue
        out.append(y)
    return out[0] if len(out) == 1 else x if len(out) == len(x.a) else mk("cat", *out)


def rejoin(x):
    """the first element followed by a separator and an element for each other
    one is the joined list"""
    if x.op != "cat":
        return x
    out = []
    for y in x.a:
        if y.op == "joined" and y.a[0].op == "tail" and y.a[2].op == "cat":
            t, i, b = y.a
            v = t.a[0]
            ps = list(b.a)
            if ps[0].op == "str":
                here = [rewrite(z, lambda w: mk("idx", v, INT(0)) if w is mk("each", i, t) else w) for z in ps[1:]]
                if here and out[-len(here):] == here and any(z is not w for z, w in zip(here, ps[1:])):
                    body = models.cat(*[rewrite(z, lambda w: mk("each", i, v) if w is mk("each", i, t) else w) for z in ps[1:]])
                    out[-len(here):] = [mk("join", v if body is mk("each", i, v) else mk("mapped", v, i, body), ps[0])]
                    continue
        out.append(y)
    return out[0] if len(out) == 1 else x if len(out) == len(x.a) else mk("cat", *out)


def subst_each(b, j, c, y):
    return rewrite(b, lambda z: y if z.op == "each" and z.a[0] == j and z.a[1] is c else z)


class Flatten:
    """a loop whose body starts with a loop that only moves on (a filter) is one
    loop: loop { loop { skip }; work } == loop { skip or work }"""

    def __call__(self, paths):
        self.ren = {}
        self.plan = {}
        for p in paths:
            self.find(p.events)
        if not self.plan:
            return paths
        self.seen, self.memo, self.states = {}, {}, {}
        return [self.path(p) for p in paths]

    def find(self, events):
        for ev in events:
            if ev.kind == "loop" and id(ev) not in self.plan:
                for q in list(ev.iters) + list(ev.exits):
                    self.find(q.events)
                i = self.inner(ev)
                if i is not None:
                    self.plan[id(ev)] = i
                    for a, b in i.init.items():
                        self.ren[a] = b

    def inner(self, ev):
        heads = {id(q.events[0]): q.events[0] for q in list(ev.iters) + list(ev.exits) if q.events}
        if len(heads) != 1 or not ev.iters or any(not q.events for q in list(ev.iters) + list(ev.exits)):
            return None
        (i,) = heads.values()
        if i.kind != "loop" or not i.init or id(i) in self.plan or not i.iters:
            return None
        outer = list(i.init.values())
        if any(v not in ev.init for v in outer) or len(set(outer)) != len(outer):
            return None
        if any(x.kind not in ("cond", "call", "drop") for q in i.iters for x in q.events):
            return None
        for q in list(ev.iters) + list(ev.exits):
            for x in q.events[1:]:
                if any(t in outer for y in vars(x).values() if isinstance(y, T) for t in subterms(y)):
                    return None
        return i

    def f(self, t):
        t = self.ren.get(t, t)
        return self.ren.get(t, t)

    def term(self, t):
        return rewrite(t, self.f, self.memo)

    def val(self, x):
        if isinstance(x, T):
            return self.term(x)
        if isinstance(x, (list, tuple)) and x and all(isinstance(y, T) for y in x):
            return type(x)(self.term(y) for y in x)
        return x

    def state(self, st):
        if st is None:
            return None
        if id(st) not in self.states:
            n = st.fork()
            n.mem = {k: self.val(v) for k, v in st.mem.items()}
            self.states[id(st)] = (n, st)
        return self.states[id(st)][0]

    def events(self, evs, skip=0):
        out, drop = [], None
        for x in evs[skip:]:
            if drop is not None and x is drop:
                drop = None
                continue
            drop = self.plan.get(id(x))
            out.append(self.event(x))
        return out

    def event(self, x):
        if id(x) in self.seen:
            return self.seen[id(x)][0]
        if x.kind == "loop":
            d = dict(vars(x))
            n = type(x)("loop", **d)
            self.seen[id(x)] = (n, x)
            i = self.plan.get(id(x))
            n.init = {k: self.val(v) for k, v in x.init.items()}
            n.iters, n.exits = [], [self.path(q, 1 if i is not None else 0) for q in x.exits]
            if i is not None:
                for q in i.iters:
                    u = {ph: ph for ph in x.init}
                    u.update({i.init[ph]: self.val(v) for ph, v in q.updates.items()})
                    n.iters.append(type(q)(self.events(q.events), self.state(q.st), self.val(q.val), q.kind, u))
            n.iters += [self.path(q, 1 if i is not None else 0) for q in x.iters]
            return n
        n = type(x)(x.kind, **{k: self.val(v) for k, v in vars(x).items()})
        if x.kind == "spawn":
            n.outs = [self.path(q) if hasattr(q, "events") else q for q in x.outs]
        self.seen[id(x)] = (n, x)
        return n

    def path(self, p, skip=0):
        return type(p)(self.events(p.events, skip), self.state(p.st), self.val(p.val), p.kind, {self.val(k): self.val(v) for k, v in p.updates.items()})


def unrotate(p, call):
    """read; loop { work; read } == loop { read; work } for a call that moves one
    state on and leaves its result in one other place.  Repetitions that end
    because the call fails are left out."""
    for k, L in enumerate(p.events):
        if L.kind != "loop" or not L.iters:
            continue
        for j in range(k - 1, -1, -1):
            E = p.events[j]
            if E.kind == "cond":
                continue
            break
        else:
            continue
        if E.kind != "call" or not call(E.name) or len(E.args) != 2 or E.res.op != "call":
            continue
        if [(e.term, e.val, e.eq) for e in p.events[j + 1:k]] != [(mk("discr", E.res), 0, True)]:
            continue
        r0, B = E.args
        pr = [ph for ph, v in L.init.items() if v is mk("after", E.res, 0, r0)]
        pl = [ph for ph, v in L.init.items() if v is mk("after", E.res, 1, B)]
        if len(pr) != 1 or len(pl) != 1:
            continue
        pr, pl = pr[0], pl[0]
        tails = {}
        for q in L.iters:
            xs = [i for i, x in enumerate(q.events) if x.kind != "cond"]
            X = q.events[xs[-1]] if xs else None
            if X is None or X.kind != "call" or X.name != E.name or X.args[1] is not B or q.updates[pr] is not mk("after", X.res, 0, X.args[0]) or q.updates[pl] is not mk("after", X.res, 1, B):
                break
            if any(e.val != 0 or not e.eq or e.term is not mk("discr", X.res) for e in q.events[xs[-1] + 1:]):
                break
            tails[id(q)] = xs[-1]
        else:
            res = rewrite(E.res, lambda t: pr if t is r0 else t)
            ren = {pr: mk("after", res, 0, pr), pl: mk("after", res, 1, B)}
            g = Flatten()
            g.ren, g.plan, g.seen, g.memo, g.states = ren, {}, {}, {}, {}
            g.f = lambda t: ren.get(t, t)
            head = [Ev("call", **dict(vars(E), args=[pr, B], res=res)), Ev("cond", **dict(vars(p.events[j + 1]), term=mk("discr", res)))]
            N = Ev("loop", **{x: y for x, y in vars(L).items() if x != "info_"})
            N.init = {ph: (r0 if ph is pr else v) for ph, v in L.init.items() if ph is not pl}
            N.iters, N.exits = [], []
            for q in L.iters:
                i = tails[id(q)]
                u = {ph: g.val(v) for ph, v in q.updates.items() if ph not in (pl, pr)}
                u[pr] = g.val(q.events[i].args[0])
                N.iters.append(Path(head + g.events(q.events[:i]), g.state(q.st), g.val(q.val), q.kind, u))
            for q in L.exits:
                if not any(x.kind == "call" and x.name == E.name for x in q.events):
                    N.exits.append(Path(head + g.events(q.events), g.state(q.st), g.val(q.val), q.kind, {ph: g.val(v) for ph, v in q.updates.items() if ph is not pl}))
            return Path(p.events[:j] + [N] + head + g.events(p.events[k + 1:]), g.state(p.st), g.val(p.val), p.kind, p.updates)
    return p


class LoopInfo:
    """what a loop walks over, and its accumulators in closed form"""

    def __init__(self, ev):
        self.ev = ev
        self.sweeps, self.counters = [], []
        for ph, v0 in ev.init.items():
            ups = [p.updates[ph] for p in ev.iters]
            if not ups:
                continue
            rest = models.rest_of(v0) if v0.op in ("cursor", "adv", "advback") else None
            if rest is not None and rest.op != "rest" and all(u.op == "adv" and u.a[0] is ph for u in ups):
                self.sweeps.append((ph, rest, "fwd"))
            elif rest is not None and rest.op != "rest" and all(u.op == "advback" and u.a[0] is ph for u in ups):
                self.sweeps.append((ph, rev(rest), "bwd"))
            elif all(u.op == "init" and u.a[0] is ph for u in ups):
                self.sweeps.append((ph, rev(v0), "pop"))
            elif all(u.op == "tail" and u.a[0] is ph for u in ups):
                self.sweeps.append((ph, v0, "shift"))
            elif v0.op == "int" and all(u is mk("add", ph, INT(1)) for u in ups):
                self.counters.append((ph, v0))
        self._closed = {}

    @property
    def coll(self):
        if len(self.sweeps) == 1:
            return self.sweeps[0][1]
        if self.sweeps:
            return mk("zip", *[c for _, c, _ in self.sweeps])
        for ph, v0 in self.counters:
            if v0 is INT(0):
                for p in list(self.ev.iters) + list(self.ev.exits):
                    for e in conds(p):
                        if e.term.op == "lt" and e.term.a[0] is ph and e.term.a[1].op == "len":
                            return e.term.a[1].a[0]
        return None

    def canon(self, t):
        """the element of this iteration, whichever way it is reached"""
        sw = {ph: (c, k) for ph, c, k in self.sweeps}
        ct = dict(self.counters)
        i = self.ev.id

        def f(x):
            o = x.op
            if o in ("item", "more") and x.a[0] in sw and sw[x.a[0]][1] == "fwd" or o in ("lastitem", "moreback") and x.a[0] in sw and sw[x.a[0]][1] == "bwd" \
                    or o == "last" and x.a[0] in sw and sw[x.a[0]][1] == "pop":
                return mk("left" if o in ("more", "moreback") else "each", i, sw[x.a[0]][0])
            if o == "idx" and x.a[0] in sw and x.a[1] is INT(0) and sw[x.a[0]][1] == "shift":
                return mk("each", i, sw[x.a[0]][0])
            if o == "lt" and x.a[0] is INT(0) and x.a[1].op == "len" and x.a[1].a[0] in sw and sw[x.a[1].a[0]][1] in ("pop", "shift"):
                return mk("left", i, sw[x.a[1].a[0]][0])
            if o == "idx" and x.a[1] in ct and ct[x.a[1]] is INT(0):
                return mk("each", i, x.a[0])
            if o == "lt" and x.a[0] in ct and ct[x.a[0]] is INT(0) and x.a[1].op == "len":
                return mk("left", i, x.a[1].a[0])
            if x in ct:
                return mk("count", i, ct[x])
            return x
        return rewrite(t, f)

    def own(self, t):
        return any(x.op == "phi" and x.a[0] == self.ev.id for x in subterms(t))

    def exhausted(self, p):
        """did path p leave this loop because a collection was used up?"""
        i = p.events.index(self.ev)
        for e in p.events[i + 1:]:
            if e.kind == "cond":
                t = self.canon(e.term)
                if t.op != "left":
                    return False
                if (e.val is False) == e.eq:
                    return True
            elif e.kind in ("loop", "call", "sink"):
                return False
        return False

    def complete(self, others=()):
        """every exit but by exhaustion is one of the given paths"""
        return all(any(True for e in conds(p) if self.canon(e.term).op == "left" and ((e.val is False) == e.eq)) or p in others for p in self.ev.exits)

    def closed(self, ph):
        if ph in self._closed:
            return self._closed[ph]
        self._closed[ph] = None
        ev = self.ev
        v0 = ev.init[ph]
        coll = self.coll
        res = None
        if coll is not None and ev.iters:
            ups = [self.canon(close_path(p, p.updates[ph], self)) for p in ev.iters]
            ph_ = ph
            if all(u is ups[0] for u in ups) and ups[0].op not in ("replaced", "filled", "bitand"):
                u = ups[0]
                if self.copied(ph_, ups) is not None:
                    res = models.cat(v0, self.copied(ph_, ups))
                elif u.op == "push" and u.a[0] is ph_ and not self.own(u.a[1]):
                    body = u.a[1]
                    m = coll if body is mk("each", ev.id, coll) else mk("mapped", coll, ev.id, body)
                    res = m if v0 is mk("seq") else mk("concat", v0, m)
                elif u.op == "insert" and u.a[0] is ph_ and not self.own(u.a[1]) and not self.own(u.a[2]):
                    res = mk("mapinsert", v0, coll, ev.id, u.a[1], u.a[2])
                elif u.op == "cat" and u.a[0] is ph_ and not any(self.own(x) for x in u.a[1:]):
                    body = models.cat(*u.a[1:])
                    m = mk("joined", coll, ev.id, body)
                    res = models.cat(v0, m)
                elif not self.own(u):
                    res = mk("lastof", v0, coll, ev.id, u)
                elif u is ph_:
                    res = v0
            elif self.boolacc(ph_, ups) is not None:
                res = mk("all", v0, coll, ev.id, self.boolacc(ph_, ups))
            elif self.copied(ph_, ups) is not None:
                res = models.cat(v0, self.copied(ph_, ups))
            elif all(u.op == "filled" and u.a[0] is ph_ and not self.own(u.a[1]) for u in ups):
                res = mk("resub", v0, coll, ev.id, self.alts(ups, lambda u: u.a[1]))
            elif all(u is ph_ or u.op == "replaced" and u.a[0] is ph_ and not self.own(u.a[1]) and not self.own(u.a[2]) for u in ups):
                res = mk("splice", v0, coll, ev.id, self.alts(ups, lambda u: None if u is ph_ else (u.a[1], u.a[2])))
            elif all(u is ph_ or u.op == "push" and u.a[0] is ph_ and not self.own(u.a[1]) for u in ups):
                res = mk("filtered", v0, coll, ev.id, self.alts(ups, lambda u: None if u is ph_ else u.a[1]))
            if res is None:
                res = self.separated(ph_, v0)
        self._closed[ph] = res
        return res

    def separated(self, ph, v0):
        """the joined elements, if every iteration appends its element and all
        but the first put a separator before it (or all but the last behind it)"""
        coll = self.coll
        raw = [close_path(p, p.updates[ph], self) for p in self.ev.iters]
        if not all(u.op == "cat" and u.a[0] is ph and not any(x is ph for y in u.a[1:] for x in subterms(y)) for u in raw):
            return None
        sw = {x for x, _, _ in self.sweeps}
        ct = {x: v for x, v in self.counters}
        first, later = {}, {}
        for x, v in self.ev.init.items():
            if x is ph or x in sw:
                continue
            if x in ct:
                if v.op == "int":
                    first[x] = v
                continue
            us = {p.updates[x] for p in self.ev.iters}
            if is_const(v):
                first[x] = v
            if len(us) == 1 and is_const(list(us)[0]):
                later[x] = list(us)[0]
        solid = all(any(y.op == "str" and y.a[0] for y in u.a[1:]) or v0.op == "str" and v0.a[0] for u in raw)

        def truth(t, env, pos):
            """value of a condition in the first / a later iteration"""
            if t.op == "not":
                x = truth(t.a[0], env, pos)
                return None if x is None else not x
            t = rewrite(t, lambda z: env.get(z, z))
            if is_const(t):
                return t.a[0]
            if t.op not in ("lt", "le", "eq"):
                return None
            a, b = t.a
            if a is mk("len", ph) or b is mk("len", ph):
                n = 0 if v0 is STR("") and not pos else 1 if solid else None
                if n is None:
                    return None
                a, b = (INT(n) if z is mk("len", ph) else z for z in (a, b))
                if pos and not (INT(0) in (a, b)):
                    return None
            if is_const(a) and is_const(b):
                return a.a[0] == b.a[0] if t.op == "eq" else a.a[0] < b.a[0] if t.op == "lt" else a.a[0] <= b.a[0]
            if pos:
                k = lambda z: z in ct and ct[z].op == "int" and ct[z].a[0] >= 0
                if t.op == "lt" and a.op == "int" and k(b):
                    return True if a.a[0] <= ct[b].a[0] else None
                if t.op == "le" and a.op == "int" and k(b):
                    return True if a.a[0] <= ct[b].a[0] + 1 else None
                if t.op in ("lt", "le") and b.op == "int" and k(a) and b.a[0] <= ct[a].a[0] + (1 if t.op == "lt" else 0):
                    return False
                if t.op == "eq" and (k(a) and b.op == "int" and b.a[0] <= ct[a].a[0] or k(b) and a.op == "int" and a.a[0] <= ct[b].a[0]):
                    return False
            return None

        def kinds(env, pos, more=None):
            out = set()
            for p, u in zip(self.ev.iters, raw):
                fine = True
                for e in conds(p):
                    if not isinstance(e.val, bool) and not (e.term in env or e.term in ct):
                        continue
                    t = e.term
                    if isinstance(e.val, int) and not isinstance(e.val, bool):
                        t, v = mk("eq", t, INT(e.val)), True
                    else:
                        v = e.val
                    x = truth(t, env, pos) if more is None else self.is_last(t, more)
                    if x is not None and (x == v) != e.eq:
                        fine = False
                if fine:
                    out.add(models.cat(*[rewrite(y, lambda z: env.get(z, z)) for y in u.a[1:]]))
            return out.pop() if len(out) == 1 else None

        def parts(t):
            return [] if t is STR("") else list(t.a) if t.op == "cat" else [t]

        def cut(a, b, front):
            """a = separator + b"""
            x, y = parts(a), parts(b)
            if not front:
                x, y = x[::-1], y[::-1]
            n = len(x) - len(y)
            if n == 1 and x[1:] == y and x[0].op == "str":
                return x[0]
            if n == 0 and x and x[1:] == y[1:] and x[0].op == y[0].op == "str":
                long, short = x[0].a[0], y[0].a[0]
                if front and long.endswith(short):
                    return STR(long[:len(long) - len(short)])
                if not front and long.startswith(short):
                    return STR(long[len(short):])
            return None
        for front, a, b in ((True, kinds(later, True), kinds(first, False)), (False, kinds({}, True, False), kinds({}, True, True))):
            if a is None or b is None or a is b:
                continue
            sep = cut(a, b, front)
            body = self.canon(b)
            if sep is not None and not self.own(body):
                m = coll if body is mk("each", self.ev.id, coll) else mk("mapped", coll, self.ev.id, body)
                return models.cat(v0, mk("join", m, sep))
        return None

    def is_last(self, t, last):
        """value of a condition that asks whether this is the last iteration"""
        if t.op == "not":
            x = self.is_last(t.a[0], last)
            return None if x is None else not x
        if t.op not in ("lt", "le", "eq"):
            return None
        n = mk("len", self.coll)
        zero = {x for x, v in self.counters if v is INT(0)}
        a, b = t.a
        one = lambda z: z.op == "add" and z.a[1] is INT(1) and z.a[0] in zero
        pre = lambda z: z.op == "sub" and z.a[0] is n and z.a[1] is INT(1)
        if t.op == "lt" and (one(a) and b is n or a in zero and pre(b)):
            return not last
        if t.op == "le" and (a is n and one(b) or pre(a) and b in zero):
            return last
        if t.op == "eq" and (one(a) and b is n or one(b) and a is n or a in zero and pre(b) or b in zero and pre(a)):
            return last
        return None

    def copied(self, ph, ups):
        """the text of the matches, if every iteration appends the text between
        the match before and this match, and something for the match"""
        coll = self.coll
        m = mk("each", self.ev.id, coll.a[0] if coll.op == "zip" else coll)
        text, parts = None, []
        for p, u in zip(self.ev.iters, ups):
            if u.op != "cat" or u.a[0] is not ph or len(u.a) < 2 or u.a[1].op != "slice":
                return None
            s, lo, hi = u.a[1].a
            if text not in (None, s) or self.own(s) or lo.op != "phi" or lo not in self.ev.init or self.ev.init[lo] is not INT(0) or not match_point(hi, "start", m):
                return None
            if not all(match_point(self.canon(close_path(q, q.updates[lo], self)), "end", m) for q in self.ev.iters):
                return None
            text = s
            rest = u.a[2:]
            if any(self.own(x) for x in rest):
                return None
            parts.append(models.cat(*rest) if rest else STR(""))
        return mk("copied", text, coll, self.ev.id, self.alts(parts, lambda u: u)) if text is not None else None

    def boolacc(self, ph, ups):
        """the condition B if every iteration makes ph into ph and B"""
        cands = []
        for p, u in zip(self.ev.iters, ups):
            for t in [self.canon(e.term) for e in conds(p)] + list(subterms(u)):
                if t.op in ("fld", "lt", "le", "eq", "call", "not") and not self.own(t) and t not in cands:
                    cands.append(t)
        if not any(u.op in ("bool", "bitand") or u is ph for u in ups) or all(u is ph for u in ups):
            return None

        def val(t, a):
            if t in a:
                return a[t]
            if t.op == "bool":
                return t.a[0]
            if t.op == "not":
                x = val(t.a[0], a)
                return None if x is None else not x
            if t.op in ("bitand", "bitor"):
                x, y = val(t.a[0], a), val(t.a[1], a)
                if None in (x, y):
                    return None
                return x and y if t.op == "bitand" else x or y
            return None
        for b in cands:
            good, hit = True, set()
            for x in (False, True):
                for y in (False, True):
                    for p, u in zip(self.ev.iters, ups):
                        if any(e.eq is not None and (val(self.canon(e.term), {ph: x, b: y}) not in (None, e.val if e.eq else not e.val)) for e in conds(p) if isinstance(e.val, bool)):
                            continue
                        hit.add((x, y))
                        if val(u, {ph: x, b: y}) != (x and y):
                            good = False
            if good and len(hit) == 4:
                return b
        return None

    def alts(self, ups, f):
        """what each iteration path adds, with the conditions of the path"""
        out = []
        for p, u in zip(self.ev.iters, ups):
            out.append((tuple((self.canon(e.term), e.val, e.eq) for e in conds(p)), f(u)))
        return tuple(out)


def info(ev):
    i = ev.__dict__.get("info_")
    if i is None:
        i = ev.info_ = LoopInfo(ev)
    return i


def close_path(p, t, outer=None):
    """loop variables of loops left by exhaustion replaced by closed forms"""
    for e in reversed(p.events):
        if e.kind != "loop":
            continue
        li = info(e)
        if not any(x.op == "phi" and x.a[0] == e.id for x in subterms(t)):
            continue
        if not li.exhausted(p):
            t = simp(li.canon(t))
            continue

        def f(x):
            if x.op == "phi" and x.a[0] == e.id:
                y = li.closed(x) if x in e.init else None
                return y if y is not None else x
            return x
        t = simp(rewrite(t, f))
    return t


def final(e, p):
    """the value a path returns, loops closed"""
    return close_path(p, e.norm(p.st, p.val)) if p.val is not None else None


EFFECT = ("call", "sink", "spawn", "diverge")


def effects(events):
    """the events that act on something: calls that are not pure functions of
    their arguments, output, loops that contain such"""
    out = []
    for e in events:
        if e.kind == "call" and not e.pure:
            out.append(e)
        elif e.kind in ("sink", "spawn", "diverge"):
            out.append(e)
        elif e.kind == "loop" and any(effects(p.events) for p in list(e.iters) + list(e.exits)):
            out.append(e)
    return out


def all_events(p_or_events):
    """all events of a path, those of loop bodies included"""
    evs = p_or_events.events if isinstance(p_or_events, Path) else p_or_events
    for e in evs:
        yield e
        if e.kind == "loop":
            for p in e.iters:
                for x in all_events(p.events):
                    yield x
        elif e.kind == "spawn":
            for p in e.outs:
                for x in all_events(p.events):
                    yield x
        elif e.kind == "call" and e.outs:
            for p in e.outs:
                for x in all_events(p.events):
                    yield x


NEG = lambda x: (mk("call", "num::checked_neg", x), mk("call", "num::checked_sub", INT(0), x), mk("call", "num::checked_mul", x, INT(-1)))


def negated(y, x):
    return y is mk("neg", x) or y is mk("sub", INT(0), x) or y.op == "fld" and y.a[0] in NEG(x) and y.a[1] == 1


def no_negation(p, x):
    """the path is only taken when -x does not exist"""
    for y in conds(p):
        t, v, is_ = y.term, y.val, y.eq
        if t.op == "discr" and t.a[0] in NEG(x) and not ((v == 1) == is_):
            return True
        if t is x and is_ and v == -2 ** 63 or t.op == "eq" and t.a[0] is x and t.a[1] is INT(-2 ** 63) and (v is True) == is_:
            return True
    return False


def not_least(p, x):
    """x != i64::MIN on the path"""
    for y in conds(p):
        if getattr(y, "asserted", False):
            continue
        t, v, is_ = y.term, y.val, y.eq
        if t is x and not is_ and v == -2 ** 63 or t.op == "eq" and t.a[0] is x and t.a[1] is INT(-2 ** 63) and (v is False) == is_:
            return True
    return False

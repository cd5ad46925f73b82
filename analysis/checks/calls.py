"""Request calls and built-in functions: P08 (bindings), P09 (assertions), P10
(placeholders), P11 (one exchange, one record), P12 (verdict), P15 (built-ins)."""
import rx
from run import prop
from rules import *
from checks.evaluation import roles, run_expr, stub, cases, is_eval, VAL, operands

SEND = "lib::http::client::Client::send"
TOMAP = "lib::http::response::Response::to_map"
PLACEHOLDER = r"\{\s*([a-zA-Z_][a-zA-Z0-9_]*)\s*\}"


def by_type(c, adt, pred, what):
    out = [i for i, f in enumerate(c.p.variants(adt)[0]["fields"]) if pred(f["tys"])]
    if len(out) != 1:
        raise Missing("the field of %s that holds %s" % (adt, what))
    return out[0]


class Ctx:
    """the parts of the evaluation context, identified by their types"""

    def __init__(self, c):
        self.adt = c.adt("context::Context")
        self.vars = by_type(c, self.adt, lambda t: "HashMap<" in t and t.endswith(", value::Value>"), "the variables")
        self.requests = by_type(c, self.adt, lambda t: "HashMap<" in t and "syntax::Expr>" in t, "the requests")
        self.records = by_type(c, self.adt, lambda t: t.endswith("Vec<context::Record>"), "the records")
        self.n = len(c.p.variants(self.adt)[0]["fields"])


def send_fn(c):
    return c.fn("Client::send", pred=lambda f: f.name == "send" and f.path.startswith("lib::http::"))


def inlined(c, r):
    """what stays opaque when the context's methods are looked into"""
    return r.natives + [send_fn(c).path, c.fn("Response::to_map").path]


def request_call(c):
    if "rc" not in c.cache:
        r = roles(c)
        e, ps = run_expr(c, r, mk("adt", r.E, c.variant(r.E, "Call"), c.sym("name"), c.sym("arguments")), opaque=inlined(c, r))
        c.cache["rc"] = (r, e, ps)
    return c.cache["rc"]


def declared(p, ctx, name):
    """does the path establish that a request of this name exists (True/False/None)"""
    for ev in conds(p):
        t = ev.term
        if t.op == "has" and t.a[1] is name and t.a[0].op == "fld" and t.a[0].a[2] == ctx.requests and caller(t.a[0].a[0]):
            return (ev.val is True) == ev.eq
    return None


def caller(t):
    """a state of the caller's context"""
    while True:
        if t.op == "phi":
            return t.a[1] == ("P", 2)
        if t.op == "after":
            t = t.a[2]
            continue
        if t.op == "upd":
            t = t.a[0]
            continue
        return t.op == "param" and t.a[0] == 2


def request_paths(c, ctx):
    r, e, ps = request_call(c)
    name = c.sym("name")
    out = [p for p in ps if p.kind == "ret" and (declared(p, ctx, name) is True)]
    if not out:
        raise Missing("no path of a call that finds a declared request")
    return r, e, out


def plain(e, r, t, seen=()):
    """t is a context changed by nothing but evaluations of sub-expressions"""
    if t.op == "param":
        return t.a[0] == 2
    if t.op == "after":
        x = t.a[0]
        return x.op == "call" and x.a[0] in (r.expr.path, r.block.path) and plain(e, r, t.a[2], seen)
    if t.op == "phi":
        if t in seen:
            return True
        if t.a[2] != () or t.a[1] != ("P", 2):
            return False
        ev = e.loops.get(t.a[0])
        if ev is None or t not in ev.init:
            return False
        return plain(e, r, ev.init[t], seen) and all(plain(e, r, p.updates[t], seen + (t,)) for p in ev.iters)
    return False


def state(p):
    return p.st.mem[("P", 2)]


# ---------------------------------------------------------------- P08
@prop("P08", floor=40, technique="frame rule over the evaluator's summaries: per kind of expression the final context must be the initial one changed by sub-evaluations only, plus exactly one insertion for let; call-graph rule for every other function that can change the variables",
      explain="the evaluator is analysed per kind of expression with the context's own methods looked into; the resulting state of the caller's context is compared structurally with the only permitted one")
def p08(c):
    r = roles(c)
    ctx = Ctx(c)
    op = inlined(c, r)
    s = c.sym
    for key, ex, steps, _ in cases(c, r):
        e, ps = run_expr(c, r, ex, opaque=op)
        good, why, n = True, "", 0
        for p in ps:
            if p.kind != "ret":
                continue
            v, m = final(e, p), state(p)
            n += 1
            if key == "Let" and is_ok(v):
                val = v.a[2]
                if not (m.op == "upd" and m.a[1] == ((None, ctx.vars),) and plain(e, r, m.a[0])):
                    good, why = False, "the context after let is %s" % show(m)
                    break
                w = m.a[2]
                if not (w.op == "insert" and w.a[0] is proj(m.a[0], (None, ctx.vars)) and w.a[1] is s("name") and w.a[2] is val and val.op == "val" and val.a[0] is s("a")):
                    good, why = False, "let leaves %s bound and yields %s" % (show(w), show(val))
                    break
            elif not plain(e, r, m):
                good, why = False, "changes the caller's context to %s" % show(m)
                break
            if key == "Ident":
                vs = mk("fld", mk("param", 2, "context"), None, ctx.vars)
                has = [((ev.val is True) == ev.eq) for ev in conds(p) if ev.term.op == "has" and ev.term.a[1] is s("name") and is_vars(ev.term.a[0], ctx)]
                if is_ok(v):
                    if not (has == [True] and v.a[2].op == "lookup" and is_vars(v.a[2].a[0], ctx) and v.a[2].a[1] is s("name")):
                        good, why = False, "a name evaluates to %s" % show(v)
                elif has != [False]:
                    good, why = False, "a bound name is an error"
        c.ob(good and n, key, why or "the variables are as the sub-expressions left them" + (" plus the one binding" if key == "Let" else ""), c.where(r.expr))
    for key, ex in [("If", mk("adt", r.E, c.variant(r.E, "If"), s("a"), s("b"), s("d")))] + \
            [(o, mk("adt", r.E, c.variant(r.E, "Binary"), _tok(c, r, o), s("a"), s("b"))) for o in ("Lo", "La")]:
        e, ps = run_expr(c, r, ex, opaque=op)
        c.ob(ps and all(plain(e, r, state(p)) for p in ps if p.kind == "ret"), key, "the variables are as the sub-expressions left them", c.where(r.expr))
    e, ps = c.run(r.block, None, opaque=op, stubs={r.expr.path: stub({})})
    c.ob(ps and all(plain(e, r, state(p)) for p in ps if p.kind == "ret"), "block", "a block changes the context by evaluating its expressions only", c.where(r.block))
    # calls: variables as the arguments left them
    _, e, ps = request_call(c)
    good, why, n = True, "", 0
    for p in ps:
        if p.kind != "ret":
            continue
        n += 1
        m = state(p)
        while m.op == "upd" and m.a[1] and m.a[1][0] == (None, ctx.records):
            m = m.a[0]
        if not plain(e, r, m):
            good, why = False, "a call leaves the caller with %s" % show(m)
    c.ob(good and n, "Call", why or "a call leaves the caller's variables and declarations as its arguments left them", c.where(r.expr))
    # every other way to change variables
    muts = []
    for f in c.p.local_fns(("fn",)):
        if f.argc and f.locals[1] and is_mut_ctx(f, ctx) and f.path.startswith("lib::context::"):
            e, ps = c.run(f)
            ch = set()
            for p in ps:
                m = p.st.mem.get(("P", 1))
                ch |= {d[0] for d in changed(m)}
            muts.append((f, ch))
            c.ob(len(ch) <= 1, "method " + f.name, "changes one part of a context only (%s)" % ", ".join(str(x) for x in sorted(ch, key=str)), c.where(f))
    setters = [f for f, ch in muts if ch - {(None, ctx.requests), (None, ctx.records)}]
    c.ob(setters, "setter", "functions that change variables: %s" % [f.name for f in setters])
    used = 0
    for f in setters:
        for g, sp in callers(c.p, f):
            used += 1
            ok_ = only_let(c, r, g)
            c.ob(ok_, "caller %s of %s" % (g.path, f.name), "variables are set by the evaluation of let only", "%s (%s)" % (g.path, sp))
    c.ob(used, "set used", "the setter is used")
    vis = [f for f in c.p.local_fns() if not f.path.startswith(("lib::context", "<context::", "<lib::context"))]
    bad = []
    for f in vis:
        for a, fi, sp in field_writes(f, ctx.adt):
            bad.append("%s (%s)" % (f.path, sp))
    c.ob(not bad, "direct access", "no function outside the context's module writes its fields or borrows them mutably %s" % bad)


def _tok(c, r, k):
    from checks.evaluation import token
    return token(c, r, k)


def is_vars(t, ctx):
    return t.op == "fld" and t.a[2] == ctx.vars and caller(t.a[0])


def is_mut_ctx(f, ctx):
    t = f.local_ty(1)
    return t.get("k") == "ref" and t.get("mut") and t.get("args") and f.ty(t["args"][0]).get("adt") == ctx.adt


def changed(m):
    """paths of a symbolic structure that were written"""
    out = set()
    if m is None:
        return out
    while m.op == "upd":
        out.add(m.a[1])
        m = m.a[0]
    if m.op != "param":
        out.add(((None, "all"),))
    return out


def callers(prog, f):
    out = []
    for g in prog.local_fns():
        for blk in g.blocks:
            for o in operands(blk):
                if o[0] == "const" and "fn" in o[1] and (o[1]["fn"].get("rdef") or o[1]["fn"]["def"]) == f.key:
                    out.append((g, blk["t"].get("sp", "")))
    return out


def field_writes(f, adt):
    """assignments to and mutable borrows of fields of adt"""
    for blk in f.blocks:
        for s in blk["s"]:
            if s[0] != "=":
                continue
            pls = [s[1]]
            if s[2][0] in ("ref", "rawptr", "addr") and s[2][1]:
                pls += [x for x in s[2][1:] if isinstance(x, list)]
            for pl in pls:
                for a, i in projections(f, pl):
                    if a == adt:
                        yield a, i, f.span


def projections(f, pl):
    """(adt, field) pairs a place goes through"""
    if not isinstance(pl, list) or len(pl) < 2 or not isinstance(pl[0], int):
        return
    ty = f.local_ty(pl[0])
    for e in pl[1]:
        if e[0] == "d":
            if ty and ty.get("args"):
                ty = f.ty(ty["args"][0])
        elif e[0] == "f":
            if ty and ty.get("adt"):
                yield ty["adt"], e[1]
            ty = f.ty(e[2]) if len(e) > 2 and isinstance(e[2], int) else None
        else:
            ty = None


def encloser(prog, k):
    """the function a closure is written in"""
    path = k.path.split("::{closure")[0]
    fs = [f for f in prog.local_fns(("fn",)) if f.path == path and f.crate is k.crate]
    return fs[0] if len(fs) == 1 else None


def only_let(c, r, g):
    """g sets variables only while evaluating a let: it is reached from the
    evaluator for that kind of expression alone"""
    if g.path == r.expr.path:
        return True  # decided per kind of expression above
    if "{closure" in g.path:
        # a closure runs for the function it is written in
        g = encloser(c.p, g)
        if g is None:
            return False
    seen, work = {g.key}, [g]
    while work:
        h = work.pop()
        cs = callers(c.p, h)
        if not cs:
            return False
        for k, _ in cs:
            if k.key == r.expr.key or k.key in seen:
                continue
            if "{closure" in k.path:
                k = encloser(c.p, k)
                if k is None:
                    return False
                if k.key == r.expr.key or k.key in seen:
                    continue
            if k.sig() and not k.path.startswith("lib::evaluator::"):
                return False
            seen.add(k.key)
            work.append(k)
    return True


# ---------------------------------------------------------------- P11
@prop("P11", floor=9, technique="event-count and provenance rule over all paths of a request call",
      explain="every path of a call that finds a declared request must contain exactly one send (not in a loop) and end with exactly one record pushed to the caller's records, whose parts are provenance-checked to be the called name and the four results of that send")
def p11(c):
    ctx = Ctx(c)
    r, e, ps = request_paths(c, ctx)
    send = send_fn(c).path
    R = c.adt("context::Record")
    fs = c.p.variants(R)[0]["fields"]
    idx = {n: [i for i, f in enumerate(fs) if pred(f)] for n, pred in {
        "request": lambda f: f["tys"].endswith("request::Request"), "response": lambda f: f["tys"].endswith("response::Response"),
        "time": lambda f: f["tys"].endswith("time::Time"), "asserts": lambda f: f["tys"].endswith("Vec<context::Assert>"),
        "name": lambda f: f["name"] == "name", "error": lambda f: f["name"] == "error"}.items()}
    for n, l in idx.items():
        if len(l) != 1:
            raise Missing("field %s of %s" % (n, R))
    out = [f["tys"] for f in ()]
    names = {"request": "request::Request", "response": "response::Response", "time": "time::Time", "error": "alloc::string::String"}
    sf = send_fn(c)
    rt = sf.local_ty(0)
    comps = [sf.ty(x)["s"] for x in rt.get("args", [])]
    where = {}
    for n, t in names.items():
        k = [i for i, s_ in enumerate(comps) if s_.endswith(t)]
        if len(k) != 1:
            raise Missing("the %s among the results of %s: %s" % (n, send, comps))
        where[n] = k[0]
    for k, p in enumerate(ps):
        key = "path %d" % k
        ev = [x for x in p.events if x.kind == "call" and x.name == send]
        alls = [x for x in all_events(p) if x.kind == "call" and x.name == send]
        c.ob(len(ev) == 1 and len(alls) == 1, "one send", "the message is sent once per call (%d sends, %d in loops)" % (len(ev), len(alls) - len(ev)), c.where(r.expr))
        if len(ev) != 1:
            continue
        res = ev[0].res
        m = state(p)
        base, rec = m, None
        if m.op == "upd" and m.a[1] == ((None, ctx.records),):
            base, w = m.a[0], m.a[2]
            if w.op == "push" and w.a[0] is proj(base, (None, ctx.records)):
                rec = w.a[1]
        c.ob(rec is not None and rec.op == "adt" and rec.a[0] == R, "one record", "exactly one record is added to the caller's records: %s" % show(m, 5), c.where(r.expr))
        if rec is None or rec.op != "adt":
            continue
        for n in ("request", "response", "time", "error"):
            v = rec.a[2 + idx[n][0]]
            c.ob(v is proj(res, (None, where[n])), "record.%s" % n, "the record's %s is that of this exchange: %s" % (n, show(v)), c.where(r.expr))
        c.ob(rec.a[2 + idx["name"][0]] is c.sym("name"), "record.name", "the record is named after the called request", c.where(r.expr))
        # the value of the call: the mapped response
        v = final(e, p)
        good = is_ok(v) and v.a[2].op == "adt" and v.a[2].a[:2] == (r.V, c.variant(r.V, "Map"))
        why = show(v, 6)
        if good:
            w = v.a[2].a[2]
            good = mapped_response(e, r, w, proj(res, (None, where["response"])), ctx, c)
        c.ob(good, "value", "the call yields the mapped response of this exchange: %s" % why, c.where(r.expr))
    c.ob(not any(p.kind == "ret" and is_err(final(e, p)) for p in ps), "no other end", "a declared request always ends with its record", c.where(r.expr))


def mapped_response(e, r, w, response, ctx, c):
    """w is the map of the response, as it is or as the assertions' own context holds it"""
    tomap = c.fn("Response::to_map").path

    def is_map(t):
        return t.op == "call" and t.a[0] == tomap and t.a[1] is response
    if is_map(w):
        return True
    if w.op == "fld" and w.a[2] == ctx.vars:
        return local_context(e, r, w.a[0], is_map, ctx)
    return False


def local_context(e, r, t, is_map, ctx, seen=()):
    """t is a context of its own, holding the mapped response and nothing else,
    changed by evaluations only"""
    if t.op == "adt" and t.a[0] == ctx.adt:
        return is_map(t.a[2 + ctx.vars]) and t.a[2 + ctx.requests].op == "emptymap" and t.a[2 + ctx.records] is mk("seq")
    if t.op == "after":
        x = t.a[0]
        return x.op == "call" and x.a[0] == r.expr.path and local_context(e, r, t.a[2], is_map, ctx, seen)
    if t.op == "phi":
        if t in seen:
            return True
        ev = e.loops.get(t.a[0])
        return ev is not None and t in ev.init and t.a[2] == () and local_context(e, r, ev.init[t], is_map, ctx, seen) \
            and all(local_context(e, r, p.updates[t], is_map, ctx, seen + (t,)) for p in ev.iters)
    return False


# ---------------------------------------------------------------- P10
def match_of(t):
    """(regular expression, text) if t is the list of matches in a text"""
    if t.op == "call" and t.a[0].endswith("Regex::find_iter") or t.op == "call" and t.a[0].endswith("Regex::captures_iter"):
        x = t.a[1]
        if x.op == "fld":
            x = x.a[0]
        if x.op == "call" and x.a[0].endswith("Regex::new") and x.a[1].op == "str":
            return x.a[1].a[0], t.a[2]
    return None


def is_call(t, suffix, n=None):
    return t.op == "call" and t.a[0].endswith(suffix) and (n is None or len(t.a) == n + 1)


def whole(t, m):
    """the whole match as a Match"""
    if t is m:
        return True
    if t.op == "fld" and is_call(t.a[0], "Captures::get", 2) and t.a[0].a[1] is m and t.a[0].a[2] is INT(0):
        return True
    return False


def is_range(t, m):
    if is_call(t, "Match::range", 1):
        return whole(t.a[1], m)
    if t.op == "adt" and t.a[0].endswith("range::Range") and len(t.a) == 4:
        a, b = t.a[2], t.a[3]
        return is_call(a, "Match::start", 1) and whole(a.a[1], m) and is_call(b, "Match::end", 1) and whole(b.a[1], m)
    return False


def is_name(t, m):
    """the name between the braces of a match"""
    if is_call(t, "str::trim", 1):
        x = t.a[1]
        if x.op == "slice" and x.a[1] is INT(1) and is_call(x.a[0], "Match::as_str", 1) and whole(x.a[0].a[1], m) \
                and x.a[2] is mk("sub", mk("len", x.a[0]), INT(1)):
            return True
        t = x
    if is_call(t, "Match::as_str", 1):
        g = t.a[1]
        if g.op == "fld" and is_call(g.a[0], "Captures::get", 2) and g.a[0].a[1] is m and g.a[0].a[2] is INT(1):
            return True
    if is_call(t, "Index>::index", 2) or t.op == "idx":
        a = t.a[-2:]
        return a[0] is m and a[1] is INT(1)
    return False


def splice_ok(c, key, t, text, replacement, where):
    """t is text with every placeholder replaced by replacement(match), last to first"""
    if t.op not in ("splice", "resub"):
        c.ob(False, key, "the text is %s, not the template with its placeholders replaced" % show(t), where)
        return None
    v0, coll, lid, alts = t.a
    first = coll.a[0] if coll.op == "zip" else coll
    # spliced from the last match to the first, or copied from the first to the last
    ms = first if t.op == "resub" else first.a[0] if first.op == "reversed" else None
    mo = match_of(ms) if ms is not None else None
    c.ob(v0 is text, key + " text", "starts from the template itself: %s" % show(v0), where)
    c.ob(mo is not None and mo[1] is text, key + " matches", "every placeholder of the template, last to first so that positions stay valid and replaced text is not scanned: %s" % show(coll), where)
    if mo is None:
        return None
    same = rx.same(mo[0], PLACEHOLDER)
    c.ob(same, key + " placeholder", "a placeholder is a name in braces: %s" % mo[0], where)
    m = mk("each", lid, first)
    good, why = True, ""
    for cs, a in alts:
        if a is None:
            good, why = False, "a placeholder is left as it is when %s" % [show(x[0]) for x in cs]
        elif t.op == "splice" and not is_range(a[0], m):
            good, why = False, "the replaced part is %s" % show(a[0])
        else:
            w = replacement(m, cs, a[1] if t.op == "splice" else a, lid)
            if w:
                good, why = False, w
    c.ob(good and alts, key + " replacement", why or "each placeholder, and nothing else, is replaced by its value", where)
    return coll


@prop("P10", floor=12, technique="closed form of the substitution loop (which ranges of the template are replaced by what, in which order) compared with the required one; the placeholder pattern is compared as a regular language",
      explain="the text handed to the client is traced back to the declared template; loops over matches are summarised as list terms and every alternative of the replacement is checked with its conditions")
def p10(c):
    ctx = Ctx(c)
    r, e, ps = request_paths(c, ctx)
    send = send_fn(c).path
    null = mk("display", mk("adt", r.V, c.variant(r.V, "Null")))
    n = 0
    for p in ps:
        for ev in p.events:
            if ev.kind == "call" and ev.name == send:
                n += 1
                msgs = [a for a in ev.args if not (a.op == "adt")]
                t = simp(close_path(p, msgs[-1]))
                template = None
                for x in subterms(msgs[-1]):
                    pass
                lk = [x for x in subterms(t) if x.op == "lookup" and x.a[0].op == "fld" and x.a[0].a[2] == ctx.requests and caller(x.a[0].a[0]) and x.a[1] is c.sym("name")]
                if not lk:
                    c.ob(False, "request", "the message sent is not made from the declared template: %s" % show(t), c.where(r.expr))
                    continue
                text = proj(lk[0], (None, 0))

                def repl(m, cs, d, lid):
                    hs = [((v is True) == q, x) for x, v, q in cs if x.op == "has" and is_vars(x.a[0], ctx) and is_name(x.a[1], m)]
                    if d.op == "display" and d.a[0].op == "lookup" and is_vars(d.a[0].a[0], ctx) and is_name(d.a[0].a[1], m):
                        return None if [h for h, _ in hs] == [True] else "replaced by a value that may not exist"
                    if d is null or d is STR("null"):
                        return None if [h for h, _ in hs] == [False] else "null for a bound variable"
                    return "replaced by %s" % show(d)
                cl = splice_ok(c, "request", t, text, repl, c.where(r.expr))
                c.ob(cl is not None and cl.op != "zip", "request one-to-one", "no placeholder is dropped", c.where(r.expr))
    c.ob(n, "request sent", "the message is sent")
    # format and println
    fmt = native(c, "format")
    formatted(c, r, "format", fmt, lambda e, p: [v.a[2].a[2] for v in [final(e, p)] if is_ok(v) and v.a[2].op == "adt" and v.a[2].a[:2] == (r.V, c.variant(r.V, "String"))])
    for nm, tail in (("println", "\n"), ("print", "")):
        formatted(c, r, nm, native(c, nm), lambda e, p: printed(c, r, e, p, tail))
    display_of_string(c, r)


def native(c, name):
    return c.fn("native::" + name, crate="lib", pred=lambda f: f.name == name and f.path.startswith("lib::"))


def display_of_string(c, r):
    """the display form of a string value is the string"""
    d = c.impl("fmt::Display", "value::Value", "fmt")
    s = c.sym("string")
    e, ps = c.run(d, {1: mk("adt", r.V, c.variant(r.V, "String"), s)})
    outs = [printed_to(e, p, 2) for p in shown(c, ps, d) if p.kind == "ret"]
    c.ob(outs and all(o is not None and len(o) == 1 and (o[0] is s or o[0] is mk("display", s)) for o in outs), "display of a string", "a string is displayed as it is: %s" % outs, c.where(d))
    e, ps = c.run(d, {1: mk("adt", r.V, c.variant(r.V, "Null"))})
    outs = [printed_to(e, p, 2) for p in shown(c, ps, d) if p.kind == "ret"]
    c.ob(outs and all(o == [STR("null")] for o in outs), "display of null", "null is displayed as null: %s" % outs, c.where(d))


def shown(c, ps, f):
    """the paths of a display on which no write failed; it fails only when one does"""
    out = []
    for p in ps:
        if p.kind != "ret":
            out.append(p)
            continue
        failed = any(x.term.op == "discr" and x.term.a[0].op == "call" and (x.term.a[0].a[0] == "sink" or x.term.a[0].a[0].endswith("::fmt")) and (x.val == 1) == x.eq for x in conds(p))
        if failed:
            continue
        if is_err(p.val):
            c.ob(False, "display fails", "showing fails although every write succeeded", c.where(f))
        out.append(p)
    return out


def printed_to(e, p, i):
    """what a path wrote to the formatter passed as parameter i, as a list of parts"""
    m = simp(close_path(p, e.norm(p.st, p.st.mem[("P", i)])))
    if m.op == "param":
        return []
    if m.op != "cat" or m.a[0].op != "param":
        return None
    return list(m.a[1:])


def printed(c, r, e, p, tail):
    """texts printed on a path, in order; [] when an error is returned"""
    out = []
    for ev in p.events:
        if ev.kind == "call" and ev.name.endswith("_print"):
            t = simp(close_path(p, ev.args[0]))
            parts = list(t.a) if t.op == "cat" else [t]
            if tail:
                if parts and parts[-1].op == "str" and parts[-1].a[0] == tail:
                    parts = parts[:-1]
                else:
                    out.append(t)
                    continue
            if len(parts) == 1 and parts[0].op == "display" and parts[0].a[0].op == "adt" and parts[0].a[0].a[:2] == (r.V, c.variant(r.V, "String")):
                out.append(parts[0].a[0].a[2])
            elif len(parts) == 1:
                out.append(parts[0])
            else:
                out.append(t)
    return out


def numbered(t):
    """a member taken by the number of the round is the member of the round"""
    if t.op not in ("splice", "resub") or t.a[1].op == "zip":
        return t
    i = mk("count", t.a[2], INT(0))
    taken = {x for _, a in t.a[3] if a is not None for y in (a if isinstance(a, tuple) else (a,)) for x in subterms(y) if x.op == "idx" and x.a[1] is i}
    if len({x.a[0] for x in taken}) != 1:
        return t
    x = taken.pop()
    sub = lambda y: rewrite(y, lambda z: mk("each", t.a[2], x.a[0]) if z is x else z)
    alts = tuple((cs, a if a is None else tuple(map(sub, a)) if isinstance(a, tuple) else sub(a)) for cs, a in t.a[3])
    return mk(t.op, t.a[0], mk("zip", t.a[1], x.a[0]), t.a[2], alts)


def formatted(c, r, name, f, result):
    e, ps = c.run(f, opaque=[c.impl("fmt::Display", "value::Value", "fmt").path])
    vals = mk("param", 1, f.locals[1].get("name", ""))
    n = 0
    for p in ps:
        if p.kind != "ret":
            continue
        v = final(e, p)
        out = result(e, p)
        cs = [(simp(close_path(p, x.term)), x.val, x.eq) for x in conds(p)]
        first = mk("idx", vals, INT(0))
        if is_err(v):
            c.ob(not [x for x in out if x], name + " error", "a failed format prints nothing", c.where(f))
            continue
        n += 1
        if len(out) != 1:
            c.ob(False, name + " output", "yields or prints %d texts, not one" % len(out), c.where(f))
            continue
        string = mk("fld", first, c.variant(r.V, "String"), 0)
        rest = mk("tail", vals)

        def repl(m, k, d, lid):
            if d.op == "display" and d.a[0].op == "each" and d.a[0].a[0] == lid and d.a[0].a[1] in (mk("reversed", rest), rest) and d.a[0].a[1] is paired.get(lid):
                return None
            return "replaced by %s, not by the argument of the same position" % show(d)
        # matches and arguments are walked in the same direction
        paired = {}
        out = [numbered(t) for t in out]
        if out[0].op in ("splice", "resub") and out[0].a[1].op == "zip":
            paired[out[0].a[2]] = mk("reversed", rest) if out[0].op == "splice" else rest
        coll = splice_ok(c, name, out[0], string, repl, c.where(f))
        if coll is None:
            continue
        c.ob(coll.op == "zip" and len(coll.a) == 2 and coll.a[1] is paired.get(out[0].a[2]), name + " one-to-one", "placeholders and arguments are paired in the same direction: %s" % show(coll), c.where(f))
        ms = None
        if coll.op == "zip":
            ms = coll.a[0] if out[0].op == "resub" else coll.a[0].a[0] if coll.a[0].op == "reversed" else None
        same = [1 for t, val, eq_ in cs if t.op == "eq" and {t.a[0], t.a[1]} == {mk("len", rest), mk("len", ms)} and (val is True) == eq_] if ms is not None else []
        c.ob(same, name + " counts", "the text is formatted only when the counts are equal", c.where(f))
    c.ob(n, name + " succeeds", "formatting can succeed", c.where(f))


# ---------------------------------------------------------------- P15
@prop("P15", floor=30, technique="decision table of the built-ins by partial evaluation: every path per number and kinds of arguments; dispatch table from the conditions on the called name",
      explain="each built-in is analysed on all paths; a success is accepted only under the facts that make its arguments fit, with exactly the required value, and the dispatch of a call is read off the name comparisons of each path")
def p15(c):
    ctx = Ctx(c)
    r, e, ps = request_call(c)
    name = c.sym("name")
    V = lambda n: c.variant(r.V, n)
    nats = {n: native(c, n) for n in ("println", "print", "format", "length", "append")}
    by = {f.path: n for n, f in nats.items()}
    seen = {}
    unknown = 0
    for p in ps:
        if p.kind != "ret":
            continue
        called = [ev for ev in all_events(p) if ev.kind == "call" and ev.name in by]
        d = declared(p, ctx, name)
        names = [(ev.val, ev.eq) for ev in conds(p) if ev.term is name and isinstance(ev.val, str)]
        names += [(ev.term.a[1].a[0] if ev.term.a[0] is name else ev.term.a[0].a[0], (ev.val is True) == ev.eq) for ev in conds(p)
                 if ev.term.op == "eq" and name in ev.term.a and any(x.op == "str" for x in ev.term.a)]
        yes = [n for n, t in names if t]
        if d is None:
            # an argument failed
            if called or not is_err(final(e, p)):
                c.ob(False, "dispatch", "a call is decided without looking for a declared request", c.where(r.expr))
            continue
        if d:
            c.ob(not called, "precedence", "a declared request takes precedence over a built-in", c.where(r.expr))
            continue
        v = final(e, p)
        if not called:
            unknown += 1
            c.ob(is_err(v) and not yes and {n for n, t in names if not t} >= set(nats), "unknown", "only a name that is no built-in is an error: %s" % names, c.where(r.expr))
            continue
        ev = called[0]
        n = by[ev.name]
        seen[n] = seen.get(n, 0) + 1
        a = simp(close_path(p, ev.args[0]))
        want = a.op == "mapped" and a.a[0] is c.sym("arguments") and a.a[2].op == "val" and a.a[2].a[0] is mk("each", a.a[1], a.a[0])
        res = simp(close_path(p, ev.res))
        same = (is_err(v) and v.a[2] is proj(res, (1, 0))) or (is_ok(v) and v.a[2] is proj(res, (0, 0))) or v is res
        c.ob(len(called) == 1 and yes == [n] and want and same, "dispatch " + n, "the name %s calls the built-in %s once with all evaluated arguments and yields its result: %s(%s)" % (yes, n, n, show(a, 4)), c.where(r.expr))
    c.ob(set(seen) == set(nats) and unknown, "all dispatched", "every built-in can be called: %s" % sorted(seen))
    # length
    f = nats["length"]
    e, ps = c.run(f)
    vals = mk("param", 1, f.locals[1].get("name", ""))
    first = mk("idx", vals, INT(0))
    okn = set()
    for p in ps:
        if p.kind != "ret":
            continue
        v = final(e, p)
        k = kind_of(p, first)
        one = length_is(p, vals, 1)
        if is_ok(v):
            w = v.a[2]
            x = w.a[2] if w.op == "adt" and w.a[:2] == (r.V, V("Integer")) else None
            while x is not None and x.op in ("cast",):
                x = x.a[1]
            good = one is True and k in (V("String"), V("Array"), V("Map")) and x is not None and length_of(x, mk("fld", first, k, 0))
            okn.add(k)
            c.ob(good, "length ok %s" % k, "length of exactly one argument is its own length: %s when %s" % (show(w), [str(x) for x in conds(p)]), c.where(f))
        else:
            c.ob(is_err(v) and not (one is True and k in (V("String"), V("Array"), V("Map"))), "length error", "length fails only when the arguments do not fit", c.where(f))
    c.ob(okn == {V("String"), V("Array"), V("Map")}, "length kinds", "strings, arrays and maps have a length")
    # append
    f = nats["append"]
    e, ps = c.run(f)
    vals = mk("param", 1, f.locals[1].get("name", ""))
    first = mk("idx", vals, INT(0))
    n = 0
    for p in ps:
        if p.kind != "ret":
            continue
        v = final(e, p)
        k = kind_of(p, first)
        if is_ok(v):
            n += 1
            w = v.a[2]
            x = w.a[2] if w.op == "adt" and w.a[:2] == (r.V, V("Array")) else None
            want = mk("concat", mk("fld", first, V("Array"), 0), mk("tail", vals))
            c.ob(k == V("Array") and x is want, "append ok", "append yields the array followed by all further arguments in order: %s" % show(w), c.where(f))
        else:
            c.ob(is_err(v) and not (k == V("Array")), "append error", "append fails only when its first argument is no array", c.where(f))
    c.ob(n, "append succeeds", "append can succeed")
    # print, println, format: kinds
    for nm in ("println", "print", "format"):
        f = nats[nm]
        e, ps = c.run(f)
        vals = mk("param", 1, f.locals[1].get("name", ""))
        first = mk("idx", vals, INT(0))
        n = 0
        for p in ps:
            if p.kind != "ret":
                continue
            v = final(e, p)
            k = kind_of(p, first)
            pr = [ev for ev in all_events(p) if ev.kind == "call" and ev.name.endswith("_print")]
            if is_ok(v):
                n += 1
                c.ob(k == V("String"), nm + " kind", "%s needs a text" % nm, c.where(f))
                if nm != "format":
                    c.ob(len(pr) == 1 and v.a[2] is mk("adt", r.V, V("Null")) and pr[0] in p.events, nm + " prints", "%s prints once and yields null" % nm, c.where(f))
                else:
                    c.ob(not pr and v.a[2].op == "adt" and v.a[2].a[1] == V("String"), nm + " yields", "format prints nothing and yields a string", c.where(f))
            else:
                c.ob(is_err(v) and not pr, nm + " error", "a failed %s is an error and prints nothing" % nm, c.where(f))
        c.ob(n, nm + " succeeds", "%s can succeed" % nm)
    for nm, tail in (("println", "\n"), ("print", "")):
        f = nats[nm]
        e, ps = c.run(f, opaque=[nats["format"].path])
        for p in ps:
            if p.kind != "ret" or not is_ok(final(e, p)):
                continue
            ev = [x for x in p.events if x.kind == "call" and x.name == nats["format"].path]
            pr = [x for x in p.events if x.kind == "call" and x.name.endswith("_print")]
            if not ev or not pr:
                continue
            w = proj(ev[0].res, (0, 0))
            t = pr[0].args[0]
            c.ob(t is models.cat(mk("display", w), STR(tail)) or (not tail and t in (mk("display", w), mk("cat", mk("display", w)))), nm + " exactly", "%s prints the formatted text%s and nothing else: %s" % (nm, " and a newline" if tail else "", show(t)), c.where(f))
    display_of_string(c, r)


def length_of(x, v):
    return x is mk("len", v) or x.op == "call" and x.a[-1] is v and x.a[0].endswith("::len") or x.op == "count" and x.a[-1] is v


def kind_of(p, v):
    """variant a path has established for v"""
    for ev in conds(p):
        if ev.term is mk("discr", v) and ev.eq:
            return ev.val
    return None


def length_is(p, v, n):
    for ev in conds(p):
        t = ev.term
        if t is mk("len", v) and ev.val == n:
            return ev.eq
        if t.op == "eq" and mk("len", v) in t.a and INT(n) in t.a:
            return (ev.val is True) == ev.eq
    return None


# ---------------------------------------------------------------- P09
OPS = {"Lt": lambda l, x: mk("lt", l, x), "Gt": lambda l, x: mk("lt", x, l), "Le": lambda l, x: mk("le", l, x), "Ge": lambda l, x: mk("le", x, l),
       "Eq": lambda l, x: absint.eq(l, x), "Ne": lambda l, x: neg(absint.eq(l, x))}


def neg(t):
    if t.op == "bool":
        return BOOL(not t.a[0])
    return t.a[0] if t.op == "not" else mk("not", t)


def same_truth(a, b):
    if a is b:
        return True
    if a.op == "not" and b.op == "not":
        return same_truth(a.a[0], b.a[0])
    if a.op == "eq" and b.op == "eq":
        return a.a == b.a or a.a == b.a[::-1] or eq_variant(a) == eq_variant(b) != None
    return False


def same_cmp(t, want, l, r):
    if same_truth(t, want):
        return True
    xs = [(cmp_eval(t, l, r, x), cmp_eval(want, l, r, x)) for x in RELS]
    return all(a is not None and a == b for a, b in xs)


def eq_variant(t):
    """(value, variant) of a test against a constant variant without fields"""
    a, b = t.a
    if b.op == "adt" and len(b.a) == 2:
        return a, b.a[1]
    if a.op == "discr" and b.op == "int":
        return a.a[0], b.a[0]
    return None


@prop("P09", floor=40, technique="per-iteration rule over all paths of the assertion loop: case of assertion, evaluations due, comparison built from exactly those operands; alias rule for the context they are evaluated in",
      explain="the loop that judges assertions is analysed for every kind of assertion and every outcome of its operands; each iteration path must add exactly one outcome built from the operands it evaluated in the response's own context")
def p09(c):
    outcomes(c, c.ob)


def outcomes(c, ob):
    ctx = Ctx(c)
    r, e, ps = request_paths(c, ctx)
    A = c.adt("context::Assert")
    fi = {n: c.field(A, n) for n in ("expr", "left", "compare", "right", "result")}
    B = c.variant(r.E, "Binary")
    null = mk("adt", r.V, c.variant(r.V, "Null"))
    COMP = {c.variant(r.K, k): k for k in OPS}
    R = c.adt("context::Record")
    ai = by_type(c, R, lambda t: t.endswith("Vec<context::Assert>"), "the outcomes")
    send, tomap = send_fn(c).path, c.fn("Response::to_map").path
    cases_ = {}
    for p in ps:
        m = state(p)
        w = m.a[2].a[1] if m.op == "upd" and m.a[2].op == "push" else None
        if w is None or w.op != "adt":
            ob(False, "outcomes", "no record holds the outcomes", c.where(r.expr))
            continue
        acc = w.a[2 + ai]
        if acc.op != "phi" or acc.a[0] not in e.loops or acc not in e.loops[acc.a[0]].init:
            ob(False, "outcomes", "the outcomes are %s" % show(acc), c.where(r.expr))
            continue
        ev = e.loops[acc.a[0]]
        li = info(ev)
        sent = [x for x in p.events if x.kind == "call" and x.name == send]
        dec = [x for x in [li.coll] if x is not None and x.op == "fld" and x.a[0].op == "lookup" and x.a[0].a[0].op == "fld" and x.a[0].a[0].a[2] == ctx.requests
               and caller(x.a[0].a[0].a[0]) and x.a[0].a[1] is c.sym("name") and x.a[2] == 1]
        ob(dec, "declared", "the assertions of the called request are judged: %s" % (show(li.coll) if li.coll is not None else None), c.where(r.expr))
        ob(ev.init[acc] is mk("seq"), "empty start", "outcomes start empty", c.where(r.expr))
        ob(li.exhausted(p), "all judged", "all assertions are judged", c.where(r.expr))
        if not dec or not sent:
            continue
        x = mk("each", ev.id, li.coll)
        resp = [i for i, s_ in enumerate([send_fn(c).ty(t)["s"] for t in send_fn(c).local_ty(0).get("args", [])]) if s_.endswith("response::Response")][0]
        is_map = lambda t: t.op == "call" and t.a[0] == tomap and t.a[1] is proj(sent[0].res, (None, resp))
        for q in ev.iters:
            up = li.canon(q.updates[acc])
            evs = [y for y in effects(q.events)]
            cs = [plain_cond(li.canon(y.term), y.val, y.eq) for y in conds(q)]
            isb = [(v == B) == eq_ for t, v, eq_ in cs if t is mk("discr", x)]
            tok = proj(x, (B, 0))
            kt = mk("discr", proj(tok, (None, c.field(r.TOK, "kind"))))
            ks = [COMP[v] for t, v, eq_ in cs if t is kt and eq_ and v in COMP]
            notk = {v for t, v, eq_ in cs if t is kt and not eq_}
            if True in isb and ks:
                case = ks[0]
            elif isb[:1] == [False] or notk >= set(COMP) or [1 for t, v, eq_ in cs if t is kt and eq_ and v not in COMP]:
                case = "other"
            else:
                case = "?"
            key = case
            if not (up.op == "push" and li.canon(up.a[0]) is acc and up.a[1].op == "adt" and up.a[1].a[0] == A):
                ob(False, key, "an assertion adds %s instead of one outcome" % show(up, 4), c.where(r.expr))
                continue
            got = up.a[1]
            g = lambda n: got.a[2 + fi[n]]
            vals = []
            good = True
            subj = [proj(x, (B, 1)), proj(x, (B, 2))] if case in OPS else [x]
            if len(evs) != len(subj) or not all(is_eval(r, y) for y in evs):
                ob(False, key, "evaluates %s where %s are due" % ([show(y.args[0], 4) if y.kind == "call" else y.kind for y in evs], [show(y, 4) for y in subj]), c.where(r.expr))
                continue
            for y, want in zip(evs, subj):
                if li.canon(y.args[0]) is not want:
                    good = False
                    ob(False, key, "evaluates %s where %s is due" % (show(li.canon(y.args[0]), 4), show(want, 4)), c.where(r.expr))
                vals.append(null if is_err(y.res) else li.canon(y.res.a[2]))
                ob(local_context(e, r, y.args[1], is_map, ctx), key + " context", "assertions see the fields of this response and nothing of the caller: %s" % show(y.args[1], 5), c.where(r.expr))
            if not good:
                continue
            cases_.setdefault(case, set()).add(tuple(v is null for v in vals))
            if case in OPS:
                want = OPS[case](*vals)
                ob(same_cmp(g("result"), want, *vals), key + " result", "%s is judged as %s" % (case, show(g("result"), 5)), c.where(r.expr))
                ob(g("left") is mk("display", vals[0]) and g("right") is mk("display", vals[1]), key + " operands", "the outcome shows its own operands: %s, %s" % (show(g("left"), 4), show(g("right"), 4)), c.where(r.expr))
                ob(any(t is tok for t in subterms(g("compare"))), key + " operator", "the outcome shows its own operator: %s" % show(g("compare"), 4), c.where(r.expr))
                ob(written(c, r, g("expr"), x, [subj[0], tok, subj[1]]), key + " expr", "the outcome names its assertion as it was written: %s" % show(g("expr"), 5), c.where(r.expr))
            elif case == "other":
                v = vals[0]
                res = g("result")
                truth = truthy(c, r, v, cs, res)
                ob(truth, key + " result", "an assertion without comparison holds if its value is true: %s when %s" % (show(res), [show(t, 3) + str((a, b)) for t, a, b in cs][-2:]), c.where(r.expr))
                ob(g("left") is mk("display", v), key + " operands", "the outcome shows its value", c.where(r.expr))
                ob(written(c, r, g("expr"), x, None), key + " expr", "the outcome names its assertion as it was written: %s" % show(g("expr"), 5), c.where(r.expr))
            else:
                ob(False, key, "an assertion is judged before its kind is known", c.where(r.expr))
    full = {(False, False), (False, True), (True, False), (True, True)}
    for k in OPS:
        ob(cases_.get(k) == full, "cases of " + k, "%s is judged for every outcome of its operands" % k, c.where(r.expr))
    ob(cases_.get("other"), "cases of others", "assertions that are no comparison are judged too", c.where(r.expr))


def plain_cond(t, v, is_):
    """x == constant, as a condition on x"""
    while t.op == "not":
        t, v = t.a[0], not v
    if t.op == "eq" and is_const(t.a[1]) and isinstance(v, bool):
        return t.a[0], t.a[1].a[0], v == is_
    return t, v, is_


def written(c, r, t, x, parts):
    """t is the text of the expression x, or of its parts in order, but for spaces"""
    def of(y, z):
        return y is z or y is mk("display", z) or z.op == "fld" and y in [f(proj(z, (None, c.field(r.TOK, "literal")))) for f in (lambda u: u, lambda u: mk("display", u))]
    ps = [y for y in (t.a if t.op == "cat" else [t]) if not (y.op == "str" and not y.a[0].strip())]
    return len(ps) == 1 and of(ps[0], x) or parts is not None and len(ps) == len(parts) and all(of(y, z) for y, z in zip(ps, parts))


def truthy(c, r, v, cs, res):
    """res is false exactly for false and null"""
    N, Bo = c.variant(r.V, "Null"), c.variant(r.V, "Boolean")
    if v.op == "adt":
        return res is FALSE and v.a[1] == N
    d = mk("discr", v)
    kind = [val for t, val, eq_ in cs if t is d and eq_]
    nots = {val for t, val, eq_ in cs if t is d and not eq_}
    b = [(val is True) == eq_ for t, val, eq_ in cs if t is proj(v, (Bo, 0))]
    if kind == [N]:
        return res is FALSE
    if kind == [Bo]:
        return res is BOOL(b[0]) if b else res is proj(v, (Bo, 0))
    if kind and kind[0] not in (N, Bo):
        return res is TRUE
    return nots >= {N, Bo} and res is TRUE


# ---------------------------------------------------------------- P12
@prop("P12", floor=8, technique="path rule over the display of a record: the verdict text on each path against what its branches establish about the error and the outcomes",
      explain="on every path of the record's display that prints PASS the branches must establish that the error is empty and that every outcome holds; FAIL needs the negation; the lines of the loop over the outcomes are compared with the fields they must show")
def p12(c):
    R, A = c.adt("context::Record"), c.adt("context::Assert")
    d = c.impl("fmt::Display", "context::Record", "fmt")
    inl = [f.path for f in c.p.local_fns(("fn",)) if f.trait == "core::fmt::Display" and f.self_ty is not None and f.ty(f.self_ty)["s"] == "context::Assert"]
    e, ps = c.run(d, inline=inl)
    me = mk("param", 1, "self")
    error = mk("fld", me, None, c.field(R, "error"))
    asserts = mk("fld", me, None, c.field(R, "asserts"))
    name = mk("fld", me, None, c.field(R, "name"))
    seen = set()
    for p in shown(c, ps, d):
        if p.kind != "ret":
            continue
        parts = printed_to(e, p, 2)
        if parts is None:
            c.ob(False, "output", "the output is not understood: %s" % show(p.st.mem[("P", 2)]), c.where(d))
            continue
        txt = "".join(x.a[0] if x.op == "str" else "\0" for x in parts)
        verdict = [w for w in ("PASS", "FAIL") if w in txt]
        emp = error_empty(p, error)
        alls = outcomes_hold(e, p, asserts, A, c, emp)
        if alls == "impossible":
            continue
        if len(verdict) != 1:
            c.ob(False, "verdict", "prints the verdicts %s" % verdict, c.where(d))
            continue
        v = verdict[0]
        if v == "PASS":
            c.ob(emp is True and alls is True, "PASS", "PASS needs an empty error (%s) and all assertions holding (%s)" % (emp, alls), c.where(d))
        else:
            c.ob(emp is False or alls is False, "FAIL", "FAIL needs an error (%s) or a failed assertion (%s)" % (emp, alls), c.where(d))
        seen.add((v, emp))
        c.ob(emp is not False or any(x is error for x in parts), "error shown", "an error is shown", c.where(d))
        c.ob(any(x is name for x in parts), "name shown", "the record's name is shown", c.where(d))
        j = [x for x in parts if x.op == "joined" and x.a[0] is asserts]
        good = len(j) == 1
        if good:
            el = mk("each", j[0].a[1], asserts)
            body = list(j[0].a[2].a) if j[0].a[2].op == "cat" else [j[0].a[2]]
            for n in ("expr", "left", "compare", "right"):
                good = good and sum(1 for x in body if x is proj(el, (None, c.field(A, n)))) == 1
            rs = proj(el, (None, c.field(A, "result")))
            good = good and sum(1 for x in body if x is mk("display", rs)) == 1
            pos = [i for i, x in enumerate(body) if x.op != "str"]
            order = [body[i] for i in pos]
            good = good and order == [proj(el, (None, c.field(A, n))) for n in ("expr", "left", "compare", "right")] + [mk("display", rs)]
        c.ob(good, "assertions listed", "each assertion is listed once, with its own expression, operands and outcome: %s" % [show(x, 5) for x in parts if x.op != "str"][:6], c.where(d))
    c.ob({v for v, _ in seen} == {"PASS", "FAIL"} and any(v == "FAIL" and em is True for v, em in seen), "both", "both verdicts occur: %s" % sorted(seen, key=str))


def error_empty(p, error):
    for ev in conds(p):
        t = ev.term
        truth = (ev.val is True) == ev.eq
        if t.op == "lt" and t.a[0] is INT(0) and t.a[1] is mk("len", error):
            return not truth
        if t.op == "eq" and (mk("len", error) in t.a and INT(0) in t.a or error in t.a and STR("") in t.a):
            return truth
        if t is mk("len", error) and ev.val == 0:
            return ev.eq
    return None


def outcomes_hold(e, p, asserts, A, c, emp):
    """what the path establishes about all outcomes (with an error-free exchange)"""
    rfield = c.field(A, "result")
    out = None
    for ev in p.events:
        if ev.kind == "cond":
            t = close_path(p, ev.term)
            truth = (ev.val is True) == ev.eq
            if t.op == "not":
                t, truth = t.a[0], not truth
            if t.op == "all" and t.a[1] is asserts and t.a[3] is proj(mk("each", t.a[2], asserts), (None, rfield)):
                v0 = t.a[0]
                if v0.op == "not" and v0.a[0].op == "lt" or v0.op == "eq" or v0.op == "lt":
                    v0 = BOOL(emp) if emp is not None else v0
                if truth:
                    if v0 is FALSE:
                        return "impossible"
                    out = True
                elif v0 is TRUE:
                    out = False
                elif v0 is FALSE:
                    out = out
        if ev.kind == "loop":
            li = info(ev)
            if li.coll is not asserts:
                continue
            rs = proj(mk("each", ev.id, asserts), (None, rfield))
            if li.exhausted(p):
                if ev.iters and all(any(li.canon(y.term) is rs and (y.val is True) == y.eq for y in conds(q)) for q in ev.iters):
                    out = True
            else:
                i = p.events.index(ev)
                if any(y.kind == "cond" and li.canon(y.term) is rs and (y.val is True) != y.eq for y in p.events[i:]):
                    out = False
    return out

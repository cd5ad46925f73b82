"""Messages and their parts: P20 (request as sent), P21 (request template), P22
(URL), P26 (response), P27 (response as a value), P29 (protocol names)."""
from run import prop
from rules import *
from shapes import Atom, Text, Num, Opt, Res, Sym, Eval, Unknown, feasible as fits, may
from checks.calls import printed_to, shown, by_type

NAMES = {"Version": "HTTP/1.1", "Method": "GET", "Scheme": "http"}


def named(c, n):
    return c.adt("http::" + n)


def froms(c, ty, args=None):
    """the From implementations of a type for texts: (from &str, from Option<&str>)"""
    fs = [f for f in c.p.local_fns(("fn",)) if f.name == "from" and f.trait and f.trait.endswith("convert::From") and f.self_ty is not None and c.p.fns and f.ty(f.self_ty).get("adt") == ty]
    a = [f for f in fs if f.sig()[0] == ("&str",)]
    b = [f for f in fs if f.sig()[0] == ("core::option::Option<&str>",)]
    return (a[0] if len(a) == 1 else None), (b[0] if len(b) == 1 else None)


def conversions(c, ty):
    """everything to look into when a text is converted to a type"""
    out = [f.path for f in froms(c, ty) if f is not None]
    out += [f.path for f in c.p.local_fns(("fn",)) if f.self_ty is not None and f.ty(f.self_ty).get("adt") == ty and f.trait and f.trait.rsplit("::", 1)[1] in ("Default", "FromStr")]
    return out


def looks(c, ty):
    """implementations that print a value of the type"""
    return [f.path for f in c.p.local_fns(("fn",)) if f.self_ty is not None and f.ty(f.self_ty).get("adt") == ty and f.trait and f.trait.rsplit("::", 1)[1] in ("AsRef", "Display", "Debug", "ToString")]


def spellings(c, n):
    """variant -> printed text"""
    key = "spell:" + n
    if key in c.cache:
        return c.cache[key]
    ty = named(c, n)
    f = c.fn(pred=lambda f: f.name == "fmt" and f.trait == "core::fmt::Display" and f.self_ty is not None and f.ty(f.self_ty).get("adt") == ty)
    out = {}
    for i, v in enumerate(c.p.variants(ty)):
        e, ps = c.run(f, {1: mk("adt", ty, i)}, inline=looks(c, ty))
        ts = [printed_to(e, p, 2) for p in shown(c, ps, f) if p.kind == "ret"]
        t = ts[0][0] if len(ts) == 1 and ts[0] is not None and len(ts[0]) == 1 else None
        out[i] = t.a[0] if t is not None and t.op == "str" else None
    c.cache[key] = out
    return out


def default_of(c, n):
    ty = named(c, n)
    f = c.fn(pred=lambda f: f.name == "default" and f.trait == "core::default::Default" and f.self_ty is not None and f.ty(f.self_ty).get("adt") == ty)
    e, ps = c.run(f)
    vs = [final(e, p) for p in ps if p.kind == "ret"]
    return vs[0].a[1] if len(vs) == 1 and vs[0].op == "adt" else None


# ---------------------------------------------------------------- P29
STANDARD = {"Method": {"GET", "POST", "PUT", "PATCH", "DELETE", "OPTIONS", "HEAD", "TRACE", "CONNECT"}, "Version": {"HTTP/0.9", "HTTP/1.0", "HTTP/1.1", "HTTP/2.0", "HTTP/3.0"},
            "Scheme": {"http", "https"}}


@prop("P29", floor=40, technique="spelling tables extracted from the printing and the recognising functions by partial evaluation, compared both ways; every other path must be the default",
      explain="printing is evaluated for every variant; recognition is evaluated for every spelling and for an arbitrary word, where a path that yields a variant must carry the condition that the word is that variant's spelling")
def p29(c):
    for n, dflt in NAMES.items():
        ty = named(c, n)
        sp = spellings(c, n)
        vs = c.p.variants(ty)
        f, g = froms(c, ty)
        for i, s in sp.items():
            c.ob(s, "%s::%s prints" % (n, vs[i]["name"]), "%s is printed as a fixed text: %r" % (vs[i]["name"], s))
        seen = {}
        for i, s in sp.items():
            seen.setdefault(s, []).append(vs[i]["name"])
        c.ob(all(len(x) == 1 for x in seen.values()), n + " distinct", "all spellings of %s are distinct: %s" % (n, [x for x in seen.values() if len(x) > 1]))
        lost = STANDARD[n] - set(sp.values())
        c.ob(not lost, n + " names", "the standard names of every %s are known: %s" % (n, sorted(lost)))
        d = default_of(c, n)
        c.ob(d is not None and sp.get(d) == dflt, n + " default", "the default %s is %s: %s" % (n, dflt, sp.get(d)))
        c.ob(f is not None or g is not None, n + " from", "%s is made from a text" % n)
        todo = []
        if f is not None:
            todo.append((f, lambda x: x, "word"))
        if g is not None:
            todo.append((g, some, "optional word"))
        for h, wrap, what in todo:
            inl = [x for x in conversions(c, ty) if x != h.path]
            for i, s in sp.items():
                if s is None:
                    continue
                e, ps = c.run(h, {1: wrap(STR(s))}, inline=inl)
                v = [final(e, p) for p in ps if p.kind == "ret"]
                c.ob(v and all(x.op == "adt" and x.a[:2] == (ty, i) for x in v) and all(p.kind == "ret" for p in ps), "%s reads %s" % (what, s), "the word %r becomes %s: %s" % (s, vs[i]["name"], [show(x) for x in v]), c.where(h))
            w = c.sym("word")
            e, ps = c.run(h, {1: wrap(w)}, inline=inl)
            A = Atom("other word", neq=[s for s in sp.values() if s])
            for k, p in enumerate(ps):
                if p.kind != "ret":
                    c.ob(False, "%s %s" % (n, what), "an arbitrary word stops the program", c.where(h))
                    continue
                ev = Eval({w: Text(A)})
                if not fits(ev, p.events):
                    continue
                v = final(e, p)
                c.ob(v.op == "adt" and v.a[:2] == (ty, d), "%s other %s" % (n, what), "any other word is the default: %s under %s" % (show(v), [show(x.term) for x in conds(p)][-1:]), c.where(h))
            if what != "word":
                e, ps = c.run(h, {1: NONE}, inline=inl)
                v = [final(e, p) for p in ps if p.kind == "ret"]
                c.ob(v and all(x.op == "adt" and x.a[:2] == (ty, d) for x in v), "%s nothing" % n, "no word is the default: %s" % [show(x) for x in v], c.where(h))


# ---------------------------------------------------------------- P22
class UrlT:
    def __init__(self, c):
        self.adt = c.adt("http::url::Url")
        fs = c.p.variants(self.adt)[0]["fields"]
        self.names = [f["name"] for f in fs]

        def one(pred, what):
            k = [i for i, f in enumerate(fs) if pred(f)]
            if len(k) != 1:
                raise Missing("the %s of a URL" % what)
            return k[0]
        self.scheme = one(lambda f: f["tys"].endswith("http::Scheme"), "scheme")
        self.port = one(lambda f: "u16" in f["tys"], "port")
        self.host = one(lambda f: f["name"] == "host", "host")
        self.path = one(lambda f: f["name"] == "path", "path")
        self.n = len(fs)


PORTS = {"http": 80, "https": 443}


def url_shapes():
    """(name, text, scheme text, host, port text or None, path)"""
    for sn in ("http", "https", "other"):
        S = sn if sn != "other" else Atom("S", no=["://"], neq=["http", "https"])
        for port in (False, True):
            for path in (False, True):
                H = Atom("H", no=["/", ":"])
                P = Atom("P", no=["/"])
                R = Atom("R")
                ps = [S, "://", H] + ([":", P] if port else []) + (["/", R] if path else [])
                yield "%s://H%s%s" % (sn, ":P" if port else "", "/R" if path else ""), Text(*ps), sn, Text(H), Text(P) if port else None, Text(*(["/", R] if path else ["/"]))
        # no host is named
        yield "%s alone" % sn, Text(S), sn, Text("localhost"), None, Text("/")


@prop("P22", floor=30, technique="decision of the URL parser's summary per shape of text (a finite partition of all URLs into literal and unknown pieces); value flow of host and port to name resolution; printing table per scheme and port",
      assumptions=["rust's u16 parser decides which port texts are valid"],
      explain="for each of the 15 shapes a URL can have, with a scheme and without, and for a valid and an invalid port text, all feasible paths of the parser must yield exactly the pieces the URL names; connect passes exactly these to the resolver")
def p22(c):
    U = UrlT(c)
    sty = named(c, "Scheme")
    sp = spellings(c, "Scheme")
    f, g = froms(c, U.adt)
    todo = []
    if f is not None:
        todo.append((f, lambda x: x, "text"))
    if g is not None:
        todo.append((g, some, "word"))
    if not todo:
        raise Missing("a conversion from text to URL")
    inl = conversions(c, sty)
    variant = {s: i for i, s in sp.items()}
    dflt = default_of(c, "Scheme")
    for h, wrap, what in todo:
        t = c.sym("url")
        e, ps = c.run(h, {1: wrap(t)}, inline=[x for x in inl + conversions(c, U.adt) if x != h.path])
        rets = [p for p in ps if p.kind == "ret"]
        for name, text, sn, host, port, path in url_shapes():
            for valid in ((True, False) if port is not None else (None,)):
                number = Sym("port number")

                def oracle(n, a):
                    if n.endswith("parse") and len(a) >= 1 and port is not None and a[0] == port:
                        return Res(number if valid else None)
                    return None
                ev = Eval({t: text}, oracle)
                key = "%s %s%s" % (what, name, {True: " valid port", False: " invalid port", None: ""}[valid])
                n = 0
                for p in rets:
                    if not fits(ev, p.events):
                        continue
                    n += 1
                    v = final(e, p)
                    i = variant.get(sn, dflt)
                    want_port = number if valid else Num(PORTS[sp[i]])
                    try:
                        if not (v.op == "adt" and v.a[0] == U.adt):
                            raise Unknown(show(v))
                        sch, hst, prt, pth = (ev(v.a[2 + k]) for k in (U.scheme, U.host, U.port, U.path))
                        c.ob(isinstance(sch, Sym) and sch.op == "adt" and sch.a[1] == i, key, "the scheme is what precedes ://: %r" % sch, c.where(h))
                        c.ob(hst == host, key, "the host is %s: %r" % (host, hst), c.where(h))
                        c.ob(prt == want_port or isinstance(prt, Num) and isinstance(want_port, Num) and not prt.syms and prt.n == want_port.n, key, "the port is %r: %r" % (want_port, prt), c.where(h))
                        c.ob(pth == path, key, "the path is %s: %r" % (path, pth), c.where(h))
                    except Unknown as x:
                        c.ob(False, key, "cannot tell the parts apart: %s" % x, c.where(h))
                c.ob(n, key + " covered", "%d paths" % n, c.where(h))
    if g is not None:
        # no URL at all
        e, ps = c.run(g, {1: NONE}, inline=inl + conversions(c, U.adt) + [h.path for h in c.p.local_fns(("fn",)) if h.name == "default" and h.self_ty is not None and h.ty(h.self_ty).get("adt") in (U.adt, sty)])
        for p in ps:
            v = final(e, p)
            ev = Eval({})
            try:
                good = p.kind == "ret" and v.op == "adt" and v.a[0] == U.adt
                sch, hst, prt, pth = (ev(v.a[2 + k]) for k in (U.scheme, U.host, U.port, U.path)) if good else (None,) * 4
                c.ob(good and isinstance(sch, Sym) and sch.op == "adt" and sch.a[1] == dflt and hst == Text("localhost") and isinstance(prt, Num) and not prt.syms and prt.n == PORTS[sp[dflt]] and pth == Text("/"), "no word", "without a URL the request goes to localhost: %s" % show(v, 5), c.where(g))
            except Unknown as x:
                c.ob(False, "no word", "cannot tell the parts apart: %s" % x, c.where(g))
    # the recorded URL
    d = c.fn(pred=lambda f: f.name == "fmt" and f.trait == "core::fmt::Display" and f.self_ty is not None and f.ty(f.self_ty).get("adt") == U.adt)
    for i, s in sp.items():
        vals = [None] * U.n
        for k in range(U.n):
            vals[k] = c.sym(U.names[k])
        vals[U.scheme] = mk("adt", sty, i)
        e, ps = c.run(d, {1: mk("adt", U.adt, 0, *vals)}, inline=looks(c, sty))
        n = 0
        for p in shown(c, ps, d):
            if p.kind != "ret":
                continue
            n += 1
            out = printed_to(e, p, 2)
            parts = []
            for x in out or []:
                if x.op == "display" and x.a[0].op == "adt" and x.a[0].a[0] == sty:
                    x = STR(sp[x.a[0].a[1]])
                parts += list(x.a) if x.op == "cat" else [x]
            got = models.cat(*parts) if parts else STR("")
            std = any(x.term is vals[U.port] and x.val == PORTS[s] and x.eq or x.term.op == "eq" and set(x.term.a) == {vals[U.port], INT(PORTS[s])} and (x.val is True) == x.eq for x in conds(p))
            with_port = models.cat(STR(s + "://"), vals[U.host], STR(":"), mk("display", vals[U.port]), vals[U.path])
            without = models.cat(STR(s + "://"), vals[U.host], vals[U.path])
            c.ob(got is with_port or std and got is without, "print %s%s" % (s, " default port" if std else ""), "the URL is printed with all its parts: %s" % show(got, 6), c.where(d))
        c.ob(n, "print %s covered" % s, "%d paths" % n)
    # host and port reach the resolver
    con = connect_fn(c)
    e, ps = c.run(con, {1: c.make(U.adt, 0, *[c.sym(x) for x in U.names])}, opaque=[happy(c).path])
    n = 0
    for p in ps:
        for ev in all_events(p):
            if ev.kind == "call" and ev.name.endswith("to_socket_addrs"):
                n += 1
                a = ev.args[0]
                c.ob(a is mk("tuple", c.sym("host"), c.sym("port")), "resolved", "the resolver is asked for host and port of the URL: %s" % show(a), c.where(con))
            elif ev.kind == "call" and ev.name.startswith("net::tcp::TcpStream::connect"):
                c.ob(False, "resolved", "a connection to %s" % show(ev.args[0]), c.where(con))
    c.ob(n, "resolver", "connecting resolves the host (%d call sites on paths)" % n, c.where(con))
    # the exchange connects to the URL of the request it sends
    snd = c.fn("Client::send", pred=lambda f: f.name == "send" and f.path.startswith("lib::http::"))
    rf = c.fn("Request::from", pred=lambda f: f.name == "from" and "::http::request" in f.path)
    R = c.adt("http::request::Request")
    ui = by_type(c, R, lambda t: t.endswith("url::Url"), "the URL")
    e, ps = c.run(snd, None, opaque=[con.path, rf.path, c.fn("Request::write").path, c.fn("Response::from").path, c.fn("Stream::resolve").path])
    n = 0
    for p in ps:
        for ev in all_events(p):
            if ev.kind == "call" and ev.name == con.path:
                n += 1
                a = ev.args[0]
                req = a.a[0] if a.op == "fld" and a.a[2] == ui else None
                c.ob(req is not None and req.op == "fld" and req.a[0].op == "call" and req.a[0].a[0] == rf.path, "send connects", "the exchange connects to the URL of its own request: %s" % show(a), c.where(snd))
    c.ob(n, "send connects covered", "%d" % n)


def connect_fn(c):
    return c.fn("Stream::connect", pred=lambda f: f.name == "connect" and "::http::stream" in f.path)


def happy(c):
    return c.fn("Stream::connect_happy", pred=lambda f: f.path.startswith("lib::http::stream") and any("SocketAddr>" in x for x in f.sig()[0]) and "TcpStream" in f.sig()[1])


# ---------------------------------------------------------------- lines
CT = "content-type"


def line_shapes(ci=False, at=False):
    """(name, text, header name or None, header value or None) for every line"""
    yield "empty", Text(), None, None, {}
    yield "blank", Text(Atom("blank", blank=True)), None, None, {}
    yield "no colon", Text(Atom("X", no=[":"], blank=False)), None, None, {}
    for kind in (("content-type", "other name") if ci else ("name",)):
        N = Atom("N", no=[":"], ci=CT, blank=False) if kind == "content-type" else Atom("N", no=[":"], ci_neq=[CT])
        for v in (("@", "plain") if at else ("value",)):
            if v == "@":
                F = Atom("F")
                val = [Atom("gap", blank=True), "@", F]
                parts = {"at": True, "file": F}
            else:
                val = [Atom("V", notstarts=["@"])]
                parts = {"at": False}
            t = Text(N, ":", *val)
            yield "%s%s" % (kind, "" if v == "value" else " " + v), t, Text(N).trim(), Text(*val).trim(), dict(parts, ci=kind == "content-type")


def header_type(c):
    h = c.adt("http::header::Header")
    return h, c.field(h, "name"), c.field(h, "value")


def is_header(c, ev, t, name, value):
    """t is a header with exactly these texts"""
    h, n, v = header_type(c)
    if t.op != "adt" or t.a[0] != h:
        return False
    return ev(t.a[2 + n]) == name and ev(t.a[2 + v]) == value


def inner(c, t):
    """the list in a Headers value"""
    H = c.adt("http::header::Headers")
    if t.op == "adt" and t.a[0] == H and len(t.a) == 3:
        return t.a[2]
    return None


def pushed(t, ph):
    """what was added to the list ph, in order, or None"""
    out = []
    while t is not ph:
        if t.op == "push":
            out.insert(0, t.a[1])
            t = t.a[0]
        else:
            return None
    return out


def conversion(c, tyname):
    """normal form of conversions from texts: ('Method', word) whichever impl is used"""
    ty = named(c, tyname) if tyname != "Url" else c.adt("http::url::Url")
    f, g = froms(c, ty)
    d = [h.path for h in c.p.local_fns(("fn",)) if h.name == "default" and h.self_ty is not None and h.ty(h.self_ty).get("adt") == ty]
    return tyname, f.path if f else None, g.path if g else None, d[0] if d else None


def converted(t, conv, ev):
    """(word evaluated | 'default') of a converted value"""
    n, f, g, d = conv
    if t.op == "call" and t.a[0] == f:
        return ev(t.a[1])
    if t.op == "call" and t.a[0] == g:
        v = ev(t.a[1])
        if isinstance(v, Opt):
            return "default" if v.v is None else v.v
    if t.op == "call" and t.a[0] == d:
        return "default"
    return None


class Template:
    """the summary of Request::from"""

    def __init__(self, c):
        self.f = c.fn("Request::from", pred=lambda f: f.name == "from" and "::http::request" in f.path)
        keep = []
        for n in ("Version", "Method"):
            keep += conversions(c, named(c, n))
        keep += conversions(c, c.adt("http::url::Url"))
        self.e, ps = c.run(self.f, opaque=keep)
        self.all = ps
        self.ps = [p for p in ps if p.kind == "ret"]
        self.R = c.adt("http::request::Request")
        fs = c.p.variants(self.R)[0]["fields"]

        def one(s):
            k = [i for i, f in enumerate(fs) if f["tys"].endswith(s)]
            if len(k) != 1:
                raise Missing("the %s of a request" % s)
            return k[0]
        self.ix = {"Method": one("http::Method"), "Url": one("url::Url"), "Version": one("http::Version"), "headers": one("header::Headers"), "body": one("string::String")}
        self.C = c.adt("http::content::Content")
        comps = self.f.ty(self.f.locals[0]["ty"]) if isinstance(self.f.locals[0], dict) and "ty" in self.f.locals[0] else None
        # the first line and the lines after it
        self.lines = None
        for p in self.ps:
            for ev in conds(p):
                for t in subterms(ev.term):
                    if t.op == "call" and t.a[0] == "str::lines":
                        self.lines = t
        if self.lines is None:
            raise Missing("the lines of the template")

    def parts(self, p):
        v = final_raw(self.e, p)
        if v.op != "tuple" or len(v.a) != 2:
            raise Missing("a request and its content")
        return v.a[0], v.a[1]


def final_raw(e, p):
    return e.norm(p.st, p.val)


def top_loops(p):
    return [x for x in p.events if x.kind == "loop" and x.iters]


def sweep(ev):
    """the cursor variable a loop moves over lines with: one line further in each round"""
    k = [ph for ph in ev.init if ev.iters and all(q.updates[ph].op == "adv" and q.updates[ph].a[0] is ph for q in ev.iters)]
    return k[0] if len(k) == 1 else None


def used_up(p, ev, cur):
    """does path p go on after the loop because there is no further line?"""
    for x in after_loop(p, ev):
        if x.kind == "cond":
            return x.term is mk("more", cur) and (x.val is False) == x.eq
        if x.kind in ("loop", "call", "sink"):
            return False
    return False


def after_loop(p, ev):
    return p.events[p.events.index(ev) + 1:]


@prop("P21", floor=60, technique="decision of the template parser's summary per shape of first line, header line and field line; value flow of the parts into request and content; cursor chain over the lines",
      assumptions=["the form_urlencoded and multipart crates encode the fields they are given in order"],
      explain="the header loop and the field loops are decided per shape of line (a finite partition of all lines), the first line per number of words; the cursor of each loop must continue where the previous one stopped")
def p21(c):
    t = Template(c)
    w = c.where(t.f)
    msg = mk("param", 1, t.f.locals[1].get("name", ""))
    src = t.lines.a[1]
    c.ob(src.op == "call" and src.a[0] in ("str::trim", "str::trim_start") and src.a[1] is msg, "lines", "the lines are those of the template without surrounding white space: %s" % show(src), w)
    c.ob(all(p.kind == "ret" for p in t.all), "total", "every template yields a request", w)
    first = mk("idx", t.lines, INT(0))
    paths = [p for p in t.ps if not any(x.term is mk("lt", INT(0), mk("len", t.lines)) and (x.val is False) == x.eq for x in conds(p))]
    convs = {n: conversion(c, n) for n in ("Method", "Url", "Version")}
    # first line
    words = [Atom("w%d" % i, word=True) for i in range(4)]
    for k in range(5):
        line = []
        for i in range(k):
            line += ([" "] if i else []) + [words[i]]
        ev = Eval({t.lines: [Text(*line)]})
        n = 0
        for p in paths:
            if not fits(ev, [x for x in p.events if x.kind == "cond" and not has_phi(x.term)]):
                continue
            n += 1
            req, _ = t.parts(p)
            if not (req.op == "adt" and req.a[0] == t.R):
                c.ob(False, "first line", "a request is %s" % show(req), w)
                continue
            for i, nme in enumerate(("Method", "Url", "Version")):
                got = converted(req.a[2 + t.ix[nme]], convs[nme], ev)
                want = Text(words[i]) if i < k else "default"
                c.ob(got == want, "%d words %s" % (k, nme), "the %s is word %d of the first line: %r" % (nme, i + 1, got), w)
        c.ob(n, "%d words" % k, "%d paths" % n, w)
    # header lines
    C = {v["name"]: i for i, v in enumerate(c.p.variants(t.C))}
    seen = set()
    for p in paths:
        req, content = t.parts(p)
        hs = inner(c, req.a[2 + t.ix["headers"]]) if req.op == "adt" else None
        loops = top_loops(p)
        hl = [x for x in loops if hs is not None and hs in x.init]
        if len(hl) != 1:
            c.ob(False, "header loop", "the headers of the request are collected by one loop over the lines: %s" % (show(hs) if hs is not None else None), w)
            continue
        hl = hl[0]
        cur = sweep(hl)
        if cur is None:
            c.ob(False, "header loop", "the header loop moves over the lines", w)
            continue
        ctypes = header_loop(c, t, hl, cur, hs, w, seen)
        if ctypes is None:
            continue
        content_of(c, t, p, req, content, hl, cur, ctypes, C, w, seen)


def has_phi(t):
    return any(x.op == "phi" for x in subterms(t))


def header_loop(c, t, hl, cur, hs, w, seen):
    """obligations of the header loop; the variable that keeps the content type"""
    ob = (lambda *a: c.ob(*a)) if hl.id not in seen else (lambda *a: True)
    seen.add(hl.id)
    start = hl.init[cur]
    ob(start.op == "adv" and start.a[0] is mk("cursor", t.lines), "headers start", "headers start on the second line: %s" % show(start), w)
    ob(hl.init[hs] is mk("seq"), "headers empty", "there are no headers before the first", w)
    line = mk("item", cur)
    # the variable that receives the value of a content-type line
    cand = []
    for ph, v0 in hl.init.items():
        if ph in (cur, hs):
            continue
        if v0 is NONE or v0 is STR(""):
            cand.append(ph)
    for name, text, N, V, x in line_shapes(ci=True):
        for state in ((False, True) if cand else (None,)):
            first = Text(Atom("T0"))
            env = {mk("more", cur): True, line: text}
            for ph in cand:
                env[ph] = Opt(first if state else None) if hl.init[ph] is NONE else (first if state else Text())
            ev = Eval(env)
            its = [q for q in hl.iters if fits(ev, q.events)]
            outs = [q for q in hl.exits if fits(ev, q.events)]
            key = "line %s%s" % (name, " after a content type" if state else "")
            if N is None and "colon" not in name:
                ob(not its and outs, key, "a blank line ends the headers (%d continue)" % len(its), w)
                for q in outs:
                    pass
                continue
            ob(its and not outs, key, "the headers go on after this line (%d stop)" % len(outs), w)
            for q in its:
                try:
                    add = pushed(q.updates[hs], hs)
                    good = add == [] if N is None else add is not None and len(add) == 1 and is_header(c, ev, add[0], N, V)
                    ob(good, key, "the line is %s: %s" % ("skipped" if N is None else "one header with trimmed name and value", [show(z, 5) for z in add] if add is not None else show(q.updates[hs])), w)
                    ob(q.updates[cur] is mk("adv", cur), key + " next", "one line is read per header", w)
                    for ph in cand:
                        u = ev(q.updates[ph])
                        u = u.v if isinstance(u, Opt) else u
                        want = V if (x.get("ci") and not state) else (first if state else (None if hl.init[ph] is NONE else Text()))
                        if len(cand) == 1:
                            ob(u == want, key + " type", "the content type is the value of the first content-type header: %r" % (u,), w)
                except Unknown as z:
                    ob(False, key, "cannot decide the line: %s" % z, w)
    ob(len(cand) == 1, "content type", "the loop keeps the content type (%d candidates)" % len(cand), w)
    return cand[0] if len(cand) == 1 else None


TYPES = {"form": "application/x-www-form-urlencoded", "multipart": "multipart/form-data", "other": None, "none": None}


def content_of(c, t, p, req, content, hl, cur, ct, C, w, seen):
    none = hl.init[ct] is NONE
    left = after_loop(p, hl)
    # where the lines go on: after the blank line, or at the end
    pos = None
    for x in left:
        if x.kind == "cond" and x.term is mk("more", cur):
            pos = mk("adv", cur) if (x.val is True) == x.eq else cur
            break
    if pos is None:
        c.ob(False, "body start", "the header loop ends at a blank line or at the end", w)
        return
    kinds = []
    for k, lit in TYPES.items():
        val = Text(lit) if lit else Text(Atom("T", neq=[x for x in TYPES.values() if x], blank=False))
        if k == "none":
            val = None
        env = {ct: Opt(val) if none else (val if val is not None else Text())}
        ev = Eval(env)
        if fits(ev, [x for x in left if x.kind == "cond" and mentions(x.term, ct)]):
            kinds.append(k)
    if not kinds:
        return
    if not (content.op == "adt" and content.a[0] == t.C):
        c.ob(False, "content", "the content is %s" % show(content), w)
        return
    for k in kinds:
        if k in ("other", "none"):
            want = mk("join", mk("rest", pos), STR("\n"))
            want = [want] + ([mk("join", mk("seq"), STR("\n")), STR("")] if pos is cur else [])
            body = req.a[2 + t.ix["body"]]
            c.ob(body in want, "body " + k, "the body is everything after the blank line: %s" % show(body, 6), w)
            if content.a[1] == C["Empty"]:
                c.ob(known_blank(left, body) or body is STR(""), "empty " + k, "no body is sent only if the body is blank", w)
            else:
                c.ob(content.a[1] == C["Byte"] and content.a[2] is body, "bytes " + k, "the body is sent verbatim: %s" % show(content, 6), w)
            continue
        ls = [x for x in top_loops(p) if x is not hl]
        if not ls and pos is cur:
            # no line is left, so there are no fields
            if k == "form":
                v = content.a[2] if content.a[1] == C["Byte"] else None
                good = v is not None and v.op == "call" and v.a[0].endswith("Serializer::finish") and v.a[1].op == "call" and v.a[1].a[0].endswith("Serializer::new") and v.a[1].a[1] is STR("")
                c.ob(good or content.a[1] == C["Empty"], "form without fields", "nothing is sent without fields: %s" % show(content, 5), w)
            else:
                v = content
                while v.op == "adt" and len(v.a) > 2 or v.op in ("fld", "proj"):
                    v = v.a[-1] if v.op == "adt" else v.a[0]
                good = content.a[1] == C["Empty"] or v.op == "call" and v.a[0].endswith("Multipart::prepare") and v.a[1].op == "call" and v.a[1].a[0].endswith("Multipart::new")
                c.ob(good, "multipart without fields", "nothing is sent without fields: %s" % show(content, 5), w)
            continue
        if len(ls) != 1:
            c.ob(False, k + " fields", "the fields are read by one loop (%d)" % len(ls), w)
            continue
        fl = ls[0]
        fc = sweep(fl)
        c.ob(fc is not None and fl.init[fc] is pos, k + " start", "fields start after the blank line: %s" % (show(fl.init[fc]) if fc is not None else None), w)
        if fc is None:
            continue
        c.ob(used_up(p, fl, fc), k + " end", "all lines are read", w)
        ser, made = None, None
        if k == "form":
            if content.a[1] == C["Byte"] and content.a[2].op == "call" and content.a[2].a[0].endswith("Serializer::finish"):
                ser = content.a[2].a[1]
            c.ob(ser in fl.init and fl.init[ser].op == "call" and fl.init[ser].a[0].endswith("Serializer::new") and fl.init[ser].a[1] is STR(""),
                 "form content", "the content is what the form encoder made of the fields: %s" % show(content, 5), w)
        else:
            prep = [x for x in left if x.kind == "call" and x.name.endswith("Multipart::prepare")]
            ser = prep[0].args[0] if len(prep) == 1 else None
            c.ob(ser in fl.init and fl.init[ser].op == "call" and fl.init[ser].a[0].endswith("Multipart::new"), "multipart content", "one multipart body is prepared from the fields", w)
            if ser is None:
                continue
            res = prep[0].res
            ok_ = [(x.val == 0) == x.eq for x in left if x.kind == "cond" and x.term is mk("discr", res) and x.val in (0, 1)]
            okk = ok_[0] if ok_ else None
            if content.a[1] == C["Multipart"]:
                c.ob(okk is True and content.a[2] is mk("fld", res, 0, 0), "multipart prepared", "the content is the prepared body: %s" % show(content, 5), w)
            elif content.a[1] == C["Empty"]:
                c.ob(okk is True and nothing_added(fl, left, fc), "multipart empty", "nothing is sent only if there was no field", w)
            else:
                c.ob(okk is False and content.a[1] == C.get("Failed") and mentions(content, res), "multipart failed", "a body that cannot be prepared is a failure: %s" % show(content, 5), w)
        recorded_fields(c, k, fl, fc, req.a[2 + t.ix["body"]], w, seen)
        if ser not in fl.init or (fl.id, k) in seen:
            continue
        seen.add((fl.id, k))
        line = mk("item", fc)
        for name, text, N, V, x in line_shapes(at=(k == "multipart")):
            ev = Eval({mk("more", fc): True, line: text})
            its = [q for q in fl.iters if fits(ev, q.events)]
            outs = [q for q in fl.exits if fits(ev, q.events)]
            key = "%s line %s" % (k, name)
            c.ob(its and not outs, key, "the fields go on after this line (%d stop)" % len(outs), w)
            for q in its:
                try:
                    u = q.updates[ser]
                    if N is None:
                        c.ob(u is ser, key, "the line is skipped: %s" % show(u, 4), w)
                        continue
                    good = u.op == "after" and u.a[1] == 0 and u.a[2] is ser and u.a[0].op == "call"
                    f = u.a[0] if good else None
                    if good:
                        m = f.a[0].rsplit("::", 1)[1]
                        val = ev(f.a[3])
                        if k == "form":
                            good = m == "append_pair" and ev(f.a[2]) == N and val == V
                        elif x["at"]:
                            F = x["file"]
                            good = m == "add_file" and ev(f.a[2]) == N and val in (Text((F, False, True)), Text((F, True, True)))
                        else:
                            good = m == "add_text" and ev(f.a[2]) == N and val == V
                        good = good and f.a[1] is ser
                    c.ob(good, key, "the field is added once, with trimmed name and value: %s" % show(u, 7), w)
                except Unknown as z:
                    c.ob(False, key, "cannot decide the line: %s" % z, w)


def recorded_fields(c, k, fl, fc, body, w, seen):
    """the recorded body of a form has each field line, apart from the others"""
    lines = None
    if body.op == "join" and body.a[1] is STR("\n"):
        lines, body = True, body.a[0]
    key = k + " recorded"
    if not c.ob(body in fl.init and fl.init[body] is (mk("seq") if lines else STR("")), key, "the recorded body is what the loop over the fields collected, from nothing: %s" % show(body, 4), w):
        return
    if (fl.id, "recorded", body) in seen:
        return
    seen.add((fl.id, "recorded", body))
    line = mk("item", fc)
    B = Atom("B", blank=False)
    for name, text, N, V, x in line_shapes():
        for first in (True, False):
            ev = Eval({mk("more", fc): True, line: text, body: Text() if first else Text(B)})
            for q in fl.iters:
                if not fits(ev, q.events):
                    continue
                u = q.updates[body]
                if N is None and u is body:
                    continue
                try:
                    if lines:
                        a = pushed(u, body)
                        good = a is not None and len(a) == 1 and ev(a[0]) in (text, text.trim())
                    else:
                        v = ev(u)
                        good = False
                        for z in (text, text.trim()):
                            before = [Text(*z.p)] if first else [Text(B, "\n", *z.p)]
                            after = [Text(*(tuple(z.p) + ("\n",)))] if first else [Text(B, *(tuple(z.p) + ("\n",)))]
                            good = good or v in before or v in after and all_terminated(fl, body, fc)
                    c.ob(good, key, "a field is recorded on a line of its own: %s" % show(u, 5), w)
                except Unknown as z:
                    c.ob(False, key, "cannot decide the recorded body: %s" % z, w)


def all_terminated(fl, body, fc):
    """does everything that is added to the body end with a line break?"""
    for q in fl.iters:
        u = q.updates[body]
        if u is body:
            continue
        if not (u.op == "cat" and u.a[0] is body and u.a[-1].op == "str" and u.a[-1].a[0].endswith("\n")):
            return False
    return True


def known_blank(events, body):
    """a condition says that the body has nothing but white space"""
    for x in events:
        if x.kind != "cond":
            continue
        t = x.term
        if t.op == "lt" and t.a[0] is INT(0) and t.a[1].op == "len" and (x.val is False) == x.eq or t.op == "eq" and INT(0) in t.a and (x.val is True) == x.eq:
            l = t.a[1] if t.op == "lt" else (t.a[0] if t.a[1] is INT(0) else t.a[1])
            y = l.a[0] if l.op == "len" else None
            if y is body or y is not None and y.op == "call" and y.a[0].startswith("str::trim") and y.a[1] is body:
                return True
    return False


def nothing_added(fl, left, fc):
    """a condition says that no iteration added a field"""
    for x in left:
        if x.kind != "cond":
            continue
        for ph in fl.init:
            if ph is fc or not mentions(x.term, ph):
                continue
            v0 = fl.init[ph]
            t = x.term
            zero = t.op == "lt" and t.a[0] is INT(0) and (x.val is False) == x.eq or t is ph and (x.val is False) == x.eq or t.op == "eq" and (x.val is True) == x.eq
            if not zero or v0 not in (STR(""), INT(0), FALSE, mk("seq")):
                continue
            good = True
            for q in fl.iters:
                added = any(y.kind == "call" and y.name.rsplit("::", 1)[1] in ("add_file", "add_text", "append_pair") for y in q.events)
                u = q.updates[ph]
                grown = u is TRUE or u is mk("add", ph, INT(1)) or u.op == "push" or u.op == "cat" and u.a[0] is ph and any(nonempty_text(z) or z is mk("item", fc) for z in u.a[1:])
                if added and not grown:
                    good = False
            if good:
                return True
    return False


# ---------------------------------------------------------------- P20
FRAMING = ("content-length", "transfer-encoding")


def pieces(t):
    return list(t.a) if t.op == "cat" else [t]


def flat_text(ts):
    """texts joined; literals merged"""
    t = models.cat(*ts)
    return pieces(t)


def is_len_of(t, body):
    return t.op == "display" and t.a[0].op == "len" and t.a[0].a[0] in (body, mk("cat", body))


def header_names():
    yield "content-type", Text(Atom("N", no=[":"], ci="content-type", word=True))
    for n in FRAMING:
        yield n, Text(Atom("N", no=[":"], ci=n, word=True))
    yield "other", Text(Atom("N", no=[":"], ci_neq=["content-type"] + list(FRAMING), blank=False))


class Outgoing:
    def __init__(self, c):
        self.f = c.fn("Request::write", pred=lambda f: f.name == "write" and "::http::request" in f.path)
        self.C = c.adt("http::content::Content")
        self.R = c.adt("http::request::Request")
        t = Template(c)
        self.ix = t.ix


@prop("P20", floor=40, technique="the text handed to the writer, as a closed sequence of pieces per kind of content; per-iteration decision of the header loop per shape of header name; framing flag decided by its value per header name",
      assumptions=["std's BufWriter, write!, write_all and io::copy write everything they are given or report an error", "the multipart crate writes the parts with the boundary it names"],
      explain="for each kind of content the text that has been written when the writer is flushed on a successful path is compared, piece by piece, with request line, headers, framing, blank line and body")
def p20(c):
    o = Outgoing(c)
    f, w = o.f, c.where(o.f)
    self_ = mk("param", 1, f.locals[1].get("name", ""))
    out_ = mk("param", 2, f.locals[2].get("name", ""))
    U = UrlT(c)
    H = c.adt("http::header::Headers")
    hadt, hn, hv = header_type(c)
    fld = lambda t, i: mk("fld", t, None, i)
    shows = {}
    for n in ("Method", "Version"):
        shows[n] = spellings(c, n)
    for v in c.p.variants(o.C):
        kind = v["name"]
        i = c.variant(o.C, kind)
        xs = [c.sym("x%d" % k) for k in range(len(v["fields"]))]
        e, ps = c.run(f, {3: mk("adt", o.C, i, *xs)})
        good = [p for p in ps if p.kind == "ret" and is_ok(final(e, p))]
        if kind == "Failed":
            c.ob(not good, "failed content", "a body that could not be prepared is never sent (%d successful paths)" % len(good), w)
            continue
        c.ob(good, kind, "a request with %s content can be sent" % kind, w)
        for p in good:
            tag = kind
            fl = [x for x in p.events if x.kind == "call" and x.name.endswith("Write::flush")]
            sinks = [x for x in p.events if x.kind == "sink" or x.kind == "call" and x.name.rsplit("::", 1)[-1] in ("write_all", "write", "write_fmt")]
            flush = fl[-1] if fl else None
            c.ob(flush is not None and is_known_ok(p, flush.res) and not any(p.events.index(x) > p.events.index(flush) and x.args and contains_base(x.args[0], out_) for x in p.events if x.kind == "call" and x.name.startswith("io::") and x is not flush),
                 tag + " flushed", "everything is flushed, successfully, before success is reported", w)
            if flush is None:
                continue
            text = flush.args[0]
            ps_ = pieces(text)
            # the header loop
            loops = [(k, x) for k, y in enumerate(ps_) for x in top_loops(p) if y in x.init]
            if len(loops) != 1:
                c.ob(False, tag + " headers", "the headers are written by one loop: %s" % show(text, 5), w)
                continue
            at, hl = loops[0]
            ph = ps_[at]
            head, tail = flat_text(ps_[:at] + pieces(hl.init[ph])), flat_text(ps_[at + 1:])
            base = head[0]
            c.ob(base is out_ or base.op == "call" and "BufWriter" in base.a[0] and out_ in base.a, tag + " sink", "the request goes to the given writer, from its start: %s" % show(base, 4), w)
            want = [("method", fld(self_, o.ix["Method"])), " ", ("text", fld(fld(self_, o.ix["Url"]), U.path if hasattr(U, "path") else U.ix["path"])), " ", ("version", fld(self_, o.ix["Version"])), "\r\n"]
            got = head[1:]
            okk = len(got) == len(want)
            for g, x in zip(got, want):
                if isinstance(x, str):
                    okk = okk and g is STR(x)
                elif x[0] == "text":
                    okk = okk and g in (x[1], mk("display", x[1]))
                else:
                    okk = okk and (g is mk("display", x[1]) or g.op == "call" and g.a[0].endswith(("as_ref", "to_string")) and g.a[1] is x[1])
            c.ob(okk, tag + " request line", "the request starts with method, path, version and CRLF: %s" % [show(x, 4) for x in got], w)
            # headers
            li = info(hl)
            src = li.coll
            c.ob(src is fld(fld(self_, o.ix["headers"]), 0) and len(li.sweeps) == 1 and li.sweeps[0][2] == "fwd" and li.exhausted(p), tag + " all headers", "every header is written, in order: %s" % (show(src) if src is not None else None), w)
            if src is None:
                continue
            each = mk("each", hl.id, src)
            name, value = fld(each, hn), fld(each, hv)
            for nm, text_ in header_names():
                its = []
                for q in hl.iters:
                    ev = Eval({name: text_})
                    evs = [Ev("cond", term=li.canon(x.term), val=x.val, eq=x.eq) for x in q.events if x.kind == "cond"]
                    if fits(ev, evs):
                        its.append(q)
                c.ob(its, tag + " header", "headers named %s are written" % nm, w)
                for q in its:
                    u = pieces(li.canon(q.updates[ph]))
                    line = flat_text(u[1:]) if u[0] is ph else None
                    want = [[name, STR(": "), value, STR("\r\n")]]
                    bnd = None
                    if kind == "Multipart" and nm == "content-type" and line is not None and len(line) == 6:
                        bnd = line[4]
                        good_b = bnd.op in ("call", "display") and from_content(bnd, xs[0])
                        want = [[name, STR(": "), value, STR("; boundary="), bnd, STR("\r\n")]] if good_b else []
                    elif kind == "Multipart" and nm == "content-type":
                        want = []
                    c.ob(line in want, "%s %s header" % (tag, nm), "the header is written as name: value%s: %s" % (" with the boundary" if kind == "Multipart" and nm == "content-type" else "", [show(x, 4) for x in line or []]), w)
            # framing and body
            body = tail[-1] if tail and tail[-1].op != "str" else None
            if kind == "Empty":
                c.ob(tail in ([STR("\r\n")], [STR("Content-Length: 0\r\n\r\n")]), "empty tail", "nothing follows the blank line: %s" % [show(x) for x in tail], w)
                continue
            if body is None:
                # a body known to be empty
                z = tail == [STR("\r\n")] and known_empty(p, xs[0])
                c.ob(z, tag + " body", "the body follows the blank line: %s" % [show(x) for x in tail], w)
                continue
            src_ok = body is xs[0] if kind == "Byte" else body.op == "after" and body.a[1] == 1 and body.a[2] is STR("") and body.a[0].op == "call" and body.a[0].a[0].rsplit("::", 1)[-1] in ("copy", "read_to_end") and body.a[0].a[1] is xs[0] and is_known_ok(p, body.a[0])
            c.ob(src_ok, tag + " body", "the body is the content: %s" % show(body, 5), w)
            plain = tail == [STR("\r\n"), body]
            announced = len(tail) == 4 and tail[0] is STR("Content-Length: ") and is_len_of(tail[1], body) and tail[2] is STR("\r\n\r\n")
            c.ob(plain or announced, tag + " framing", "after the headers come the length of the body if needed, a blank line and the body: %s" % [show(x, 4) for x in tail], w)
            if plain or announced:
                r = framed(c, p, o, body, src, hn)
                c.ob(r == "empty" or r is plain, tag + " length", "the length is announced unless a header frames the body (%s, headers frame it: %s)" % ("announced" if announced else "not announced", r), w)


def contains_base(t, base):
    return any(x is base for x in subterms(t))


def from_content(t, x):
    while t.op == "display":
        t = t.a[0]
    if t.op != "call" or not t.a[0].endswith("boundary"):
        return False
    v = t.a[1]
    while v.op == "after" and v.a[1] == 0:
        v = v.a[2]
    return v is x


def is_known_ok(p, res):
    """the path goes on only if this Result is Ok (or the result is handed on)"""
    return any(x.kind == "cond" and x.term is mk("discr", res) and (x.val == 0) == x.eq for x in p.events)


def known_empty(p, body):
    for x in conds(p):
        if x.term.op == "lt" and x.term.a[0] is INT(0) and x.term.a[1].op == "len" and x.term.a[1].a[0] in (body, mk("cat", body)) and (x.val is False) == x.eq:
            return True
    return False


def framed(c, p, o, body, src, hn):
    """does the path know that a header frames a body that is not empty (True),
    that none does (False)?  None: neither"""
    full = Text(Atom("body", blank=False))
    env0 = {body: full, mk("cat", body): full}
    verdict = None
    if not fits(Eval(env0), conds(p)):
        # the body is empty: nothing needs to be announced
        return "empty"
    for hl in top_loops(p):
        li = info(hl)
        if li.coll is not src:
            continue
        name = mk("fld", mk("each", hl.id, src), None, hn)

        def its(paths, nm, text, extra):
            ev = Eval(dict(env0, **{}), None)
            ev.env.update({name: text})
            ev.env.update(extra)
            return [q for q in paths if fits(ev, [Ev("cond", term=li.canon(x.term), val=x.val, eq=x.eq) for x in q.events if x.kind == "cond"])], ev
        after = after_loop(p, hl)
        # a flag
        for ph, v0 in hl.init.items():
            if Eval(env0)(v0) is not False:
                continue
            good = True
            for nm, text in header_names():
                for was in (False, True):
                    qs, ev = its(hl.iters, nm, text, {ph: was})
                    for q in qs:
                        try:
                            if ev(li.canon(q.updates[ph])) is not (was or nm in FRAMING):
                                good = False
                        except Unknown:
                            good = False
            if not good:
                continue
            for x in after:
                if x.kind != "cond" or ph not in set(subterms(x.term)):
                    continue
                can = []
                for val in (True, False):
                    ev = Eval(dict(env0, **{}))
                    ev.env[ph] = val
                    if may(ev, x) is not False:
                        can.append(val)
                if len(can) == 1:
                    verdict = can[0]
        # a search
        left = li.exhausted(p)
        searching = all(not its(hl.iters, nm, text, {})[0] for nm, text in header_names() if nm in FRAMING) and hl.exits
        if searching and left:
            verdict = False
        if searching and not left:
            seg = []
            for x in after:
                if x.kind == "cond":
                    seg.append(x)
            ok_names = []
            for nm, text in header_names():
                ev = Eval(dict(env0))
                ev.env[name] = text
                if fits(ev, [Ev("cond", term=li.canon(x.term), val=x.val, eq=x.eq) for x in seg]):
                    ok_names.append(nm)
            if ok_names and all(n in FRAMING for n in ok_names):
                verdict = True
    return verdict


# ---------------------------------------------------------------- P26
@prop("P26", floor=30, technique="linear use of the reader (every read continues the state the previous one left) and decision of the response parser's summary per shape of status line and header line",
      assumptions=["std's BufReader returns the received bytes in order"],
      explain="the reader state threads through all reads of every successful path; the status line is decided per number of words, the header loop per shape of line")
def p26(c):
    f = c.fn("Response::from", pred=lambda f: f.name == "from" and "::http::response" in f.path)
    w = c.where(f)
    reader = mk("param", 1, f.locals[1].get("name", ""))
    R = c.adt("http::response::Response")
    fs = c.p.variants(R)[0]["fields"]
    ix = {x["name"]: i for i, x in enumerate(fs)}
    for n in ("version", "status", "reason", "headers", "body"):
        if n not in ix:
            raise Missing("the %s of a response" % n)
    e, ps = c.run(f)
    goods = [unrotate(p, lambda n: n.endswith("BufRead::read_line")) for p in ps if p.kind == "ret" and is_ok(final(e, p))]
    c.ob(goods, "response", "a response can be received", w)
    done = set()
    for p in goods:
        v = final(e, p).a[2]
        if v.op != "adt" or v.a[0] != R:
            c.ob(False, "response", "the result is a response: %s" % show(v, 3), w)
            continue
        part = lambda n: v.a[2 + ix[n]]
        cur, lines, why = reader, [], None
        hl = None
        env = {}
        for x in p.events:
            if x.kind == "loop":
                phs = [ph for ph in x.init if x.init[ph] is cur]
                if phs:
                    if hl is not None or len(phs) != 1:
                        why = "two loops read"
                        break
                    hl, cur = x, phs[0]
                    lines.append(None)
                continue
            if x.kind == "call" and any(mentions_reader(a, reader, hl) for a in x.args):
                short = x.name.rsplit("::", 1)[-1]
                touching = [k for k, a in enumerate(x.args) if a is cur]
                if not touching:
                    if short in READS:
                        why = "%s does not continue where the last read stopped" % short
                        break
                    continue
                if short == "read" and x.args[1] is STR("") or short == "fill_buf" or short == "buffer":
                    env[mk("after", x.res, 1, STR(""))] = Text()
                elif short == "read_line":
                    lines.append(x)
                elif short == "read_to_string":
                    lines.append(x)
                else:
                    why = "%s takes bytes from the reader" % short
                    break
                if short in READS:
                    if not is_known_ok(p, x.res):
                        why = "%s may have failed" % short
                        break
                cur = mk("after", x.res, touching[0], cur) if short != "buffer" else cur
        if why is None:
            shape = [None if x is None else x.name.rsplit("::", 1)[-1] for x in lines]
            if shape != ["read_line", None, "read_line", "read_to_string"]:
                why = "the reads are %s" % shape
        c.ob(why is None, "reads", "status line, header lines and body are read one after the other%s" % ("" if why is None else ": " + why), w)
        if why is not None:
            continue
        l1, _, le, bd = lines

        def fresh(x, k):
            t = x.args[k]
            if t is STR(""):
                return True
            return t.op == "fld" and t.a[0].op == "call" and t.a[0].a[0].endswith("from_utf8") and t.a[0].a[1] in env
        c.ob(fresh(l1, 1) and le.args[1] is STR("") and bd.args[-1] is STR(""), "buffers", "each read appends to an empty text: %s" % [show(x.args[-1], 4) for x in (l1, le, bd)], w)
        L1 = mk("after", l1.res, 1, l1.args[1])
        c.ob(part("body") is mk("after", bd.res, 1, bd.args[-1]) if len(bd.args) > 1 else part("body") is mk("fld", bd.res, 0, 0), "body", "the body is all that follows the blank line, unchanged: %s" % show(part("body"), 4), w)
        # status line
        key = (part("version"), part("status"), part("reason"))
        if key not in done:
            done.add(key)
            ws = [Atom("w%d" % i, word=True) for i in range(4)]
            for k in range(5):
                line = []
                for i in range(k):
                    line += ([" "] if i else []) + [ws[i]]
                for pok in ((True, False) if k >= 2 else (None,)):
                    number = Sym("number")

                    def oracle(name, args):
                        if name.endswith("str::parse") or name.endswith("from_str"):
                            return (Res(number if pok else None)) if args[0] == Text(ws[1]) else None
                    ev = Eval(dict(env, **{}), oracle)
                    ev.env[L1] = Text(*(line + ["\r\n"]))
                    if not fits(ev, [x for x in conds(p) if contains_base(x.term, L1)]):
                        continue
                    what = "%d words%s" % (k, "" if pok is None else ", status is %sa number" % ("" if pok else "not "))
                    try:
                        got = [ev(x) for x in key]
                        want = [Text(ws[0]) if k else Text(), None, Text(*sum([([" "] if i else []) + [x] for i, x in enumerate(ws[2:k])], []))]
                        c.ob(got[0] == want[0], what, "version is the first word: %r" % (got[0],), w)
                        c.ob(got[2] == want[2], what, "the reason is the words from the third on: %r" % (got[2],), w)
                        st = key[1]
                        if pok:
                            c.ob(got[1] == number, what, "the status is the number in the second word: %s" % show(st, 6), w)
                        else:
                            c.ob(isinstance(got[1], Num) and not got[1].syms and got[1].n == 0, what, "there is no status: %s" % show(st, 6), w)
                    except Unknown as z:
                        c.ob(False, what, "cannot decide the status line: %s" % z, w)
        # headers
        hs = inner(c, part("headers"))
        c.ob(hs in hl.init and hl.init[hs] is mk("seq"), "headers", "the headers are those collected by the loop, starting with none: %s" % show(part("headers"), 4), w)
        if hs not in hl.init or (hl.id, "seen") in done:
            continue
        done.add((hl.id, "seen"))
        ph = [k for k in hl.init if k is not hs and hl.init[k] is mk("after", l1.res, 0, l1.args[0])]
        if len(ph) != 1:
            c.ob(False, "header reads", "the header loop goes on after the status line", w)
            continue
        ph = ph[0]
        paths = [(q, True) for q in hl.iters] + [(q, False) for q in hl.exits]
        rl = {}
        for q, back in paths:
            reads = [x for x in q.events if x.kind == "call" and x.name.rsplit("::", 1)[-1] in READS and any(mentions_reader(a, ph, None) for a in x.args)]
            okk = len(reads) >= 1 and reads[0].name.endswith("read_line") and reads[0].args[0] is ph and reads[0].args[1] is STR("") and (not back or len(reads) == 1 and q.updates[ph] is mk("after", reads[0].res, 0, ph))
            c.ob(okk, "one line", "each round reads exactly one line into an empty text (%s)" % [show(x.res, 4) for x in reads], w)
            if okk:
                rl[id(q)] = reads[0]
        for name, text, N, V, x in line_shapes():
            for nl in ("\r\n", "\n", "") if N is None else ("",):
                its, outs = [], []
                for q, back in paths:
                    if id(q) not in rl:
                        continue
                    r = rl[id(q)]
                    ev = Eval({mk("after", r.res, 1, STR("")): Text(*(text.p + (nl,))), mk("discr", r.res): Num(0), mk("fld", r.res, 0, 0): Text(*(text.p + (nl,))).length()})
                    if fits(ev, q.events):
                        (its if back else outs).append((q, ev))
                key = "line %s %r" % (name, nl)
                if N is None and "colon" not in name:
                    c.ob(not its and outs, key, "a blank line ends the headers (%d go on)" % len(its), w)
                    continue
                c.ob(its and not outs, key, "the headers go on after this line (%d stop)" % len(outs), w)
                for q, ev in its:
                    try:
                        add = pushed(q.updates[hs], hs)
                        good = add == [] if N is None else add is not None and len(add) == 1 and is_header(c, ev, add[0], N, Text(*(text.p + (nl,))).split(":", 2)[1].trim())
                        c.ob(good, key, "the line is %s: %s" % ("skipped" if N is None else "one header with trimmed name and value", [show(z, 5) for z in add] if add is not None else show(q.updates[hs], 4)), w)
                    except Unknown as z:
                        c.ob(False, key, "cannot decide the line: %s" % z, w)


READS = ("read", "read_line", "read_to_string", "read_to_end", "read_exact", "read_until", "fill_buf", "consume", "lines", "bytes", "take", "chain", "split", "into_inner", "get_mut", "read_vectored", "skip_until")


def mentions_reader(t, reader, hl):
    """t is a state of the reader"""
    while True:
        if t is reader or hl is not None and t in hl.init:
            return True
        if t.op == "after":
            t = t.a[2]
            continue
        return False


# ---------------------------------------------------------------- P27
@prop("P27", floor=25, technique="key-to-value table of the response as a value, decided per branch; grouping of repeated headers by induction over the header loop; evaluation of literals per kind of expression",
      explain="the map built from a response is a closed chain of insertions on every path; the header loop is decided for a name seen before and a new one; Expr::eval is decided per kind of expression and of operand")
def p27(c):
    f = c.fn("Response::to_map", pred=lambda f: "::http::response" in f.path and "HashMap<" in f.sig()[1])
    w = c.where(f)
    V = c.adt("value::Value")
    vs = {v["name"]: i for i, v in enumerate(c.p.variants(V))}
    X = c.adt("syntax::Expr")
    R = c.adt("http::response::Response")
    ix = {x["name"]: i for i, x in enumerate(c.p.variants(R)[0]["fields"])}
    H, hn, hv = header_type(c)
    evals = [x for x in c.p.local_fns(("fn",)) if x.self_ty is not None and x.ty(x.self_ty).get("adt") == X and x.sig()[1].endswith("value::Value")]
    if len(evals) != 1:
        raise Missing("the evaluation of a literal")
    ev_ = evals[0]
    keep = [x.path for x in c.p.local_fns(("fn",)) if x.path.startswith("lib::parser::") or x.path.startswith("lib::lexer::") or "parser::Parser" in x.path] + [ev_.path]
    e, ps = c.run(f, opaque=keep)
    self_ = mk("param", 1, f.locals[1].get("name", ""))
    at = lambda n: mk("fld", self_, None, ix[n])
    val = lambda n, *a: mk("adt", V, vs[n], *a)
    c.ob(ps and all(p.kind == "ret" for p in ps), "total", "every response becomes a value", w)
    seen = set()
    for p in ps:
        if p.kind != "ret":
            continue
        t = final(e, p)
        m = {}
        while t.op == "insert":
            k = t.a[1].a[0] if t.a[1].op == "str" else t.a[1]
            m.setdefault(k, t.a[2])
            t = t.a[0]
        c.ob(t is mk("emptymap"), "from nothing", "the map starts empty: %s" % show(t, 3), w)
        c.ob(set(m) - {"json"} == {"version", "status", "reason", "headers", "body"}, "names", "the parts have exactly their names: %s" % sorted(map(str, m)), w)
        for n in ("version", "reason", "body"):
            if n in m:
                c.ob(m[n] is val("String", at(n)), n, "%s is the received text: %s" % (n, show(m[n])), w)
        if "status" in m:
            s = m["status"]
            c.ob(s in (val("Integer", mk("cast", "i64", at("status"))), val("Integer", at("status"))), "status", "the status is the received number: %s" % show(s), w)
        # the body as a value
        parses = [x for x in p.events if x.kind == "call" and x.name in keep and x.res.op == "call" and x.name.endswith("::parse")]
        good = len(parses) == 1 and parses[0].args[0].op == "call" and parses[0].args[0].a[0] in keep and list(parses[0].args[0].a[1:2]) == [at("body")]
        c.ob(good, "parse", "the body is parsed, all of it, once: %s" % [show(x.res, 4) for x in parses], w)
        if good:
            r = parses[0].res
            okk = any(x.term is mk("discr", r) and (x.val == 0) == x.eq for x in conds(p))
            exprs = None
            S = c.adt("parser::Source")
            ei = [i for i, y in enumerate(c.p.variants(S)[0]["fields"]) if y["tys"].startswith("alloc::vec::Vec<") and y["tys"].endswith("syntax::Expr>")]
            exprs = mk("fld", mk("fld", r, 0, 0), None, ei[0]) if len(ei) == 1 else None
            some_ = exprs is not None and any(x.term.op == "lt" and x.term.a[0] is INT(0) and x.term.a[1] is mk("len", exprs) and (x.val is True) == x.eq for x in conds(p))
            if okk and some_:
                j = m.get("json")
                c.ob(j is not None and j.op == "call" and j.a[0] == ev_.path and j.a[1] is mk("idx", exprs, INT(0)), "json", "json is the value of the body: %s" % (show(j, 5) if j is not None else None), w)
            else:
                c.ob("json" not in m, "no json", "there is no json without a value in the body", w)
        # headers
        hs = m.get("headers")
        # lists collected first, made values afterwards
        raw = False
        if hs is not None and hs.op == "adt" and len(hs.a) == 3 and hs.a[2].op == "mapinsert" and hs.a[2].a[0] is mk("emptymap"):
            z = hs.a[2]
            el = mk("each", z.a[2], z.a[1])
            if z.a[3] is mk("fld", el, None, 0) and z.a[4] is val("Array", mk("fld", el, None, 1)):
                hs, raw = val("Map", z.a[1]), True
        loops = [x for x in top_loops(p) if hs is not None and hs.op == "adt" and len(hs.a) == 3 and hs.a[2] in x.init]
        if len(loops) != 1:
            c.ob(False, "headers", "the headers are collected by one loop: %s" % (show(hs) if hs is not None else None), w)
            continue
        hl = loops[0]
        M = hs.a[2]
        li = info(hl)
        src = li.coll
        c.ob(hs.a[1] == vs["Map"] and hl.init[M] is mk("emptymap") and src is mk("fld", at("headers"), None, 0) and len(li.sweeps) == 1 and li.sweeps[0][2] == "fwd" and li.exhausted(p), "headers", "all headers are collected, in order, from none: %s" % (show(src) if src is not None else None), w)
        if src is None or hl.id in seen:
            continue
        seen.add(hl.id)
        each = mk("each", hl.id, src)
        name, value = mk("fld", each, None, hn), mk("fld", each, None, hv)
        one = val("String", value)
        had = mk("has", M, name)
        old = mk("lookup", M, name)
        items = old if raw else mk("fld", old, vs["Array"], 0)
        arr = None if raw else vs["Array"]
        for q in hl.iters:
            u = li.canon(q.updates[M])
            cs = [(li.canon(x.term), x.val, x.eq) for x in conds(q)]
            known = [(v is True) == eq for t_, v, eq in cs if t_ is had]
            if not known:
                c.ob(False, "repeated", "cannot tell a new name from one seen before: %s" % show(u, 5), w)
                continue
            if known[0]:
                # by induction every value of the map is an array
                if any(t_ is mk("discr", old) and ((v == vs["Array"]) != eq) for t_, v, eq in cs):
                    continue
                got = at_key(u, M, name, arr, V)
                c.ob(got is mk("push", items, one), "repeated", "the value of a repeated header is added at the end: %s" % show(u, 6), w)
            else:
                got = at_key(u, M, name, arr, V)
                c.ob(got is mk("seq", one), "new", "a new name gets a list with its value: %s" % show(u, 6), w)
    # the value of a literal
    ev_literals(c, ev_, X, V, vs)


def at_key(u, M, name, arr, V):
    """the list stored under name by an update of map M that touches nothing else"""
    if u.op == "insert" and u.a[0] is M and u.a[1] is name:
        x = u.a[2]
        if arr is None:
            return x
        return x.a[2] if x.op == "adt" and x.a[0] == V and x.a[1] == arr else None
    if u.op == "upd" and u.a[1] == ((("k", name), (arr, 0)) if arr is not None else (("k", name),)):
        b = u.a[0]
        if b is M or b.op == "insert" and b.a[0] is M and b.a[1] is name:
            x = u.a[2]
            if b is not M and x.op == "push":
                first = at_key(b, M, name, arr, V)
                if first is not None and first.op == "seq" and x.a[0] in (first, mk("lookup", b, name), mk("fld", mk("lookup", b, name), arr, 0)):
                    return mk("seq", *(first.a + (x.a[1],)))
            return x
    return None


def ev_literals(c, f, X, V, vs):
    w = c.where(f)
    a = c.sym("a")
    val = lambda n, *x: mk("adt", V, vs[n], *x)

    def run(v):
        e, ps = c.run(f, {1: v})
        return [(p, final(e, p) if p.kind == "ret" else None) for p in ps]
    for n in ("Integer", "Float", "Boolean", "String"):
        rs = run(mk("adt", X, c.variant(X, n), a))
        c.ob(rs and all(v is val(n, a) for _, v in rs), "literal " + n, "the value of a literal is the literal: %s" % [show(v) for _, v in rs], w)
    V_ = lambda t: mk("call", f.path, t)
    for p, v in run(mk("adt", X, c.variant(X, "Array"), a)):
        okk = v is not None and v.op == "adt" and v.a[1] == vs["Array"] and len(v.a) == 3 and v.a[2].op == "mapped" and v.a[2].a[0] is a and v.a[2].a[2] in (V_(mk("each", v.a[2].a[1], a)),)
        c.ob(okk, "literal Array", "an array has the values of its elements, in order: %s" % (show(v) if v is not None else p.kind), w)
    for p, v in run(mk("adt", X, c.variant(X, "Map"), a)):
        okk = v is not None and v.op == "adt" and v.a[1] == vs["Map"] and len(v.a) == 3 and v.a[2].op == "mapinsert" and v.a[2].a[0] is mk("emptymap") and v.a[2].a[1] is a
        if okk:
            m = v.a[2]
            el = mk("each", m.a[2], a)
            okk = m.a[3] is mk("display", V_(mk("fld", el, None, 0))) and m.a[4] is V_(mk("fld", el, None, 1))
        c.ob(okk, "literal Map", "a map has the values of its entries under their keys: %s" % (show(v) if v is not None else p.kind), w)
    from checks.evaluation import roles, token
    r = roles(c)
    t = token(c, r, "Sub")
    op = mk("adt", X, c.variant(X, "Unary"), t, a)
    got = {}
    for p, v in run(op):
        k = [x.val for x in conds(p) if x.term is mk("discr", V_(a)) and x.eq]
        kind = {i: n for n, i in vs.items()}.get(k[0]) if k else None
        if v is None:
            c.ob(False, "negative", "a negative number is a value", w)
            continue
        if kind == "Integer":
            x = mk("fld", V_(a), vs["Integer"], 0)
            c.ob(v.a[1] == vs["Null"] and no_negation(p, x) or v.a[1] == vs["Integer"] and negated(v.a[2], x) and (v.a[2].op == "fld" or not_least(p, x)), "negative integer", "the value of a negative integer is its negation: %s" % show(v), w)
            got[kind] = got.get(kind, False) or v.a[1] == vs["Integer"]
        elif kind == "Float":
            c.ob(v is val("Float", mk("neg", mk("fld", V_(a), vs["Float"], 0))), "negative float", "the value of a negative float is its negation: %s" % show(v), w)
            got[kind] = True
    c.ob(got.get("Integer") and got.get("Float"), "negative", "negative integers and floats are values: %s" % got, w)

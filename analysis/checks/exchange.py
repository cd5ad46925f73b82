"""The exchange with a server: P23 (TLS), P24 (failures), P25 (addresses),
P28 (phases)."""
from run import prop
from rules import *
from checks.http import named
from checks.calls import by_type

TCP = ("net::tcp::TcpStream::connect", "net::tcp::TcpStream::connect_timeout")
RECV = ("sync::mpsc::Receiver::recv_timeout", "sync::mpsc::Receiver::recv", "sync::mpsc::Receiver::try_recv")


def payload(t):
    return proj(t, (0, 0))


def known(p, t):
    """True / False / None: what the path says about a Result being Ok"""
    for e in conds(p):
        if e.term.op == "discr" and e.term.a[0] is t:
            return (e.val == 0) == bool(e.eq)
    return None


# ---------------------------------------------------------------- P25
class Race:
    def __init__(self, c):
        self.c = c
        self.f = c.fn(pred=lambda f: f.argc >= 1 and any("Vec<" in x and x.endswith("SocketAddr>") for x in f.sig()[0]) and "TcpStream" in f.sig()[1] and f.sig()[1].startswith("core::result::Result"))
        self.w = c.where(self.f)
        self.e, self.ps = c.run(self.f)
        i = [k for k, x in enumerate(self.f.sig()[0]) if "SocketAddr>" in x][0] + 1
        self.addrs = mk("param", i, self.f.locals[i].get("name", ""))
        self.lists = {}      # list of addresses -> family test it was filled by

    def family(self, t):
        """conditions on the family of an address"""
        if t.op == "call" and t.a[0].rsplit("::", 1)[1] in ("is_ipv4", "is_ipv6"):
            return t.a[0].rsplit("::", 1)[1] == "is_ipv6"
        return None

    def ipv6(self, e, it):
        """whether a condition says that the address is one of IPv6"""
        if self.family(e.term) is not None and it in subterms(e.term):
            return ((e.val is True) == bool(e.eq)) == self.family(e.term)
        if e.term is mk("discr", it) and e.eq:
            return e.val == 1
        return None

    def split(self, loop):
        """loops that only distribute the addresses over lists, by family"""
        cur = [k for k, v in loop.init.items() if v.op == "cursor"]
        if len(cur) != 1 or not loop.iters or any(x.kind in ("spawn",) or (x.kind == "call" and x.name in TCP) for q in loop.iters for x in q.events):
            return None
        src = loop.init[cur[0]].a[0]
        if src is not self.addrs:
            return None
        it = mk("item", cur[0])
        out = {}
        ok_ = True
        for q in loop.iters:
            ok_ = ok_ and q.updates[cur[0]] is mk("adv", cur[0])
            fam = [x for x in (self.ipv6(e, it) for e in conds(q)) if x is not None]
            put = []
            for k, u in q.updates.items():
                if k is cur[0] or u is k:
                    continue
                if u is mk("push", k, it) and loop.init[k].op in ("seq",) and not loop.init[k].a:
                    put.append(k)
                elif any(y is it for y in subterms(u)):
                    ok_ = False
            ok_ = ok_ and len(put) == 1 and len(fam) == 1
            if ok_:
                out.setdefault(put[0], set()).add(fam[0])
        if not ok_:
            return False
        return out


def message(c, spawn, what, w):
    """the attempt a background thread makes and where its message has the result"""
    res, addrs = set(), set()
    good = bool(spawn.outs) and not spawn.panics
    for p in spawn.outs:
        tries = [x for x in p.events if x.kind == "call" and x.name in TCP]
        sends = [x for x in p.events if x.kind == "call" and x.name == "sync::mpsc::Sender::send"]
        if len(tries) != 1 or len(sends) != 1 or any(x.kind in ("loop", "spawn", "diverge") for x in p.events):
            good = False
            continue
        t, s = tries[0], sends[0]
        addrs.add(t.args[0])
        m = s.args[1]
        spots = [(None, m)] if m.op == "adt" else [((None, k), x) for k, x in enumerate(m.a)] if m.op == "tuple" else []
        hit = []
        for k, x in spots:
            if x is t.res:
                hit.append(k)
            elif x.op == "adt" and x.a[0] == RESULT and known(p, t.res) is not None:
                okay = known(p, t.res)
                if (x.a[1] == 0) == okay and (not okay or x.a[2] is payload(t.res)):
                    hit.append(k)
        if m is t.res:
            hit = [None]
        if len(hit) != 1:
            good = False
        else:
            res.add(hit[0])
    c.ob(good and len(res) == 1 and len(addrs) == 1, "thread", "each background thread makes one attempt and sends its result once: %d results, %d addresses" % (len(res), len(addrs)), w)
    return (addrs.pop(), res.pop()) if good and len(res) == 1 and len(addrs) == 1 else (None, None)


def senders(events):
    return sum(1 for x in events if x.kind == "call" and x.name == "Sender::clone"), sum(1 for x in events if x.kind == "spawn" and any(y.op == "sender" for y in subterms(x.env))), \
        sum(1 for x in events if x.kind == "drop" and x.adt and x.adt.endswith("mpsc::Sender"))


@prop("P25", floor=20, technique="conservation of addresses per iteration of the race loop (every address taken from a list is tried by a thread or kept for the next iteration), alternation of the lists, provenance of the returned stream, and liveness by ownership of the channel's senders",
      explain="the summary of the connecting function is decided per loop iteration: which address is taken, tried and kept; every received success must be returned, failure needs all lists used up and every result received after the last own sender was dropped")
def p25(c):
    r = Race(c)
    w = r.w
    c.ob(all(p.kind == "ret" for p in r.ps) and r.ps, "total", "connecting returns on every path", w)
    nfail = nloop = 0
    seen = {}
    for p in r.ps:
        if p.kind != "ret":
            continue
        v = r.e.norm(p.st, p.val)
        lists, slot, race, drain, mine = {}, {}, None, None, 0
        alive = 0          # own senders
        trusted = []       # results of attempts this path may rely on
        for x in p.events:
            if x.kind == "call" and x.name == "channel":
                alive += 1
                trusted = trusted
            elif x.kind == "drop" and x.adt and x.adt.endswith("mpsc::Sender"):
                alive -= 1
            elif x.kind == "call" and x.name == "Sender::clone":
                alive += 1
            elif x.kind == "spawn":
                key = id(x)
                if key not in seen:
                    seen[key] = message(c, x, "thread", w)
                slot[None] = seen[key][1]
                alive -= 1 if any(y.op == "sender" for y in subterms(x.env)) else 0
                mine += 1
            elif x.kind == "call" and x.name in TCP:
                trusted.append((x.res, x))
            elif x.kind == "call" and x.name in RECV:
                k = slot.get(None)
                R = proj(payload(x.res), k) if k is not None else payload(x.res)
                trusted.append((R, x))
            elif x.kind == "loop":
                d = r.split(x)
                if d:
                    lists.update(d)
                    continue
                c.ob(d is None, "split", "addresses are distributed over lists by family, each to exactly one", w)
                spawns = [y for q in list(x.iters) + list(x.exits) for y in q.events if y.kind == "spawn"]
                if spawns or any(y.kind == "call" and y.name in TCP for q in x.iters for y in q.events):
                    c.ob(race is None, "one race", "one loop makes the attempts", w)
                    race = x
                    if id(x) not in seen:
                        seen[id(x)] = racing(c, r, x, lists, w)
                        nloop += 1
                    slot[None] = seen[id(x)]
                    for q in x.iters:
                        a, b, d_ = senders(q.events)
                        c.ob(a == b + d_, "senders", "every copy of the sender made in an iteration goes to its thread or is dropped: %d made, %d given away, %d dropped" % (a, b, d_), w)
                else:
                    drain = x
                    if id(x) not in seen:
                        seen[id(x)] = draining(c, r, x, slot.get(None), w)
                        nloop += 1
                    c.ob(alive == 0, "disconnect", "before waiting for the remaining results no sender is kept by the connecting thread itself (%d kept)" % alive, w)
                    k = slot.get(None)
                    for cu, ini in x.init.items():
                        if ini.op == "cursor" and ini.a[0].op == "received":
                            R = proj(mk("item", cu), k) if k is not None else mk("item", cu)
                            trusted.append((R, x))
        # the outcome
        oks = [t for t, x in trusted if known(p, t) is True]
        if is_ok(v):
            c.ob(any(v.a[2] is payload(t) for t in oks), "success", "the stream returned is that of a successful attempt: %s" % show(v, 6), w)
        else:
            nfail += 1
            c.ob(is_err(v), "result", "a failure is an error: %s" % show(v, 4), w)
            c.ob(not oks, "success dropped", "no failure is reported once an attempt has succeeded", w)
            one = any(x.term is mk("len", r.addrs) and x.val == 1 and x.eq or x.term.op == "eq" and x.term.a[0] is mk("len", r.addrs) and x.term.a[1] is INT(1) and (x.val is True) == bool(x.eq) for x in conds(p))
            direct = [x for t, x in trusted if x.kind == "call" and x.name in TCP and x.args[0] is mk("idx", r.addrs, INT(0)) and known(p, t) is False]
            done = race is not None and drain is not None and all(any(e.term is mk("more", cu) and (e.val is False) == bool(e.eq) for e in conds(p)) for cu in curs(race, lists))
            done = done and all(any(e.term is mk("discr", ph) and e.val == 0 and e.eq for e in conds(p)) for ph in pend(race))
            done = done and drained(p, drain)
            done = done and set(lists) == {curinit(race, cu) for cu in curs(race, lists)}
            c.ob(one and direct or done, "failure", "failure is reported only when every address has been tried and every result has been received: %s" % show(v, 4), w)
    c.ob(nfail >= 2 and nloop >= 2, "coverage", "the paths that report failure and the loops they went through were found: %d, %d" % (nfail, nloop), w)


def curs(race, lists):
    return [k for k, v in race.init.items() if v.op == "cursor"]


def curinit(race, cu):
    return race.init[cu].a[0]


def pend(race):
    """an address kept for the next iteration"""
    return [k for k, v in race.init.items() if v is NONE and any(u is not k and u.op == "adt" and u.a[1] == 1 and any(y.op == "item" and y.a[0] in race.init for y in subterms(u)) for u in (q.updates[k] for q in race.iters))]


def drained(p, drain):
    for cu, v in drain.init.items():
        if v.op == "cursor" and v.a[0].op == "received":
            return any(e.term is mk("more", cu) and (e.val is False) == bool(e.eq) for e in conds(p))
    i = p.events.index(drain)
    for x in p.events[i + 1:]:
        if x.kind == "call" and x.name == RECV[1]:
            return known(p, x.res) is False
    return False


def racing(c, r, loop, lists, w):
    cs, ps = curs(loop, lists), pend(loop)
    c.ob(cs and all(curinit(loop, k) in lists for k in cs) and len(set(curinit(loop, k) for k in cs)) == len(cs) and set(curinit(loop, k) for k in cs) == set(lists), "lists",
         "the attempts take the addresses of every list once: %s" % [show(loop.init[k], 3) for k in cs], w)
    fams = [lists.get(curinit(loop, k)) for k in cs]
    c.ob(len(cs) == 2 and all(f is not None and len(f) == 1 for f in fams) and fams[0] != fams[1], "families", "one list holds the IPv6, the other the IPv4 addresses: %s" % fams, w)
    slot = set()
    n = 0
    for q in loop.iters:
        n += 1
        more = {k: next(((e.val is True) == bool(e.eq) for e in conds(q) if e.term is mk("more", k)), None) for k in cs}
        had = {k: next((e.val == 1 for e in conds(q) if e.term is mk("discr", k) and e.eq), None) for k in ps}
        taken = [mk("item", k) for k in cs if q.updates[k] is mk("adv", k)] + [proj(k, (1, 0)) for k in ps if had[k] and q.updates[k] is not k]
        c.ob(all(q.updates[k] is k or q.updates[k] is mk("adv", k) and more[k] for k in cs) and all(q.updates[k] is k or had[k] is not None for k in ps), "taking", "an iteration takes at most one address of each list", w)
        kept = [q.updates[k].a[2] for k in ps if q.updates[k].op == "adt" and q.updates[k].a[1] == 1]
        tried = []
        results = []
        for x in q.events:
            if x.kind == "spawn":
                a, k = message(c, x, "thread", w)
                tried.append(a)
                slot.add(k)
            elif x.kind == "call" and x.name in TCP:
                tried.append(x.args[0])
                results.append(x.res)
            elif x.kind == "call" and x.name in RECV:
                c.ob(x.name != RECV[1], "wait", "while addresses remain, waiting for a result is limited in time", w)
                k = next(iter(slot)) if len(slot) == 1 else None
                R = proj(payload(x.res), k) if k is not None else payload(x.res)
                if known(q, x.res) is not False:
                    c.ob(known(q, x.res) is True, "received", "whether a result was received is tested", w)
                    results.append(R)
            elif x.kind in ("loop", "diverge"):
                c.ob(False, "inner", "no loop within an attempt", w)
        show_ = lambda l: [show(x, 3) if x is not None else "?" for x in l]
        c.ob(None not in tried and sorted(map(id, tried + kept)) == sorted(map(id, taken)), "conserved", "every address taken is tried or kept, once: taken %s, tried %s, kept %s" % (show_(taken), show_(tried), show_(kept)), w)
        c.ob(len(tried) == 1, "one attempt", "an iteration makes one attempt", w)
        c.ob(all(known(q, x) is False for x in results), "first success", "the attempts go on only after a failed result", w)
        # alternation
        if any(had.values()):
            c.ob(tried == [proj(k, (1, 0)) for k in ps if had[k]] and not kept, "alternate", "an address kept is the next one tried", w)
        elif len(cs) == 2 and len(ps) == 1:
            both = all(more[k] for k in cs)
            c.ob(None not in more.values() and (not both or (len(kept) == 1 and kept[0] is not tried[0])), "alternate", "with addresses of both families one is tried and the other kept to be the next", w)
        else:
            c.ob(False, "alternate", "families alternate: %d lists, %d kept" % (len(cs), len(ps)), w)
    c.ob(n >= 4 and len(slot) == 1, "iterations", "the attempts have iterations to judge: %d" % n, w)
    return slot.pop() if len(slot) == 1 else None


def draining(c, r, loop, k, w):
    for q in loop.iters:
        res = []
        for cu, v in loop.init.items():
            if v.op == "cursor" and v.a[0].op == "received" and q.updates[cu] is mk("adv", cu):
                res.append(mk("item", cu))
        for x in q.events:
            if x.kind == "call" and x.name in RECV:
                c.ob(x.name == RECV[1] and known(q, x.res) is True, "drain", "remaining results are waited for until all threads have ended", w)
                res.append(payload(x.res))
            elif x.kind in ("loop", "spawn", "diverge"):
                c.ob(False, "drain", "no other work while results are received", w)
        res = [proj(x, k) if k is not None else x for x in res]
        c.ob(len(res) == 1, "drain", "an iteration receives one result", w)
        c.ob(all(known(q, x) is False for x in res), "first success", "receiving goes on only after a failed result", w)
    return k


# ---------------------------------------------------------------- streams
class Streams:
    def __init__(self, c):
        self.c = c
        self.S = c.adt("http::stream::Stream")
        self.plain = self.cipher = None
        for i, v in enumerate(c.p.variants(self.S)):
            tys = [f["tys"] for f in v["fields"]]
            tcp = [k for k, t in enumerate(tys) if t.endswith("TcpStream")]
            tls = [k for k, t in enumerate(tys) if "ClientConnection" in t]
            dur = [k for k, t in enumerate(tys) if t.endswith("Duration")]
            if len(tcp) == 1 and len(dur) == 1:
                if len(tls) == 1:
                    self.cipher, self.ctcp, self.ctls, self.cdur = i, tcp[0], tls[0], dur[0]
                elif not tls:
                    self.plain, self.ptcp, self.pdur = i, tcp[0], dur[0]
        if None in (self.plain, self.cipher):
            raise Missing("the two kinds of stream")
        self.connect = c.fn("Stream::connect", pred=lambda f: f.sig()[1].startswith("core::result::Result<http::stream::Stream"))
        self.race = c.fn(pred=lambda f: f.argc >= 1 and any("Vec<" in x and x.endswith("SocketAddr>") for x in f.sig()[0]) and "TcpStream" in f.sig()[1] and f.sig()[1].startswith("core::result::Result"))

    def make(self, variant):
        return mk("adt", self.S, variant, *[self.c.sym(f["name"]) for f in self.c.p.variants(self.S)[variant]["fields"]])

    def io(self, name):
        tr = {"read": "io::read::Read", "write": "io::write::Write", "flush": "io::write::Write"}[name]
        return self.c.fn(pred=lambda f: f.name == name and f.trait and f.trait.endswith(tr) and f.self_ty is not None and f.ty(f.self_ty).get("adt") == self.S)


def holds(t, x):
    return any(y is x for y in subterms(t))


def base_of(t):
    """the value a term is a later state of"""
    while t.op == "after":
        t = t.a[2]
    return t


SETUP = ("set_read_timeout", "set_write_timeout", "set_nodelay", "set_ttl", "set_nonblocking", "shutdown", "peer_addr", "local_addr", "take_error", "nodelay", "ttl", "read_timeout", "write_timeout")
TLS_NEW = "rustls::stream::Stream::new"


def chain(t):
    """names of nested calls and conversions around a value"""
    out = []
    while t.op == "call" and t.a[0] not in ("uid",):
        out.append(t.a[0].rsplit("::", 1)[-1])
        xs = [x for x in t.a[1:] if isinstance(x, T) and x.op != "uid"]
        if len(xs) != 1:
            out.append(tuple(xs))
            return out
        t = xs[0]
    out.append(t)
    return out


@prop("P23", floor=20, technique="value flow of the TLS session (configuration chain, server name, certificate verifier) into the stream of an https URL; who-touches-the-socket rule over every function that can reach the socket of a TLS stream; call-site scan for TCP connections",
      assumptions=["rustls verifies the chain and name with the verifier it is configured with and encrypts all application data", "rustls-platform-verifier is the platform's verifier"],
      explain="every successful path of connect is matched with the scheme it has tested; the session must be built from the platform verifier's configuration for the URL's host; in every function that handles a stream the bare socket of a TLS stream may only be handed to rustls or be configured")
def p23(c):
    s = Streams(c)
    f = s.connect
    w = c.where(f)
    U = c.adt("http::url::Url")
    X = named(c, "Scheme")
    ui = [i for i, x in enumerate(f.sig()[0]) if x.endswith("url::Url")]
    if len(ui) != 1:
        raise Missing("the URL given to connect")
    url = mk("param", ui[0] + 1, f.locals[ui[0] + 1].get("name", ""))
    scheme = mk("fld", url, None, c.field(U, "scheme"))
    host = mk("fld", url, None, c.field(U, "host"))
    HTTP, HTTPS = c.variant(X, "Http"), c.variant(X, "Https")
    n = {s.plain: 0, s.cipher: 0}
    for x in range(len(c.p.variants(X))):
        val = mk("adt", U, 0, *[mk("adt", X, x) if i == c.field(U, "scheme") else mk("fld", url, None, i) for i in range(len(c.fields(U)))])
        e, ps = c.run(f, {ui[0] + 1: val}, opaque=[s.race.path])
        for p in ps:
            if p.kind != "ret":
                c.ob(False, "total", "connecting returns", w)
                continue
            v = final(e, p)
            raced = [y for y in p.events if y.kind == "call" and y.name == s.race.path]
            for y in p.events:
                if y.kind == "call" and any(holds(a, payload(r.res)) for r in raced for a in y.args):
                    c.ob(y.name.rsplit("::", 1)[-1] in SETUP, "before", "while connecting the socket is only configured, not used: %s" % y.name, w)
            if is_err(v):
                continue
            if not is_ok(v):
                c.ob(False, "result", "connect yields a stream or an error: %s" % show(v, 4), w)
                continue
            t = v.a[2]
            want = s.cipher if x == HTTPS else s.plain
            c.ob(t.op == "adt" and t.a[0] == s.S and t.a[1] == want, "kind " + c.p.variants(X)[x]["name"], "an %s URL gets a %s stream: %s" % (c.p.variants(X)[x]["name"].lower(), "TLS" if want == s.cipher else "plain", show(t, 3)), w)
            if t.op != "adt" or t.a[1] not in n:
                continue
            n[t.a[1]] += 1
            sock = t.a[2 + (s.ctcp if t.a[1] == s.cipher else s.ptcp)]
            c.ob(len(raced) == 1 and base_of(sock) is payload(raced[0].res) and known(p, raced[0].res) is True, "socket", "the stream is the connection that was made: %s" % show(sock, 4), w)
            if t.a[1] != s.cipher:
                continue
            sess = t.a[2 + s.ctls]
            call = sess.a[0] if sess.op == "fld" and sess.a[1:] == (0, 0) else None
            good = call is not None and call.op == "call" and call.a[0].endswith("ClientConnection::new") and known(p, call) is True
            c.ob(good, "session", "the session is a new TLS client connection: %s" % show(sess, 5), w)
            if not good:
                continue
            conf, name = call.a[1], call.a[2]
            names = [y for y in chain(conf) if isinstance(y, str)]
            rest = chain(conf)[len(names):]
            c.ob(("with_platform_verifier" in names) and set(names) <= {"with_platform_verifier", "with_no_client_auth", "builder", "builder_with_provider", "with_safe_default_protocol_versions", "unwrap", "with_single_cert"} and rest in ([], [()]),
                 "verifier", "its configuration verifies certificates with the platform verifier: %s" % show(conf, 8), w)
            src = name.a[0] if name.op == "fld" and name.a[1:] == (0, 0) else None
            c.ob(src is not None and src.op == "call" and src.a[0].rsplit("::", 1)[-1] in ("try_into", "try_from") and base_text(src.a[1]) is host and known(p, src) is True,
                 "name", "certificates are verified for the host of the URL: %s" % show(name, 8), w)
    c.ob(n[s.plain] >= 1 and n[s.cipher] >= 1, "kinds", "both kinds of stream can be made: %s" % n, w)
    # reading and writing
    for nm in ("read", "write", "flush"):
        g = s.io(nm)
        wg = c.where(g)
        for variant, tag in ((s.cipher, "TLS"), (s.plain, "plain")):
            me = s.make(variant)
            sock = me.a[2 + (s.ctcp if variant == s.cipher else s.ptcp)]
            tls = me.a[2 + s.ctls] if variant == s.cipher else None
            e, ps = c.run(g, {1: me})
            c.ob(ps and all(p.kind == "ret" for p in ps), nm + " total", "%s on a %s stream returns" % (nm, tag), wg)
            buf = mk("param", 2, g.locals[2].get("name", "")) if g.argc > 1 else None
            for p in ps:
                if p.kind != "ret":
                    continue
                io = []
                for y in all_events(p):
                    if y.kind in ("spawn", "diverge"):
                        c.ob(False, nm, "%s does nothing else" % nm, wg)
                    if y.kind != "call":
                        continue
                    short = y.name.rsplit("::", 1)[-1]
                    if short == nm and y.name.startswith("io::"):
                        io.append(y)
                        t = base_of(y.args[0])
                        if variant == s.cipher:
                            ok_ = t.op == "call" and t.a[0] == TLS_NEW and base_of(t.a[1]) is tls and base_of(t.a[2]) is sock
                        else:
                            ok_ = t is sock
                        c.ob(ok_, nm + " " + tag, "%s goes through the %s: %s" % (nm, "TLS session" if variant == s.cipher else "socket", show(y.args[0], 5)), wg)
                        if buf is not None:
                            c.ob(base_of(y.args[1]) is buf, nm + " buffer", "%s is given the caller's buffer: %s" % (nm, show(y.args[1], 4)), wg)
                    elif variant == s.cipher and any(holds(a, sock) for a in y.args):
                        c.ob(y.name == TLS_NEW or short in ("complete_io", "kind", "send_close_notify", "process_new_packets") + SETUP or only_inside(y.args, sock), nm + " touch", "the socket of a TLS stream is only handed to the TLS session: %s" % y.name, wg)
                c.ob(len(io) == 1, nm + " once", "%s on a %s stream is one %s (%d)" % (nm, tag, nm, len(io)), wg)
                if len(io) == 1 and variant == s.plain:
                    v = e.norm(p.st, p.val)
                    c.ob(v is io[0].res or is_ok(v) and known(p, io[0].res) is True and v.a[2] is payload(io[0].res) or is_err(v), nm + " result", "its result is what the socket answered: %s" % show(v, 4), wg)
    # everything else that can reach the socket
    seen = {s.io(n).key for n in ("read", "write", "flush")} | {f.key}
    k = 0
    for g in c.p.local_fns():
        if g.key in seen or g.kind != "fn":
            continue
        for i in range(1, g.argc + 1):
            t = g.local_ty(i)
            while t.get("k") == "ref" and t.get("args"):
                t = g.ty(t["args"][0])
            if t.get("adt") == s.S:
                me = s.make(s.cipher)
                sock = me.a[2 + s.ctcp]
                e, ps = c.run(g, {i: me})
                k += 1
                for p in ps:
                    for y in all_events(p):
                        if y.kind == "call" and any(holds(a, sock) for a in y.args):
                            short = y.name.rsplit("::", 1)[-1]
                            c.ob(y.name == TLS_NEW or short in ("complete_io",) + SETUP or only_inside(y.args, sock), "touch " + g.name, "%s only hands the socket of a TLS stream to the TLS session: %s" % (g.name, y.name), c.where(g))
                    if p.val is not None:
                        v = e.norm(p.st, p.val)
                        c.ob(not bare(v, sock, s.S), "escape " + g.name, "%s does not give out the socket of a TLS stream" % g.name, c.where(g))
    # who makes connections
    tree = set()
    e, ps = c.run(s.race)
    tree = set(e.stats["functions"])
    sites = 0
    for g in c.p.local_fns():
        for b in g.blocks:
            t = b["t"]
            if t["k"] == "call" and t["f"][0] == "const" and "fn" in t["f"][1]:
                nm = absint.canon(t["f"][1]["fn"]["path"])
                if nm in TCP:
                    sites += 1
                    c.ob(g.path in tree, "connections " + g.path, "TCP connections are made only by %s: %s" % (s.race.name, g.path), c.where(g))
                if (t["f"][1]["fn"].get("rdef") or t["f"][1]["fn"]["def"]) == s.race.key:
                    c.ob(g.path in c.functions and g.path.startswith(s.connect.path.rsplit("::", 1)[0]), "callers " + g.path, "connections are made only for connect: %s" % g.path, c.where(g))
    c.ob(sites >= 1, "sites", "the call sites that make TCP connections were found: %d" % sites, w)


def base_text(t):
    while t.op in ("display", "cat") and len(t.a) == 1 or t.op == "call" and t.a[0].rsplit("::", 1)[-1] in ("to_owned", "to_string", "as_str", "clone", "into", "from") and len(t.a) == 2:
        t = t.a[-1]
    return t


def only_inside(args, sock):
    """the socket only occurs as the later state of a call already judged"""
    return not any(base_of(a) is sock for a in args) and all(wrapped(a, sock) for a in args)


def wrapped(t, sock):
    if t is sock:
        return False
    if t.op == "call":
        return True
    if t.op == "after":
        return wrapped(t.a[2], sock)
    return all(wrapped(x, sock) for x in t.a if isinstance(x, T))


def bare(v, sock, S):
    if v is sock:
        return True
    if v.op == "adt" and v.a[0] == S:
        return False
    if v.op == "call":
        return False
    return any(bare(x, sock, S) for x in v.a if isinstance(x, T))


# ---------------------------------------------------------------- an exchange
class Exchange:
    """paths of the sending function with its four steps replaced by stand-ins
    that succeed or fail, and mark what they do in the order of events"""

    def __init__(self, c):
        self.c = c
        self.s = Streams(c)
        self.Req, self.Res = c.adt("http::request::Request"), c.adt("http::response::Response")
        self.Time = c.adt("http::time::Time")
        self.f = c.fn("Client::send", pred=lambda f: "http::request::Request" in f.sig()[1] and "http::response::Response" in f.sig()[1] and "http::time::Time" in f.sig()[1] and f.self_ty is not None)
        self.w = c.where(self.f)
        self.rfrom = c.fn("Request::from", pred=lambda f: f.name == "from" and "::http::request" in f.path)
        self.rwrite = c.fn("Request::write", pred=lambda f: f.name == "write" and "::http::request" in f.path)
        self.pfrom = c.fn("Response::from", pred=lambda f: f.name == "from" and "::http::response" in f.path)
        self.stream = self.s.make(self.s.plain)
        self.err = {n: c.sym(n + " error") for n in ("connect", "write", "first read", "read")}
        self.received = c.sym("received")
        self.closures = 0
        st = {}
        for fn, g in ((self.s.connect, self.connecting), (self.rwrite, self.writing), (self.pfrom, self.reading)):
            st[fn.path] = type("Stub", (), {"full": staticmethod(g)})
        self.e, self.ps = c.run(self.f, opaque=[self.rfrom.path], stubs=st)

    def mark(self, ctx, st, name, args=(), res=None):
        st.ev(Ev("step", name=name, args=[ctx.eng.norm(st, a) for a in args], res=res, span=ctx.span, fn=ctx.fr.fn.path))

    def instant(self, ctx, st, n):
        t = mk("call", "time::Instant::now", mk("uid", "%s%d" % (n, ctx.eng.uid())))
        st.ev(Ev("call", name="time::Instant::now", args=[], raw=[], res=t, span=ctx.span, fn=ctx.fr.fn.path, pure=False, callee=None, info=ctx.info, outs=None, site=(ctx.fr.fn.key, ctx.span), stack=()))
        return t

    def connecting(self, ctx, st, a):
        out = []
        x = st.fork()
        self.mark(ctx, x, "connect", a)
        self.mark(ctx, x, "failed", [self.err["connect"]])
        out.append((x, err(self.err["connect"])))
        self.mark(ctx, st, "connect", a)
        b = self.instant(ctx, st, "lookup from")
        self.mark(ctx, st, "lookup")
        e = self.instant(ctx, st, "lookup to")
        self.mark(ctx, st, "tcp")
        v = list(self.stream.a)
        v[2 + self.s.pdur] = mk("since", e, b)
        out.append((st, ok(mk("adt", *v))))
        return out

    def writing(self, ctx, st, a):
        x = st.fork()
        self.mark(ctx, st, "write", a)
        self.mark(ctx, x, "write", a)
        self.mark(ctx, x, "failed", [self.err["write"]])
        return [(st, ok(UNIT)), (x, err(self.err["write"]))]

    def reading(self, ctx, st, a):
        e = ctx.eng
        out = []
        x = st.fork()
        self.mark(ctx, x, "first read", a)
        self.mark(ctx, x, "failed", [self.err["first read"]])
        out.append((x, err(self.err["first read"])))
        self.mark(ctx, st, "first read", a)
        sts = [st]
        f = e.content(st, a[1]) if len(a) > 1 else NONE
        if f.op == "adt" and f.a[0] == OPTION and f.a[1] == 1:
            self.closures += 1
            sts = [y for y, _ in models.callv(ctx, st, f.a[2], [])]
        elif f.op == "closure":
            self.closures += 1
            sts = [y for y, _ in models.callv(ctx, st, a[1], [])]
        for y in sts:
            z = y.fork()
            self.mark(ctx, y, "read")
            self.mark(ctx, z, "read")
            self.mark(ctx, z, "failed", [self.err["read"]])
            out += [(y, ok(self.received)), (z, err(self.err["read"]))]
        return out

    def parts(self, p):
        """request, response, time and error of a result"""
        v = final(self.e, p)
        out = {}
        tys = self.f.ty(self.f.locals[0]["ty"]).get("args") or []
        for i, t in enumerate(tys):
            s = self.f.ty(t)
            k = {self.Req: "request", self.Res: "response", self.Time: "time"}.get(s.get("adt"), "error" if s["s"].endswith("String") else None)
            out[k] = proj(v, (None, i))
        return out


ORDER = ["connect", "lookup", "tcp", "write", "first read", "read"]


@prop("P24", floor=60, technique="typestate of an exchange with failing stand-ins for its steps (order, once, stop at the first failure, what is reported), and an error-flow rule: every fallible call of the steps is known to have succeeded wherever success is reported",
      assumptions=["the text of an io::Error is not empty"],
      explain="the sending function is analysed with each step succeeding or failing; in the functions of the steps every call that returns a Result must be tested Ok, or be the result itself, on each path that reports success, loop iterations included")
def p24(c):
    x = Exchange(c)
    w = x.w
    msg = [i for i, t in enumerate(x.f.sig()[0]) if t.endswith("str")]
    message_ = mk("param", msg[0] + 1, x.f.locals[msg[0] + 1].get("name", "")) if len(msg) == 1 else None
    sent = {"ok": 0}
    D = x.s
    for p in x.ps:
        if p.kind != "ret":
            c.ob(False, "total", "an exchange ends with a result", w)
            continue
        steps = [y for y in all_events(p) if y.kind == "step"]
        top = [y for y in p.events if y.kind == "step"]
        c.ob(len(steps) == len(top), "no loop", "no step is repeated in a loop", w)
        made = [y for y in p.events if y.kind == "call" and y.name == x.rfrom.path]
        c.ob(len(made) == 1 and message_ in made[0].args, "request", "the message is turned into a request once", w)
        if len(made) != 1:
            continue
        req, content = proj(made[0].res, (None, 0)), proj(made[0].res, (None, 1))
        r = x.parts(p)
        names = [y.name for y in steps]
        bad = steps[-1].args[0] if names and names[-1] == "failed" else None
        done = [n for n in names if n != "failed"]
        c.ob(names.count("failed") == (1 if bad is not None else 0), "stop", "the exchange ends with the first failure: %s" % names, w)
        c.ob(done == ORDER[:len(done)] and (bad is not None or done == ORDER), "steps", "the steps of an exchange are made once, in order: %s" % names, w)
        key = "ok" if bad is None else str(bad.a[0])
        sent[key] = sent.get(key, 0) + 1
        for y in steps:
            if y.name == "connect":
                U = c.field(x.Req, "url")
                c.ob(any(a is mk("fld", req, None, U) for a in y.args), "connect to", "the connection is made to the URL of the request: %s" % [show(a, 3) for a in y.args], w)
            if y.name == "write":
                c.ob(any(base_of(a) is req for a in y.args) and any(base_of(a) is content for a in y.args) and any(a.op == "adt" and a.a[0] == x.s.S for a in y.args), "write what", "the request and its content are written to the stream of this exchange: %s" % [show(a, 3) for a in y.args], w)
            if y.name == "first read":
                c.ob(any(z.op == "adt" and z.a[0] == x.s.S for a in y.args for z in subterms(a)), "read what", "the response is read from the stream of this exchange: %s" % show(y.args[0], 4), w)
        c.ob(r["request"] is not None and base_of(r["request"]) is req, "request", "the request reported is the one sent: %s" % show(r["request"], 4), w)
        if bad is None:
            c.ob(r["error"] is STR(""), "no error", "without a failure the error is empty: %s" % show(r["error"], 4), w)
            c.ob(r["response"] is x.received, "response", "without a failure the response is the one received: %s" % show(r["response"], 4), w)
        else:
            t = r["error"]
            c.ob(t is mk("display", bad) or t.op == "cat" and (mk("display", bad) in t.a or nonempty_text(t)), "error of " + key, "a failure is reported with its text: %s" % show(t, 4), w)
            c.ob(r["response"] is empty_response(c, x), "empty response", "with a failure the response is empty: %s" % show(r["response"], 4), w)
    c.ob(set(sent) == {"ok"} | {str(t.a[0]) for t in x.err.values()}, "outcomes", "success and failure of every step are handled: %s" % sent, w)
    # texts of errors
    E_ = c.adt("http::error::Error")
    d = c.impl("fmt::Display", "http::error::Error", "fmt")
    from checks.calls import printed_to, shown
    for i, v in enumerate(c.p.variants(E_)):
        xs = [c.sym("io error") for _ in v["fields"]]
        e, ps = c.run(d, {1: mk("adt", E_, i, *xs)})
        ts = [printed_to(e, p, 2) for p in shown(c, ps, d) if p.kind == "ret"]
        good = ts and all(t and any(y is mk("display", c.sym("io error")) or nonempty_text(y) for y in t) for t in ts)
        if not good and xs:
            good = ps and all(p.kind == "ret" and any(y.kind == "call" and y.name.endswith("Display::fmt") and y.args[0] is xs[0] for y in p.events) for p in ps)
        c.ob(good, "text of " + v["name"], "the text of an error is not empty: %s" % [[show(y, 3) for y in t or []] for t in ts], c.where(d))
    causes(c, E_, d)
    # the steps
    K = next((k for k in c.p.adts if k == "core::io::error::ErrorKind"), None)
    eof = {c.variant(K, n) for n in ("ConnectionAborted", "UnexpectedEof")} if K else {6, 37}
    cont = c.adt("http::content::Content")
    cw = [f for f in c.p.local_fns(("fn",)) if f.name == "write" and f.self_ty is not None and f.ty(f.self_ty).get("adt") == cont]
    fns = [(D.connect, {}, [D.race.path])] + [(x.rwrite, {}, [])] + [(x.pfrom, {}, [])]
    for f, vals, op in fns:
        e, ps = c.run(f, vals, opaque=op)
        flow(c, f, e, ps)
    for nm in ("read", "write", "flush"):
        f = D.io(nm)
        for variant in (D.plain, D.cipher):
            me = D.make(variant)
            e, ps = c.run(f, {1: me})

            def excuse(p, y, v):
                k = [z for z in conds(p) if z.term.op == "discr" and z.term.a[0].op == "call" and z.term.a[0].a[0].endswith("Error::kind") and holds(z.term.a[0], y.res) and z.eq and z.val in eof]
                return nm == "read" and variant == D.cipher and bool(k) and v.a[2] is INT(0)
            flow(c, f, e, ps, excuse)
    # a connection closed without a response
    from shapes import Num, Text, Eval, feasible as fits
    f = x.pfrom
    e, ps = c.run(f)
    n = 0
    for p in ps:
        if p.kind == "ret" and is_ok(e.norm(p.st, p.val)):
            env = {}
            for y in p.events:
                if y.kind == "call" and y.name.rsplit("::", 1)[-1] in ("read", "read_line", "read_to_string", "fill_buf", "read_until") and len(y.args) > 1:
                    a = y.args[1]
                    env[mk("after", y.res, 1, a)] = Text()
                    env[payload(y.res)] = Num(0)
                if y.kind == "call" and y.name.endswith("from_utf8"):
                    env[payload(y.res)] = Text()
                if y.kind == "loop":
                    break
            n += 1
            c.ob(not fits(Eval(env), conds(p)), "closed", "a connection closed before a status line is an error", c.where(f))
    c.ob(n >= 1, "closed", "successful paths of the response parser were found: %d" % n, c.where(f))
    # a body that cannot be prepared
    f = x.rfrom
    e, ps = c.run(f)
    n = 0
    for p in ps:
        if p.kind != "ret":
            continue
        v = proj(final(e, p), (None, 1))
        for y in all_events(p):
            if y.kind == "call" and io_result(y):
                k = known(p, y.res)
                if k is False:
                    n += 1
                    c.ob(v.op == "adt" and v.a[0] == cont and any("io::error::Error" in z["tys"] for z in c.p.variants(cont)[v.a[1]]["fields"]) and holds(v, y.res), "prepare", "a body that cannot be prepared is kept as a failure: %s" % show(v, 4), c.where(f))
                else:
                    c.ob(k is True, "prepare", "whether %s succeeded is tested" % y.name.rsplit("::", 1)[-1], c.where(f))
    c.ob(n >= 1, "prepare", "the preparation of a body can fail: %d" % n, c.where(f))


# what the text of an error must speak of when this call failed
CAUSE = {"to_socket_addrs": "host", "connect": "connect", "connect_timeout": "connect", "set_read_timeout": "timeout", "flush": "flush",
         "ClientConnection::new": "tls"}


def causes(c, E_, d):
    """an error returned because a call failed carries that failure, or speaks of that step"""
    from checks.calls import printed_to, shown
    texts = {}
    for i, v in enumerate(c.p.variants(E_)):
        if not v["fields"]:
            e, ps = c.run(d, {1: mk("adt", E_, i)})
            texts[i] = " ".join(y.a[0] for p in ps if p.kind == "ret" for y in printed_to(e, p, 2) or [] if y.op == "str").lower()
    fs = []
    for f in c.p.local_fns(("fn",)):
        t = f.local_ty(0)
        if t.get("adt") == RESULT and len(t.get("args", [])) == 2 and f.ty(t["args"][1]).get("adt") == E_:
            fs.append(f)
    n = 0
    for f in fs:
        e, ps = c.run(f, opaque=[g.path for g in fs if g is not f])
        for p in ps:
            v = final(e, p) if p.kind == "ret" else None
            if v is None or not is_err(v):
                continue
            bad = [y for y in p.events if y.kind == "call" and (fallible(y) or y.name == "convert::try_into") and known(p, y.res) is False]
            if not bad or v.a[2].op != "adt" or v.a[2].a[0] != E_:
                continue
            y, x = bad[-1], v.a[2]
            name = "::".join(y.name.split("::")[-2:])
            word = "host" if "ServerName" in "".join(str(z.a[0]) for z in y.args[1:] if z.op == "str") else CAUSE.get(name, CAUSE.get(name.rsplit("::", 1)[-1]))
            if len(x.a) > 2:
                made = any(z.op == "adt" and z.a[0].endswith("ErrorKind") for z in subterms(x))
                c.ob(holds(x, y.res) or holds(e.norm(p.st, p.val), y.res) or not io_result(y) and (made or "FromUtf8Error" in (getattr(y, "rty", None) or {}).get("s", "")), f.name + " cause", "the error of a failed %s is the one it reported: %s" % (name, show(x, 4)), "%s (%s)" % (f.path, y.span))
                n += 1
            elif word:
                c.ob(word in texts.get(x.a[1], ""), f.name + " cause", "a failed %s is reported as %r" % (name, texts.get(x.a[1])), "%s (%s)" % (f.path, y.span))
                n += 1
    c.ob(n >= 5, "causes", "errors with a known cause were found: %d" % n, c.where(d))


def io_result(y):
    s = (getattr(y, "rty", None) or {}).get("s", "")
    return (getattr(y, "rty", None) or {}).get("adt") == RESULT and any(n in s for n in ("io::error::Error", "LazyError", "LazyIoError", "lazy::"))


def empty_response(c, x):
    f = [g for g in c.p.local_fns(("fn",)) if g.name == "default" and g.trait == "core::default::Default" and g.self_ty is not None and g.ty(g.self_ty).get("adt") == x.Res]
    if f:
        e, ps = c.run(f[0])
        vs = [final(e, p) for p in ps if p.kind == "ret"]
        if len(vs) == 1:
            v = vs[0]
            for i, fd in enumerate(c.p.variants(x.Res)[0]["fields"]):
                t = v.a[2 + i]
                c.ob(t is STR("") or t is INT(0) or t.op == "adt" and all(y is mk("seq") or not isinstance(y, T) for y in t.a[2:]), "empty " + fd["name"], "an empty response has nothing in its %s: %s" % (fd["name"], show(t, 3)), c.where(f[0]))
            return v
    raise Missing("the empty response")


def fallible(y):
    if y.kind != "call" or y.name == "Sender::clone":
        return False
    if y.name == "sink":
        return not getattr(y, "mem", False)
    return (getattr(y, "rty", None) or {}).get("adt") == RESULT


def flow(c, f, e, ps, excuse=None):
    """no failure is dropped on a path that reports success"""
    w = c.where(f)
    n = 0
    c.ob(ps and all(p.kind == "ret" for p in ps), f.name + " total", "%s returns" % f.name, w)

    def scan(p, v, where):
        nonlocal n
        for y in p.events:
            if y.kind == "loop":
                for q in y.iters:
                    scan(q, v, " in a loop")
            elif y.kind == "spawn":
                c.ob(False, f.name + " spawn", "%s leaves no work to threads" % f.name, w)
            elif fallible(y):
                n += 1
                s = (getattr(y, "rty", None) or {}).get("s", "")
                k = known(p, y.res)
                if "FromUtf8Error" in s and y.args and y.args[0] is STR("") or "FromUtf8Error" in s and y.args[0].op == "after" and y.args[0].a[2] is STR(""):
                    continue  # of the bytes a zero-length read left
                if "num::error::Parse" in s:
                    continue  # an unreadable number is not a failure of the exchange
                c.ob(k is True or v is y.res or (k is False and excuse and excuse(p, y, v)), "%s: %s" % (f.name, y.name.rsplit("::", 1)[-1]),
                     "%s reports success only if %s%s succeeded" % (f.name, y.name.rsplit("::", 1)[-1], where), "%s (%s)" % (f.path, y.span))
    for p in ps:
        if p.kind != "ret":
            continue
        v = e.norm(p.st, p.val)
        if is_err(v):
            continue
        scan(p, v, "")
    c.ob(n >= 1, f.name + " calls", "%s makes calls that can fail: %d" % (f.name, n), w)


# ---------------------------------------------------------------- P28
class Linear:
    """durations as integer combinations of the gaps between the instants of a
    path, in the order in which they were taken"""

    def __init__(self, p):
        self.at = {}
        self.steps = {}
        n = -1
        for x in p.events:
            if x.kind == "call" and x.name == "time::Instant::now":
                n += 1
                self.at[x.res] = n
            elif x.kind == "step":
                self.steps.setdefault(n, []).append(x.name)
        self.n = n + 1

    def gaps(self, t):
        """{gap: coefficient}, or None"""
        if t.op == "since":
            a, b = self.at.get(t.a[0]), self.at.get(t.a[1])
            if a is None or b is None:
                return None
            s = 1 if a >= b else -1
            return {g: s for g in range(min(a, b), max(a, b))}
        if t.op == "duration" and t.a[0] == 0 or t.op == "const" and str(t.a[0]).endswith("Duration::ZERO") or t.op == "adt" and all(y is INT(0) for y in t.a[2:]) and t.a[0].endswith("Duration"):
            return {}
        if t.op in ("dadd", "dsub") or t.op == "call" and t.a[0].rsplit("::", 1)[-1] in ("saturating_sub", "saturating_add", "abs_diff"):
            x, y = [self.gaps(z) for z in t.a[-2:]]
            if x is None or y is None:
                return None
            s = 1 if t.op == "dadd" or t.op == "call" and t.a[0].endswith("add") else -1
            out = dict(x)
            for g, k in y.items():
                out[g] = out.get(g, 0) + s * k
            return {g: k for g, k in out.items() if k}
        if t.op == "fld" and t.a[1:] == (1, 0) and t.a[0].op == "call" and t.a[0].a[0].rsplit("::", 1)[-1] in ("checked_sub", "checked_duration_since", "checked_add"):
            return self.gaps(mk("since" if "since" in t.a[0].a[0] else "dadd" if "add" in t.a[0].a[0] else "dsub", *t.a[0].a[1:3]))
        if t.op == "call" and t.a[0].rsplit("::", 1)[-1] in ("checked_sub", "saturating_duration_since", "checked_duration_since"):
            return self.gaps(mk("since" if "since" in t.a[0] else "dsub", *t.a[1:3]))
        return None

    def nonneg(self, t):
        """every difference in the term is of a later and an earlier time"""
        for y in subterms(t):
            if y.op in ("since", "dsub") or y.op == "call" and y.a[0].rsplit("::", 1)[-1] in ("saturating_sub", "checked_sub", "saturating_duration_since"):
                g = self.gaps(y)
                if g is None or any(k < 0 for k in g.values()):
                    return False
        return True

    def names(self, g):
        return self.steps.get(g, [])

    def show(self, t):
        g = self.gaps(t)
        return "unknown" if g is None else " + ".join("%d*[%s]" % (k, ",".join(self.names(i))) for i, k in sorted(g.items())) or "0"


WHERE = {"resolve": "lookup", "connect": "tcp", "write": "write", "delay": "first read", "read": "read"}


@prop("P28", floor=40, technique="linear arithmetic on instants: every recorded duration as a combination of the gaps between the instants of a path, taken in event order; coefficients decide non-negativity, disjointness and the sum",
      assumptions=["Instant is monotonic"],
      explain="the sending function is analysed with stand-ins marking when lookup, connection, writing, the first and the remaining reads happen; on every path each duration is expressed by the gaps between the clock readings")
def p28(c):
    x = Exchange(c)
    w = x.w
    fs = c.fields(x.Time)
    for n in list(WHERE) + ["total"]:
        if n not in fs:
            raise Missing("the %s time of an exchange" % n)
    n = 0
    for p in x.ps:
        if p.kind != "ret":
            c.ob(False, "total", "an exchange ends with a result", w)
            continue
        L = Linear(p)
        for y in all_events(p):
            if y.kind == "maypanic" and y.what.startswith("time_"):
                a, b = y.args
                if a.op == "call" and y.what == "time_add":
                    c.ob(False, "arithmetic", "no instant is moved", y.span)
                    continue
                g = L.gaps(mk("since" if a.op == "call" and a in L.at else "dsub" if y.what == "time_sub" else "dadd", a, b))
                c.ob(g is not None and all(k >= 0 for k in g.values()), "no underflow", "the difference %s - %s is never negative" % (L.show(a), L.show(b)), y.span)
        t = x.parts(p)["time"]
        if t is None or t.op != "adt":
            c.ob(False, "time", "the times are known: %s" % (show(t, 3) if t is not None else None), w)
            continue
        part = {k: t.a[2 + fs.index(k)] for k in list(WHERE) + ["total"]}
        bad = any(y.kind == "step" and y.name == "failed" for y in p.events)
        if bad:
            continue
        n += 1
        gs = {k: L.gaps(v) for k, v in part.items()}
        for k, v in part.items():
            c.ob(gs[k] is not None and L.nonneg(v) and all(q == 1 for q in gs[k].values()), k, "%s is the duration of parts of the exchange, each once: %s" % (k, L.show(v)), w)
        if any(g is None for g in gs.values()):
            continue
        for k, s in WHERE.items():
            c.ob(any(s in L.names(g) for g in gs[k]), k + " measures", "%s includes %s: %s" % (k, s, L.show(part[k])), w)
            for o, s2 in WHERE.items():
                if o != k:
                    c.ob(not any(s2 in L.names(g) for g in gs[k]), k + " only", "%s does not include %s: %s" % (k, s2, L.show(part[k])), w)
        tot = sorted(gs["total"])
        c.ob(tot == list(range(tot[0], tot[-1] + 1)) if tot else False, "consecutive", "the total is one interval", w)
        acc = {}
        for k in WHERE:
            for g, q in gs[k].items():
                acc[g] = acc.get(g, 0) + q
        c.ob(acc == gs["total"], "sum", "the parts add up to the total: %s" % {k: L.show(v) for k, v in part.items()}, w)
    c.ob(n >= 1, "success", "successful exchanges were found: %d" % n, w)
    c.ob(x.closures >= 1, "first byte", "the exchange is told when the response begins", w)
    # the response parser says when the first byte has arrived
    f = x.pfrom
    wf = c.where(f)
    e, ps = c.run(f)
    reader = mk("param", 1, f.locals[1].get("name", ""))
    cb = mk("param", 2, f.locals[2].get("name", ""))
    m = 0
    for p in ps:
        reads, told = 0, []
        for y in p.events:
            if y.kind == "call" and y.name.startswith("io::") and y.name.rsplit("::", 1)[-1].startswith(("read", "fill")) and any(holds(a, reader) for a in y.args):
                reads += 1
            elif y.kind == "call" and called(y) and any(holds(a, cb) for a in y.args):
                told.append(reads)
            elif y.kind == "loop":
                reads += 2
                c.ob(not any(z.kind == "call" and called(z) for q in y.iters for z in all_events(q)), "told once", "the begin of the response is not reported in a loop", wf)
        if p.kind == "ret" and is_ok(e.norm(p.st, p.val)):
            given = any(z.term is mk("discr", cb) and z.val == 1 and z.eq for z in conds(p))
            none = any(z.term is mk("discr", cb) and z.val == 0 and z.eq for z in conds(p))
            m += 1
            c.ob(told == [1] if not none else told == [], "first byte", "the begin of the response is reported once, after the first read and before the next: %s" % told, wf)
    c.ob(m >= 1, "first byte", "successful paths of the response parser were found: %d" % m, wf)
    # resolving is measured around the lookup
    s = x.s
    e, ps = c.run(s.connect, opaque=[s.race.path])
    k = 0
    for p in ps:
        if p.kind != "ret":
            continue
        v = final(e, p)
        if not is_ok(v) or v.a[2].op != "adt":
            continue
        d = v.a[2].a[2 + (s.cdur if v.a[2].a[1] == s.cipher else s.pdur)]
        for y in p.events:
            if y.kind == "call" and y.name.endswith("to_socket_addrs"):
                y.__dict__["mark"] = "lookup"
        L = Linear(p)
        g = L.gaps(d)
        lo = [i for i, y in enumerate(p.events) if y.kind == "call" and y.name.endswith("to_socket_addrs")]
        ra = [i for i, y in enumerate(p.events) if y.kind == "call" and y.name == s.race.path]
        tm = [i for i, y in enumerate(p.events) if y.kind == "call" and y.name == "time::Instant::now"]
        k += 1
        good = g is not None and L.nonneg(d) and len(lo) == 1 and len(ra) == 1 and len(g) >= 1 and all(q == 1 for q in g.values())
        if good:
            a, b = tm[min(g)], tm[max(g) + 1]
            good = a < lo[0] < b < ra[0] and sorted(g) == list(range(min(g), max(g) + 1))
        c.ob(good, "lookup", "resolve is the time around the name lookup: %s" % show(d, 4), c.where(s.connect))
    c.ob(k >= 2, "lookup", "successful connections were found: %d" % k, c.where(s.connect))
    # the duration is handed out unchanged
    for g in c.p.local_fns(("fn",)):
        t = g.local_ty(1) if g.argc == 1 else {}
        while t.get("k") == "ref" and t.get("args"):
            t = g.ty(t["args"][0])
        if t.get("adt") == s.S and g.sig()[1].endswith("Duration"):
            for variant, i in ((s.plain, s.pdur), (s.cipher, s.cdur)):
                me = s.make(variant)
                e, ps = c.run(g, {1: me})
                c.ob(ps and all(p.kind == "ret" and final(e, p) is me.a[2 + i] for p in ps), "resolve of " + str(variant), "%s yields the time measured" % g.name, c.where(g))


def called(y):
    """a call of a function value"""
    return y.name == "callvalue" or y.name.startswith("ops::function::Fn")


# ---------------------------------------------------------------- P37
CLOCK = "time::SystemTime::now"


def clock_reading(p, t):
    """the event index of the reading of the clock t tells, 'epoch' if the clock
    is before the epoch and t is zero, None if t is something else"""
    if t.op == "fld" and t.a[1:] == (0, 0):
        d = t.a[0]
        if d.op == "call" and d.a[0] in ("time::SystemTime::duration_since", "time::SystemTime::elapsed"):
            now, since = d.a[1], d.a[2] if len(d.a) > 2 else None
            if since is not None and "UNIX_EPOCH" in str(since.a[0]) and now.op == "call" and now.a[0] == CLOCK:
                at = [i for i, y in enumerate(p.events) if y.kind == "call" and y.res is now]
                return at[0] if at else None
            if since is None or d.a[0].endswith("elapsed"):
                at = [i for i, y in enumerate(p.events) if y.kind == "call" and y.res is d]
                return at[0] if at and "UNIX_EPOCH" in show(d.a[1]) else None
    if t.op == "duration" and t.a[0] == 0 or t.op == "const" and str(t.a[0]).endswith("Duration::ZERO"):
        for y in conds(p):
            d = y.term.a[0] if y.term.op == "discr" else None
            if d is not None and d.op == "call" and d.a[0] in ("time::SystemTime::duration_since", "time::SystemTime::elapsed") and (y.val == 1) == y.eq:
                return "epoch"
    return None


@prop("P37", floor=20, technique="provenance of the recorded clock readings on every path of the exchange, ordered against its steps",
      assumptions=["the system clock is not set back during an exchange"],
      explain="on every path of the sending function, with and without failures, the begin is the clock before the first step and the end a reading after the last step, both since 1970")
def p37(c):
    x = Exchange(c)
    w = x.w
    fs = c.fields(x.Time)
    for n in ("start", "end"):
        if n not in fs:
            raise Missing("the %s of an exchange" % n)
    n = 0
    for p in x.ps:
        if p.kind != "ret":
            c.ob(False, "total", "an exchange ends with a result", w)
            continue
        t = x.parts(p)["time"]
        if t is None or t.op != "adt":
            c.ob(False, "time", "the times are known: %s" % (show(t, 3) if t is not None else None), w)
            continue
        steps = [i for i, y in enumerate(p.events) if y.kind == "step" and y.name != "failed"]
        failed = any(y.kind == "step" and y.name == "failed" for y in p.events)
        if not steps:
            c.ob(False, "steps", "an exchange connects", w)
            continue
        a, b = [t.a[2 + fs.index(k)] for k in ("start", "end")]
        i, j = clock_reading(p, a), clock_reading(p, b)
        key = "failure" if failed else "success"
        n += 1
        c.ob(i == "epoch" or i is not None and i < steps[0], key + " start", "the exchange began when the clock was read before its first step: %s" % show(a, 4), w)
        total = t.a[2 + fs.index("total")]
        moved = b.op == "dadd" and set(b.a) == {a, total}
        if failed:
            c.ob(j == "epoch" or moved or j is not None and (i == "epoch" or i is not None and j >= i), key + " end", "the exchange did not end before it began: %s" % show(b, 4), w)
        else:
            c.ob(j == "epoch" or moved or j is not None and j > steps[-1], key + " end", "the exchange ended when the clock was read after its last step: %s" % show(b, 4), w)
    c.ob(n >= 4, "paths", "paths of an exchange were found: %d" % n, w)


# ---------------------------------------------------------------- P38
CLOCKS = ("elapsed", "since", "duration_since")
WAITS = ("sleep", "sleep_ms", "sleep_until", "park", "park_timeout", "wait_timeout", "wait_timeout_while", "recv_deadline")


def is_none(p, t):
    """the path knows an option to be absent"""
    if t is NONE:
        return True
    return any(e.term.op == "discr" and e.term.a[0] is t and (e.val == 0) == bool(e.eq) and e.val in (0, 1) for e in conds(p))


def none_given(p, limit):
    """the path knows a part of what is given to be absent"""
    return any(e.term.op == "discr" and base_fld(e.term.a[0]) in limit and is_none(p, e.term.a[0]) for e in conds(p))


def timed(t):
    """does a term depend on how long something took?"""
    return any(y.op in ("since", "dadd", "dsub") or y.op == "call" and y.a[0].startswith("time::Instant") and y.a[0].rsplit("::", 1)[-1] in CLOCKS for y in subterms(t))


def paths_of(p):
    """a path, the iterations of its loops and the paths of the threads it starts"""
    yield p
    for x in p.events:
        if x.kind == "loop":
            for q in list(x.iters) + list(x.exits):
                yield from paths_of(q)
        elif x.kind == "spawn":
            for q in x.outs or ():
                yield from paths_of(q)


@prop("P38", floor=25, technique="value flow of time limits: every call site that can limit a wait is found and its limit traced to a field of the client; constructors of the client folded; no branch of an exchange depends on a measured time",
      assumptions=["an option set_read_timeout(None) of the standard library means no limit"],
      explain="the limit given to each attempt to connect and to each read must be the client's own (through the parameters of connect and of the race), the client evaluation uses must have none, and nothing else may limit, skip or prolong a wait")
def p38(c):
    s = Streams(c)
    x = Exchange(c)
    w = c.where(s.connect)
    par = lambda f, i: mk("param", i, f.locals[i].get("name", ""))
    # the connecting function: which parameter limits what
    pars = [par(s.connect, i + 1) for i in range(s.connect.argc)]
    e, ps = c.run(s.connect, opaque=[s.race.path])
    rl = [i for i, t in enumerate(s.race.sig()[0]) if "SocketAddr>" not in t]
    used = {"connect": set(), "read": set()}
    n = 0
    for p in ps:
        if p.kind != "ret":
            continue
        v = final(e, p)
        reads = []
        for y in p.events:
            if y.kind != "call":
                continue
            short = y.name.rsplit("::", 1)[-1]
            if y.name == s.race.path:
                for i in rl:
                    used["connect"].add(whole(y.args[i]))
            elif "TcpStream" in y.name and short == "set_read_timeout":
                reads.append(whole(y.args[1]))
                used["read"].add(reads[-1])
            elif "TcpStream" in y.name and short == "set_write_timeout":
                c.ob(is_none(p, y.args[1]), "write", "no limit is put on writing: %s" % show(y.args[1], 4), w)
        if is_ok(v):
            n += 1
            c.ob(len(reads) == 1 or not reads and any(e.term.op == "discr" and base_fld(e.term.a[0]) in set(pars) and is_none(p, e.term.a[0]) for e in conds(p)), "read set", "the limit of reading is set on the connection (%d times)" % len(reads), w)
    c.ob(n >= 2, "connects", "paths that connect were found: %d" % n, w)
    own = {k: {t for t in used[k] if t is not NONE} for k in used}
    for k in ("connect", "read"):
        c.ob(all(base_fld(t) in pars for t in own[k]), k + " limit", "the limit of every %s is the one connecting was given: %s" % (k, [show(t, 4) for t in own[k]][:3]), w)
        c.ob(len(own[k]) <= 1, k + " one limit", "every %s has the same limit" % k, w)
    c.ob(not (own["connect"] & own["read"]), "two limits", "connecting and reading have limits of their own", w)
    # the race: each attempt has the limit given
    e, ps = c.run(s.race)
    tries = 0
    wr = c.where(s.race)
    limit = [par(s.race, i + 1) for i in rl]
    for p0 in ps:
        for p in paths_of(p0):
            for y in p.events:
                if y.kind == "call" and y.name in TCP:
                    tries += 1
                    if y.name.endswith("connect_timeout"):
                        c.ob(any(y.args[1] is proj(t, (1, 0)) for t in limit + [y.args[1].a[0]] if t.op in ("fld", "param") and base_fld(t) in limit), "attempt limit", "an attempt to connect has the limit given: %s" % show(y.args[1], 4), wr)
                    else:
                        c.ob(any(none_given(q, limit) for q in (p, p0)), "attempt no limit", "an attempt is only made without a limit if none is given", wr)
                elif y.kind == "cond":
                    c.ob(not timed(y.term), "race clock", "connecting does not depend on the time it has taken: %s" % show(y.term, 5), wr)
    c.ob(tries >= 2, "attempts", "attempts to connect were found: %d" % tries, wr)
    # the client: its fields are the limits
    fields = {k: set() for k in own}
    for p in x.ps:
        for y in p.events:
            if y.kind == "step" and y.name == "connect":
                for k in own:
                    for t in own[k]:
                        if base_fld(t) in pars:
                            fields[k].add(given(t, y.args[pars.index(base_fld(t))]))
    me = mk("param", 1, x.f.locals[1].get("name", ""))
    for k, ts in fields.items():
        c.ob(len(ts) <= 1 and all(t is NONE or t.op == "fld" and base_fld(t) is me for t in ts), "client " + k, "the limit of every %s is that of the client: %s" % (k, [show(t, 4) for t in ts]), x.w)
    c.ob(not (fields["connect"] & fields["read"] - {NONE}), "client two", "the client has a limit of its own for each", x.w)
    # clients made: without limits
    C = x.f.ty(x.f.self_ty).get("adt")
    durs = [i for i, f in enumerate(c.p.variants(C)[0]["fields"]) if "Duration" in f["tys"]]
    made = 0
    for g in c.p.local_fns():
        if not any(st[0] == "=" and st[2][0] == "agg" and st[2][1][0] == "adt" and st[2][1][1] == C for b in g.blocks for st in b["s"]):
            continue
        made += 1
        e, ps = c.run(g)
        for p in ps:
            if p.kind != "ret":
                continue
            for y in subterms(e.norm(p.st, p.val)):
                if y.op == "adt" and y.a[0] == C:
                    c.ob(all(y.a[2 + i] is NONE for i in durs), "default " + g.name, "a client is made without limits: %s" % show(y, 4), c.where(g))
    c.ob(made >= 1, "clients", "functions that make clients were found: %d" % made, x.w)
    # nothing else limits a wait
    for g in (s.io("read"), s.io("write"), s.io("flush"), x.rwrite, x.pfrom):
        e, ps = c.run(g)
        for p0 in ps:
            for p in paths_of(p0):
                for y in p.events:
                    if y.kind == "cond":
                        c.ob(not timed(y.term), "clock " + g.name, "%s does not depend on the time it has taken: %s" % (g.name, show(y.term, 5)), c.where(g))
    race = set(c.run(s.race)[0].stats["functions"])
    tree = set(c.run(s.connect)[0].stats["functions"])
    sites = 0
    for g in c.p.local_fns():
        if "lib::" not in g.path:
            continue
        for b in g.blocks:
            t = b["t"]
            if t["k"] != "call" or t["f"][0] != "const" or "fn" not in t["f"][1]:
                continue
            nm = absint.canon(t["f"][1]["fn"]["path"])
            short = nm.rsplit("::", 1)[-1]
            if "TcpStream" in nm or nm.startswith("net::"):
                sites += 1
                if short in ("set_read_timeout", "set_write_timeout"):
                    # (those it is given while connecting are judged above)
                    c.ob(g.path in tree, "limit " + g.path, "limits are only set while connecting: %s" % g.path, c.where(g))
                c.ob(short not in ("set_nonblocking", "shutdown", "set_linger", "set_ttl"), "socket " + g.path, "%s does not cut the connection short: %s" % (g.path, short), c.where(g))
            elif short in WAITS and nm.startswith(("thread::", "sync::")):
                sites += 1
                c.ob(False, "wait " + g.path, "%s waits for nothing but its peer: %s" % (g.path, nm), c.where(g))
            elif short in ("recv_timeout", "try_recv") and nm.startswith("sync::mpsc"):
                sites += 1
                c.ob(g.path in race, "pause " + g.path, "only the race between addresses pauses: %s" % g.path, c.where(g))
    c.ob(sites >= 3, "sites", "call sites that configure sockets or wait were found: %d" % sites, w)


def whole(t):
    """an option put together again from what it has"""
    x = t.a[2] if t.op == "adt" and t.a[0] == OPTION and t.a[1] == 1 else None
    return x.a[0] if x is not None and x.op == "fld" and x.a[1:] == (1, 0) else t


def given(t, v):
    """the part of a value that t is of its parameter"""
    return proj(given(t.a[0], v), (t.a[1], t.a[2])) if t.op == "fld" else v


def base_fld(t):
    while t.op == "fld":
        t = t.a[0]
    return t

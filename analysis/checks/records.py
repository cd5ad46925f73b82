"""Record files: P30 (fields against the schema), P31 (framing and integer
encoding), P32 (complete output, reported failures)."""
import json
import re

import absint
import models
from run import prop
from rules import *

PRIM = {"i64": "long", "i32": "long", "bool": "bool"}


class Writers:
    def __init__(self, c):
        self.c = c
        self.W = c.adt("writer::Writer")
        self.R = c.adt("context::Record")
        # the encoders: (value, buffer) -> ()
        self.enc = {}
        for f in c.p.local_fns(("fn",)):
            ins, out = f.sig()
            if f.kind != "fn" or out != "()" or len(ins) != 2 or not ins[1].startswith("&mut ") or f.trait:
                continue
            if "Vec<u8>" not in ins[1] and not re.fullmatch(r"&mut [A-Z]\w*", ins[1]):
                continue
            k = PRIM.get(ins[0])
            if ins[0] in ("&B", "&[u8]", "&str", "&T") or re.fullmatch(r"&?[A-Z]", ins[0]):
                k = "bytes"
            if ins[0] == "u64":
                k = "variable"
            if k:
                self.enc.setdefault(k, []).append(f)
        if not self.enc.get("long") or not self.enc.get("bytes"):
            raise Missing("no encoders of integers and byte strings (value, &mut Vec<u8>)")
        self.new = c.fn(pred=lambda f: f.sig()[1].endswith("writer::Writer<W>"))
        self.write = c.fn(pred=lambda f: f.argc >= 2 and f.sig()[0][0].endswith("writer::Writer<W>") and f.sig()[0][0].startswith("&mut ") and any(
            re.fullmatch(r"&\[.*Record\]|&.*Vec<.*Record>", x) for x in f.sig()[0][1:]))
        self.stubs = {}
        for k in ("long", "bytes", "bool"):
            for f in self.enc.get(k, ()):
                self.stubs[f.path] = type("S", (), {"full": staticmethod(encoder(k))})

    def param(self, f, i):
        return mk("param", i, f.locals[i].get("name", ""))


def encoder(kind):
    def full(ctx, st, a):
        e = ctx.eng
        root, path = e.target(st, a[1])
        old = st.read(root, path)
        if old.op == "ptr":
            old = e.norm(st, old)
        st.write(root, path, models.cat(old, mk("enc", kind, e.norm(st, a[0]))))
        return [(st, absint.UNIT)]
    return full


# ---------------------------------------------------------------- what a buffer holds
def pieces(t, events):
    """the parts of a byte string built on a path; a loop that appends to it is
    one part ("each", loop, variable) behind what it started from"""
    loops = {e.id: e for e in events if e.kind == "loop"}
    out = []
    for h in (t.a if t.op == "cat" else [t]):
        if h.op == "phi" and h.a[0] in loops and h in loops[h.a[0]].init:
            ev = loops[h.a[0]]
            out += pieces(ev.init[h], events[:events.index(ev)]) + unrolled(ev, h)
        elif h is not STR("") and h is not mk("seq"):
            out.append(h)
    return out


def unrolled(ev, h):
    """the part a loop appends; written out for a loop over a literal list"""
    li = info(ev)
    whole = [("each", ev, h)]
    if li.coll is None or li.coll.op not in ("array", "seq") or len(ev.iters) != 1 or not all(exhaust(li, x) for x in ev.exits):
        return whole
    q = ev.iters[0]
    ps = pieces(q.updates[h], q.events)
    if not ps or ps[0] is not h or not all(isinstance(x, T) for x in ps):
        return whole
    it = mk("each", ev.id, li.coll)
    ps = [li.canon(x) for x in ps[1:]]
    if any(li.own(x) or any(y.op == "count" and y.a[0] == ev.id for y in subterms(x)) for x in ps):
        return whole
    return [simp(rewrite(x, lambda y: el if y is it else y)) for el in li.coll.a for x in ps]


class Bad(Exception):
    pass


def enc(x, kind):
    return isinstance(x, T) and x.op == "enc" and x.a[0] == kind


WIDE = ("i64", "u64", "usize", "isize", "i128", "u128")


def uncast(t, to=()):
    """the number behind conversions that keep it"""
    while t.op == "cast" and (t.a[0] in WIDE or t.a[0] in to):
        t = t.a[1]
    return t


def text_of(t):
    """the value whose text this is"""
    while True:
        if t.op == "display":
            t = t.a[0]
        elif t.op == "call" and re.search(r"AsRef|ToString|Display|as_bytes|as_str", t.a[0]) and len(t.a) == 2:
            t = t.a[1]
        elif t.op == "cat" and len(t.a) == 1:
            t = t.a[0]
        else:
            return t


def nanos(t):
    t = uncast(t)
    if t.op == "call" and t.a[0].endswith("Duration::as_nanos"):
        return t.a[1]
    return None


def emptiness(events, coll):
    """what the path knows about a collection being empty"""
    for e in events:
        if e.kind != "cond" or not isinstance(e.val, bool):
            continue
        v = (e.val is True) == bool(e.eq)
        t = e.term
        if t is mk("lt", INT(0), mk("len", coll)):
            return not v
        if t in (mk("eq", mk("len", coll), INT(0)), mk("eq", INT(0), mk("len", coll))):
            return v
        if t is mk("more", mk("cursor", coll)):
            return not v
        if t is mk("le", mk("len", coll), INT(0)):
            return v
    return None


def schema_of(hdr):
    for t in subterms(hdr):
        if t.op == "str" and '"fields"' in t.a[0] and t.a[0].lstrip().startswith("{"):
            return json.loads(t.a[0])
    raise Missing("no schema in the header")


class Fields:
    """parts of one record against the schema"""

    def __init__(self, w, rec, order, cn):
        self.w, self.c, self.cn = w, w.c, cn
        self.rec, self.order = rec, order
        f = w.write
        self.params = {}
        for i in range(2, f.argc + 1):
            self.params[f.locals[i].get("name", "")] = w.param(f, i)
        ints = [i for i in range(2, f.argc + 1) if f.sig()[0][i - 1] in ("u32", "u64", "usize", "i64", "i32")]
        strs = [i for i in range(2, f.argc + 1) if f.sig()[0][i - 1] in ("&str", "&alloc::string::String")]
        self.top = {}
        if len(strs) == 1:
            self.top["name"] = w.param(f, strs[0])
        if len(ints) == 2:
            self.top["thread"], self.top["number"] = w.param(f, ints[0]), w.param(f, ints[1])

    def path(self, base, adt, names):
        """the field reached from a value of type adt by the names, and its type"""
        t = base
        for n in names:
            a = self.c.adt(adt)
            t = proj(t, (None, self.c.field(a, n)))
            adt = [x for x in self.c.p.variants(a)[0]["fields"] if x["name"] == n][0]["tys"]
        return t

    def expected(self, name):
        """the value of the record a field of the schema is named after"""
        if name in self.top:
            return self.top[name]
        if name == "order":
            return self.order
        for pre in ("time", "request", "response"):
            if name.startswith(pre + "_"):
                rest = name[len(pre) + 1:]
                sub = self.c.adt([x for x in self.c.p.variants(self.w.R)[0]["fields"] if x["name"] == pre][0]["tys"])
                if rest not in self.c.fields(sub):
                    # the name of the request is kept in the record
                    return self.path(self.rec, self.w.R, (rest,))
                return self.path(self.rec, self.w.R, (pre, rest))
        return self.path(self.rec, self.w.R, (name,))

    def value(self, ty, want, ps, name, events, ctx):
        """consumes the parts that encode one value; raises Bad"""
        if not ps:
            raise Bad("%s is not written" % name)
        h = ps[0]
        if ty == "string":
            if not enc(h, "bytes") or text_of(h.a[1]) is not want:
                raise Bad("%s: a string with the text of %s is due, but %s is written" % (name, show(want), pshow(h)))
            return ps[1:]
        if ty in ("long", "int"):
            if not enc(h, "long"):
                raise Bad("%s: a %s is due, but %s is written" % (name, ty, pshow(h)))
            v = h.a[1]
            got = nanos(v) if name.split(".")[-1].startswith("time_") else ctx(uncast(v, ("i32", "u32") if ty == "int" else ()))
            if got is not want:
                raise Bad("%s: %s is due, but %s is written" % (name, show(want), pshow(h)))
            return ps[1:]
        if ty == "boolean":
            if not enc(h, "bool") or h.a[1] is not want:
                raise Bad("%s: the truth of %s is due, but %s is written" % (name, show(want), pshow(h)))
            return ps[1:]
        if ty["type"] == "array":
            return self.array(ty["items"], want, ps, name, events)
        raise Bad("%s: no rule for %s" % (name, ty))

    def array(self, items, want, ps, name, events):
        h = ps[0]
        colls = [x.a[0] for x in ([uncast(h.a[1])] if enc(h, "long") else []) if x.op == "len"]
        loops = [x for x in ps[:2] if not isinstance(x, T) and x[0] == "each"]
        if not enc(h, "long"):
            raise Bad("%s: the number of its items is due, but %s is written" % (name, pshow(h)))
        n = uncast(h.a[1])
        if n.op == "int" and emptiness(events, want) is True or n.op == "int" and any(emptiness(events, x) is True for x in inside(want, events)):
            if n is INT(0):
                return ps[1:]
        if n.op != "len" or not within(n.a[0], want):
            raise Bad("%s: the count of %s is due, but %s is written" % (name, show(want), pshow(h)))
        coll = n.a[0]
        rest = ps[1:]
        empty = emptiness(events, coll)
        if rest and not isinstance(rest[0], T) and rest[0][0] == "each":
            _, ev, ph = rest[0]
            self.items(ev, ph, coll, items, name)
            rest = rest[1:]
        elif empty is not True:
            raise Bad("%s: the items of %s are due, but %s is written" % (name, show(want), pshow(rest[0]) if rest else "nothing"))
        if empty is True:
            return rest
        if empty is None:
            raise Bad("%s: the end of the array is the same for an empty array and one with items" % name)
        if not rest or not enc(rest[0], "long") or uncast(rest[0].a[1]) is not INT(0):
            raise Bad("%s: the end of the array is due, but %s is written" % (name, pshow(rest[0]) if rest else "nothing"))
        return rest[1:]

    def items(self, ev, ph, coll, items, name):
        li = info(ev)
        lc = self.cn(li.coll) if li.coll is not None else None
        if lc is not coll:
            raise Bad("%s: the items written are those of %s, not %s" % (name, show(lc) if lc is not None else "no collection", show(coll)))
        if any(not exhaust(li, x) for x in ev.exits):
            raise Bad("%s: the loop over the items may end early" % name)
        it = mk("each", ev.id, coll)
        for q in ev.iters:
            ps = pieces(q.updates[ph], q.events + [])
            if not ps or ps[0] is not ph:
                raise Bad("%s: an item is not appended" % name)
            ps = [self.cn(li.canon(x)) if isinstance(x, T) else x for x in ps[1:]]
            ps = self.item(items, it, ps, name, q.events)
            if ps:
                raise Bad("%s: %s is written after an item" % (name, pshow(ps[0])))

    def item(self, ty, it, ps, name, events):
        if isinstance(ty, dict) and ty["type"] == "record":
            for f in ty["fields"]:
                ps = self.value(f["type"], self.path(it, "context::Assert", (f["name"],)), ps, name + "." + f["name"], events, lambda x: x)
            return ps
        if isinstance(ty, dict) and ty["type"] == "array":
            # name and value of a header
            wants = [self.path(it, "http::header::Header", (n,)) for n in ("name", "value")]
            if not ps or not enc(ps[0], "long") or ps[0].a[1] is not INT(len(wants)):
                raise Bad("%s: the number of the parts of a header (%d) is due, but %s is written" % (name, len(wants), pshow(ps[0]) if ps else "nothing"))
            ps = ps[1:]
            for x in wants:
                ps = self.value(ty["items"], x, ps, name + " item", events, lambda y: y)
            if not ps or not enc(ps[0], "long") or ps[0].a[1] is not INT(0):
                raise Bad("%s: the end of a header is due, but %s is written" % (name, pshow(ps[0]) if ps else "nothing"))
            return ps[1:]
        return self.value(ty, it, ps, name + " item", events, lambda y: y)


def exhaust(li, q):
    return any(li.canon(e.term).op == "left" and ((e.val is False) == bool(e.eq)) for e in conds(q))


def canon(li, x):
    if isinstance(x, T):
        return li.canon(x)
    return x


def within(t, want):
    while t is not want:
        if t.op != "fld":
            return False
        t = t.a[0]
    return True


def inside(want, events):
    return [x.a[0] for e in conds_of(events) for x in subterms(e.term) if x.op == "len" and within(x.a[0], want)]


def conds_of(events):
    return [e for e in events if e.kind == "cond"]


def pshow(x):
    if isinstance(x, T):
        return show(x, 6)
    if x[0] == "each":
        return "the result of the loop at %s" % getattr(x[1], "span", "?")
    return str(x[0])


def sinks(events):
    return [e for e in events if e.kind == "call" and e.name == "sink" and not e.mem]


@prop("P30", floor=40, technique="abstract interpretation of the encoder; its output on every path matched, part by part, against the schema of the file header",
      explain="the bytes appended per record are summarised over all paths and loops and parsed by the schema")
def p30(c):
    w = Writers(c)
    e0, hp = c.run(w.new, stubs=w.stubs)
    hdr = [x for p in hp for x in sinks(p.events)]
    if not hdr:
        raise Missing("no header is written")
    schema = schema_of(mk("h", *[y for x in hdr for y in x.args] + [v for p in hp for e in p.events if e.kind == "loop" for v in e.init.values()]))
    c.ob(schema.get("type") == "record", "schema", "the schema describes a record", c.where(w.new))
    e, ps = c.run(w.write, stubs=w.stubs)
    wh = c.where(w.write)
    recs = [i for i in range(2, w.write.argc + 1) if "Record" in w.write.sig()[0][i - 1]]
    records = w.param(w.write, recs[0])
    done = set()
    names = [f["name"] for f in schema["fields"]]
    c.ob(len(set(names)) == len(names), "schema names", "the fields of the schema have distinct names", wh)
    for p in ps:
        outer = None
        for ev in p.events:
            if ev.kind == "loop" and info(ev).coll is records:
                outer = ev if outer is None else outer
        if outer is None:
            # no record, nothing to write
            c.ob(emptiness(p.events, records) is True, "records", "every record is encoded: a path without a loop over the records", wh)
            continue
        if id(outer) in done:
            continue
        done.add(id(outer))
        li = info(outer)
        c.ob(all(exhaust(li, x) for x in outer.exits), "all records", "the loop over the records ends only after the last", wh)
        bufs = [ph for ph, v in outer.init.items() if any(enc(y, k) for q in outer.iters for y in subterms(q.updates[ph]) for k in ("long", "bytes", "bool"))]
        if not c.ob(len(bufs) == 1, "buffer", "one buffer receives the records (%d)" % len(bufs), wh):
            continue
        rec = mk("each", outer.id, records)
        order = [mk("count", outer.id, v0) for ph, v0 in li.counters]
        for k, q in enumerate(outer.iters):
            f = Fields(w, rec, None, li.canon)
            parts = pieces(q.updates[bufs[0]], q.events)
            if not parts or parts[0] is not bufs[0]:
                c.ob(False, "append", "a record is appended to the records before it: %s" % pshow(parts[0]), wh)
                continue
            parts = [canon(li, x) for x in parts[1:]]
            evs = [cond_canon(li, x) for x in q.events]
            try:
                for fd in schema["fields"]:
                    want = f.expected(fd["name"]) if fd["name"] != "order" else mk("count", outer.id, INT(0))
                    ctx = (lambda x: x)
                    parts = f.value(fd["type"], want, parts, fd["name"], evs, ctx)
                    c.ob(True, fd["name"], "written in its place with its encoding", wh)
                c.ob(not parts, "end", "nothing is written after the last field: %s" % (pshow(parts[0]) if parts else ""), wh)
            except Bad as x:
                c.ob(False, "fields", str(x), wh)
            except Missing as x:
                c.ob(False, "fields", "a field of the schema is no field of a record: %s" % x, wh)


def cond_canon(li, x):
    if x.kind == "cond":
        n = Ev("cond", **dict(vars(x)))
        n.term = li.canon(x.term)
        return n
    if x.kind == "loop":
        n = Ev("loop", **{k: v for k, v in vars(x).items() if k != "info_"})
        n.init = {k: li.canon(v) for k, v in x.init.items()}
        return n
    return x


# ---------------------------------------------------------------- bits
class Bits:
    """a machine word as 64 sums (mod 2) of input bits; None where unknown"""

    def __init__(self, bits, signed):
        self.b, self.signed = bits, signed


ZERO, ONE = frozenset(), frozenset([1])
WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64}


def word(name, ty, facts=None):
    n = WIDTH[ty]
    b = [frozenset([(name, k)]) for k in range(n)]
    for k, v in (facts or {}).items():
        b[k] = ONE if v else ZERO
    return Bits(b, ty[0] == "i")


def bits(t, env, width=64):
    """the bits of a term; env: {term: Bits}"""
    if t in env:
        return env[t]
    if t.op == "int":
        return Bits([ONE if (t.a[0] >> k) & 1 else ZERO for k in range(width)], t.a[0] < 0)
    if t.op == "cast" and t.a[0] in WIDTH:
        x = bits(t.a[1], env, width)
        if x is None:
            return None
        n = WIDTH[t.a[0]]
        fill = x.b[-1] if x.signed else ZERO
        return Bits((x.b + [fill] * n)[:n], t.a[0][0] == "i")
    if t.op in ("bitxor", "bitor", "bitand", "add", "sub"):
        x, y = bits(t.a[0], env, width), bits(t.a[1], env, width)
        if x is None or y is None:
            return None
        n = len(x.b) if t.a[0].op != "int" else len(y.b)
        if t.a[0].op == "int":
            x = bits(t.a[0], env, n)
        if t.a[1].op == "int":
            y = bits(t.a[1], env, n)
        if len(x.b) != len(y.b):
            return None
        signed = y.signed if t.a[0].op == "int" else x.signed
        out = []
        for p, q in zip(x.b, y.b):
            if p is None or q is None:
                out.append(ZERO if t.op == "bitand" and ZERO in (p, q) else None)
            elif t.op == "bitxor":
                out.append(p ^ q)
            elif t.op == "bitand":
                out.append(ZERO if ZERO in (p, q) else q if p == ONE else p if q == ONE or p == q else None)
            elif t.op == "bitor":
                out.append(ONE if ONE in (p, q) else q if p == ZERO else p if q == ZERO or p == q else None)
            elif t.op == "add":
                # no carry as long as one of the two bits is clear
                if ZERO not in (p, q) or None in out:
                    out.append(None)
                else:
                    out.append(p ^ q)
            else:
                return None
        return Bits(out, signed)
    if t.op in ("not", "bitnot"):
        x = bits(t.a[0], env, width)
        return None if x is None else Bits([None if p is None else p ^ ONE for p in x.b], x.signed)
    if t.op in ("shl", "shr") and t.a[1].op == "int":
        x = bits(t.a[0], env, width)
        if x is None:
            return None
        n, k = len(x.b), t.a[1].a[0]
        if not 0 <= k < n:
            return None
        if t.op == "shl":
            return Bits([ZERO] * k + x.b[:n - k], x.signed)
        return Bits(x.b[k:] + [x.b[-1] if x.signed else ZERO] * k, x.signed)
    if t.op == "mul" and INT(2) in t.a:
        return bits(mk("shl", t.a[1] if t.a[0] is INT(2) else t.a[0], INT(1)), env, width)
    if t.op == "div" and t.a[1].op == "int" and t.a[1].a[0] & (t.a[1].a[0] - 1) == 0 and t.a[1].a[0] > 0:
        x = bits(t.a[0], env, width)
        return bits(mk("shr", t.a[0], INT(t.a[1].a[0].bit_length() - 1)), env, width) if x is not None and not x.signed else None
    if t.op == "rem" and t.a[1].op == "int" and t.a[1].a[0] & (t.a[1].a[0] - 1) == 0 and t.a[1].a[0] > 0:
        x = bits(t.a[0], env, width)
        return bits(mk("bitand", t.a[0], INT(t.a[1].a[0] - 1)), env, width) if x is not None and not x.signed else None
    if t.op == "call" and t.a[0].endswith(("wrapping_shl", "wrapping_shr")) and len(t.a) == 3:
        return bits(mk(t.a[0][-3:], t.a[1], t.a[2]), env, width)
    if t.op == "neg":
        return None
    return None


def negative(events, i):
    """what the path knows about the sign of i"""
    for e in conds_of(events):
        if not isinstance(e.val, bool):
            continue
        v = (e.val is True) == bool(e.eq)
        if e.term is mk("lt", i, INT(0)):
            return v
        if e.term is mk("le", INT(0), i):
            return not v
        if e.term is mk("le", i, INT(-1)):
            return v
        if e.term is mk("lt", INT(-1), i):
            return not v
    return None


def small(e, z):
    """True: the condition says that z is below 128; False: it is not"""
    if e.kind != "cond" or not isinstance(e.val, bool):
        return None
    v = (e.val is True) == bool(e.eq)
    t = e.term
    if t in (mk("le", z, INT(127)), mk("lt", z, INT(128))):
        return v
    if t in (mk("lt", INT(127), z), mk("le", INT(128), z)):
        return not v
    zero = None
    if t.op == "eq" and INT(0) in t.a:
        zero, x = v, t.a[1] if t.a[0] is INT(0) else t.a[0]
    elif t.op == "lt" and t.a[0] is INT(0):
        zero, x = not v, t.a[1]
    if zero is not None:
        b = bits(x, {z: word("z", "u64")})
        if b is not None and None not in b.b:
            seen = set().union(*b.b)
            if seen == {("z", k) for k in range(7, 64)} and all(len(y) <= 1 for y in b.b):
                return zero
    return None


def byte_ok(t, z, more):
    """t is the byte of the low seven bits of z, with the top bit iff more"""
    env = {z: word("z", "u64", None if more else {k: 0 for k in range(7, 64)})}
    b = bits(mk("cast", "u8", t), env)
    want = [frozenset([("z", k)]) for k in range(7)] + [ONE if more else ZERO]
    return b is not None and b.b[:8] == want


def appended(t, ph):
    """the bytes appended to ph"""
    if t is ph:
        return []
    if t.op == "cat" and t.a[0] is ph:
        out = []
        for x in t.a[1:]:
            if x.op == "byte":
                out.append(x.a[0])
            elif x.op == "str":
                out += [INT(k) for k in x.a[0].encode()]
            else:
                return None
        return out
    return None


def varint(c, f, w, value, p, e, buf):
    """path p of f appends the base 128 groups of a number to its buffer,
    low groups first; the number (a term), or None"""
    end = e.norm(p.st, p.st.mem[buf])
    loops = [x for x in p.events if x.kind == "loop" and any(h in x.init for h in (end.a if end.op == "cat" else [end]))]
    if len(loops) != 1:
        return None, "the groups are not written by one loop"
    ev = loops[0]
    bph = [h for h in (end.a if end.op == "cat" else [end]) if h in ev.init][0]
    zs = [ph for ph, u in ev.init.items() if ph is not bph]
    if len(zs) != 1:
        return None, "the loop keeps %d numbers" % len(zs)
    z = zs[0]
    if not (ev.init[bph].op == "param" or ev.init[bph] is p.st.mem.get(buf)):
        return None, "the loop starts with %s in the buffer" % show(ev.init[bph])
    for q in ev.iters:
        if not any(small(x, z) is False for x in q.events):
            return None, "a group is followed by another one although the number may be below 128"
        add = appended(q.updates[bph], bph)
        if add is None or len(add) != 1 or not byte_ok(add[0], z, True):
            return None, "a group that is not the last is %s" % ([show(x, 6) for x in add] if add is not None else show(q.updates[bph], 6))
        b = bits(q.updates[z], {z: word("z", "u64")})
        if b is None or b.b != [frozenset([("z", k)]) for k in range(7, 64)] + [ZERO] * 7:
            return None, "the next group is taken from %s" % show(q.updates[z], 6)
    i = p.events.index(ev)
    if not any(small(x, z) is True for x in p.events[i + 1:]):
        return None, "the last group is written although the number may be above 127"
    add = appended(end, bph)
    if add is None or len(add) != 1 or not byte_ok(add[0], z, False):
        return None, "the last group is %s" % ([show(x, 6) for x in add] if add is not None else show(end, 6))
    return ev.init[z], ""


@prop("P31", floor=14, technique="abstract interpretation of the encoders and of the block output; zig-zag and base 128 decided bit by bit over GF(2), framing by matching the output terms",
      explain="integer encoding decided for all 2^64 values by linear bit vectors; header and block framing matched on all paths")
def p31(c):
    w = Writers(c)
    marker = integers(c, w)
    # header
    e, hp = c.run(w.new, stubs=w.stubs)
    wn, wh = c.where(w.new), c.where(w.write)
    marks = set()
    for p in hp:
        ss = sinks(p.events)
        if cut_short(p, ss, hp):
            continue
        out = pieces(models.cat(*[s_.args[1] for s_ in ss]), p.events)
        marks.add(header(c, out, wn))
    # blocks
    e, ps = c.run(w.write, stubs=w.stubs)
    recs = [i for i in range(2, w.write.argc + 1) if "Record" in w.write.sig()[0][i - 1]]
    records = w.param(w.write, recs[0])
    for p in ps:
        ss = sinks(p.events)
        if not ss and emptiness(p.events, records) is True:
            continue
        whole = models.cat(*[s_.args[1] for s_ in ss])
        out = []
        for x in whole.a if whole.op == "cat" else [whole]:
            # bytes are their length and themselves
            out += [mk("enc", "long", mk("len", x.a[1])), x.a[1]] if enc(x, "bytes") else [x]
        if cut_short(p, ss, ps):
            continue
        if not c.ob(len(out) >= 4 and enc(out[0], "long") and enc(out[1], "long"), "block", "a block starts with two numbers: %s" % [pshow(x) for x in out[:4]], wh):
            continue
        n, size = uncast(out[0].a[1]), uncast(out[1].a[1])
        c.ob(n is mk("len", records), "count", "the first number is the number of records: %s" % show(n), wh)
        data, mark = out[2:-1], out[-1]
        whole = models.cat(*data) if len(data) != 1 else data[0]
        c.ob(size in (mk("len", whole),) or size.op == "len" and size.a[0] is whole, "size", "the second number is the length of the encoded records: %s" % show(size, 5), wh)
        # what is between the size and the marker are the encoded records
        loops = [x for x in data if x.op == "phi"]
        good = len(data) == 1 and len(loops) == 1
        if good:
            ev = [x for x in p.events if x.kind == "loop" and x.id == loops[0].a[0]]
            good = len(ev) == 1 and info(ev[0]).coll is records and ev[0].init[loops[0]] in (STR(""), mk("seq"))
        c.ob(good, "data", "the encoded records follow, and nothing else: %s" % [pshow(x) for x in data], wh)
        c.ob(mark.op == "str" and mark.a[0] in marks and len(marks) == 1, "marker", "a block ends with the marker of the header: %s, %s" % (show(mark), sorted(map(str, marks))), wh)


def failed(p, x):
    """does the path know that output call x failed?"""
    return any(y.kind == "cond" and y.term is mk("discr", x.res) and (y.val == 1) == bool(y.eq) for y in p.events)


def header(c, out, wn):
    """the parts of a file header; its marker"""
    ok_ = bool(out) and isinstance(out[0], T) and out[0].op == "str" and out[0].a[0] == "Obj\x01"
    c.ob(ok_, "magic", "a file starts with Obj 1: %s" % (pshow(out[0]) if out else "nothing"), wn)
    rest = out[1:]
    if not rest or not enc(rest[0], "long") or rest[0].a[1].op != "int":
        c.ob(False, "metadata", "the number of entries of the metadata follows: %s" % (pshow(rest[0]) if rest else "nothing"), wn)
        return None
    n = rest[0].a[1].a[0]
    rest = rest[1:]
    entries = []
    if rest and not isinstance(rest[0], T) and rest[0][0] == "each":
        _, ev, ph = rest[0]
        li = info(ev)
        it = mk("each", ev.id, li.coll) if li.coll is not None else None
        for q in ev.iters:
            ps = [li.canon(x) if isinstance(x, T) else x for x in pieces(q.updates[ph], q.events)]
            good = len(ps) == 3 and ps[0] is ph and all(enc(x, "bytes") for x in ps[1:]) and ps[1].a[1] is proj(it, (None, 0)) and ps[2].a[1] is proj(it, (None, 1))
            c.ob(good, "entry", "an entry is its key and its value: %s" % [pshow(x) for x in ps[1:]], wn)
        c.ob(all(exhaust(li, x) for x in ev.exits), "entries", "all entries are written", wn)
        if li.coll is not None and li.coll.op == "array":
            entries = [(x.a[0], x.a[1]) if x.op == "tuple" else (x, None) for x in li.coll.a]
        rest = rest[1:]
    else:
        flat_ = []
        while rest and enc(rest[0], "bytes"):
            flat_.append(rest[0].a[1])
            rest = rest[1:]
        entries = list(zip(flat_[0::2], flat_[1::2])) if len(flat_) % 2 == 0 else []
    c.ob(len(entries) == n and n > 0, "entry count", "the metadata has as many entries (%d) as announced (%d)" % (len(entries), n), wn)
    keys = {k.a[0]: v for k, v in entries if k.op == "str"}
    c.ob("avro.schema" in keys, "schema entry", "the metadata has the schema: %s" % sorted(keys), wn)
    c.ob("avro.codec" not in keys or keys["avro.codec"] is STR("null"), "codec", "the records are not compressed", wn)
    if rest and enc(rest[0], "long") and rest[0].a[1] is INT(0):
        rest = [STR("\0")] + rest[1:]
    text = "".join(x.a[0] for x in rest if isinstance(x, T) and x.op == "str")
    good = all(isinstance(x, T) and x.op == "str" for x in rest) and len(text.encode()) == 17 and text[0] == "\0"
    c.ob(good, "header end", "the metadata is ended by 0 and followed by a marker of 16 bytes: %r" % text, wn)
    return text[1:] if good else None


def cut_short(p, ss, ps):
    """p writes the part before a failure of what other paths write"""
    return ss and failed(p, ss[-1]) and any(len(sinks(q.events)) > len(ss) and sinks(q.events)[:len(ss)] == ss for q in ps)


def integers(c, w):
    for f in w.enc["long"]:
        wf = c.where(f)
        ty = f.sig()[0][0]
        e, ps = c.run(f)
        i = w.param(f, 1)
        n = 0
        for p in ps:
            if p.kind != "ret":
                continue
            n += 1
            num, why = varint(c, f, w, i, p, e, ("P", 2))
            if not c.ob(num is not None, "groups", "the number is written in groups of seven bits, low ones first, each but the last marked: %s" % why, wf):
                continue
            s = negative(p.events, i)
            facts = None if s is None else {63: s} if WIDTH[ty] == 64 else None
            a = word("i", ty, facts)
            z = bits(num, {i: a})
            x = Bits((a.b + [a.b[-1]] * 64)[:64], True)
            want = [x.b[63]] + [x.b[k] ^ x.b[63] for k in range(63)]
            c.ob(z is not None and z.b == want, "zig-zag", "the number written is (i << 1) ^ (i >> 63): %s" % show(num, 7), wf)
        c.ob(n, "long", "%d paths" % n, wf)
    for f in w.enc["bytes"]:
        wf = c.where(f)
        stubs = {k: v for k, v in w.stubs.items() if k != f.path}
        e, ps = c.run(f, stubs=stubs)
        for p in ps:
            end = e.norm(p.st, p.st.mem[("P", 2)])
            out = list(end.a) if end.op == "cat" else [end]
            s = text_of(out[-1])
            good = len(out) == 3 and out[0].op == "param" and enc(out[1], "long") and uncast(out[1].a[1]).op == "len" and text_of(uncast(out[1].a[1]).a[0]) is s and s is w.param(f, 1)
            c.ob(good, "bytes", "a byte string is its length in bytes and its bytes: %s" % [pshow(x) for x in out], wf)
    for f in w.enc.get("bool", ()):
        wf = c.where(f)
        e, ps = c.run(f)
        b = w.param(f, 1)
        for p in ps:
            end = e.norm(p.st, p.st.mem[("P", 2)])
            add = appended(end, w.param(f, 2)) if end.op == "cat" else None
            good = add is not None and len(add) == 1
            if good:
                x = uncast(add[0], ("u8",))
                fact = [(e2.val is True) == bool(e2.eq) for e2 in conds_of(p.events) if e2.term is b]
                good = x is b or (fact and x is INT(1 if fact[0] else 0))
            c.ob(good, "bool", "a boolean is one byte, 1 if it holds and 0 otherwise: %s" % show(end, 6), wf)


@prop("P32", floor=6, technique="effect analysis of the output calls of the record writer over all paths",
      explain="every output call of the record writer must be one that hands over everything, and its failure must reach a report")
def p32(c):
    w = Writers(c)
    for f in (w.new, w.write):
        wf = c.where(f)
        e, ps = c.run(f, stubs=w.stubs)
        n = 0
        for p in ps:
            n += outputs(c, p.events, p, wf, e)
        c.ob(n, "output of " + f.name, "%d output calls" % n, wf)
    # the file behind the writer
    n = 0
    for f in c.p.local_fns(("fn", "closure")):
        for x in types_of(f):
            m = re.search(r"writer::Writer<(.+)>", x)
            if m and "::" in m.group(1):
                n += 1
                inner = m.group(1)
                inner = inner[:inner.index(">")] if inner.count("<") < inner.count(">") else inner
                c.ob(inner.startswith("std::fs::File") or not any(y in inner for y in ("BufWriter", "LineWriter")), "file", "records go to a file without a buffer in front of it that is not flushed: %s" % inner, c.where(f))
    c.ob(n, "file", "%d uses of a writer" % n, c.where(w.new))


def types_of(f):
    return {t.get("s", "") for t in [f.ty(l["ty"]) if isinstance(l.get("ty"), int) else {} for l in f.locals]}


HANDOVER = ("write_all", "write_fmt")


def outputs(c, events, p, wf, e):
    n = 0
    for x in events:
        if x.kind == "loop":
            for q in list(x.iters) + list(x.exits):
                n += outputs(c, q.events, p, wf, e)
        if x.kind != "call":
            continue
        short = x.name.rsplit("::", 1)[-1]
        if x.name == "sink" and not x.mem:
            n += 1
            c.ob(x.via.rsplit("::", 1)[-1] in HANDOVER, "complete", "output is handed over completely: %s" % x.via, wf)
            reported(c, events, x, p, wf, e)
        elif "Write::" in x.name and short in ("write", "write_vectored"):
            n += 1
            c.ob(False, "complete", "%s hands over only a part of what it is given" % x.name, wf)
        elif "Write::" in x.name and short in ("flush",):
            reported(c, events, x, p, wf, e)
    return n


def reported(c, events, x, p, wf, e):
    """the failure of output call x is reported on the path it belongs to"""
    i = events.index(x)
    k = [y for y in events[i + 1:] if y.kind == "cond" and y.term is mk("discr", x.res)]
    ret = p.val is not None and any(y is x.res for y in subterms(e.norm(p.st, p.val)))
    if not k:
        c.ob(ret, "reported", "the outcome of the output call is looked at", wf)
        return
    failed = (k[0].val == 1) == bool(k[0].eq)
    if not failed:
        c.ob(True, "reported", "the output succeeded", wf)
        return
    said = [y for y in events[i + 1:] if y.kind == "call" and y.name.endswith(("_eprint", "_print")) or y.kind == "diverge"]
    c.ob(said or ret or p.kind in ("panic", "diverge"), "reported", "a failed output is reported", wf)

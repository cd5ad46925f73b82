"""Evaluator: P04 (operators), P06 (order), P08 (bindings), P14 (access)."""
from run import prop
from rules import *

SIG = (("&syntax::Expr", "&mut context::Context"), "core::result::Result<value::Value, alloc::string::String>")
CTX = "lib::context::Context::"
LOGIC = ("Lo", "La")
ARITH = {"Add": "Add>::add", "Sub": "Sub>::sub", "Mul": "Mul>::mul", "Div": "Div>::div", "Rem": "Rem>::rem", "Bx": "BitXor>::bitxor",
         "Bo": "BitOr>::bitor", "Ba": "BitAnd>::bitand", "Sl": "Shl>::shl", "Sr": "Shr>::shr"}
COMPARE = ("Lt", "Gt", "Le", "Ge", "Eq", "Ne")


class Roles:
    pass


def callees(prog, f, seen=None):
    """local functions reached from f, breadth first"""
    out, work, seen = [], [f], {f.key}
    while work:
        g = work.pop(0)
        for blk in g.blocks:
            for o in operands(blk):
                if o[0] == "const" and "fn" in o[1]:
                    k = o[1]["fn"].get("rdef") or o[1]["fn"]["def"]
                    h = prog.fns.get(k)
                    if h is not None and h.key not in seen:
                        seen.add(h.key)
                        out.append(h)
                        work.append(h)
            for s in blk["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure":
                    h = prog.fns.get(s[2][1][1])
                    if h is not None and h.key not in seen:
                        seen.add(h.key)
                        out.append(h)
                        work.append(h)
    return out


def operands(blk):
    t = blk["t"]
    if t["k"] == "call":
        yield t["f"]
        for a in t["a"]:
            yield a
    for s in blk["s"]:
        if s[0] == "=":
            r = s[2]
            for x in r[1:]:
                if isinstance(x, list) and x and x[0] in ("copy", "move", "const"):
                    yield x
                elif isinstance(x, list):
                    for y in x:
                        if isinstance(y, list) and y and y[0] in ("copy", "move", "const"):
                            yield y


def roles(c):
    if "roles" in c.cache:
        return c.cache["roles"]
    r = Roles()
    r.block = c.fn("eval_block", sig=(("&[syntax::Expr]", "&mut context::Context"), SIG[1]))
    c2 = [f for f in callees(c.p, r.block) if f.sig() == SIG and f.kind == "fn"]
    if not c2:
        raise Missing("no expression evaluator reached from eval_block")
    r.expr = c2[0]
    r.E = c.adt("syntax::Expr")
    r.V = c.adt("value::Value")
    r.K = c.adt("token::Kind")
    r.TOK = c.adt("token::Token")
    r.ctx = [f.path for f in c.p.local_fns(("fn",)) if f.path.startswith(CTX)]
    if len(r.ctx) < 9:
        raise Missing("methods of Context")
    r.natives = [f.path for f in c.p.local_fns(("fn",)) if f.path.startswith("lib::native::") and f.pub]
    r.opaque = r.ctx + r.natives + ["lib::http::client::Client::send", "lib::http::response::Response::to_map"]
    c.cache["roles"] = r
    return r


def VAL(expr, u):
    return mk("val", expr, u)


def FAIL(expr, u):
    return mk("fail", expr, u)


def stub(values):
    """the recursive evaluation: a value (possibly of a known variant), or an error"""
    def f(vals, u):
        v = values.get(vals[0])
        if v is not None:
            return [ok(v)]
        return [ok(VAL(vals[0], u)), err(FAIL(vals[0], u))]
    return f


def run_expr(c, r, expr, values=None, **k):
    return c.run(r.expr, {1: expr}, opaque=k.pop("opaque", r.opaque), stubs={r.expr.path: stub(values or {})}, **k)


def token(c, r, kind, literal=None):
    fs = c.fields(r.TOK)
    vals = {"kind": mk("adt", r.K, c.variant(r.K, kind)), "literal": literal or c.sym("literal")}
    return mk("adt", r.TOK, 0, *[vals.get(n, c.sym(n)) for n in fs])


def unary(c, r, kind, variant, payload=None):
    right = c.sym("right")
    v = mk("adt", r.V, variant, *([payload] if payload is not None else [c.sym("x%d" % i) for i in range(len(c.p.variants(r.V)[variant]["fields"]))]))
    e, ps = run_expr(c, r, mk("adt", r.E, c.variant(r.E, "Unary"), token(c, r, kind), right), {right: v})
    return r.expr, e, ps, (v.a[2] if len(v.a) > 2 else v)


# ---------------------------------------------------------------- P06 sequences
class Mismatch(Exception):
    pass


def is_eval(r, ev):
    return ev.kind == "call" and ev.name == r.expr.path


def subject(li, t):
    return li.canon(t) if li else t


def walk(r, evs, steps, lis=()):
    """match effects against steps; returns ('done'|'fail', remaining effects, failure term)"""
    evs = list(evs)
    for s in steps:
        if s[0] == "eval":
            if not evs or not is_eval(r, evs[0]):
                raise Mismatch("expected the evaluation of %s, found %s" % (show(s[1]), evs[0] if evs else "the end"))
            x = evs[0].args[0]
            for li in lis:
                x = li.canon(x)
            if x is not s[1]:
                raise Mismatch("evaluates %s where %s is due" % (show(x), show(s[1])))
            tgt = evs[0].raw[1]
            if tgt.op != "ptr" or tgt.a[0][0] != "P":
                raise Mismatch("evaluates %s in another context than the caller's" % show(s[1]))
            res = evs[0].res
            evs = evs[1:]
            if is_err(res):
                if evs:
                    raise Mismatch("continues with %s after the evaluation of %s failed" % (evs[0], show(s[1])))
                return "fail", evs, res
        elif s[0] == "each":
            if not evs or evs[0].kind != "loop":
                raise Mismatch("expected the evaluation of each of %s, found %s" % (show(s[1]), evs[0] if evs else "the end"))
            li = info(evs[0])
            if li.coll is not s[1]:
                raise Mismatch("walks over %s where each of %s is due" % (show(li.coll) if li.coll is not None else "an unknown sequence", show(s[1])))
            inner = s[2](mk("each", li.ev.id, li.coll))
            for p in li.ev.iters:
                k, rest, _ = walk(r, effects(p.events), inner, lis + (li,))
                if k != "done" or rest:
                    raise Mismatch("an element of %s is skipped or evaluated twice, or its error is dropped" % show(s[1]))
            if not li.ev.iters:
                raise Mismatch("no element of %s but the first is evaluated" % show(s[1]))
            evs = evs[1:]
            # left in the middle?
            if evs and is_eval(r, evs[0]):
                x = evs[0].args[0]
                x = li.canon(x)
                if x.op in ("each",) and x.a[0] == li.ev.id or any(y.op == "each" and y.a[0] == li.ev.id for y in subterms(x)):
                    k, rest, res = walk(r, evs, inner, lis + (li,))
                    if k != "fail" or rest:
                        raise Mismatch("stops in the middle of %s without an error" % show(s[1]))
                    return "fail", rest, res
            s[3].append(li) if len(s) > 3 else None
    return "done", evs, None


def sequence(c, r, key, expr, steps, values=None, floor=1, allow=(), **k):
    """every path evaluates exactly the steps, in order, and stops at the first error"""
    e, ps = run_expr(c, r, expr, values, **k)
    done = []
    good, why, where = True, "", ""
    for p in ps:
        if p.kind != "ret":
            continue
        if not good:
            break
        try:
            st, rest, res = walk(r, effects(p.events), steps)
        except Mismatch as x:
            good, why = False, str(x)
            break
        v = e.norm(p.st, p.val)
        for ev in p.events:
            if ev.kind == "loop":
                v = info(ev).canon(v)
                if res is not None:
                    res = info(ev).canon(res)
        if st == "fail":
            if v is not res and not (is_err(v) and v.a[2] is res.a[2]):
                good, why = False, "a failed evaluation is not the result: %s instead of %s" % (show(v), show(res))
        else:
            if any(not (x.kind == "call" and x.name in allow) for x in rest):
                good, why = False, "does more than it is due: %s" % rest[:2]
            for ev in p.events:
                if ev.kind == "loop" and effects([ev]) and not info(ev).exhausted(p) and info(ev).coll is not None:
                    good, why = False, "leaves the walk over %s before its end" % show(info(ev).coll)
            done.append((e, p, rest))
    c.ob(good and len(done) >= floor, key, why or ("as written on %d paths" % len(ps) if done else "no path evaluates all of it"), c.where(r.expr))
    return done if good else []


def cases(c, r):
    """expressions of every kind, with the sub-evaluations they are due"""
    s = c.sym
    V = lambda n: c.variant(r.E, n)
    ex = lambda n, *f: mk("adt", r.E, V(n), *f)
    a, b, items, name = s("a"), s("b"), s("items"), s("name")
    yield "Integer", ex("Integer", s("n")), [], None
    yield "Float", ex("Float", s("n")), [], None
    yield "Boolean", ex("Boolean", s("n")), [], None
    yield "String", ex("String", s("n")), [], None
    yield "Array", ex("Array", items), [("each", items, lambda x: [("eval", x)])], None
    yield "Map", ex("Map", items), [("each", items, lambda x: [("eval", proj(x, (None, 0))), ("eval", proj(x, (None, 1)))])], None
    yield "Index", ex("Index", a, b), [("eval", a), ("eval", b)], None
    yield "Field", ex("Field", a, name), [("eval", a)], None
    yield "Ident", ex("Ident", name), [], None
    yield "Let", ex("Let", name, a), [("eval", a)], None
    yield "Paren", ex("Paren", a), [("eval", a)], None
    for k in ("Not", "Sub"):
        yield "Unary " + k, ex("Unary", token(c, r, k), a), [("eval", a)], None
    for k in list(ARITH) + list(COMPARE):
        yield "Binary " + k, ex("Binary", token(c, r, k), a, b), [("eval", a), ("eval", b)], None


NULLISH = None


@prop("P06", floor=60, technique="event-sequence rule over all paths of the expression evaluator, per kind of expression and, for deciding operands, per kind of value",
      explain="the evaluator is analysed for each kind of expression; on every path the evaluations of sub-expressions must be exactly those due, in written order and in the caller's context, and a failed evaluation must be the last effect and the result")
def p06(c):
    r = roles(c)
    names = [v["name"] for v in c.p.variants(r.V)]
    done = set()
    for key, ex, steps, _ in cases(c, r):
        done.add(key.split()[0])
        sequence(c, r, key, ex, steps, allow=[CTX + "set"] if key == "Let" else ())
    s = c.sym
    a, b, con, alt = s("a"), s("b"), s("consequence"), s("alternative")
    V = lambda n: c.variant(r.E, n)
    falsy = lambda i: names[i] == "Null" or None
    # the deciding operand, for every kind of value
    for i, n in enumerate(names):
        vals = [("", mk("adt", r.V, i, *[s("x%d" % k) for k in range(len(c.p.variants(r.V)[i]["fields"]))]))]
        if n == "Boolean":
            vals = [("true", mk("adt", r.V, i, TRUE)), ("false", mk("adt", r.V, i, FALSE))]
        for tag, v in vals:
            no = n == "Null" or tag == "false"
            k = n + (" " + tag if tag else "")
            for op in LOGIC:
                ex = mk("adt", r.E, V("Binary"), token(c, r, op), a, b)
                need_b = no if op == "Lo" else not no
                d = sequence(c, r, "%s after %s" % (op, k), ex, [("eval", a)] + ([("eval", b)] if need_b else []), {a: v})
                if need_b:
                    good = d and all(last_value(e, p, b) for e, p, rest in d)
                else:
                    good = d and all(final(e, p) is ok(v) for e, p, rest in d)
                c.ob(good, "%s value after %s" % (op, k), "the value of %s is that of the operand decided by a left operand %s" % ({"Lo": "||", "La": "&&"}[op], k), c.where(r.expr))
            ex = mk("adt", r.E, V("If"), a, con, alt)
            br = alt if no else con
            d = sequence(c, r, "if on %s" % k, ex, [("eval", a), ("each", br, lambda x: [("eval", x)])], {a: v})
            good = d
            for e, p, rest in d:
                fv = final(e, p)
                w = fv.a[2] if is_ok(fv) else None
                good = good and w is not None and w.op == "lastof" and w.a[0].op == "adt" and w.a[0].a[:2] == (r.V, c.variant(r.V, "Null")) \
                    and w.a[1] is br and w.a[3].op == "val"
            c.ob(good, "if value on %s" % k, "the value of an if is that of the last expression of the selected branch, null if it is empty", c.where(r.expr))
    done |= {"If"}
    # an undecided left operand may fail
    for op in LOGIC:
        ex = mk("adt", r.E, V("Binary"), token(c, r, op), a, b)
        e, ps = run_expr(c, r, ex)
        good = any(is_err(final(e, p)) for p in ps if p.kind == "ret") and all(
            is_err(final(e, p)) and len(effects(p.events)) == 1 for p in ps if p.kind == "ret" and is_err(effects(p.events)[0].res))
        c.ob(good, "%s error" % op, "an error of the left operand ends the evaluation", c.where(r.expr))
    # calls: arguments first
    args = s("arguments")
    ex = mk("adt", r.E, V("Call"), s("name"), args)
    e, ps = run_expr(c, r, ex)
    good, why, n = True, "", 0
    for p in ps:
        if p.kind != "ret":
            continue
        evs = effects(p.events)
        try:
            if not evs or evs[0].kind != "loop":
                raise Mismatch("does not evaluate the arguments first: %s" % (evs[:1],))
            k, rest, res = walk(r, evs[:2] if len(evs) > 1 and is_eval(r, evs[1]) and isinstance(info(evs[0]).coll, T) and not info(evs[0]).exhausted(p) else evs[:1],
                                [("each", args, lambda x: [("eval", x)])])
            if k == "fail":
                li = info(evs[0])
                if len(evs) > 2 or li.canon(e.norm(p.st, p.val)) is not li.canon(res):
                    raise Mismatch("an argument fails and the call goes on")
            else:
                n += 1
                if not info(evs[0]).exhausted(p):
                    raise Mismatch("not all arguments are evaluated")
                for ev in all_events(evs[1:]):
                    if is_eval(r, ev) and any(x is args for x in subterms(ev.args[0])):
                        raise Mismatch("an argument is evaluated again")
        except Mismatch as x:
            good, why = False, str(x)
            break
    c.ob(good and n, "Call", why or "arguments are evaluated once, in order, before the call", c.where(r.expr))
    done |= {"Call"}
    all_kinds = {v["name"] for v in c.p.variants(r.E)}
    c.ob(done == all_kinds, "kinds", "every kind of expression is covered: %s" % sorted(all_kinds ^ done))
    # blocks
    for exprs in (c.sym("exprs"),):
        e, ps = c.run(r.block, {1: exprs}, opaque=r.opaque, stubs={r.expr.path: stub({})})
        good, why, n = True, "", 0
        for p in ps:
            if p.kind != "ret":
                continue
            try:
                k, rest, res = walk(r, effects(p.events), [("each", exprs, lambda x: [("eval", x)])])
                v = final(e, p)
                if rest:
                    raise Mismatch("does more than evaluating the block: %s" % rest[:1])
                if k == "fail":
                    li = info(effects(p.events)[0])
                    if li.canon(v) is not li.canon(res):
                        raise Mismatch("the error is not the result")
                else:
                    n += 1
                    w = v.a[2] if is_ok(v) else None
                    if not (w is not None and w.op == "lastof" and w.a[0] is mk("adt", r.V, c.variant(r.V, "Null")) and w.a[1] is exprs and w.a[3].op == "val"):
                        raise Mismatch("the value is %s, not that of the last expression" % show(v))
            except Mismatch as x:
                good, why = False, str(x)
                break
        c.ob(good and n, "block", why or "a block evaluates its expressions in order and yields the last value", c.where(r.block))


def last_value(e, p, expr):
    """the path returns exactly what evaluating expr gave"""
    v = final(e, p)
    ev = effects(p.events)[-1]
    if is_err(ev.res):
        return v is ev.res
    return v is ev.res


# ---------------------------------------------------------------- P14
@prop("P14", floor=55, technique="decision table of index and field access over all kinds of values, by partial evaluation of the evaluator's MIR",
      explain="index and field expressions are analysed for each kind of indexed value and index; every path must return the addressed element under exactly the condition that it exists, null under its negation, and an error for unsupported kinds")
def p14(c):
    r = roles(c)
    names = [v["name"] for v in c.p.variants(r.V)]
    s = c.sym
    a, b, fld = s("a"), s("b"), s("field")
    I = lambda n: c.variant(r.V, n)
    null = mk("adt", r.V, I("Null"))

    def val(i, nm):
        return mk("adt", r.V, i, *[s("%s%d" % (nm, k)) for k in range(len(c.p.variants(r.V)[i]["fields"]))])
    for i, n in enumerate(names):
        for j, m in enumerate(names):
            l, x = val(i, "l"), val(j, "i")
            e, ps = run_expr(c, r, mk("adt", r.E, c.variant(r.E, "Index"), a, b), {a: l, b: x})
            key = "%s[%s]" % (n, m)
            good, why, hits, misses = True, "", 0, 0
            for p in ps:
                if p.kind != "ret":
                    continue
                v = final(e, p)
                if n == "Map":
                    k = text_of(x)
                    h = [ev for ev in conds(p) if ev.term.op == "has"]
                    there = [(ev.val is True) == ev.eq for ev in h if ev.term.a[0] is l.a[2] and same_key(ev.term.a[1], x)]
                    if is_ok(v) and v.a[2].op == "lookup" and v.a[2].a[0] is l.a[2] and same_key(v.a[2].a[1], x) and there == [True]:
                        hits += 1
                    elif v is ok(null) and there == [False]:
                        misses += 1
                    else:
                        good, why = False, "yields %s when %s" % (show(v), [str(ev) for ev in h])
                elif n == "Array" and m == "Integer":
                    idx = x.a[2]
                    inb = [(ev.val is True) == ev.eq for ev in conds(p) if in_bounds(ev.term, idx, l.a[2])]
                    neg = [ev for ev in conds(p) if negative(ev, idx)]
                    if is_ok(v) and v.a[2].op == "idx" and v.a[2].a[0] is l.a[2] and as_index(v.a[2].a[1], idx):
                        if inb[:1] != [True]:
                            good, why = False, "the element is taken without a check that it exists"
                        hits += 1
                    elif v is ok(null):
                        if True in inb or not (inb or neg):
                            good, why = False, "null for an existing element"
                        misses += 1
                    else:
                        good, why = False, "yields %s" % show(v)
                else:
                    if not is_err(v):
                        good, why = False, "%s indexed by %s yields %s, not an error" % (n, m, show(v))
                    hits = misses = 1
            c.ob(good and hits and misses, key, why or ("as required" if hits and misses else "hit or miss case is missing"), c.where(r.expr))
    for i, n in enumerate(names):
        l = val(i, "l")
        e, ps = run_expr(c, r, mk("adt", r.E, c.variant(r.E, "Field"), a, fld), {a: l})
        good, why, hits, misses = True, "", 0, 0
        for p in ps:
            if p.kind != "ret":
                continue
            v = final(e, p)
            if n == "Map":
                there = [(ev.val is True) == ev.eq for ev in conds(p) if ev.term.op == "has" and ev.term.a[0] is l.a[2] and ev.term.a[1] is fld]
                if is_ok(v) and v.a[2] is mk("lookup", l.a[2], fld) and there == [True]:
                    hits += 1
                elif v is ok(null) and there == [False]:
                    misses += 1
                else:
                    good, why = False, "yields %s" % show(v)
            else:
                hits = misses = 1
                if not is_err(v):
                    good, why = False, "field of %s yields %s" % (n, show(v))
        c.ob(good and hits and misses, "%s.field" % n, why or "as required", c.where(r.expr))
    # map literals store under the display form of the key; later entries win
    items = s("items")
    e, ps = run_expr(c, r, mk("adt", r.E, c.variant(r.E, "Map"), items))
    good, n = True, 0
    for p in ps:
        v = final(e, p)
        if p.kind == "ret" and is_ok(v):
            n += 1
            w = v.a[2]
            m = w.a[2] if w.op == "adt" and w.a[1] == I("Map") else None
            good = good and m is not None and m.op == "mapinsert" and m.a[0].op == "emptymap" and m.a[1] is items and m.a[3].op == "display" and m.a[3].a[0].op == "val" \
                and m.a[4].op == "val" and m.a[3].a[0].a[0] is proj(mk("each", m.a[2], items), (None, 0)) and m.a[4].a[0] is proj(mk("each", m.a[2], items), (None, 1))
    c.ob(good and n, "map literal", "a map literal stores each value under the display form of its key", c.where(r.expr))
    # array literals keep every value in order
    e, ps = run_expr(c, r, mk("adt", r.E, c.variant(r.E, "Array"), items))
    good, n = True, 0
    for p in ps:
        v = final(e, p)
        if p.kind == "ret" and is_ok(v):
            n += 1
            w = v.a[2]
            m = w.a[2] if w.op == "adt" and w.a[1] == I("Array") else None
            good = good and m is not None and m.op == "mapped" and m.a[0] is items and m.a[2].op == "val" and m.a[2].a[0] is mk("each", m.a[1], items)
    c.ob(good and n, "array literal", "an array literal holds the value of each item in order", c.where(r.expr))


def text_of(x):
    return mk("display", x)


def same_key(k, x):
    """k is the display form of value x"""
    if k is mk("display", x) or k is models.cat(mk("display", x)):
        return True
    return False


def as_index(t, idx):
    return t is idx or t.op == "cast" and t.a[0] in ("usize", "u64") and t.a[1] is idx or t.op == "fld" and t.a[0].op == "call" and t.a[0].a[0] == "convert::try_into" and t.a[0].a[1] is idx


def in_bounds(t, idx, items):
    return t.op == "lt" and as_index(t.a[0], idx) and t.a[1] is mk("len", items) or t.op == "has" and t.a[0] is items


def negative(ev, idx):
    t = ev.term
    if t.op == "lt" and t.a[0] is idx and t.a[1] is INT(0):
        return (ev.val is True) == ev.eq
    if t.op == "le" and t.a[0] is INT(0) and t.a[1] is idx:
        return (ev.val is False) == ev.eq
    if t.op == "discr" and t.a[0].op == "call" and t.a[0].a[0] == "convert::try_into" and t.a[0].a[1] is idx:
        return (ev.val == 1) == ev.eq
    return False

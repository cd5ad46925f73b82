"""P17 text of expressions, P18 text of values."""
import re
from run import prop
from rules import *
from checks.calls import printed_to, shown

# what each expression is written as: \0n is its n-th part, L/M its n-th list
EXPR = {
    "Integer": "\0a", "Float": "\0a", "Boolean": "\0a", "String": '"\0a"', "Ident": "\0a",
    "Array": "[\1a]", "Map": "{\2a}", "Index": "\0a[\0b]", "Field": "\0a.\0b", "Let": "let \0a=\0b", "Unary": "\0a\0b",
    "Binary": "\0b\0a\0c", "Paren": "(\0a)", "If": "if(\0a){\1b}else{\1c}", "Call": "\0a(\1b)",
}
SEPS = {"Array": ",", "Map": ",", "Call": ",", "If": ";"}


def tight(s):
    s = re.sub(r"\s+", " ", s)
    s = re.sub(r" ?([\[\](){},:;=.]) ?", r"\1", s)
    return re.sub("(?<=[\0\1\2][a-z]) (?=[\0\1\2])", "", s.strip())


def own_text(x, f):
    """x is the text of f itself"""
    return x is f or x.op in ("display", "debug") and x.a[0] is f


def text(p, parts, fields, quoted=False):
    """the parts as a text over markers, and the lists in it"""
    out, lists = "", []
    name = lambda f: [chr(97 + i) for i, y in enumerate(fields) if y is f]
    for x in parts:
        if x.op == "str":
            out += x.a[0]
            continue
        n = [chr(97 + i) for i, f in enumerate(fields) if own_text(x, f)]
        if n:
            # debug text of a string or an expression is another text
            out += "\0" + n[0]
            continue
        if x.op in ("join", "joined"):
            coll, body, sep = (x.a[0], None, x.a[1]) if x.op == "join" else (x.a[0], (x.a[1], x.a[2]), STR(""))
            if coll.op == "mapped":
                coll, body = coll.a[0], (coll.a[1], coll.a[2])
            if body is None or not name(coll) or sep.op != "str":
                return None, "list %s" % show(x, 6)
            el = mk("each", body[0], coll)
            b = list(body[1].a) if body[1].op == "cat" else [body[1]]
            if len(b) == 1 and b[0] is mk("display", el):
                out += "\1" + name(coll)[0]
            elif [y for y in b if y.op != "str"] == [mk("display", proj(el, (None, 0))), mk("display", proj(el, (None, 1)))] and tight("".join(y.a[0] if y.op == "str" else "\0a" for y in b)) == "\0a:\0a":
                out += "\2" + name(coll)[0]
            else:
                return None, "the elements of a list appear as %s" % show(body[1], 6)
            lists.append((name(coll)[0], sep.a[0].strip()))
            continue
        return None, "part %s" % show(x, 6)
    return out, lists


def empty_list(p, f):
    for e in conds(p):
        t, v = e.term, (e.val is True) == e.eq
        if t.op == "lt" and t.a[0] is INT(0) and t.a[1] is mk("len", f) and not v:
            return True
        if t.op == "eq" and set(t.a) == {mk("len", f), INT(0)} and v or t is mk("len", f) and e.eq and e.val == 0:
            return True
    return False


@prop("P17", floor=20, technique="table of the display implementation over all kinds of expression: the text written on every path, loops in closed form, against the written form of the construct",
      explain="for each kind of expression, every path of its display is reduced to the sequence of literal texts and parts it writes; modulo white space it must be the written form of the construct with each part once and in written order; lists are shown element by element with the separator of the construct")
def p17(c):
    X = c.adt("syntax::Expr")
    d = c.impl("fmt::Display", "syntax::Expr", "fmt")
    T = c.adt("token::Token")
    td = c.impl("fmt::Display", "token::Token", "fmt")
    e, ps = c.run(td)
    lit = mk("fld", mk("param", 1, "self"), None, c.field(T, "literal"))
    for p in shown(c, ps, td):
        if p.kind != "ret":
            continue
        c.ob(printed_to(e, p, 2) == [lit], "token", "a token is shown as it was written: %s" % [show(x) for x in printed_to(e, p, 2) or []], c.where(td))
    names = [v["name"] for v in c.p.variants(X)]
    c.ob(set(EXPR) >= set(names), "kinds", "every kind of expression has a written form: %s" % sorted(set(names) - set(EXPR)), c.where(d))
    for i, n in enumerate(names):
        if n not in EXPR:
            continue
        fs = [c.sym("x%d" % k) for k in range(len(c.p.variants(X)[i]["fields"]))]
        e, ps = c.run(d, {1: mk("adt", X, i, *fs)}, opaque=[td.path])
        done = 0
        for p in shown(c, ps, d):
            if p.kind != "ret":
                c.ob(False, n, "display may panic", c.where(d))
                continue
            parts = printed_to(e, p, 2)
            if parts is None:
                c.ob(False, n, "the output is not understood: %s" % show(p.st.mem[("P", 2)], 6), c.where(d))
                continue
            if n == "Boolean" and len(parts) == 1 and parts[0].op == "str":
                v = [(x.val is True) == x.eq for x in conds(p) if x.term is fs[0]]
                c.ob(v[:1] == [parts[0].a[0] == "true"] and parts[0].a[0] in ("true", "false"), n, "a boolean is shown as %s" % parts[0].a[0], c.where(d))
                done += 1
                continue
            got, lists = text(p, parts, fs)
            if got is None:
                c.ob(False, n, "%s is shown with %s" % (n, lists), c.where(d))
                continue
            if n in ("String", "Ident", "Field", "Let", "Call"):  # the name or text itself, not its debug form
                bad = [x for x in parts if x.op == "debug"]
            else:
                bad = [x for x in parts if x.op == "debug" and n not in ("Integer", "Float", "Boolean")]
            c.ob(not bad, n + " form", "parts are shown in their own written form: %s" % [show(x) for x in bad], c.where(d))
            want = EXPR[n]
            if n == "String":
                good = got == want
            else:
                got = tight(got)
                forms = [want]
                for k in range(len(fs)):
                    m = "\1" + chr(97 + k)
                    m2 = "\2" + chr(97 + k)
                    if empty_list(p, fs[k]):
                        forms += [w.replace(m, "").replace(m2, "") for w in forms]
                        if n == "If" and k == 2:
                            forms += [w.replace("else{\1c}", "").replace("else{}", "") for w in forms]
                good = got in [tight(w) for w in forms]
            c.ob(good, n, "%s is shown as %r instead of %r" % (n, got, want), c.where(d))
            for k, sep in lists:
                c.ob(sep == SEPS.get(n), n + " separator", "the elements of a list are separated by %r: %r" % (SEPS.get(n), sep), c.where(d))
            done += 1
        c.ob(done, n + " shown", "%s is shown" % n, c.where(d))


@prop("P18", floor=9, technique="table of the display implementation over all variants of a value: the text written on every path",
      explain="for each variant of a value, every path of its display must write the text of its payload and nothing else: strings verbatim, numbers and booleans in their usual form, lists and maps with all of their elements")
def p18(c):
    V = c.adt("value::Value")
    d = c.impl("fmt::Display", "value::Value", "fmt")
    dbg = [f for f in c.p.local_fns(("fn",)) if f.trait == "core::fmt::Debug" and f.self_ty is not None and f.ty(f.self_ty)["s"].endswith("value::Value")]
    c.ob(len(dbg) == 1 and dbg[0].derived, "elements", "elements of lists and maps are shown by the derived debug form, which leaves nothing out", c.where(dbg[0]) if dbg else "")
    for i, v in enumerate(c.p.variants(V)):
        n = v["name"]
        fs = [c.sym("x%d" % k) for k in range(len(v["fields"]))]
        e, ps = c.run(d, {1: mk("adt", V, i, *fs)})
        done = 0
        for p in shown(c, ps, d):
            if p.kind != "ret":
                c.ob(False, n, "display may panic", c.where(d))
                continue
            parts = printed_to(e, p, 2)
            if parts is None:
                c.ob(False, n, "the output is not understood: %s" % show(p.st.mem[("P", 2)], 6), c.where(d))
                continue
            done += 1
            sh = [show(x, 6) for x in parts]
            x = parts[0] if len(parts) == 1 else None
            if n == "Null":
                c.ob(x is STR("null"), n, "null is shown as %s" % sh, c.where(d))
            elif n == "String":
                c.ob(x is not None and (x is fs[0] or x is mk("display", fs[0])), n, "a string is shown verbatim: %s" % sh, c.where(d))
            elif n in ("Array", "Map"):
                good = x is mk("debug", fs[0])
                if not good:
                    good = listing(parts, fs[0], n == "Map")
                c.ob(good, n, "all elements of the %s are shown, in order: %s" % (n.lower(), sh), c.where(d))
            elif n == "Boolean" and x is not None and x.op == "str":
                b = [(y.val is True) == y.eq for y in conds(p) if y.term is fs[0]]
                c.ob(b[:1] == [x.a[0] == "true"] and x.a[0] in ("true", "false"), n, "a boolean is shown as %s" % sh, c.where(d))
            else:
                c.ob(x is not None and own_text(x, fs[0]), n, "%s is shown as its number: %s" % (n, sh), c.where(d))
        c.ob(done, n + " shown", "%s is shown" % n, c.where(d))


def listing(parts, f, is_map):
    """opening, all elements joined, closing"""
    if len(parts) != 3 or parts[0].op != "str" or parts[2].op != "str" or parts[1].op != "join":
        return False
    m, sep = parts[1].a
    if m.op != "mapped" or m.a[0] is not f or sep.op != "str" or not sep.a[0]:
        return False
    el = mk("each", m.a[1], f)
    b = [x for x in (m.a[2].a if m.a[2].op == "cat" else (m.a[2],)) if x.op != "str"]
    if is_map:
        return len(b) == 2 and own_text(b[0], proj(el, (None, 0))) and own_text(b[1], proj(el, (None, 1)))
    return len(b) == 1 and own_text(b[0], el)


# ---------------------------------------------------------------- P19
def pieces(t):
    return list(t.a) if t.op == "cat" else [t]


def place(ps, v, after=-1):
    """where among the pieces, later than `after`, the text of the value v stands, None if nowhere"""
    own = [v] + (list(v.a[2:]) if v.op == "adt" and len(v.a) == 3 else [])
    if v.op == "adt" and len(v.a) == 3 and v.a[2].op == "adt":
        own += list(v.a[2].a[2:])
    for i, y in enumerate(ps):
        if i > after and any(y is x or y.op in ("display", "debug") and y.a[0] is x for x in own):
            return i
    return None


def says(ps, s):
    for i, y in enumerate(ps):
        if y.op == "str" and s in y.a[0]:
            return i
    return None


@prop("P19", floor=300, technique="provenance table of error texts: for every operator and pair of operand variants, every kind of access, every unknown name and every check of the parser, the pieces an error's text is made of",
      explain="the text of each error made by the operators, the evaluator and the parser is a sequence of literal and computed pieces; the operands and the operator, the name, or the token at fault must be among them, operands in written order")
def p19(c):
    from checks import evaluation, values
    r = evaluation.roles(c)
    V = r.V
    names = [v["name"] for v in c.p.variants(V)]
    n = 0
    for tr, (meth, symb, op, checked) in values.OPS.items():
        f = c.impl(tr, values.VALUE, meth)
        for i in range(len(names)):
            for j in range(len(names)):
                lv, rv = values.value_of(c, V, i, "l"), values.value_of(c, V, j, "r")
                e, ps = c.run(f, {1: lv, 2: rv})
                for p in ps:
                    v = final(e, p) if p.kind == "ret" else None
                    if v is None or not is_err(v):
                        continue
                    n += 1
                    xs = pieces(v.a[2])
                    a, s = place(xs, lv), says(xs, symb)
                    good = a is not None and s is not None and s > a and place(xs, rv, s) is not None
                    c.ob(good, "%s(%s,%s)" % (meth, names[i], names[j]), "the error shows left operand, %s, right operand: %s" % (symb, show(v.a[2], 4)), c.where(f))
    c.ob(n >= 200, "operators", "errors of operators were found: %d" % n)

    def own_errors(e, ps, sub=()):
        """errors made here, not passed on"""
        for p in ps:
            v = final(e, p) if p.kind == "ret" else None
            if v is not None and is_err(v) and v.a[2].op in ("str", "cat", "display", "debug"):
                yield p, pieces(v.a[2]), v.a[2]
    w = c.where(r.expr)
    # a prefix operator on a value it does not apply to
    k = 0
    for kind in ("Sub", "Not"):
        for i in range(len(names)):
            f, e, ps, x = evaluation.unary(c, r, kind, i)
            v = values.value_of(c, V, i, "x")
            for p, xs, t in own_errors(e, ps):
                k += 1
                c.ob(place(xs, v) is not None, "unary %s(%s)" % (kind, names[i]), "the error shows the operand: %s" % show(t, 4), w)
    # a token that is no operator
    left, right = c.sym("left"), c.sym("right")
    tok = evaluation.token(c, r, "Assign")
    e, ps = evaluation.run_expr(c, r, mk("adt", r.E, c.variant(r.E, "Binary"), tok, left, right))
    for p, xs, t in own_errors(e, ps):
        k += 1
        a = place(xs, left)
        o = None if a is None else place(xs, tok, a) if place(xs, tok, a) is not None else place(xs, c.sym("literal"), a)
        c.ob(o is not None and place(xs, right, o) is not None, "binary", "the error shows the operation: %s" % show(t, 4), w)
    # index and field access
    for kind in ("Index", "Field"):
        for i in range(len(names)):
            left, key = c.sym("left"), c.sym("key")
            v = values.value_of(c, V, i, "v")
            e, ps = evaluation.run_expr(c, r, mk("adt", r.E, c.variant(r.E, kind), left, key), {left: v})
            for p, xs, t in own_errors(e, ps):
                k += 1
                c.ob(place(xs, v) is not None, "%s(%s)" % (kind, names[i]), "the error shows the value: %s" % show(t, 4), w)
    # names
    name = c.sym("name")
    for kind, args in (("Ident", (name,)), ("Call", (name, c.sym("arguments")))):
        x = mk("adt", r.E, c.variant(r.E, kind), *args)
        e, ps = evaluation.run_expr(c, r, x)
        m = 0
        for p, xs, t in own_errors(e, ps):
            m += 1
            c.ob(place(xs, name) is not None, kind.lower(), "the error shows the unknown name: %s" % show(t, 4), w)
        c.ob(m >= 1, kind.lower(), "an unknown name is an error", w)
    c.ob(k >= 8, "accesses", "errors of prefix operators and accesses were found: %d" % k, w)
    # syntax errors
    P = [f for f in c.p.local_fns(("fn",)) if f.self_ty is not None and f.ty(f.self_ty).get("adt", "").endswith("parser::Parser") and f.local_ty(0).get("adt") == RESULT]
    m = 0
    for f in P:
        e, ps = c.run(f, opaque=[g.path for g in P if g is not f])
        me = mk("param", 1, "self")
        for p, xs, t in own_errors(e, ps):
            m += 1
            kinds = [mk("param", i, f.locals[i].get("name", "")) for i in range(2, f.argc + 1) if f.local_ty(i).get("adt") == r.K]
            shown = [y for y in xs if y.op in ("display", "debug") and any(z.op in ("param",) for z in subterms(y))]
            cs = [z for x in conds(p) for z in subterms(x.term)]

            def tested(y):
                y = y.a[0]
                while y.op == "fld":
                    y = y.a[0]
                return y in kinds or any(z is y for z in cs)
            c.ob(shown and all(tested(y) for y in shown), f.name, "a syntax error shows what was found: %s" % show(t, 4), c.where(f))
            for kd in kinds:
                a = place(xs, kd)
                found = [i for i, y in enumerate(xs) if y in shown and any(z is me for z in subterms(y))]
                c.ob(a is not None and all(a < i for i in found), f.name, "what was expected comes before what was found: %s" % show(t, 4), c.where(f))
                end = any(z.op == "discr" or z.op == "lt" for z in (x.term for x in conds(p)))
                c.ob(found or end, f.name, "the token that was found is shown", c.where(f))
    c.ob(m >= 3, "syntax", "syntax errors were found: %d" % m)

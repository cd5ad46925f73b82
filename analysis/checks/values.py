"""P03 arithmetic, P13 comparison: decision tables over all pairs of variants."""
from run import prop
from rules import *


def conds(p):
    """what the program itself has tested: a check that panics excludes nothing, it is absent from optimised builds"""
    return [e for e in p.events if e.kind == "cond" and not getattr(e, "asserted", False)]


OPS = {
    # trait: (method, symbol, term, checked function)
    "core::ops::arith::Add": ("add", "+", "add", "num::checked_add"),
    "core::ops::arith::Sub": ("sub", "-", "sub", "num::checked_sub"),
    "core::ops::arith::Mul": ("mul", "*", "mul", "num::checked_mul"),
    "core::ops::arith::Div": ("div", "/", "div", "num::checked_div"),
    "core::ops::arith::Rem": ("rem", "%", "rem", "num::checked_rem"),
    "core::ops::bit::BitXor": ("bitxor", "^", "bitxor", None),
    "core::ops::bit::BitOr": ("bitor", "|", "bitor", None),
    "core::ops::bit::BitAnd": ("bitand", "&", "bitand", None),
    "core::ops::bit::Shl": ("shl", "<<", "shl", "num::checked_shl"),
    "core::ops::bit::Shr": ("shr", ">>", "shr", "num::checked_shr"),
}
FLOATOPS = ("add", "sub", "mul", "div", "rem")
COMM = ("add", "mul", "bitxor", "bitor", "bitand")
VALUE = "value::Value"


def value_of(c, V, i, name):
    return mk("adt", V, i, *[c.sym("%s%d" % (name, k)) for k in range(len(c.p.variants(V)[i]["fields"]))])


def same(t, op, l, r):
    return t.op == op and ((t.a[0] is l and t.a[1] is r) or (op in COMM and t.a[0] is r and t.a[1] is l))


def widened(t, op, l, r):
    """op carried out in i128: exact"""
    w = lambda x: mk("cast", "i128", x)
    return same(t, op, w(l), w(r))


def shift_amount(t, r):
    """r as an amount of bits, converted without loss"""
    return t is r or t.op == "fld" and t.a[0].op == "call" and t.a[0].a[0] == "convert::try_into" and t.a[0].a[1] is r and t.a[1] == 0


def outside(ev, r):
    """the condition says that r is below 0, or above 63"""
    t, v = ev.term, (ev.val is True) == ev.eq
    while t.op == "not":
        t, v = t.a[0], not v
    if t.op not in ("lt", "le"):
        return False
    a, b = (x.a[1] if x.op == "cast" else x for x in t.a)
    strict = t.op == "lt"
    if not v:
        a, b, strict = b, a, not strict
    if a is r and b.op == "int":
        return b.a[0] <= (0 if strict else -1)
    return b is r and a.op == "int" and a.a[0] >= (63 if strict else 64)


def in_range(p, r):
    """0 <= r < 64 on this path"""
    lo = hi = False
    for e in conds(p):
        t, v = e.term, (e.val is True) == e.eq
        while t.op == "not":
            t, v = t.a[0], not v
        if t.op not in ("lt", "le"):
            continue
        unsigned = any(x.op == "cast" and x.a[0].startswith("u") and x.a[1] is r for x in t.a)
        a, b = (x.a[1] if x.op == "cast" else x for x in t.a)
        strict = t.op == "lt"
        if not v:
            a, b, strict = b, a, not strict
        if a is r and b.op == "int" and b.a[0] <= (64 if strict else 63):
            hi = True
            lo = lo or unsigned
        if b is r and a.op == "int" and a.a[0] >= (-1 if strict else 0) and not unsigned:
            lo = True
    return lo and hi


def exact_int(t, op, checked, l, r, p):
    """t is the exact result of op on integers l, r on this path"""
    if op.startswith("bit"):
        return same(t, op, l, r)
    if t.op == "fld" and t.a[0].op == "call" and t.a[0].a[0] == checked and t.a[1] == 1:
        a, b = t.a[0].a[1:3]
        if op in ("shl", "shr"):
            return a is l and shift_amount(b, r)
        return a is l and b is r or op in COMM and a is r and b is l
    if t.op == "fld" and t.a[0].op == "call" and t.a[0].a[0] == "convert::try_into" and t.a[1] == 0:
        return widened(t.a[0].a[1], op, l, r)
    if op in ("shl", "shr") and t.op == op and t.a[0] is l and (t.a[1].a[1] if t.a[1].op == "cast" else t.a[1]) is r:
        return in_range(p, r)
    # overflow excluded on the path, or by a checked build
    if same(t, op, l, r) and op in ("add", "sub", "mul"):
        return any(e.term.op == "ovf" and same(mk(*e.term.a), op, l, r) and (e.val is False) == e.eq for e in conds(p))
    if same(t, op, l, r) and op in ("div", "rem"):
        # neither a division by zero nor the one that overflows
        return differs(p, r, 0) and (differs(p, r, -1) or differs(p, l, MIN_INT) or any(e.term.op == "bitand" and set(e.term.a) == {mk("eq", r, INT(-1)), mk("eq", l, INT(MIN_INT))} and (e.val is False) == e.eq for e in conds(p)))
    return False


MIN_INT = -2 ** 63


def differs(p, x, k):
    """the path is only taken when x is not k"""
    for e in conds(p):
        if e.term is mk("eq", x, INT(k)) and (e.val is False) == e.eq:
            return True
        if e.term is x and not isinstance(e.val, bool) and (e.val != k if e.eq else e.val == k):
            return True
    return False


def equals(p, x, k):
    """the path is only taken when x is k"""
    return any(e.term is mk("eq", x, INT(k)) and (e.val is True) == e.eq or e.term is x and e.eq and not isinstance(e.val, bool) and e.val == k for e in conds(p))


def unrepresentable(p, op, checked, l, r):
    """the path is only taken when there is no exact result"""
    for e in conds(p):
        t = e.term
        if t.op == "discr" and t.a[0].op == "call":
            k = t.a[0]
            none = (e.val == 0) == e.eq if k.a[0] == checked else (e.val == 1) == e.eq
            if none and k.a[0] == checked and k.a[1] is l and (shift_amount(k.a[2], r) if op in ("shl", "shr") else k.a[2] is r):
                return True
            if none and k.a[0] == checked and op in COMM and k.a[1] is r and k.a[2] is l:
                return True
            if none and k.a[0] == "convert::try_into" and (widened(k.a[1], op, l, r) or op in ("shl", "shr") and k.a[1] is r):
                return True
        if t.op == "ovf" and t.a[0] == op and t.a[1] is l and t.a[2] is r and (e.val is True) == e.eq:
            return True
        if op in ("div", "rem") and t.op == "eq" and t.a[0] is r and t.a[1] is INT(0) and (e.val is True) == e.eq:
            return True
        if op in ("div", "rem") and t is r and e.eq and e.val == 0:
            return True
        if op in ("shl", "shr") and outside(e, r):
            return True
    return op in ("div", "rem") and equals(p, l, MIN_INT) and equals(p, r, -1)


@prop("P03", floor=10 * 49 + 15, technique="decision table of every operator implementation over all pairs of value variants, by partial evaluation of its MIR",
      explain="for each of the ten operator implementations and each of the 49 pairs of operand variants, every path of the implementation is checked to return the operator's exact result on left and right operand in that order, or an error naming the operator")
def p03(c):
    V = c.adt("value::Value")
    names = [v["name"] for v in c.p.variants(V)]
    INTV, FL, ST = (c.variant(V, n) for n in ("Integer", "Float", "String"))
    for tr, (meth, symb, op, checked) in OPS.items():
        f = c.impl(tr, VALUE, meth)
        for i in range(len(names)):
            for j in range(len(names)):
                lv, rv = value_of(c, V, i, "l"), value_of(c, V, j, "r")
                e, ps = c.run(f, {1: lv, 2: rv})
                key = "%s(%s,%s)" % (meth, names[i], names[j])
                good, why, oks = True, "", 0
                for p in ps:
                    if p.kind != "ret":
                        if not (exp_int := (i == INTV and j == INTV)) or True:
                            good, why = False, "may panic: %s" % p.events[-1:]
                        continue
                    v = e.norm(p.st, p.val)
                    if is_ok(v):
                        oks += 1
                        x = v.a[2]
                        if x.op != "adt" or x.a[0] != V:
                            good, why = False, "yields %s" % show(x)
                            continue
                        if i == INTV and j == INTV:
                            if x.a[1] != INTV or not exact_int(x.a[2], op, checked, lv.a[2], rv.a[2], p):
                                good, why = False, "yields %s instead of the exact %s of both operands" % (show(x), op)
                        elif op in FLOATOPS and {i, j} <= {INTV, FL}:
                            a = lv.a[2] if i == FL else mk("cast", "f64", lv.a[2])
                            b = rv.a[2] if j == FL else mk("cast", "f64", rv.a[2])
                            if x.a[1] != FL or not same(x.a[2], op, a, b):
                                good, why = False, "yields %s instead of the float %s of left and right operand" % (show(x), op)
                        elif op == "add" and i == ST and j == ST:
                            if x.a[1] != ST or x.a[2] is not models.cat(lv.a[2], rv.a[2]):
                                good, why = False, "yields %s instead of left followed by right" % show(x)
                        else:
                            good, why = False, "operand types are accepted, yields %s" % show(x)
                    elif is_err(v):
                        if i == INTV and j == INTV:
                            if op.startswith("bit") or not unrepresentable(p, op, checked, lv.a[2], rv.a[2]):
                                good, why = False, "an error although the result is representable (%s)" % show(v.a[2])
                        elif op in FLOATOPS and {i, j} <= {INTV, FL} or op == "add" and i == j == ST:
                            good, why = False, "an error for operands the operator supports"
                        elif not text_has(v.a[2], symb):
                            good, why = False, "the error does not name the operator: %s" % show(v.a[2])
                    else:
                        good, why = False, "result not understood: %s" % show(v)
                needs = (i == INTV and j == INTV) or op in FLOATOPS and {i, j} <= {INTV, FL} or op == "add" and i == j == ST
                if good and needs and not oks:
                    good, why = False, "never yields a value"
                c.ob(good and ps, key, "%s %s %s: %s" % (names[i], symb, names[j], why or "as required"), c.where(f))
    prefix(c, V, INTV, FL)


def prefix(c, V, INTV, FL):
    """the two prefix operators, on every kind of operand"""
    from checks.evaluation import roles, unary
    ev = roles(c)
    for i, name in ((INTV, "Integer"), (FL, "Float")):
        f, e, ps, operand = unary(c, ev, "Sub", i)
        good, why = True, ""
        n = 0
        for p in ps:
            v = e.norm(p.st, p.val) if p.val is not None else None
            if v is None:
                good, why = False, "may panic"
                continue
            if is_ok(v):
                n += 1
                x = v.a[2]
                if i == FL and not (x.op == "adt" and x.a[1] == FL and x.a[2] is mk("neg", operand)):
                    good, why = False, "yields %s" % show(x)
                if i == INTV:
                    y = x.a[2] if x.op == "adt" and x.a[1] == INTV else None
                    fine = y is not None and negated(y, operand) and (y.op == "fld" or not_least(p, operand))
                    if not fine:
                        good, why = False, "yields %s" % show(x)
            elif is_err(v) and i == FL:
                good, why = False, "an error for a float"
            elif is_err(v) and not no_negation(p, operand):
                good, why = False, "an error although the result is representable"
        c.ob(good and n, "neg(%s)" % name, "unary - on %s: %s" % (name, why or "as required"), c.where(f))
    BO, NU = c.variant(V, "Boolean"), c.variant(V, "Null")
    for i, v in enumerate(c.p.variants(V)):
        if i not in (INTV, FL):
            f, e, ps, operand = unary(c, ev, "Sub", i)
            bad = [p for p in ps if p.kind != "ret" or not is_err(e.norm(p.st, p.val))]
            c.ob(ps and not bad, "neg(%s)" % v["name"], "unary - on %s is an error" % v["name"], c.where(f))
        for b in (False, True) if i == BO else (None,):
            f, e, ps, operand = unary(c, ev, "Not", i, None if b is None else mk("bool", b))
            good, why = bool(ps), "has no outcome"
            for p in ps:
                x = e.norm(p.st, p.val) if p.kind == "ret" else None
                if x is None or not is_ok(x):
                    good, why = False, "does not yield a value"
                    continue
                x = x.a[2]
                if i == INTV:
                    fine = x.op == "adt" and x.a[1] == INTV and complement(x.a[2], operand)
                else:
                    fine = x is mk("adt", V, BO, mk("bool", i == NU or b is False))
                if not fine:
                    good, why = False, "yields %s" % show(x)
            c.ob(good, "not(%s)" % (v["name"] if b is None else str(b).lower()), "! on %s: %s" % (v["name"] if b is None else str(b).lower(), "as required" if good else why), c.where(f))


def complement(t, x):
    """t is x with every bit inverted: !x, x ^ -1, or -1 - x"""
    least = lambda y: y.op == "int" and y.a[0] == -1
    return t.op in ("not", "bitnot") and t.a[0] is x or t.op in ("bitxor", "sub") and least(t.a[0]) and t.a[1] is x \
        or t.op == "bitxor" and t.a[0] is x and least(t.a[1])


# ---------------------------------------------------------------- P13
@prop("P13", floor=100, technique="decision table of the comparison implementations over all pairs of value variants under each outcome (less, equal, greater, unordered) of comparing the payloads",
      explain="ordering and equality of values are compared, for every pair of variants and every possible outcome of comparing the payloads, with the answer the property requires")
def p13(c):
    V = c.adt("value::Value")
    names = [v["name"] for v in c.p.variants(V)]
    INTV, FL, ST = (c.variant(V, n) for n in ("Integer", "Float", "String"))
    pc = c.impl("core::cmp::PartialOrd", VALUE, "partial_cmp")
    over = [f for f in c.p.local_fns(("fn",)) if f.trait == "core::cmp::PartialOrd" and f.name in ("lt", "le", "gt", "ge")
            and f.self_ty is not None and f.ty(f.self_ty)["s"] == VALUE]
    for i in range(len(names)):
        for j in range(len(names)):
            lv, rv = value_of(c, V, i, "l"), value_of(c, V, j, "r")
            comparable = (i == j == ST) or {i, j} <= {INTV, FL}
            if comparable:
                a = lv.a[2] if i == j else lv.a[2] if i == FL else mk("cast", "f64", lv.a[2])
                b = rv.a[2] if i == j else rv.a[2] if j == FL else mk("cast", "f64", rv.a[2])
                rels = REL if FL in (i, j) else REL[:3]
            else:
                a = b = None
                rels = ("un",)
            e, ps = c.run(pc, {1: lv, 2: rv})
            for rel in rels:
                want = "none" if rel == "un" else rel
                good, why, n = True, "", 0
                for p in ps:
                    if comparable and not feasible(p, a, b, rel):
                        continue
                    n += 1
                    got = opt_ordering(e.norm(p.st, p.val), a, b, rel) if p.kind == "ret" else "a panic"
                    if got != want:
                        good, why = False, "answers %s" % (got or show(e.norm(p.st, p.val)))
                c.ob(good and n, "order(%s,%s,%s)" % (names[i], names[j], rel),
                     "ordering of %s and %s when the payloads compare %s must be %s: %s" % (names[i], names[j], rel, want, why or "it is"), c.where(pc))
            for f in over:
                e, ps = c.run(f, {1: lv, 2: rv})
                for rel in rels:
                    want = {"lt": rel == "lt", "gt": rel == "gt", "le": rel in ("lt", "eq"), "ge": rel in ("gt", "eq")}[f.name]
                    good = True
                    for p in ps:
                        if comparable and not feasible(p, a, b, rel):
                            continue
                        x = cmp_eval(e.norm(p.st, p.val), a, b, rel) if p.kind == "ret" else None
                        good = good and x == want
                    c.ob(good, "%s(%s,%s,%s)" % (f.name, names[i], names[j], rel), "overridden comparison agrees with the order", c.where(f))
    eqs = [f for f in c.p.local_fns(("fn",)) if f.trait == "core::cmp::PartialEq" and f.name in ("eq", "ne") and f.self_ty is not None and f.ty(f.self_ty)["s"] == VALUE]
    c.ob(any(f.name == "eq" for f in eqs), "eq", "values have an equality")
    for f in eqs:
        for i in range(len(names)):
            for j in range(len(names)):
                lv, rv = value_of(c, V, i, "l"), value_of(c, V, j, "r")
                e, ps = c.run(f, {1: lv, 2: rv})
                pos = f.name == "eq"
                if i != j or len(lv.a) == 2:
                    want = (i == j) == pos
                    good = all(p.kind == "ret" and p.val is BOOL(want) for p in ps) and ps
                    c.ob(good, "%s(%s,%s)" % (f.name, names[i], names[j]), "%s of %s and %s is %s" % (f.name, names[i], names[j], want), c.where(f))
                else:
                    a, b = lv.a[2], rv.a[2]
                    for rel in REL:
                        good = True
                        for p in ps:
                            if not feasible(p, a, b, rel):
                                continue
                            x = cmp_eval(p.val, a, b, rel) if p.kind == "ret" else None
                            good = good and x == ((rel == "eq") == pos)
                        c.ob(good and ps, "%s(%s,%s)" % (f.name, names[i], rel), "%s of two %s is decided by the equality of the payloads" % (f.name, names[i]), c.where(f))

"""P49 what the commands tell, P50 the command line."""
from run import prop
from rules import *
from checks.command import Command, holds, PRINT


def lines(events):
    """texts printed, without the loops' inner ones"""
    return [x.args[0] for x in events if x.kind == "call" and x.name == PRINT]


def pieces(t):
    return list(t.a) if t.op == "cat" else [t]


def is_text_of(x, v):
    return x is v or x.op == "display" and x.a[0] is v


def line_of(t, v):
    """t is the text of v on a line of its own"""
    ps = pieces(t)
    return len(ps) == 2 and is_text_of(ps[0], v) and ps[1] is STR("\n")


def mentions(t, v):
    """the text of v is part of t"""
    return any(is_text_of(x, v) for x in pieces(t))


def starts_tests(C, events):
    return any(x.kind == "spawn" and any(C.evals(all_events(o)) for o in x.outs) or x.kind == "loop" and any(starts_tests(C, q.events) for q in list(x.iters) + list(x.exits)) for x in events)


@prop("P49", floor=30, technique="path rule over the summaries of main and its workers: what is printed on every path, by provenance, and which paths start workers",
      explain="on every path of the commands that parses or evaluates a text, or looks up a test, the printed text must be the value or the error of exactly that step, and a path on which preparing the run failed starts no worker")
def p49(c):
    C = Command(c)
    # eval and the session
    n = 0

    def told(ev, key, wf):
        ps = [x for x in ev if x.kind == "call" and x.name == C.parse]
        xs = C.evals(ev)
        for x in ps + xs:
            k = holds(ev, mk("discr", x.res))
            what = "parsing" if x in ps else "evaluation"
            if not c.ob(k in (0, 1), key, "whether %s succeeded is tested" % what, wf):
                continue
            out = lines(ev)
            if k == 1:
                c.ob(len(out) == 1 and mentions(out[0], proj(x.res, (1, 0))), key + " error", "the error of %s is printed: %s" % (what, [show(t, 4) for t in out]), wf)
            elif x in xs:
                c.ob(len(out) == 1 and line_of(out[0], proj(x.res, (0, 0))), key + " value", "the value is printed on a line of its own: %s" % [show(t, 4) for t in out], wf)
        return len(ps) + len(xs)
    for p in C.paths("eval"):
        n += told(p.events, "eval", C.where)
    seen = set()
    for p in C.paths("repl"):
        for L in p.events:
            if L.kind == "loop" and id(L) not in seen:
                seen.add(id(L))
                for q in L.iters:
                    n += told(q.events, "session", "%s (%s)" % (L.fn.path, L.span))
    c.ob(n >= 8, "told", "texts are parsed and evaluated by eval and the session: %d" % n, C.where)
    # the test command
    kinds = set()
    for p in C.paths("test", ("ret", "panic", "diverge")):
        ps = [x for x in p.events if x.kind == "call" and x.name == C.parse]
        if not ps:
            continue  # the source could not be read
        k = holds(p.events, mk("discr", ps[0].res))
        out = lines(p.events)
        if k == 1:
            kinds.add("syntax")
            c.ob(any(mentions(t, proj(ps[0].res, (1, 0))) for t in out), "syntax", "a source that does not parse is reported: %s" % [show(t, 4) for t in out], C.where)
            c.ob(not starts_tests(C, p.events) and not C.evals(p.events), "syntax", "nothing of a source that does not parse is run", C.where)
            continue
        xs = C.evals(p.events)
        if not c.ob(k == 0 and len(xs) == 1, "prepared", "the top-level expressions are evaluated once before the run: %d" % len(xs), C.where):
            continue
        src = proj(ps[0].res, (0, 0))
        c.ob(within(xs[0].args[0], proj(src, (None, c.field(C.S, "exprs")))), "prepared", "all of them: %s" % show(xs[0].args[0], 4), C.where)
        k = holds(p.events, mk("discr", xs[0].res))
        if k == 1:
            kinds.add("top")
            c.ob(any(mentions(t, proj(xs[0].res, (1, 0))) for t in out), "top", "the error of a top-level expression is reported: %s" % [show(t, 4) for t in out], C.where)
            c.ob(not starts_tests(C, p.events), "top", "after it no test is run", C.where)
            continue
        c.ob(k == 0, "prepared", "whether they succeeded is tested", C.where)
        if holds(p.events, C.given("name")) == 1 and not starts_tests(C, p.events):
            # a name that is not there; with no worker to start nothing is to be said
            found = [e for e in p.events if e.kind == "cond" and any(y.op == "lookup" or y.op in ("has", "contains") for y in subterms(e.term)) and any(y is C.some("name") for y in subterms(e.term))]
            missing = any(holds(p.events, e.term) in (0, False) for e in found)
            if missing:
                kinds.add("name")
                c.ob(any(mentions(t, C.some("name")) for t in out), "name", "an unknown test is reported by its name: %s" % [show(t, 4) for t in out], C.where)
    c.ob(kinds >= {"syntax", "top", "name"}, "kinds", "failures before a run were found: %s" % sorted(kinds), C.where)
    n = 0
    for w in C.workers():
        wf = "%s (%s)" % (w.s.fn, w.s.span)
        for s in C.segments(w):
            for x in C.evals(s.events):
                k = holds(s.events, mk("discr", x.res))
                if not c.ob(k in (0, 1), "iteration", "whether an iteration succeeded is tested", wf):
                    continue
                if k == 1:
                    n += 1
                    c.ob(any(mentions(t, proj(x.res, (1, 0))) for t in lines(s.events)), "iteration", "the error that ends an iteration is reported: %s" % [show(t, 4) for t in lines(s.events)], wf)
    c.ob(n >= 2, "iteration", "iterations that end with an error were found: %d" % n, C.where)


def within(t, want):
    while t is not want and t.op in ("after", "slice_of"):
        t = t.a[-1]
    return t is want


# ---------------------------------------------------------------- P50
HARMLESS = {"help", "long_help", "value_name", "value_names", "display_order", "help_heading", "hide", "hide_default_value", "hide_possible_values", "hide_short_help", "hide_long_help",
            "hide_env", "next_line_help", "visible_alias", "visible_aliases", "alias", "aliases"}
# option: short form, default text, what it takes
OPTIONS = {"name": (None, None, "set"), "threads": ("t", "1", "set"), "duration": ("d", None, "set"), "number": ("n", "1", "set"),
           "path": ("p", None, "set"), "record": ("r", None, "set"), "stat": ("s", None, "true")}


def chain(t, stem):
    """the builder calls a term consists of, outermost last"""
    out = []
    while t.op == "call" and stem in t.a[0]:
        out.append((t.a[0].rsplit("::", 1)[-1], list(t.a[1:])))
        t = t.a[1]
    return out[::-1], t


def tag(c, t, adt):
    if t.op == "adt" and t.a[0].endswith(adt):
        return c.p.variants(t.a[0])[t.a[1]]["name"]
    return None


@prop("P50", floor=40, technique="the command line as the term clap is given: per option its spelling, action, parser and default; field-to-option mapping of the parsed arguments; defaults applied in main by provenance",
      assumptions=["clap parses a command line as it was described to it"],
      explain="the derived description of the command line and the derived reading of its result are summarised like any other function; each option must be described as documented and reach the field of its own name")
def p50(c):
    f = c.fn(pred=lambda f: f.path.endswith("Subcommand>::augment_subcommands") and f.kind == "fn")
    w = c.where(f)
    e, ps = c.run(f)
    subs = {}
    for p in ps:
        if not c.ob(p.kind == "ret", "described", "the command line is described on every path", w):
            continue
        calls, base = chain(final(e, p), "::Command::")
        for n, a in calls:
            if n == "subcommand":
                inner, new = chain(a[1], "::Command::")
                name = [x[1][0] for x in inner if x[0] == "new"]
                if c.ob(len(name) == 1 and name[0].op == "str", "described", "a subcommand has a name", w):
                    subs[name[0].a[0]] = inner
            else:
                c.ob(n in HARMLESS | {"about", "long_about", "author", "version", "new"}, "described", "nothing else is asked of the commands: %s" % n, w)
    c.ob(set(subs) == {"eval", "test"}, "commands", "the commands are eval and test: %s" % sorted(subs), w)
    want = {"eval": {"text": (None, None, "set")}, "test": OPTIONS}
    for cmd, inner in sorted(subs.items()):
        opts, order = {}, []
        for n, a in inner:
            if n == "arg":
                ac, base = chain(a[1], "::Arg::")
                ids = [x[1][0] for x in ac if x[0] == "new"]
                if c.ob(len(ids) == 1 and ids[0].op == "str", cmd, "an option has an id", w):
                    opts[ids[0].a[0]] = ac
                    order.append(ids[0].a[0])
            else:
                c.ob(n in HARMLESS | {"new", "group", "about", "long_about", "author", "version", "display_name"}, cmd, "nothing else is asked of the command: %s" % n, w)
        c.ob(set(opts) == set(want.get(cmd, ())), cmd, "the options of %s: %s" % (cmd, sorted(opts)), w)
        for o, ac in opts.items():
            if o not in want.get(cmd, {}):
                continue
            short, default, action = want[cmd][o]
            key = "%s %s" % (cmd, o)
            got = {"short": None, "long": None, "default_value": None}
            for n, a in ac:
                if n in ("short", "long", "default_value"):
                    t = a[1]
                    got[n] = t.a[0] if t.op in ("str", "char") else str(t.a[0]) if t.op == "int" else show(t, 4)
                elif n == "action":
                    k = tag(c, a[1], "ArgAction")
                    c.ob(k == ("Set" if action == "set" else "SetTrue"), key, "--%s %s: %s" % (o, "takes a value" if action == "set" else "is a switch", k), w)
                elif n == "required":
                    v = a[1]
                    if v.op == "call" and v.a[0].endswith("takes_values"):
                        v = TRUE if tag(c, v.a[1], "ArgAction") in ("Set", "Append") else FALSE
                    c.ob((v is TRUE) == (cmd == "eval") and v in (TRUE, FALSE), key, "%s is %srequired: %s" % (o, "" if cmd == "eval" else "not ", show(v, 3)), w)
                elif n == "value_parser":
                    t = a[1]
                    own = t.op == "fn" and any(g.path == t.a[0] for g in c.p.local_fns(("fn",)))
                    auto = any(y.op == "call" and "_infer_ValueParser_for" in y.a[0] for y in subterms(t))
                    if o == "duration":
                        good = own and "time::Duration" in [g for g in c.p.local_fns(("fn",)) if g.path == t.a[0]][0].sig()[1]
                    else:
                        good = auto and not (t.op == "call" and t.a[0].endswith(("range", "map", "try_map")))
                    c.ob(good, key, "the value of %s is taken as it is: %s" % (o, show(t, 4)), w)
                else:
                    c.ob(n in HARMLESS | {"new"}, key, "nothing else is asked of %s: %s" % (o, n), w)
            c.ob(got["short"] == short, key, "%s is -%s: %s" % (o, short, got["short"]), w)
            c.ob(got["long"] == (o if short else None), key, "%s is --%s: %s" % (o, o, got["long"]), w)
            c.ob(got["default_value"] == default, key, "the default of %s is %s: %s" % (o, default, got["default_value"]), w)
    # from the parsed options to the fields
    K = c.adt("Commands")
    g = c.fn(pred=lambda f: f.kind == "fn" and "Commands as" in f.path and f.path.endswith("FromArgMatches>::from_arg_matches_mut"))
    wg = c.where(g)
    e, ps = c.run(g)
    made = set()
    for p in ps:
        v = final(e, p) if p.kind == "ret" else None
        if v is None or not is_ok(v):
            continue
        v = proj(v, (0, 0))
        if not c.ob(v.op == "adt" and v.a[0] == K, "fields", "the parsed command is one of the commands: %s" % show(v, 3), wg):
            continue
        V = c.p.variants(K)[v.a[1]]
        made.add(V["name"])
        spelled = [t.val for t in p.events if t.kind == "cond" and t.eq and isinstance(t.val, str)] + \
                  [y.a[0] for t in p.events if t.kind == "cond" and t.eq == (t.val is True) and t.term.op == "eq" for y in t.term.a if y.op == "str"]
        c.ob(spelled == [V["name"].lower()], "fields", "%s is what %s means" % (V["name"], spelled), wg)
        for i, fd in enumerate(V["fields"]):
            t = v.a[2 + i]
            while t.op in ("fld",) or t.op == "call" and not t.a[0].endswith(("remove_one", "get_one", "get_flag")):
                if t.op == "call":
                    break
                t = t.a[0]
            ids = [y.a[0] for y in t.a[1:] if hasattr(y, "op") and y.op == "str"] if t.op == "call" else []
            c.ob(ids == [fd["name"]], "fields", "the option of field %s is %s" % (fd["name"], ids), wg)
    c.ob(made == {v["name"] for v in c.p.variants(K)}, "fields", "every command is read: %s" % sorted(made), wg)
    # what is used where an option is not given
    C = Command(c)
    n = 0
    for p in C.paths("test"):
        src = [x for x in p.events if x.kind == "call" and x.name == C.read]
        given = holds(p.events, C.given("path"))
        for x in src:
            n += 1
            a = x.args[0]
            if given == 1:
                c.ob(a is C.some("path"), "path", "the source is read from the given path: %s" % show(a, 4), C.where)
            elif given == 0:
                c.ob(any(y.op == "call" and y.a[0].endswith("env::current_dir") for y in subterms(a)), "path", "without a path the source is read from the current directory: %s" % show(a, 4), C.where)
            else:
                c.ob(a.op == "or" or any(y is C.some("path") for y in subterms(a)) and any(y.op == "call" and y.a[0].endswith("env::current_dir") for y in subterms(a)), "path", "where the source is read: %s" % show(a, 4), C.where)
    c.ob(n >= 1, "path", "a source is read", C.where)

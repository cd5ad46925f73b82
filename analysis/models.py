"""What the standard library functions used by the program mean, as terms.

A model maps (ctx, state, args) to [(state, value)]; None means: no model for
these arguments, treat the call as opaque.  A panicking outcome is recorded in
ctx.eng.panics.  Everything not listed is an opaque call (see absint)."""
import re

from absint import (T, mk, some, ok, err, NONE, UNIT, TRUE, FALSE, INT, STR, BOOL, OPTION, RESULT, FLOW, eq, is_const, Ev, Path, proj,
                    read_path, subterms, canon)

MODELS = {}


def M(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


_EFFECTS = re.compile(r"(^|::)(now|elapsed|var|vars|current_dir|_print|_eprint|recv|recv_timeout|try_recv|send|load|store|swap|fetch_\w+|compare_exchange\w*|"
                      r"join_handle::JoinHandle::join|sleep|read_dir|read_to_string|read_line|create|open|connect|connect_timeout|spawn|set_handler|channel|sync_channel|"
                      r"set_read_timeout|set_write_timeout|shutdown|to_socket_addrs|flush|write|write_all|complete_io|send_close_notify|next_line|lock|stdin|stdout|"
                      r"Atomic\w*::new|exit|abort|yield_now|park\w*|path|entries|is_dir|is_file|exists|metadata|read)$")
_PURE_EXC = {"fs::DirEntry::path", "path::Path::is_dir", "path::Path::is_file", "path::Path::exists", "env::var"}
_fx = {}


def pointed(prog):
    """the functions and closures a pointer or trait object of the program can call: (path, body or None)"""
    if not hasattr(prog, "_pointed"):
        out = {}
        for f in prog.fns.values():
            for b in f.blocks:
                for s in b["s"]:
                    r = s[2] if len(s) > 2 and isinstance(s[2], list) else None
                    if not r or r[0] != "cast" or "Pointer" not in r[1]:
                        continue
                    o = r[2]
                    if o[0] == "const" and "fn" in o[1]:
                        i = o[1]["fn"]
                        k = i.get("rdef") or i["def"]
                        out[k] = (i["path"], prog.fns.get(k))
                    elif "Closure" in r[1]:
                        ty = operand_type(f, o)
                        if ty.get("k") == "closure":
                            out[ty["def"]] = (ty["def"], prog.fns.get(ty["def"]))
                        else:
                            out["?"] = ("std::fs::unknown", None)
        prog._pointed = list(out.values())
    return prog._pointed


def operand_type(f, o):
    if o[0] == "const":
        return f.ty(o[1]["ty"]) if "ty" in o[1] else {}
    return f.local_ty(o[1][0]) if not o[1][1] else {}


def effectful(name, f):
    if f is None:
        return name not in _PURE_EXC and bool(_EFFECTS.search(name)) and not name.startswith(("slice::join", "str::"))
    if f.key in _fx:
        return _fx[f.key]
    _fx[f.key] = False
    r = False
    for b in f.blocks:
        t = b["t"]
        if t["k"] == "call":
            if t["f"][0] != "const" or "fn" not in t["f"][1]:
                # through a pointer: to any function that one is made of
                if any(effectful(canon(n), g) for n, g in pointed(f.prog)):
                    r = True
                    break
                continue
            i = t["f"][1]["fn"]
            g = f.prog.fns.get(i.get("rdef") or i["def"])
            if effectful(canon(i["path"]), g):
                r = True
                break
    _fx[f.key] = r
    return r


# ------------------------------------------------------------------ text
def cat(*parts):
    """concatenation of texts / byte strings, flattened"""
    out = []

    def add(p):
        if p.op == "cat":
            for x in p.a:
                add(x)
        elif p.op == "bytes":
            try:
                add(STR(bytes(p.a[0]).decode()))
            except UnicodeDecodeError:
                out.append(p)
        elif p.op == "seq":
            # Vec<u8> built from literal elements
            for x in p.a:
                add(byte(x))
        elif p.op == "array":
            for x in p.a:
                add(byte(x))
        elif p.op == "str":
            if p.a[0]:
                if out and out[-1].op == "str":
                    out[-1] = STR(out[-1].a[0] + p.a[0])
                else:
                    out.append(p)
        elif p.op == "char":
            add(STR(p.a[0]))
        else:
            out.append(p)
    for p in parts:
        add(p)
    if not out:
        return STR("")
    if len(out) == 1 and (out[0].op == "str"):
        return out[0]
    return mk("cat", *out)


def byte(x):
    if x.op == "int" and 0 <= x.a[0] < 128:
        return STR(chr(x.a[0]))
    return mk("byte", x)


STRTYPES = {"str", "alloc::string::String", "&str", "&alloc::string::String", "alloc::borrow::Cow<'_, str>"}


def strip_ref(ty):
    s = ty.get("s", "")
    while s.startswith("&"):
        s = re.sub(r"^&('\w+ )?(mut )?", "", s)
    return s


def display(ctx, ty, v, kind="display", spec=None):
    s = strip_ref(ty)
    if kind == "display" and spec is None:
        if s in ("str", "alloc::string::String") or s.startswith("alloc::borrow::Cow"):
            return cat(v) if v.op in ("str", "cat") else v
        if v.op == "int":
            return STR(str(v.a[0]))
        if v.op == "bool":
            return STR("true" if v.a[0] else "false")
        if s == "char":
            return v if v.op != "char" else STR(v.a[0])
        if s.startswith("core::fmt::Arguments"):
            return v
    d = mk(kind, v) if spec is None else mk(kind, v, spec)
    return d


def const_str(v):
    return v.a[0] if v.op == "str" else None


def decode_template(b, args):
    """the byte template of core::fmt::Arguments (nightly encoding)"""
    out, i, n = [], 0, 0
    while i < len(b):
        c = b[i]
        i += 1
        if c == 0:
            break
        if c < 0x80:
            out.append(STR(bytes(b[i:i + c]).decode("utf8", "replace")))
            i += c
        elif c == 0x80:
            k = b[i] | b[i + 1] << 8
            i += 2
            out.append(STR(bytes(b[i:i + k]).decode("utf8", "replace")))
            i += k
        elif c >= 0xC0:
            spec = []
            if c & 1:
                spec.append(("flags", tuple(b[i:i + 4])))
                i += 4
            if c & 2:
                spec.append(("width", b[i] | b[i + 1] << 8))
                i += 2
            if c & 4:
                spec.append(("prec", b[i] | b[i + 1] << 8))
                i += 2
            if c & 8:
                n = b[i] | b[i + 1] << 8
                i += 2
            if n >= len(args):
                return None
            a = args[n]
            n += 1
            if a.op != "fmtarg":
                return None
            out.append(a.a[2] if not spec else mk("spec", a.a[2], tuple(spec)))
        else:
            return None
    return cat(*out)


@M("fmt::rt::Argument::new_display", "fmt::rt::Argument::new_debug", "fmt::rt::Argument::new_lower_hex", "fmt::rt::Argument::new_upper_hex")
def _fmtarg(ctx, st, a):
    kind = ctx.name.rsplit("new_", 1)[1]
    ty = ctx.targ(0)
    v = ctx.eng.norm(st, a[0])
    ctx.eng.type_of.setdefault(v, strip_ref(ty))
    return [(st, mk("fmtarg", kind, strip_ref(ty), display(ctx, ty, v, kind)))]


@M("fmt::Arguments::new", "fmt::Arguments::new_const", "fmt::rt::Arguments::new")
def _args_new(ctx, st, a):
    t = ctx.eng.norm(st, a[0])
    if t.op == "str":
        b = t.a[0].encode("latin1", "replace")
    elif t.op == "bytes":
        b = t.a[0]
    elif t.op == "array":
        b = tuple(x.a[0] for x in t.a)
    else:
        return None
    args = ctx.eng.norm(st, a[1]) if len(a) > 1 else mk("array")
    if args.op != "array":
        return None
    r = decode_template(b, args.a)
    return None if r is None else [(st, r)]


@M("fmt::Arguments::from_str", "fmt::Arguments::from_str_nonconst")
def _args_str(ctx, st, a):
    return [(st, ctx.eng.norm(st, a[0]))]


@M("fmt::format", "fmt::format_inner")
def _format(ctx, st, a):
    return [(st, cat(ctx.eng.norm(st, a[0])))]


@M("string::ToString::to_string")
def _to_string(ctx, st, a):
    v = ctx.eng.norm(st, a[0])
    return [(st, display(ctx, ctx.targ(0), v))]


def result_of(ctx, st, name, vals, raw=None, **k):
    """an effectful call with an opaque result"""
    e = ctx.eng
    res = mk("call", name, *(list(vals) + [mk("uid", e.uid())]))
    st.ev(Ev("call", name=name, args=list(vals), raw=raw or [], res=res, span=ctx.span, fn=ctx.fr.fn.path if ctx.fr else "", pure=False, callee=None,
             info=ctx.info, outs=None, site=(ctx.fr.fn.key, ctx.span), stack=tuple(x.fn.path for x in e.stack), **k))
    return res


def sink(ctx, st, a, text, name, mem=False):
    """text appended to a writer / buffer / formatter"""
    e = ctx.eng
    root, path = e.target(st, a)
    old = st.read(root, path)
    if old.op == "ptr":
        old = e.norm(st, old)
    st.write(root, path, cat(old, text))
    return result_of(ctx, st, "sink", [old, text], sink=(root, path), via=name, mem=mem)


@M("fmt::Formatter::write_fmt", "fmt::Formatter::write_str", "fmt::Write::write_fmt", "fmt::Write::write_str", "io::write::Write::write_fmt",
   "io::write::Write::write_all", "fmt::Formatter::write_char", "fmt::Write::write_char", "fmt::Formatter::pad")
def _write(ctx, st, a):
    text = ctx.eng.norm(st, a[1])
    # writing to memory cannot fail
    s = strip_ref(ctx.argty(0))
    mem = s.startswith(("alloc::string::String", "alloc::vec::Vec")) or s == "String"
    res = sink(ctx, st, a[0], text, ctx.name, mem)
    return [(st, ok(UNIT) if mem else res)]


@M("fmt::Display::fmt", "fmt::Debug::fmt")
def _dfmt(ctx, st, a):
    v = ctx.eng.norm(st, a[0])
    d = display(ctx, ctx.argty(0), v, "display" if ctx.name.startswith("fmt::Display") else "debug")
    return [(st, sink(ctx, st, a[1], d, ctx.name))]


@M("io::stdio::_print", "io::stdio::_eprint")
def _print(ctx, st, a):
    text = ctx.eng.norm(st, a[0])
    result_of(ctx, st, ctx.name, [cat(text)])
    return [(st, UNIT)]


# ------------------------------------------------------------------ identities
@M("hint::must_use", "boxed::Box::new", "rcs::arc::Arc::new", "sync::Arc::new", "rc::Rc::new", "rcs::rc::Rc::new", "vec::Vec::into_boxed_slice", "boxed::Box::leak",
   "iter::traits::iterator::Iterator::by_ref", "io::read::Read::by_ref", "io::write::Write::by_ref", "convert::identity", "string::String::into_boxed_str", "slice::into_vec", "hint::black_box", "boxed::Box::into_inner",
   "string::String::into_string", "borrow::Cow::into_owned", "sync::Mutex::new", "cell::RefCell::new", "cell::Cell::new", "iter::traits::iterator::Iterator::fuse",
   "rcs::arc::Arc::unwrap_or_clone", "cell::UnsafeCell::new", "mem::manually_drop::ManuallyDrop::new", "mem::maybe_uninit::MaybeUninit::new")
def _id(ctx, st, a):
    return [(st, a[0])]


# references into the same place
@M("ops::deref::Deref::deref", "ops::deref::DerefMut::deref_mut", "convert::AsRef::as_ref", "convert::AsMut::as_mut", "borrow::Borrow::borrow",
   "borrow::BorrowMut::borrow_mut", "string::String::as_str", "string::String::as_mut_str", "str::as_bytes", "string::String::as_bytes", "vec::Vec::as_slice",
   "vec::Vec::as_mut_slice", "boxed::Box::as_ref", "boxed::Box::as_mut", "path::PathBuf::as_path", "slice::as_ref", "ffi::os_str::OsStr::new", "path::Path::new",
   "path::Path::as_os_str", "slice::as_slice", "array::as_slice", "string::String::as_ref", "ffi::os_str::OsString::as_os_str")
def _deref(ctx, st, a):
    e = ctx.eng
    v = e.content(st, a[0])
    if v.op == "lazy":
        return callv(ctx, st, v.a[0], [])
    if a[0].op == "ptr":
        root, path = e.target(st, a[0])
        return [(st, mk("ptr", root, path, a[0].a[2]))]
    return [(st, a[0])]


@M("string::String::into_bytes", "str::into_string", "ffi::os_str::OsStr::to_os_string", "path::Path::to_path_buf", "slice::to_vec", "str::to_owned", "borrow::ToOwned::to_owned",
   "option::Option::cloned", "option::Option::copied", "iter::traits::iterator::Iterator::cloned", "iter::traits::iterator::Iterator::copied",
   "string::String::from_utf8_unchecked", "path::PathBuf::from", "path::PathBuf::into_os_string", "result::Result::cloned", "result::Result::copied", "str::to_string")
def _own(ctx, st, a):
    if ctx.name.endswith(("to_owned",)):
        return clone(ctx, st, a)
    if ctx.name.startswith("iter::"):
        return [(st, a[0])]
    return [(st, ctx.eng.norm(st, a[0]))]


@M("clone::Clone::clone")
def clone(ctx, st, a):
    e = ctx.eng
    ty = ctx.targ(0)
    adt = ty.get("adt", "")
    s = ty.get("s", "")
    if adt.endswith(("mpsc::Sender", "mpsc::SyncSender")):
        v = e.norm(st, a[0])
        st.ev(Ev("call", name="Sender::clone", args=[v], raw=a, res=v, span=ctx.span, fn=ctx.fr.fn.path, pure=False, callee=None, info=ctx.info, outs=None,
                 site=(ctx.fr.fn.key, ctx.span), stack=()))
        return [(st, v)]
    if ty.get("k") == "ref":
        return [(st, e.content(st, a[0]) if a[0].op == "ptr" and st.read(a[0].a[0], a[0].a[1]).op == "ptr" else a[0])]
    f = e.clone_impls.get(adt)
    if f is not None and not any(x.fn is f for x in e.stack):
        return e.run_fn(f, [a[0]], st)
    return [(st, e.norm(st, a[0]))]


@M("convert::From::from", "convert::Into::into")
def _from(ctx, st, a):
    e = ctx.eng
    src = ctx.argty(0)
    dst = ctx.retty() if "dt" in (ctx.t or {}) else {"s": "?"}
    s, d = strip_ref(src), dst.get("s", "?")
    v = e.norm(st, a[0])
    # the program's own conversion
    for f in e.p.fns.values():
        if f.trait == "core::convert::From" and f.self_ty is not None and f.ty(f.self_ty)["s"] == d and f.sig()[0] == (src.get("s"),):
            if any(x.fn is f for x in e.stack) or e.is_opaque(f):
                return e.opaque_call(ctx, st, f.path, a, f)
            return e.run_fn(f, a, st)
    if s == d or s in ("str",) or s.startswith("alloc::borrow::Cow"):
        return [(st, v)]
    if s == "char" and d.startswith("alloc::string::String"):
        return [(st, cat(v))]
    if s in INTS and d in INTS | {"f64", "f32"}:
        if v.op == "int" and d in INTS:
            return [(st, v)]
        return [(st, mk("cast", d, v))]
    if s == "bool" and d in INTS:
        return [(st, mk("cast", d, v) if v.op != "bool" else INT(int(v.a[0])))]
    if d.startswith("core::option::Option<") and not s.startswith("core::option::Option<"):
        return [(st, some(a[0]))]
    if d.startswith("alloc::boxed::Box<") or d.startswith("alloc::sync::Arc<"):
        return [(st, a[0])]
    if d.startswith("alloc::vec::Vec<"):
        if v.op == "array":
            return [(st, mk("seq", *v.a))]
        return [(st, v)]
    if d.startswith("std::collections::hash::map::HashMap<") and v.op == "array":
        m = mk("emptymap")
        for x in v.a:
            m = mk("insert", m, proj(x, (None, 0)), proj(x, (None, 1)))
        return [(st, m)]
    if d.startswith(("std::path::PathBuf", "std::ffi::os_str::OsString", "alloc::string::String")):
        return [(st, v)]
    return [(st, mk("call", "convert", v, STR(d)))]


INTS = {"i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "usize", "u128"}


@M("convert::TryFrom::try_from", "convert::TryInto::try_into")
def _try_from(ctx, st, a):
    d = re.sub(r"^core::result::Result<", "", ctx.retty().get("s", "?")).split(",")[0]
    v = ctx.eng.norm(st, a[0])
    return pure(ctx, st, "convert::try_into", [v, STR(d)])


@M("boxed::Box::new_uninit", "boxed::Box::new_uninit_slice")
def _uninit(ctx, st, a):
    r = ("S", ctx.eng.uid())
    st.mem[r] = mk("uninit", mk("uid", ctx.eng.uid()))
    return [(st, mk("ptr", r, (), True))]


@M("boxed::box_assume_init_into_vec_unsafe", "boxed::Box::assume_init", "slice::into_vec")
def _into_vec(ctx, st, a):
    v = ctx.eng.norm(st, a[0])
    while v.op == "upd":
        v = v.a[2]
    if v.op == "array":
        v = mk("seq", *v.a)
    return [(st, v)]


# ------------------------------------------------------------------ helpers
def pure(ctx, st, name, vals):
    e = ctx.eng
    res = mk("call", name, *vals)
    st.ev(Ev("call", name=name, args=list(vals), raw=[], res=res, span=ctx.span, fn=ctx.fr.fn.path if ctx.fr else "", pure=True, callee=None, info=ctx.info,
             outs=None, site=(ctx.fr.fn.key if ctx.fr else "", ctx.span), stack=()))
    return [(st, res)]


def maypanic(ctx, st, what, args):
    """a site that panics unless its precondition holds"""
    st.ev(Ev("maypanic", what=what, op=ctx.name, args=list(args), span=ctx.span, fn=ctx.fr.fn.path if ctx.fr else "", state=st.fork(), site=(ctx.fr.fn.key, ctx.span),
             ty=ctx.argty(0).get("s", "?") if ctx.info.get("targs") is not None or ctx.info else "?"))


def callv(ctx, st, f, args):
    return ctx.eng.call_value(ctx.fr, st, f, args, ctx.span)


def opt(ctx, st, v, n=2):
    """[(variant, state, payload)] of an Option/Result value (payload projected)"""
    e = ctx.eng
    v0 = e.content(st, v)
    return [(i, s, proj(v0, (i, 0))) for i, s in e.fork_discr(st, v0, n)]


def panic(ctx, st, why):
    st.ev(Ev("diverge", name=why, span=ctx.span, fn=ctx.fr.fn.path))
    ctx.eng.panics.append(st)


def optmodel(*names):
    def d(f):
        def g(ctx, st, a):
            out = []
            is_res = ctx.name.startswith("result::")
            for i, s, p in opt(ctx, st, a[0]):
                good = (i == 0) if is_res else (i == 1)
                r = f(ctx, s, a, good, p, is_res)
                if r is not None:
                    out += r
            return out
        return M(*names)(g)
    return d


def wrap(is_res, good, p):
    if is_res:
        return ok(p) if good else err(p)
    return some(p) if good else NONE


@optmodel("option::Option::map", "result::Result::map")
def _map(ctx, s, a, good, p, is_res):
    if not good:
        return [(s, wrap(is_res, False, p))]
    return [(x, wrap(is_res, True, v)) for x, v in callv(ctx, s, a[1], [p])]


@optmodel("result::Result::map_err")
def _map_err(ctx, s, a, good, p, is_res):
    if good:
        return [(s, ok(p))]
    return [(x, err(v)) for x, v in callv(ctx, s, a[1], [p])]


@optmodel("option::Option::and_then", "result::Result::and_then")
def _and_then(ctx, s, a, good, p, is_res):
    if not good:
        return [(s, wrap(is_res, False, p))]
    return callv(ctx, s, a[1], [p])


@optmodel("option::Option::or_else", "result::Result::or_else")
def _or_else(ctx, s, a, good, p, is_res):
    if good:
        return [(s, wrap(is_res, True, p))]
    return callv(ctx, s, a[1], [p] if is_res else [])


@optmodel("option::Option::or", "result::Result::or")
def _or(ctx, s, a, good, p, is_res):
    return [(s, wrap(is_res, True, p) if good else a[1])]


@optmodel("option::Option::and", "result::Result::and")
def _and(ctx, s, a, good, p, is_res):
    return [(s, a[1] if good else wrap(is_res, False, p))]


@optmodel("result::Result::ok")
def _ok(ctx, s, a, good, p, is_res):
    return [(s, some(p) if good else NONE)]


@optmodel("result::Result::err")
def _err(ctx, s, a, good, p, is_res):
    return [(s, NONE if good else some(p))]


@optmodel("option::Option::ok_or")
def _ok_or(ctx, s, a, good, p, is_res):
    return [(s, ok(p) if good else err(a[1]))]


@optmodel("option::Option::ok_or_else")
def _ok_or_else(ctx, s, a, good, p, is_res):
    return [(s, ok(p))] if good else [(x, err(v)) for x, v in callv(ctx, s, a[1], [])]


@optmodel("option::Option::unwrap", "result::Result::unwrap", "option::Option::expect", "result::Result::expect")
def _unwrap(ctx, s, a, good, p, is_res):
    if good:
        return [(s, p)]
    s.ev(Ev("maypanic", what="unwrap", args=[ctx.eng.norm(s, a[0])], span=ctx.span, fn=ctx.fr.fn.path, state=s, site=(ctx.fr.fn.key, ctx.span)))
    panic(ctx, s, ctx.name)
    return []


@optmodel("result::Result::unwrap_err", "result::Result::expect_err")
def _unwrap_err(ctx, s, a, good, p, is_res):
    if not good:
        return [(s, p)]
    s.ev(Ev("maypanic", what="unwrap", args=[ctx.eng.norm(s, a[0])], span=ctx.span, fn=ctx.fr.fn.path, state=s, site=(ctx.fr.fn.key, ctx.span)))
    panic(ctx, s, ctx.name)
    return []


@optmodel("option::Option::unwrap_or", "result::Result::unwrap_or")
def _unwrap_or(ctx, s, a, good, p, is_res):
    return [(s, p if good else a[1])]


@optmodel("option::Option::unwrap_or_else", "result::Result::unwrap_or_else")
def _unwrap_or_else(ctx, s, a, good, p, is_res):
    return [(s, p)] if good else callv(ctx, s, a[1], [p] if is_res else [])


@optmodel("option::Option::unwrap_or_default", "result::Result::unwrap_or_default")
def _unwrap_or_default(ctx, s, a, good, p, is_res):
    return [(s, p)] if good else default_of(ctx, s, ctx.targ(0))


@optmodel("option::Option::map_or", "result::Result::map_or")
def _map_or(ctx, s, a, good, p, is_res):
    return callv(ctx, s, a[2], [p]) if good else [(s, a[1])]


@optmodel("option::Option::map_or_else", "result::Result::map_or_else")
def _map_or_else(ctx, s, a, good, p, is_res):
    return callv(ctx, s, a[2], [p]) if good else callv(ctx, s, a[1], [p] if is_res else [])


@optmodel("option::Option::filter")
def _ofilter(ctx, s, a, good, p, is_res):
    if not good:
        return [(s, NONE)]
    out = []
    for x, v in callv(ctx, s, a[1], [refto(ctx, s, p)]):
        for b, y in ctx.eng.fork_bool(x, v):
            out.append((y, some(p) if b else NONE))
    return out


@optmodel("option::Option::is_some_and", "result::Result::is_ok_and")
def _is_some_and(ctx, s, a, good, p, is_res):
    return callv(ctx, s, a[1], [p]) if good else [(s, FALSE)]


@optmodel("option::Option::is_none_or")
def _is_none_or(ctx, s, a, good, p, is_res):
    return callv(ctx, s, a[1], [p]) if good else [(s, TRUE)]


@optmodel("option::Option::inspect", "result::Result::inspect")
def _inspect(ctx, s, a, good, p, is_res):
    if not good:
        return [(s, wrap(is_res, False, p))]
    return [(x, wrap(is_res, True, p)) for x, v in callv(ctx, s, a[1], [refto(ctx, s, p)])]


@optmodel("result::Result::inspect_err")
def _inspect_err(ctx, s, a, good, p, is_res):
    if good:
        return [(s, ok(p))]
    return [(x, err(p)) for x, v in callv(ctx, s, a[1], [refto(ctx, s, p)])]


@optmodel("option::Option::transpose")
def _transpose(ctx, s, a, good, p, is_res):
    if not good:
        return [(s, ok(NONE))]
    return [(x, ok(some(q)) if i == 0 else err(q)) for i, x, q in opt(ctx, s, p)]


@optmodel("option::Option::flatten")
def _flatten(ctx, s, a, good, p, is_res):
    return [(s, p if good else NONE)]


@optmodel("option::Option::zip")
def _ozip(ctx, s, a, good, p, is_res):
    if not good:
        return [(s, NONE)]
    return [(x, some(mk("tuple", p, q)) if i == 1 else NONE) for i, x, q in opt(ctx, s, a[1])]


@M("option::Option::is_some", "result::Result::is_err")
def _is1(ctx, st, a):
    return [(s, BOOL(i == 1)) for i, s, _ in opt(ctx, st, a[0])]


@M("option::Option::is_none", "result::Result::is_ok")
def _is0(ctx, st, a):
    return [(s, BOOL(i == 0)) for i, s, _ in opt(ctx, st, a[0])]


@M("option::Option::as_ref", "option::Option::as_mut", "result::Result::as_ref", "result::Result::as_mut", "option::Option::as_deref", "option::Option::as_deref_mut",
   "result::Result::as_deref")
def _as_ref(ctx, st, a):
    e = ctx.eng
    is_res = ctx.name.startswith("result::")
    mut = ctx.name.endswith("mut")
    out = []
    if a[0].op == "ptr":
        root, path = e.target(st, a[0])
        for i, s in e.fork_discr(st, st.read(root, path), 2):
            p = mk("ptr", root, path + ((i, 0),), mut)
            out.append((s, wrap(is_res, (i == 0) == is_res, p)))
        return out
    for i, s, p in opt(ctx, st, a[0]):
        out.append((s, wrap(is_res, (i == 0) == is_res, p)))
    return out


@M("option::Option::take", "mem::take", "option::Option::replace", "option::Option::insert", "mem::replace", "option::Option::get_or_insert_with")
def _take(ctx, st, a):
    e = ctx.eng
    root, path = e.target(st, a[0])
    old = st.read(root, path)
    n = ctx.name
    if n == "option::Option::take":
        st.write(root, path, NONE)
        return [(st, old)]
    if n == "mem::take":
        out = []
        for s, v in default_of(ctx, st, ctx.targ(0)):
            s.write(root, path, v)
            out.append((s, old))
        return out
    if n == "mem::replace":
        st.write(root, path, a[1])
        return [(st, old)]
    if n == "option::Option::replace":
        st.write(root, path, some(a[1]))
        return [(st, old)]
    if n == "option::Option::insert":
        st.write(root, path, some(a[1]))
        return [(st, mk("ptr", root, path + ((1, 0),), True))]
    out = []
    for i, s in e.fork_discr(st, old, 2):
        if i == 1:
            out.append((s, mk("ptr", root, path + ((1, 0),), True)))
        else:
            for x, v in callv(ctx, s, a[1], []):
                x.write(root, path, some(v))
                out.append((x, mk("ptr", root, path + ((1, 0),), True)))
    return out


@M("mem::swap")
def _swap(ctx, st, a):
    e = ctx.eng
    (r1, p1), (r2, p2) = e.target(st, a[0]), e.target(st, a[1])
    x, y = st.read(r1, p1), st.read(r2, p2)
    st.write(r1, p1, y)
    st.write(r2, p2, x)
    return [(st, UNIT)]


@M("mem::drop")
def _drop(ctx, st, a):
    ty = ctx.targ(0)
    st.ev(Ev("drop", ty=ty["s"], adt=ty.get("adt"), val=ctx.eng.norm(st, a[0], 4), span=ctx.span, fn=ctx.fr.fn.path))
    return [(st, UNIT)]


@M("bool::then", "bool::methods::then")
def _then(ctx, st, a):
    out = []
    for b, s in ctx.eng.fork_bool(st, a[0]):
        if b:
            out += [(x, some(v)) for x, v in callv(ctx, s, a[1], [])]
        else:
            out.append((s, NONE))
    return out


@M("char::methods::len_utf8", "char::len_utf8")
def _len_utf8(ctx, st, a):
    c = ctx.eng.norm(st, a[0], 2)
    if c.op == "char":
        v = c.a[0]
        v = chr(v) if isinstance(v, int) else v
        return [(st, INT(len(v.encode("utf-8", "surrogatepass"))))]
    return [(st, mk("call", "char::methods::len_utf8", c))]


@M("bool::then_some", "bool::methods::then_some")
def _then_some(ctx, st, a):
    return [(s, some(a[1]) if b else NONE) for b, s in ctx.eng.fork_bool(st, a[0])]


@M("ops::try_trait::Try::branch")
def _branch(ctx, st, a):
    ty = ctx.argty(0)
    is_res = ty.get("adt") != OPTION
    out = []
    for i, s, p in opt(ctx, st, a[0]):
        good = (i == 0) == is_res
        if good:
            out.append((s, mk("adt", FLOW, 0, p)))
        else:
            out.append((s, mk("adt", FLOW, 1, err(p) if is_res else NONE)))
    return out


@M("ops::try_trait::FromResidual::from_residual")
def _residual(ctx, st, a):
    v = ctx.eng.content(st, a[0])
    if v.op == "adt" and v.a[0] == RESULT:
        src, dst = ctx.argty(0).get("s", ""), ctx.retty()
        p = v.a[2]
        ea = ctx.argty(0).get("args") or []
        ed = dst.get("args") or []
        if len(ea) == 2 and len(ed) == 2:
            x, y = ctx.fr.fn.ty(ea[1])["s"], ctx.fr.fn.ty(ed[1])["s"]
            if x != y and not (x in ("&str", "&'static str") and y.endswith("String")):
                p = mk("call", "convert", ctx.eng.norm(st, p), STR(y))
        return [(st, err(p))]
    return [(st, v)]


@M("ops::try_trait::Try::from_output")
def _from_output(ctx, st, a):
    return [(st, ok(a[0]) if ctx.retty().get("adt") != OPTION else some(a[0]))]


# ------------------------------------------------------------------ comparison
def equal(ctx, st, a, b, depth=4):
    """[(state, bool term)]"""
    e = ctx.eng
    a, b = e.norm(st, a), e.norm(st, b)
    if a is b and a.op not in ("float",):
        return [(st, TRUE)]
    if a.op == "cat" and len(a.a) == 1:
        a = a.a[0]
    if is_const(a) and is_const(b) and a.op == b.op:
        return [(st, BOOL(a.a[0] == b.a[0]))]
    if b.op != "adt" and a.op == "adt":
        a, b = b, a
    if b.op == "adt" and depth:
        if a.op == "adt":
            if a.a[1] != b.a[1]:
                return [(st, FALSE)]
            prs = list(zip(a.a[2:], b.a[2:]))
        else:
            nv = len(e.p.adts[b.a[0]]["variants"]) if b.a[0] in e.p.adts else 2
            if nv > 1:
                dv = mk("discr", a)
                vs = e.p.adts.get(b.a[0], {}).get("variants")
                dn = int(vs[b.a[1]]["discr"]) if vs else b.a[1]
                t = eq(dv, INT(dn))
                if len(b.a) == 2:
                    d = e.decide(st, t)
                    return [(st, BOOL(d) if d is not None else t)]
                out = []
                for x, s in e.fork_bool(st, t):
                    if not x:
                        out.append((s, FALSE))
                    else:
                        out += conj(ctx, s, [(proj(a, (b.a[1], i)), y) for i, y in enumerate(b.a[2:])], depth)
                return out
            prs = [(proj(a, (None, i)), y) for i, y in enumerate(b.a[2:])]
        return conj(ctx, st, prs, depth)
    if a.op == "tuple" and b.op == "tuple" and len(a.a) == len(b.a):
        return conj(ctx, st, list(zip(a.a, b.a)), depth)
    if (a.op == "str" and a.a[0] == "") or (b.op == "str" and b.a[0] == ""):
        return isempty(ctx, st, b if a.op == "str" else a)
    t = eq(a, b)
    d = e.decide(st, t)
    return [(st, BOOL(d) if d is not None else t)]


def conj(ctx, st, prs, depth):
    if not prs:
        return [(st, TRUE)]
    if len(prs) == 1:
        return equal(ctx, st, prs[0][0], prs[0][1], depth - 1)
    out = []
    for s, t in equal(ctx, st, prs[0][0], prs[0][1], depth - 1):
        for x, y in ctx.eng.fork_bool(s, t):
            out += conj(ctx, y, prs[1:], depth) if x else [(y, FALSE)]
    return out


@M("cmp::PartialEq::eq", "cmp::PartialEq::ne")
def _eq(ctx, st, a):
    e = ctx.eng
    out = []
    ty = ctx.targ(0)
    for s, t in equal(ctx, st, a[0], a[1]):
        if ctx.name.endswith("ne"):
            d = e.decide(s, t)
            t = BOOL(not d) if d is not None else mk("not", t)
        out.append((s, t))
    return out


@M("cmp::PartialOrd::lt", "cmp::PartialOrd::le", "cmp::PartialOrd::gt", "cmp::PartialOrd::ge")
def _lt(ctx, st, a):
    e = ctx.eng
    x, y = e.norm(st, a[0]), e.norm(st, a[1])
    n = ctx.name[-2:]
    t = {"lt": lambda: mk("lt", x, y), "gt": lambda: mk("lt", y, x), "le": lambda: mk("le", x, y), "ge": lambda: mk("le", y, x)}[n]()
    d = e.decide(st, t)
    return [(st, BOOL(d) if d is not None else t)]


@M("cmp::PartialOrd::partial_cmp", "cmp::Ord::cmp")
def _pcmp(ctx, st, a):
    e = ctx.eng
    return pure(ctx, st, ctx.name, [e.norm(st, a[0]), e.norm(st, a[1])])


@M("cmp::Ord::max", "cmp::Ord::min", "cmp::max", "cmp::min")
def _max(ctx, st, a):
    e = ctx.eng
    x, y = e.norm(st, a[0]), e.norm(st, a[1])
    n = ctx.name.rsplit("::", 1)[1]
    if x.op == "int" and y.op == "int":
        return [(st, INT(max(x.a[0], y.a[0]) if n == "max" else min(x.a[0], y.a[0])))]
    if is_const(x):
        x, y = y, x
    return [(st, mk(n, x, y))]


@M("cmp::Ord::clamp", "num::clamp")
def _clamp(ctx, st, a):
    e = ctx.eng
    x, lo, hi = [e.norm(st, y) for y in a[:3]]
    if lo.op != "int" or hi.op != "int" or lo.a[0] > hi.a[0]:
        return pure(ctx, st, ctx.name, [x, lo, hi])
    if x.op == "int":
        return [(st, INT(min(max(x.a[0], lo.a[0]), hi.a[0])))]
    # a limit that is one of the type limits nothing
    ty = ctx.argty(0).get("s", "?")
    bits = 64 if ty.endswith("size") else int(ty[1:]) if ty[1:].isdigit() else None
    ends = (None, None) if bits is None else (0, 2 ** bits - 1) if ty[0] == "u" else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
    for n, y, end in (("max", lo, ends[0]), ("min", hi, ends[1])):
        if y.a[0] != end:
            x = mk(n, x, y)
    return [(st, x)]


# ------------------------------------------------------------------ defaults
def default_of(ctx, st, ty):
    e = ctx.eng
    s, adt = ty.get("s", ""), ty.get("adt", "")
    if s in INTS:
        return [(st, INT(0))]
    if s == "bool":
        return [(st, FALSE)]
    if s in ("f64", "f32"):
        return [(st, mk("float", "0"))]
    if s in ("alloc::string::String", "&str"):
        return [(st, STR(""))]
    if adt == "alloc::vec::Vec":
        inner = e.elem_ty(ctx, ty)
        return [(st, STR("") if inner == "u8" else mk("seq"))]
    if adt.endswith("HashMap"):
        return [(st, mk("emptymap"))]
    if adt == OPTION:
        return [(st, NONE)]
    if s == "()":
        return [(st, UNIT)]
    if s == "core::time::Duration":
        return [(st, mk("duration", 0))]
    f = e.default_impls.get(adt)
    if f is not None:
        return e.run_fn(f, [], st)
    return [(st, mk("call", "default", STR(s)))]


@M("default::Default::default", "string::String::default")
def _default(ctx, st, a):
    t = ctx.targ(0)
    if t["s"] == "?" or t.get("k") == "param":
        t = ctx.retty()
    return default_of(ctx, st, t)


@M("num::default", "bool::default")
def _default_num(ctx, st, a):
    return default_of(ctx, st, ctx.retty())


# ------------------------------------------------------------------ collections
@M("vec::Vec::new", "vec::Vec::with_capacity", "string::String::new", "string::String::with_capacity", "collections::hash::map::HashMap::new",
   "collections::hash::map::HashMap::with_capacity", "collections::hash::set::HashSet::new", "collections::vec_deque::VecDeque::new", "collections::btree::map::BTreeMap::new",
   "collections::btree::set::BTreeSet::new", "path::PathBuf::new")
def _new(ctx, st, a):
    n = ctx.name
    if "string" in n:
        return [(st, STR(""))]
    if "map" in n:
        return [(st, mk("emptymap"))]
    inner = ctx.eng.elem_ty(ctx, ctx.retty())
    return [(st, STR("") if inner == "u8" else mk("seq"))]


def place(ctx, st, p):
    root, path = ctx.eng.target(st, p)
    v = st.read(root, path)
    return root, path, v


def is_bytes(ctx, v, ty):
    inner = ctx.eng.elem_ty(ctx, ty)
    return inner == "u8"


@M("vec::Vec::push", "string::String::push", "string::String::push_str", "vec::Vec::extend_from_slice", "vec::Vec::push_within_capacity", "collections::vec_deque::VecDeque::push_back",
   "ffi::os_str::OsString::push", "vec::Vec::append")
def _push(ctx, st, a):
    e = ctx.eng
    root, path, v = place(ctx, st, a[0])
    n = ctx.name.rsplit("::", 1)[1]
    x = a[1]
    if n == "push" and "string" in ctx.name:
        nv = cat(v, e.norm(st, x))
    elif n == "push_str" or "OsString" in ctx.name:
        nv = cat(v, e.norm(st, x))
    elif n in ("extend_from_slice", "append"):
        y = e.norm(st, x)
        if is_bytes(ctx, v, ctx.argty(0)):
            nv = cat(v, y)
        elif y.op in ("seq", "array") and v.op == "seq":
            nv = mk("seq", *(v.a + y.a))
        elif v.op == "seq" and not v.a:
            nv = y
        else:
            nv = mk("concat", v, y)
        if n == "append":
            r2, p2 = e.target(st, x)
            st.write(r2, p2, mk("seq"))
    else:
        if is_bytes(ctx, v, ctx.argty(0)):
            nv = cat(v, byte(e.norm(st, x)))
        else:
            y = e.norm(st, x)
            nv = mk("seq", *(v.a + (y,))) if v.op == "seq" else mk("push", v, y)
    st.write(root, path, nv)
    return [(st, UNIT)]


def length(ctx, st, v):
    if v.op == "str":
        return INT(len(v.a[0].encode()))
    if v.op == "bytes":
        return INT(len(v.a[0]))
    if v.op in ("seq", "array"):
        return INT(len(v.a))
    if v.op == "emptymap":
        return INT(0)
    if v.op == "push":
        l = length(ctx, st, v.a[0])
        return ctx.eng.arith("add", l, INT(1))
    if v.op in ("reversed", "sorted"):
        return length(ctx, st, v.a[0])
    return mk("len", v)


def isempty(ctx, st, v):
    """emptiness as not(lt(0, len)) so that it agrees with get/first/next"""
    if v.op in ("str", "seq", "array", "bytes", "emptymap"):
        return [(st, BOOL(length(ctx, st, v).a[0] == 0))]
    if v.op in ("push", "insert"):
        return [(st, FALSE)]
    if v.op == "cat":
        if any(x.op in ("str", "byte") for x in v.a):
            return [(st, FALSE)]
    if v.op in ("reversed", "sorted"):
        return isempty(ctx, st, v.a[0])
    t = mk("lt", INT(0), mk("len", v))
    d = ctx.eng.decide(st, t)
    return [(st, BOOL(not d) if d is not None else mk("not", t))]


@M("vec::Vec::len", "string::String::len", "str::len", "slice::len", "collections::hash::map::HashMap::len", "collections::vec_deque::VecDeque::len",
   "iter::traits::exact_size::ExactSizeIterator::len", "array::len")
def _len(ctx, st, a):
    v = ctx.eng.norm(st, a[0])
    if v.op == "adt" and v.a[0].startswith("it::"):
        r = it_len(ctx, st, v)
        if r is None:
            return None
        return [(st, r)]
    return [(st, length(ctx, st, v))]


def it_len(ctx, st, v):
    if v.op != "adt":
        return None
    k = v.a[0]
    if k == "it::Leaf":
        c = v.a[2]
        n = 0
        while c.op == "adv":
            c, n = c.a[0], n + 1
        if c.op != "cursor":
            return None
        l = length(ctx, st, c.a[0])
        return l if not n else ctx.eng.arith("sub", l, INT(n))
    if k in ("it::Map", "it::Enumerate", "it::Rev"):
        return it_len(ctx, st, v.a[2])
    return None


@M("vec::Vec::is_empty", "string::String::is_empty", "str::is_empty", "slice::is_empty", "collections::hash::map::HashMap::is_empty", "collections::vec_deque::VecDeque::is_empty")
def _is_empty(ctx, st, a):
    return isempty(ctx, st, ctx.eng.norm(st, a[0]))


def tail(v):
    if v.op in ("seq", "array") and v.a:
        return mk("seq", *v.a[1:])
    return mk("tail", v)


def first(v):
    if v.op in ("seq", "array") and v.a:
        return v.a[0]
    return proj(v, ("i", INT(0)))


def init(v):
    if v.op in ("seq", "array") and v.a:
        return mk("seq", *v.a[:-1])
    if v.op == "push":
        return v.a[0]
    if v.op == "reversed":
        return rev(tail(v.a[0]))
    return mk("init", v)


def last(v):
    if v.op in ("seq", "array") and v.a:
        return v.a[-1]
    if v.op == "push":
        return v.a[1]
    if v.op == "reversed":
        return first(v.a[0])
    return mk("last", v)


def rev(v):
    if v.op == "reversed":
        return v.a[0]
    if v.op in ("seq", "array"):
        return mk("seq", *v.a[::-1])
    return mk("reversed", v)


def nonempty(ctx, st, v):
    out = []
    for s, t in isempty(ctx, st, v):
        for b, x in ctx.eng.fork_bool(s, t):
            out.append((x, not b))
    return out


@M("vec::Vec::pop", "collections::vec_deque::VecDeque::pop_back", "string::String::pop")
def _pop(ctx, st, a):
    root, path, v = place(ctx, st, a[0])
    v = ctx.eng.norm(st, v)
    out = []
    for s, ne in nonempty(ctx, st, v):
        if ne:
            s.write(root, path, init(v))
            out.append((s, some(last(v))))
        else:
            out.append((s, NONE))
    return out


@M("collections::vec_deque::VecDeque::pop_front")
def _pop_front(ctx, st, a):
    root, path, v = place(ctx, st, a[0])
    v = ctx.eng.norm(st, v)
    out = []
    for s, ne in nonempty(ctx, st, v):
        if ne:
            s.write(root, path, tail(v))
            out.append((s, some(first(v))))
        else:
            out.append((s, NONE))
    return out


@M("slice::first", "slice::last", "slice::first_mut", "slice::last_mut")
def _first(ctx, st, a):
    root, path, v = place(ctx, st, a[0])
    v = ctx.eng.norm(st, v)
    out = []
    for s, ne in nonempty(ctx, st, v):
        if not ne:
            out.append((s, NONE))
        elif ctx.name.endswith("_mut"):
            out.append((s, some(mk("ptr", root, path + (("i", INT(0) if "first" in ctx.name else mk("fromend", 1)),), True))))
        else:
            out.append((s, some(first(v) if "first" in ctx.name else last(v))))
    return out


@M("slice::split_first")
def _split_first(ctx, st, a):
    v = ctx.eng.norm(st, a[0])
    return [(s, some(mk("tuple", first(v), tail(v))) if ne else NONE) for s, ne in nonempty(ctx, st, v)]


@M("slice::split_last")
def _split_last(ctx, st, a):
    v = ctx.eng.norm(st, a[0])
    return [(s, some(mk("tuple", last(v), init(v))) if ne else NONE) for s, ne in nonempty(ctx, st, v)]


@M("slice::reverse")
def _reverse(ctx, st, a):
    root, path, v = place(ctx, st, a[0])
    st.write(root, path, rev(ctx.eng.norm(st, v)))
    return [(st, UNIT)]


@M("slice::sort", "slice::sort_unstable")
def _sort(ctx, st, a):
    root, path, v = place(ctx, st, a[0])
    st.write(root, path, mk("sorted", ctx.eng.norm(st, v)))
    return [(st, UNIT)]


@M("slice::get", "slice::get_mut", "str::get")
def _get(ctx, st, a):
    e = ctx.eng
    root, path, v = place(ctx, st, a[0])
    v = e.norm(st, v)
    i = e.norm(st, a[1])
    if i.op == "adt" or "Range" in ctx.argty(1).get("s", ""):
        return pure(ctx, st, "get_range", [v, i])
    t = mk("lt", i, length(ctx, st, v))
    out = []
    if t.a[1].op == "int" and i.op == "int":
        t = BOOL(i.a[0] < t.a[1].a[0])
    for b, s in e.fork_bool(st, t):
        if not b:
            out.append((s, NONE))
        elif a[0].op == "ptr":
            out.append((s, some(mk("ptr", root, path + (("i", i),), ctx.name.endswith("mut")))))
        else:
            out.append((s, some(proj(v, ("i", i)))))
    return out


@M("ops::index::Index::index", "ops::index::IndexMut::index_mut")
def _index(ctx, st, a):
    e = ctx.eng
    root, path, v = place(ctx, st, a[0])
    v = e.norm(st, v)
    i = e.norm(st, a[1])
    ity = ctx.argty(1)
    if ity.get("s") == "usize":
        maypanic(ctx, st, "index", [v, i])
        return [(st, mk("ptr", root, path + (("i", i),), ctx.name.endswith("mut")))]
    adt = ity.get("adt", "")
    if adt.startswith("core::ops::range::Range"):
        lo, hi = range_bounds(adt, i)
        if adt.endswith("RangeFull"):
            return [(st, a[0])]
        if lo is INT(0) and hi is mk("len", mk("init", v)):
            return [(st, mk("init", v))]
        maypanic(ctx, st, "slice", [v, lo, hi])
        return [(st, slice_of(v, lo, hi))]
    if "HashMap" in ctx.argty(0).get("s", ""):
        maypanic(ctx, st, "key", [v, i])
        return [(st, mk("lookup", v, i))]
    return None


def range_bounds(adt, i):
    k = adt.rsplit("::", 1)[1]
    f = lambda n: proj(i, (None, n))
    if k == "Range":
        return f(0), f(1)
    if k == "RangeFrom":
        return f(0), NONE
    if k == "RangeTo":
        return INT(0), f(0)
    if k == "RangeInclusive":
        return f(0), mk("add", f(1), INT(1))
    if k == "RangeToInclusive":
        return INT(0), mk("add", f(0), INT(1))
    return INT(0), NONE


def slice_of(v, lo, hi):
    """v[lo..hi]; a hi equal to the length is the open end"""
    if hi.op == "len" and hi.a[0] is v:
        hi = NONE
    if lo.op == "int" and lo.a[0] == 0 and hi is NONE:
        return v
    if lo.op == "int" and lo.a[0] == 1 and hi is NONE and v.op in ("seq", "array"):
        return tail(v)
    return mk("slice", v, lo, hi)


def elements(ctx, v, lo, hi):
    """v[lo..hi] of a vector that is known to be that long: its first elements one by one, or all but the first"""
    e = ctx.eng
    if lo.op == "int" and lo.a[0] == 0 and hi.op == "int" and hi.a[0] <= 4 and "vec::Vec" in ctx.name:
        return mk("seq", *[proj(v, ("i", INT(i))) for i in range(hi.a[0])])
    if lo.op == "int" and lo.a[0] == 1 and hi is NONE and "vec::Vec" in ctx.name:
        return tail(v)
    return slice_of(v, lo, hi)


@M("str::split_at")
def _split_at(ctx, st, a):
    e = ctx.eng
    v, i = e.norm(st, a[0]), e.norm(st, a[1])
    maypanic(ctx, st, "slice", [v, INT(0), i])
    return [(st, mk("tuple", slice_of(v, INT(0), i), slice_of(v, i, NONE)))]


@M("vec::Vec::remove", "vec::Vec::swap_remove")
def _vremove(ctx, st, a):
    e = ctx.eng
    root, path, v = place(ctx, st, a[0])
    v = e.norm(st, v)
    i = e.norm(st, a[1])
    maypanic(ctx, st, "index", [v, i])
    if i.op == "int" and i.a[0] == 0 and ctx.name.endswith("::remove"):
        st.write(root, path, tail(v))
    else:
        st.write(root, path, mk(ctx.name.rsplit("::", 1)[1] + "d", v, i))
    return [(st, proj(v, ("i", i)))]


@M("vec::Vec::insert", "string::String::insert", "string::String::insert_str")
def _vinsert(ctx, st, a):
    e = ctx.eng
    root, path, v = place(ctx, st, a[0])
    v = e.norm(st, v)
    i = e.norm(st, a[1])
    maypanic(ctx, st, "index", [v, i])
    x = e.norm(st, a[2])
    if "string" in ctx.name:
        if i.op == "int" and i.a[0] == 0:
            st.write(root, path, cat(x, v))
        else:
            st.write(root, path, mk("insert_at", v, i, x))
    elif v.op == "seq" and i.op == "int":
        st.write(root, path, mk("seq", *(v.a[:i.a[0]] + (x,) + v.a[i.a[0]:])))
    elif i is length(ctx, st, v):
        st.write(root, path, mk("push", v, x))
    else:
        st.write(root, path, mk("insert_at", v, i, x))
    return [(st, UNIT)]


@M("vec::Vec::truncate", "vec::Vec::clear", "string::String::clear", "collections::hash::map::HashMap::clear", "string::String::truncate")
def _clear(ctx, st, a):
    e = ctx.eng
    root, path, v = place(ctx, st, a[0])
    if ctx.name.endswith("clear"):
        inner = is_bytes(ctx, v, ctx.argty(0))
        st.write(root, path, STR("") if inner or "string" in ctx.name else mk("emptymap") if "map" in ctx.name else mk("seq"))
    else:
        st.write(root, path, mk("truncated", e.norm(st, v), e.norm(st, a[1])))
    return [(st, UNIT)]


@M("string::String::replace_range")
def _replace_range(ctx, st, a):
    e = ctx.eng
    root, path, v = place(ctx, st, a[0])
    v = e.norm(st, v)
    r = e.norm(st, a[1])
    x = e.norm(st, a[2])
    maypanic(ctx, st, "replace_range", [v, r])
    st.write(root, path, mk("replaced", v, r, x))
    return [(st, UNIT)]


@M("regex::regex::string::Regex::replace_all")
def _replace_all(ctx, st, a):
    """every match replaced by what the function makes of it"""
    e = ctx.eng
    v = e.norm(st, a[1])
    f = e.content(st, a[2])
    if f.op == "str":
        if "$" in f.a[0]:
            raise NoModel()
        call = lambda s, m: [(s, f)]
    elif ctx.argty(2).get("k") in ("closure", "fndef") or f.op == "closure":
        call = lambda s, m: callv(ctx, s, a[2], [refto(ctx, s, m)])
    else:
        raise NoModel()

    def step(s, acc, x):
        out = []
        for s2, y in call(s, x):
            s2.write(acc.a[0], acc.a[1], mk("filled", s2.read(acc.a[0], acc.a[1]), e.norm(s2, y)))
            out.append(("back", s2, None))
        return out
    return iterate(ctx, st, it_leaf(mk("cursor", mk("call", "regex::regex::string::Regex::captures_iter", e.norm(st, a[0]), v))), v, step)


@M("vec::Vec::drain", "string::String::drain")
def _drain(ctx, st, a):
    e = ctx.eng
    root, path, v = place(ctx, st, a[0])
    v = e.norm(st, v)
    adt = ctx.argty(1).get("adt", "")
    r = e.norm(st, a[1])
    if adt.endswith("RangeFull"):
        st.write(root, path, mk("seq"))
        return [(st, it_leaf(mk("cursor", v)))]
    lo, hi = range_bounds(adt, r)
    maypanic(ctx, st, "slice", [v, lo, hi])
    if hi is NONE:
        st.write(root, path, elements(ctx, v, INT(0), lo))
    elif lo.op == "int" and lo.a[0] == 0:
        st.write(root, path, elements(ctx, v, hi, NONE))
    else:
        st.write(root, path, mk("drained", v, lo, hi))
    return [(st, it_leaf(mk("cursor", elements(ctx, v, lo, hi))))]


@M("vec::Vec::split_off")
def _split_off(ctx, st, a):
    e = ctx.eng
    root, path, v = place(ctx, st, a[0])
    v, i = e.norm(st, v), e.norm(st, a[1])
    maypanic(ctx, st, "slice", [v, i, NONE])
    st.write(root, path, elements(ctx, v, INT(0), i))
    return [(st, elements(ctx, v, i, NONE))]


# ---- maps
def has(ctx, st, m, k):
    """[(bool, state, looked-up value)]"""
    e = ctx.eng
    if m.op == "emptymap":
        return [(False, st, None)]
    if m.op == "insert":
        if m.a[1] is k:
            return [(True, st, m.a[2])]
        if is_const(m.a[1]) and is_const(k):
            return has(ctx, st, m.a[0], k)
    if m.op == "without" and m.a[1] is k:
        return [(False, st, None)]
    b = m
    while b.op == "upd" and b.a[1] and b.a[1][0][0] == "k":
        # written through a reference to the value of a key: the keys stay
        if b.a[1][0] == ("k", k):
            return [(True, st, mk("lookup", m, k))]
        b = b.a[0]
    if b is not m:
        return [(x, s, mk("lookup", m, k) if x else None) for x, s, v in has(ctx, st, b, k)]
    out = []
    for b, s in e.fork_bool(st, mk("has", m, k)):
        out.append((b, s, mk("lookup", m, k) if b else None))
    return out


@M("collections::hash::map::HashMap::get", "collections::hash::map::HashMap::remove", "collections::hash::map::HashMap::get_mut", "collections::hash::map::HashMap::contains_key",
   "collections::btree::map::BTreeMap::get", "collections::btree::map::BTreeMap::remove", "collections::btree::map::BTreeMap::get_mut", "collections::hash::map::HashMap::remove_entry",
   "collections::hash::set::HashSet::contains", "collections::hash::map::HashMap::get_key_value")
def _mget(ctx, st, a):
    e = ctx.eng
    root, path, m = place(ctx, st, a[0])
    m = e.norm(st, m)
    k = e.norm(st, a[1])
    n = ctx.name.rsplit("::", 1)[1]
    out = []
    for b, s, v in has(ctx, st, m, k):
        if n in ("contains_key", "contains"):
            out.append((s, BOOL(b)))
        elif not b:
            out.append((s, NONE))
        elif n == "get_mut":
            out.append((s, some(mk("ptr", root, path + (("k", k),), True))))
        else:
            if n in ("remove", "remove_entry"):
                s.write(root, path, mk("without", m, k))
            out.append((s, some(v if n not in ("remove_entry", "get_key_value") else mk("tuple", k, v))))
    return out


@M("collections::hash::map::HashMap::insert", "collections::btree::map::BTreeMap::insert", "collections::hash::set::HashSet::insert")
def _minsert(ctx, st, a):
    e = ctx.eng
    root, path, m = place(ctx, st, a[0])
    m = e.norm(st, m)
    k = e.norm(st, a[1])
    v = e.norm(st, a[2]) if len(a) > 2 else UNIT
    st.write(root, path, mk("insert", m, k, v))
    if len(a) == 2:
        return [(st, mk("not", mk("has", m, k)))]
    return [(st, mk("call", "previous", m, k))]


@M("collections::hash::map::HashMap::entry", "collections::btree::map::BTreeMap::entry")
def _entry(ctx, st, a):
    e = ctx.eng
    root, path = e.target(st, a[0])
    return [(st, mk("adt", "it::Entry", 0, mk("ptr", root, path, True), e.norm(st, a[1])))]


@M("collections::hash::map::Entry::or_insert", "collections::hash::map::Entry::or_insert_with", "collections::hash::map::Entry::or_default", "collections::hash::map::Entry::and_modify",
   "collections::hash::map::Entry::or_insert_with_key")
def _entry_or(ctx, st, a):
    e = ctx.eng
    en = a[0]
    if en.op != "adt" or en.a[0] != "it::Entry":
        return None
    root, path = e.target(st, en.a[2])
    m = e.norm(st, st.read(root, path))
    k = en.a[3]
    n = ctx.name.rsplit("::", 1)[1]
    out = []
    p = mk("ptr", root, path + (("k", k),), True)
    for b, s, v in has(ctx, st, m, k):
        if n == "and_modify":
            if b:
                out += [(x, en) for x, _ in callv(ctx, s, a[1], [p])]
            else:
                out.append((s, en))
            continue
        if b:
            out.append((s, p))
            continue
        if n == "or_insert":
            vs = [(s, a[1])]
        elif n == "or_default":
            vs = default_of(ctx, s, ctx.targ(1))
        else:
            vs = callv(ctx, s, a[1], [])
        for x, v in vs:
            x.write(root, path, mk("insert", e.norm(x, x.read(root, path)), k, e.norm(x, v)))
            out.append((x, p))
    return out


# ------------------------------------------------------------------ iterators
def it_leaf(c):
    return mk("adt", "it::Leaf", 0, c)


def it(k, *a):
    return mk("adt", "it::" + k, 0, *a)


def item_of(c):
    """element under a cursor"""
    n, x = 0, c
    while x.op == "adv":
        x, n = x.a[0], n + 1
    if x.op == "cursor":
        return proj(x.a[0], ("i", INT(n)))
    return mk("item", c)


def more(ctx, st, c):
    n, x = 0, c
    while x.op == "adv":
        x, n = x.a[0], n + 1
    if x.op == "cursor":
        v = x.a[0]
        if v.op in ("seq", "array"):
            return BOOL(n < len(v.a))
        if v.op == "str":
            return BOOL(n < len(v.a[0]))
        l = length(ctx, st, v)
        if l.op == "int":
            return BOOL(n < l.a[0])
        return mk("lt", INT(n), mk("len", v))
    return mk("more", c)


def adv(c):
    return mk("adv", c)


def rest_of(c):
    """what is left under a cursor, as a value"""
    n, x = 0, c
    back = 0
    while x.op in ("adv", "advback"):
        if x.op == "adv":
            n += 1
        else:
            back += 1
        x = x.a[0]
    if x.op == "cursor":
        v = x.a[0]
        for _ in range(n):
            v = tail(v)
        for _ in range(back):
            v = init(v)
        return v
    return mk("rest", c)


def finite(eng, st, v, limit=17):
    """an iterator over a literal sequence"""
    v = eng.content(st, v)
    if v.op != "adt" or not v.a[0].startswith("it::"):
        return False
    k = v.a[0][4:]
    if k == "Leaf":
        x = v.a[2]
        while x.op in ("adv", "advback"):
            x = x.a[0]
        return x.op == "cursor" and x.a[0].op in ("seq", "array") and len(x.a[0].a) < limit
    if k in ("Map", "Enumerate", "Filter", "FilterMap", "Rev", "Peekable", "Skip", "Take"):
        return finite(eng, st, v.a[2], limit)
    if k == "Zip":
        return finite(eng, st, v.a[2], limit) or finite(eng, st, v.a[3], limit)
    if k == "Chain":
        return finite(eng, st, v.a[2], limit) and finite(eng, st, v.a[3], limit)
    return False


def to_iter(ctx, st, a):
    """IntoIterator on a value or reference"""
    e = ctx.eng
    v = e.content(st, a)
    if v.op == "adt":
        if v.a[0].startswith("it::"):
            return a if a.op == "ptr" else v
        if v.a[0].startswith("core::ops::range::Range"):
            return a if a.op == "ptr" and ctx.argty(0).get("mut") else v
        if v.a[0] == OPTION:
            return it_leaf(mk("cursor", mk("seq", v.a[2]) if v.a[1] == 1 else mk("seq")))
    n = e.norm(st, v)
    if n.op == "reversed":
        return it("Rev", it_leaf(mk("cursor", n.a[0])))
    return it_leaf(mk("cursor", n))


@M("iter::traits::collect::IntoIterator::into_iter", "slice::iter", "collections::hash::map::HashMap::iter", "vec::Vec::iter", "collections::hash::map::HashMap::into_iter",
   "collections::btree::map::BTreeMap::iter", "option::Option::iter", "array::iter", "collections::vec_deque::VecDeque::iter", "option::Option::into_iter", "sync::mpsc::Receiver::iter",
   "sync::mpsc::Receiver::try_iter", "array::into_iter")
def _into_iter(ctx, st, a):
    f = None
    if ctx.name.endswith("into_iter"):
        # the program's own collections
        ty = ctx.argty(0)
        adt = ty.get("adt") or (ctx.fr.fn.ty(ty["args"][0]).get("adt") if ty.get("k") == "ref" and ty.get("args") else None)
        for g in ctx.eng.p.fns.values():
            if g.name == "into_iter" and g.trait == "core::iter::traits::collect::IntoIterator" and g.sig()[0] == (ty.get("s"),):
                f = g
    if f is not None and not any(x.fn is f for x in ctx.eng.stack):
        return ctx.eng.run_fn(f, a, st)
    if "mpsc" in ctx.name or "mpsc::Receiver" in ctx.argty(0).get("s", ""):
        return [(st, it_leaf(mk("cursor", mk("receivable" if "try_iter" in ctx.name or "TryIter" in ctx.name else "received", ctx.eng.norm(st, a[0])))))]
    return [(st, to_iter(ctx, st, a[0]))]


@M("slice::iter_mut", "vec::Vec::iter_mut", "collections::hash::map::HashMap::values_mut", "collections::hash::map::HashMap::iter_mut")
def _iter_mut(ctx, st, a):
    root, path = ctx.eng.target(st, a[0])
    v = ctx.eng.norm(st, st.read(root, path))
    return [(st, it("Mut", mk("ptr", root, path, True), it_leaf(mk("cursor", v))))]


@M("collections::hash::map::HashMap::keys", "collections::hash::map::HashMap::values", "collections::hash::map::HashMap::into_keys", "collections::hash::map::HashMap::into_values",
   "collections::btree::map::BTreeMap::keys", "collections::btree::map::BTreeMap::values")
def _keys(ctx, st, a):
    return [(st, it("Proj", it_leaf(mk("cursor", ctx.eng.norm(st, a[0]))), INT(0 if "keys" in ctx.name else 1)))]


@M("str::chars", "str::lines", "str::split_whitespace", "str::split", "str::splitn", "str::rsplitn", "str::char_indices", "str::bytes", "str::split_terminator", "str::matches",
   "slice::windows", "slice::chunks", "regex::regex::string::Regex::find_iter", "regex::regex::string::Regex::captures_iter", "str::split_ascii_whitespace", "str::split_inclusive",
   "slice::split", "str::rsplit", "io::buf_read::BufRead::lines")
def _chars(ctx, st, a):
    e = ctx.eng
    if ctx.name.endswith("BufRead::lines") and a[0].op == "ptr" and a[0].a[2]:
        return [(st, it("Lines", a[0]))]  # lines of a reader that is used afterwards
    vals = [e.norm(st, x) for x in a]
    return [(st, it_leaf(mk("cursor", mk("call", ctx.name, *vals))))]


ADAPT = {"map": "Map", "filter": "Filter", "filter_map": "FilterMap", "enumerate": "Enumerate", "zip": "Zip", "rev": "Rev", "peekable": "Peekable", "chain": "Chain",
         "take_while": "TakeWhile", "skip_while": "SkipWhile", "inspect": "Inspect", "take": "Take", "skip": "Skip", "flat_map": "FlatMap", "flatten": "Flatten", "map_while": "MapWhile",
         "scan": "Scan", "step_by": "StepBy"}


def adaptor(ctx, st, a):
    k = ADAPT[ctx.name.rsplit("::", 1)[1]]
    base = a[0]
    v = ctx.eng.content(st, base)
    if not (v.op == "adt" and (v.a[0].startswith("it::") or v.a[0].startswith("core::ops::range::Range"))) and v.op not in ("closure",):
        base = it("Opaque", v)
    if k == "Peekable":
        return [(st, it("Peekable", base))]
    if k == "Enumerate":
        return [(st, it("Enumerate", base, INT(0)))]
    if k in ("Zip", "Chain"):
        other = to_iter(ctx, st, a[1])
        if k == "Zip" and v.op == "adt" and v.a[0] == "core::ops::range::RangeFrom" and v.a[2].op == "int":
            return [(st, it("Enumerate", other, v.a[2]))]  # numbered from there
        plain = lambda x: x.op == "adt" and x.a[0] == "it::Leaf" and x.a[2].op == "cursor"
        if k == "Chain" and plain(base) and plain(other):
            # one list after the other
            x, y = base.a[2].a[0], other.a[2].a[0]
            if x.op in ("seq", "array") and y.op in ("seq", "array"):
                return [(st, it_leaf(mk("cursor", mk("seq", *(x.a + y.a)))))]
            return [(st, it_leaf(mk("cursor", mk("concat", x, y))))]
        return [(st, it(k, base, other))]
    if k == "Rev":
        if v.op == "adt" and v.a[0] == "it::Rev":
            return [(st, v.a[2])]
        if v.op == "adt" and v.a[0] == "it::Zip":
            la, lb = it_len(ctx, st, v.a[2]), it_len(ctx, st, v.a[3])
            if la is None or lb is None or not any(ctx.eng.decide(st, x) is True for x in (mk("eq", la, lb), mk("eq", lb, la))):
                return None  # the longer one is cut first
            return [(st, it("Zip", it("Rev", v.a[2]), it("Rev", v.a[3])))]
        return [(st, it("Rev", base))]
    if k == "Skip" and base.op == "adt" and base.a[0] == "it::Leaf" and base.a[2].op in ("cursor", "adv"):
        # the first elements of a collection that is there can be left out at once
        n = ctx.eng.norm(st, a[1])
        if n.op == "int" and n.a[0] <= 8:
            r = ("S", ctx.eng.uid())
            st.mem[r] = base
            work, out = [st], []
            for _ in range(n.a[0]):
                w2 = []
                for s in work:
                    for x, s2 in nx(ctx, s, mk("ptr", r, (), True)):
                        if x is None:
                            out.append(s2)
                        else:
                            w2.append(s2)
                work = w2
            return [(s, s.mem[r]) for s in out + work]
    if k in ("TakeWhile", "SkipWhile", "MapWhile"):
        return [(st, it(k, base, a[1], FALSE))]
    if k == "Flatten" and v.op == "adt" and v.a[0] == "it::Leaf" and v.a[2].op == "cursor" and re.match(r"[\w:]+<('\w+, )?(&('\w+ )?)?alloc::vec::Vec<", strip_ref(ctx.argty(0))):
        # the members of the members, one after the other
        return [(st, it_leaf(mk("cursor", mk("flat", v.a[2].a[0]))))]
    return [(st, it(k, base, *a[1:]))]


for _k in ADAPT:
    MODELS["iter::traits::iterator::Iterator::" + _k] = adaptor


@M("iter::sources::from_fn::from_fn")
def _from_fn(ctx, st, a):
    return [(st, it("FromFn", a[0]))]


@M("iter::sources::once::once")
def _once(ctx, st, a):
    return [(st, it_leaf(mk("cursor", mk("seq", a[0]))))]


@M("iter::sources::empty::empty")
def _empty(ctx, st, a):
    return [(st, it_leaf(mk("cursor", mk("seq"))))]


@M("iter::sources::repeat_n::repeat_n", "iter::sources::repeat::repeat")
def _repeat(ctx, st, a):
    return [(st, it_leaf(mk("cursor", mk("repeated", *[ctx.eng.norm(st, x) for x in a]))))]


def refto(ctx, st, v):
    """a reference to a value not held in a variable"""
    if v.op == "ptr":
        r = ("S", ctx.eng.uid())
        st.mem[r] = v
        return mk("ptr", r, (), False)
    r = ("S", ctx.eng.uid())
    st.mem[r] = v
    return mk("ptr", r, (), False)


def nx(ctx, st, p, back=False):
    r = nxt(ctx, st, p, back)
    if r is None:
        raise NoModel()
    return r


def nxt(ctx, st, p, back=False):
    """Iterator::next on the iterator at pointer p: [(Some-value or None, state)]"""
    e = ctx.eng
    root, path = e.target(st, p)
    v = st.read(root, path)
    sub = lambda i: mk("ptr", root, path + ((None, i),), True)
    if v.op != "adt":
        if v.op == "closure":
            return None
        # an iterator we know nothing about: a cursor
        c = v
        out = []
        for b, s in e.fork_bool(st, mk("moreback" if back else "more", c)):
            if b:
                s.write(root, path, mk("advback", c) if back else adv(c))
                out.append((mk("lastitem" if back else "item", c), s))
            else:
                out.append((None, s))
        return out
    k = v.a[0]
    if k == "core::ops::range::Range":
        lo, hi = v.a[2], v.a[3]
        t = mk("lt", lo, hi)
        d = e.decide(st, t)
        if lo.op == "int" and hi.op == "int":
            d = lo.a[0] < hi.a[0]
        out = []
        for b, s in ([(d, st)] if d is not None else e.fork_bool(st, t)):
            if b and not back:
                s.write(root, path + ((None, 0),), e.arith("add", lo, INT(1)))
                out.append((lo, s))
            elif b:
                x = e.arith("sub", hi, INT(1))
                s.write(root, path + ((None, 1),), x)
                out.append((x, s))
            else:
                out.append((None, s))
        return out
    if not k.startswith("it::"):
        # the program's own iterator type
        for g in e.p.fns.values():
            if g.name == "next" and g.trait == "core::iter::traits::iterator::Iterator" and g.self_ty is not None and g.ty(g.self_ty).get("adt") == k and not any(x.fn is g for x in e.stack):
                out = []
                for s, r in e.run_fn(g, [mk("ptr", root, path, True)], st):
                    for i, y, q in opt(ctx, s, r):
                        out.append((q if i == 1 else None, y))
                return out
        return None
    k = k[4:]
    if k == "Leaf":
        c = v.a[2]
        out = []
        if back:
            if c.op == "cursor" and c.a[0].op in ("seq", "array"):
                if not c.a[0].a:
                    return [(None, st)]
                st.write(root, path + ((None, 0),), mk("cursor", mk("seq", *c.a[0].a[:-1])))
                return [(c.a[0].a[-1], st)]
            for b, s in e.fork_bool(st, mk("moreback", c) if c.op != "cursor" else more(ctx, st, c)):
                if b:
                    s.write(root, path + ((None, 0),), mk("advback", c))
                    out.append((mk("last", rest_of(c)) if c.op == "cursor" else mk("lastitem", c), s))
                else:
                    out.append((None, s))
            return out
        for b, s in e.fork_bool(st, more(ctx, st, c)):
            if b:
                s.write(root, path + ((None, 0),), adv(c))
                out.append((item_of(c), s))
            else:
                out.append((None, s))
        return out
    if k == "Lines" and not back:
        # the next line, without its end; none at the end of input
        buf = ("S", e.uid())
        st.mem[buf] = STR("")
        out = []
        for s, r in e.opaque_call(ctx, st, "io::buf_read::BufRead::read_line", [v.a[2], mk("ptr", buf, (), True)], None, pure=False):
            for i, s2, y in opt(ctx, s, r):
                if i == 1:
                    out.append((err(y), s2))
                    continue
                for b, s3 in e.fork_bool(s2, eq(y, INT(0))):
                    out.append((None, s3) if b else (ok(mk("call", "str::trim_newline", s3.mem[buf])), s3))
        return out
    if k == "Rev":
        return nx(ctx, st, sub(0), not back)
    if k == "Opaque":
        return nx(ctx, st, sub(0), back)
    if k == "Proj":
        return [(None if x is None else proj(x, (None, v.a[3].a[0])), s) for x, s in nx(ctx, st, sub(0), back)]
    if k == "Mut":
        out = []
        for x, s in nx(ctx, st, sub(1), back):
            out.append((x, s))
        return out
    if k == "Map":
        out = []
        for x, s in nx(ctx, st, sub(0), back):
            if x is None:
                out.append((None, s))
            else:
                out += [(y, z) for z, y in callv(ctx, s, sub(1), [x])]
        return out
    if k in ("Filter", "FilterMap"):
        # one element at a time: a rejected element is a loop iteration of its own (see iterate)
        return None
    if back and k in ("Enumerate", "Zip", "TakeWhile", "MapWhile", "Take", "Skip", "FromFn"):
        return None  # where such an iterator ends depends on lengths
    if k == "Enumerate":
        out = []
        for x, s in nx(ctx, st, sub(0)):
            if x is None:
                out.append((None, s))
            else:
                n = s.read(root, path + ((None, 1),))
                s.write(root, path + ((None, 1),), e.arith("add", n, INT(1)))
                out.append((mk("tuple", n, x), s))
        return out
    if k == "Zip":
        out = []
        for x, s in nx(ctx, st, sub(0)):
            if x is None:
                out.append((None, s))
                continue
            for y, z in nx(ctx, s, sub(1)):
                out.append((None if y is None else mk("tuple", x, y), z))
        return out
    if k == "Chain":
        out = []
        for x, s in nx(ctx, st, sub(1 if back else 0), back):
            if x is not None:
                out.append((x, s))
            else:
                out += nx(ctx, s, sub(0 if back else 1), back)
        return out
    if k == "Peekable":
        return nx(ctx, st, sub(0), back)
    if k == "Inspect":
        out = []
        for x, s in nx(ctx, st, sub(0), back):
            if x is None:
                out.append((None, s))
            else:
                out += [(x, z) for z, _ in callv(ctx, s, sub(1), [refto(ctx, s, x)])]
        return out
    if k == "TakeWhile":
        out = []
        for d, s in e.fork_bool(st, v.a[4]):
            if d:
                out.append((None, s))
                continue
            for x, s2 in nx(ctx, s, sub(0)):
                if x is None:
                    out.append((None, s2))
                    continue
                for s3, t in callv(ctx, s2, sub(1), [refto(ctx, s2, x)]):
                    for b, s4 in e.fork_bool(s3, t):
                        if b:
                            out.append((x, s4))
                        else:
                            s4.write(root, path + ((None, 2),), TRUE)
                            out.append((None, s4))
        return out
    if k == "MapWhile":
        out = []
        for x, s2 in nx(ctx, st, sub(0)):
            if x is None:
                out.append((None, s2))
                continue
            for s3, r in callv(ctx, s2, sub(1), [x]):
                for i, s4, q in opt(ctx, s3, r):
                    out.append((q if i == 1 else None, s4))
        return out
    if k == "Take":
        out = []
        t = mk("lt", INT(0), v.a[3])
        if v.a[3].op == "int":
            t = BOOL(v.a[3].a[0] > 0)
        for b, s in e.fork_bool(st, t):
            if not b:
                out.append((None, s))
            else:
                s.write(root, path + ((None, 1),), e.arith("sub", v.a[3], INT(1)))
                out += nx(ctx, s, sub(0))
        return out
    if k == "Skip":
        n = v.a[3]
        if n.op != "int" or n.a[0] > 8:
            return None
        work = [st]
        out = []
        for _ in range(n.a[0]):
            w2 = []
            for s in work:
                for x, s2 in nx(ctx, s, sub(0)):
                    if x is None:
                        out.append((None, s2))
                    else:
                        w2.append(s2)
            work = w2
        for s in work:
            s.write(root, path + ((None, 1),), INT(0))
            out += nx(ctx, s, sub(0))
        return out
    if k == "FromFn":
        out = []
        for s, r in callv(ctx, st, sub(0), []):
            for i, s2, q in opt(ctx, s, r):
                out.append((q if i == 1 else None, s2))
        return out
    return None


def filtered(v):
    """peel Filter/FilterMap layers off an iterator value"""
    return v.op == "adt" and v.a[0] in ("it::Filter", "it::FilterMap", "it::FlatMap", "it::Flatten", "it::SkipWhile")


def step_next(ctx, st, p):
    """one step of an iterator: [(kind, value, state)], kind in item, skip, end"""
    e = ctx.eng
    root, path = e.target(st, p)
    v = st.read(root, path)
    sub = lambda i: mk("ptr", root, path + ((None, i),), True)
    if v.op == "adt" and v.a[0] in ("it::Filter", "it::FilterMap", "it::SkipWhile"):
        out = []
        inner = step_next(ctx, st, sub(0))
        if inner is None:
            return None
        for kind, x, s in inner:
            if kind != "item":
                out.append((kind, x, s))
                continue
            if v.a[0] == "it::FilterMap":
                for s2, r in callv(ctx, s, sub(1), [x]):
                    for i, s3, q in opt(ctx, s2, r):
                        out.append(("item", q, s3) if i == 1 else ("skip", None, s3))
            elif v.a[0] == "it::SkipWhile":
                for d, s1 in e.fork_bool(s, s.read(root, path + ((None, 2),))):
                    if d:
                        out.append(("item", x, s1))
                        continue
                    for s2, t in callv(ctx, s1, sub(1), [refto(ctx, s1, x)]):
                        for b, s3 in e.fork_bool(s2, t):
                            if b:
                                out.append(("skip", None, s3))
                            else:
                                s3.write(root, path + ((None, 2),), TRUE)
                                out.append(("item", x, s3))
            else:
                for s2, t in callv(ctx, s, sub(1), [refto(ctx, s, x)]):
                    for b, s3 in e.fork_bool(s2, t):
                        out.append(("item", x, s3) if b else ("skip", None, s3))
        return out
    if v.op == "adt" and v.a[0] in ("it::Map", "it::Enumerate", "it::Inspect", "it::Peekable") and has_filter(v):
        inner = step_next(ctx, st, sub(0))
        if inner is None:
            return None
        out = []
        for kind, x, s in inner:
            if kind != "item":
                out.append((kind, x, s))
            elif v.a[0] == "it::Map":
                out += [("item", y, z) for z, y in callv(ctx, s, sub(1), [x])]
            elif v.a[0] == "it::Enumerate":
                n = s.read(root, path + ((None, 1),))
                s.write(root, path + ((None, 1),), e.arith("add", n, INT(1)))
                out.append(("item", mk("tuple", n, x), s))
            elif v.a[0] == "it::Inspect":
                out += [("item", x, z) for z, _ in callv(ctx, s, sub(1), [refto(ctx, s, x)])]
            else:
                out.append(("item", x, s))
        return out
    r = nxt(ctx, st, p)
    if r is None:
        return None
    return [("end" if x is None else "item", x, s) for x, s in r]


def has_filter(v):
    while v.op == "adt" and v.a[0].startswith("it::"):
        if v.a[0] in ("it::Filter", "it::FilterMap", "it::SkipWhile"):
            return True
        v = v.a[2]
    return False


class NoModel(Exception):
    pass


def iterate(ctx, st, itv, acc0, step, finish=None):
    """consume an iterator: step(s, accptr, x) -> [("back"|"exit", state, value)];
    returns [(state, value)]: exit values, or finish(s, acc) at the end"""
    e = ctx.eng
    if itv.op == "ptr":
        pit = itv
    else:
        r = ("S", e.uid())
        st.mem[r] = itv
        pit = mk("ptr", r, (), True)
    ra = ("S", e.uid())
    st.mem[ra] = acc0
    pacc = mk("ptr", ra, (), True)
    fin = lambda s: finish(s, s.read(ra)) if finish else s.read(ra)

    def run(s):
        out = []
        r = step_next(ctx, s, pit)
        if r is None:
            raise NoModel()
        for kind, x, s2 in r:
            if kind == "end":
                out.append(("exit", None, s2, fin(s2)))
            elif kind == "skip":
                out.append(("back", None, s2, None))
            else:
                for k2, s3, v in step(s2, pacc, x):
                    out.append((k2, None, s3, v))
        return out

    if finite(e, st, itv):
        outs, work = [], [st]
        for _ in range(64):
            if not work:
                return outs
            w2 = []
            for s in work:
                for k, _, s2, v in run(s):
                    if k == "exit":
                        outs.append((s2, v))
                    else:
                        w2.append(s2)
            work = w2
        raise NoModel()
    res = e.loop(st, run, ctx.fr.fn, ctx.span, (ctx.fr.fn.key, ctx.span, ctx.name))
    return [(s, v) for k, _, s, v in res]


def consumer(*names):
    def d(f):
        def g(ctx, st, a):
            e = ctx.eng
            v = e.content(st, a[0])
            if ctx.name.endswith("FromIterator::from_iter") and v.op in ("array", "seq") and ctx.retty().get("s") == "alloc::string::String":
                return [(st, cat(*[e.norm(st, x) for x in v.a]))]
            if not (v.op == "adt" and (v.a[0].startswith("it::") or v.a[0].startswith("core::ops::range::Range"))) and v.op not in ("adv", "phi", "call", "fld"):
                return None
            np = len(e.panics)
            s0 = st.fork()
            try:
                return f(ctx, st, a)
            except NoModel:
                del e.panics[np:]
                st.mem, st.facts, st.ne, st.trace = s0.mem, s0.facts, s0.ne, s0.trace
                return None
        return M(*names)(g)
    return d


I = "iter::traits::iterator::Iterator::"


@M(I + "next", "iter::traits::double_ended::DoubleEndedIterator::next_back")
def _next(ctx, st, a):
    e = ctx.eng
    back = ctx.name.endswith("next_back")
    v = e.content(st, a[0])
    if has_filter(v) and not back:
        # look for the next accepted element: a loop
        try:
            return iterate(ctx, st, mk("ptr", *e.target(st, a[0]), True), NONE, lambda s, acc, x: [("exit", s, some(x))], lambda s, x: NONE)
        except NoModel:
            return None
    r = nxt(ctx, st, a[0], back)
    if r is None:
        return None
    return [(s, NONE if x is None else some(x)) for x, s in r]


@M(I + "nth", I + "last")
def _nth(ctx, st, a):
    e = ctx.eng
    v = e.content(st, a[0])
    if ctx.name.endswith("last"):
        if not (v.op == "adt" and v.a[0] == "it::Leaf"):
            return None
        tmp = ("S", e.uid())
        st.mem[tmp] = v
        r = nxt(ctx, st, mk("ptr", tmp, (), True), True)
        return None if r is None else [(s, NONE if x is None else some(x)) for x, s in r]
    n = e.norm(st, a[1])
    if n.op != "int" and v.op == "adt" and v.a[0] == "it::Leaf" and v.a[2].op == "cursor":
        # the element at an index of a collection that is there to the end
        root, path = e.target(st, a[0])
        c = v.a[2].a[0]
        out = []
        for b, s in e.fork_bool(st, mk("lt", n, length(ctx, st, c))):
            s.write(root, path + ((None, 0),), mk("cursor", mk("slice", c, mk("add", n, INT(1)), NONE) if b else mk("seq")))
            out.append((s, some(proj(c, ("i", n))) if b else NONE))
        return out
    if n.op != "int" or n.a[0] > 16:
        return None
    work = [st]
    out = []
    for i in range(n.a[0] + 1):
        w = []
        for s in work:
            r = nxt(ctx, s, a[0])
            if r is None:
                return None
            for x, s2 in r:
                if x is None:
                    out.append((s2, NONE))
                elif i == n.a[0]:
                    out.append((s2, some(x)))
                else:
                    w.append(s2)
        work = w
    return out


@M("iter::adapters::peekable::Peekable::peek", "iter::adapters::peekable::Peekable::peek_mut")
def _peek(ctx, st, a):
    e = ctx.eng
    root, path = e.target(st, a[0])
    v = st.read(root, path)
    s0 = st.fork()
    r = nxt(ctx, st, a[0])
    if r is None:
        return None
    out = []
    for x, s in r:
        s.write(root, path, v)
        out.append((s, NONE if x is None else some(refto(ctx, s, x))))
    return out


@M("iter::adapters::peekable::Peekable::next_if", "iter::adapters::peekable::Peekable::next_if_eq")
def _next_if(ctx, st, a):
    e = ctx.eng
    root, path = e.target(st, a[0])
    v = st.read(root, path)
    r = nxt(ctx, st, a[0])
    if r is None:
        return None
    out = []
    for x, s in r:
        if x is None:
            out.append((s, NONE))
            continue
        after = s.read(root, path)
        if ctx.name.endswith("_eq"):
            rs = equal(ctx, s, x, a[1])
        else:
            rs = callv(ctx, s, a[1], [refto(ctx, s, x)])
        for s2, t in rs:
            for b, s3 in e.fork_bool(s2, t):
                s3.write(root, path, after if b else v)
                out.append((s3, some(x) if b else NONE))
    return out


@M("str::iter::Chars::as_str", "slice::iter::Iter::as_slice")
def _chars_as_str(ctx, st, a):
    v = ctx.eng.content(st, a[0])
    if v.op == "adt" and v.a[0] == "it::Leaf":
        r = rest_of(v.a[2])

        def unwrap(t):
            if t.op == "call" and t.a[0] == "str::chars":
                return t.a[1]
            if t.op in ("init", "tail"):
                return mk(t.op, unwrap(t.a[0]))
            return t
        return [(st, unwrap(r))]
    return None


def pushed(ctx, s, acc, x):
    v = ctx.eng.content(s, acc)
    y = ctx.eng.norm(s, x)
    root, path = acc.a[0], acc.a[1]
    s.write(root, path, mk("seq", *(v.a + (y,))) if v.op == "seq" else mk("push", v, y))


@consumer(I + "collect", "iter::traits::collect::FromIterator::from_iter")
def _collect(ctx, st, a):
    e = ctx.eng
    rty = ctx.retty()
    tys = lambda i: ctx.fr.fn.ty(i)
    itv = a[0] if ctx.name == I + "collect" else to_iter(ctx, st, a[0])

    def build(ty):
        """(initial accumulator, add(s, acc, x))"""
        s, adt = ty.get("s", ""), ty.get("adt", "")
        if s == "alloc::string::String":
            def add(x, acc, y):
                x.write(acc.a[0], acc.a[1], cat(x.read(acc.a[0], acc.a[1]), e.norm(x, y)))
            return STR(""), add
        if adt.endswith(("HashMap", "BTreeMap")):
            def add(x, acc, y):
                x.write(acc.a[0], acc.a[1], mk("insert", x.read(acc.a[0], acc.a[1]), e.norm(x, proj(y, (None, 0))), e.norm(x, proj(y, (None, 1)))))
            return mk("emptymap"), add
        if adt.endswith(("HashSet", "BTreeSet")):
            def add(x, acc, y):
                x.write(acc.a[0], acc.a[1], mk("insert", x.read(acc.a[0], acc.a[1]), e.norm(x, y), UNIT))
            return mk("emptymap"), add
        if adt == "alloc::vec::Vec" and e.elem_ty(ctx, ty) == "u8":
            def add(x, acc, y):
                x.write(acc.a[0], acc.a[1], cat(x.read(acc.a[0], acc.a[1]), byte(e.norm(x, y))))
            return STR(""), add
        return mk("seq"), lambda x, acc, y: pushed(ctx, x, acc, y)

    if rty.get("adt") in (RESULT, OPTION):
        is_res = rty.get("adt") == RESULT
        acc0, add = build(tys(rty["args"][0]))

        def step(s, acc, x):
            out = []
            for i, s2, q in opt(ctx, s, x):
                if (i == 0) == is_res:
                    add(s2, acc, q)
                    out.append(("back", s2, None))
                else:
                    out.append(("exit", s2, err(q) if is_res else NONE))
            return out
        return iterate(ctx, st, itv, acc0, step, lambda s, v: ok(v) if is_res else some(v))
    # what is left under a plain cursor, as it is
    v = e.content(st, itv)
    if v.op == "adt" and v.a[0] == "it::Leaf" and rty.get("adt") == "alloc::vec::Vec" and e.elem_ty(ctx, rty) != "u8":
        return [(st, rest_of(v.a[2]))]
    if v.op == "adt" and v.a[0] == "it::Rev" and v.a[2].op == "adt" and v.a[2].a[0] == "it::Leaf" and rty.get("adt") == "alloc::vec::Vec":
        return [(st, rev(rest_of(v.a[2].a[2])))]
    acc0, add = build(rty)

    def step(s, acc, x):
        add(s, acc, x)
        return [("back", s, None)]
    return iterate(ctx, st, itv, acc0, step)


@consumer("iter::traits::collect::Extend::extend", "vec::Vec::extend", "string::String::extend")
def _extend_dummy(ctx, st, a):
    return None


@M("iter::traits::collect::Extend::extend", "vec::Vec::extend")
def _extend(ctx, st, a):
    e = ctx.eng
    root, path, v = place(ctx, st, a[0])
    ty = ctx.argty(0)
    s = strip_ref(ty)
    itv = to_iter(ctx, st, a[1])
    iv = e.content(st, itv)
    if s.startswith("std::collections::hash::map::HashMap") and iv.op == "adt" and iv.a[0] == "it::Leaf" and iv.a[2].op == "cursor":
        old = e.norm(st, v)
        more = iv.a[2].a[0]
        if more.op == "seq" and all(x.op == "tuple" and len(x.a) == 2 for x in more.a):
            for x in more.a:
                old = mk("insert", old, *x.a)
            st.write(root, path, old)
            return [(st, UNIT)]
        st.write(root, path, iv.a[2].a[0] if old.op == "emptymap" else mk("extended", old, iv.a[2].a[0]))
        return [(st, UNIT)]
    if is_bytes(ctx, v, ty) and iv.op == "adt" and iv.a[0] == "it::Leaf" and iv.a[2].op == "cursor":
        st.write(root, path, cat(v, iv.a[2].a[0]))
        return [(st, UNIT)]
    p = mk("ptr", root, path, True)

    def step(x, acc, y):
        old = x.read(root, path)
        if s.startswith("alloc::string::String"):
            x.write(root, path, cat(old, e.norm(x, y)))
        elif "HashMap" in s:
            x.write(root, path, mk("insert", old, e.norm(x, proj(y, (None, 0))), e.norm(x, proj(y, (None, 1)))))
        elif is_bytes(ctx, old, ty):
            x.write(root, path, cat(old, byte(e.norm(x, y))))
        else:
            pushed(ctx, x, p, y)
        return [("back", x, None)]
    np = len(e.panics)
    s0 = st.fork()
    try:
        return [(x, UNIT) for x, _ in iterate(ctx, st, itv, UNIT, step)]
    except NoModel:
        del e.panics[np:]
        st.mem, st.facts, st.ne, st.trace = s0.mem, s0.facts, s0.ne, s0.trace
        return None


@consumer(I + "for_each")
def _for_each(ctx, st, a):
    return iterate(ctx, st, a[0], UNIT, lambda s, acc, x: [("back", s2, None) for s2, _ in callv(ctx, s, a[1], [x])], lambda s, v: UNIT)


@consumer(I + "try_for_each")
def _try_for_each(ctx, st, a):
    def step(s, acc, x):
        out = []
        for s2, r in callv(ctx, s, a[1], [x]):
            for i, s3, q in opt(ctx, s2, r):
                out.append(("back", s3, None) if i == 0 else ("exit", s3, err(q)))
        return out
    if ctx.retty().get("adt") != RESULT:
        raise NoModel()
    return iterate(ctx, st, a[0], UNIT, step, lambda s, v: ok(UNIT))


@consumer(I + "any", I + "all", I + "find", I + "position", I + "find_map")
def _any(ctx, st, a):
    n = ctx.name.rsplit("::", 1)[1]
    e = ctx.eng

    def step(s, acc, x):
        out = []
        arg = refto(ctx, s, x) if n == "find" else x
        for s2, t in callv(ctx, s, a[1], [arg]):
            if n == "find_map":
                for i, s3, q in opt(ctx, s2, t):
                    out.append(("exit", s3, some(q)) if i == 1 else ("back", s3, None))
                continue
            for b, s3 in e.fork_bool(s2, t):
                if n == "any":
                    out.append(("exit", s3, TRUE) if b else ("back", s3, None))
                elif n == "all":
                    out.append(("back", s3, None) if b else ("exit", s3, FALSE))
                elif n == "find":
                    out.append(("exit", s3, some(x)) if b else ("back", s3, None))
                else:
                    k = s3.read(acc.a[0], acc.a[1])
                    if b:
                        out.append(("exit", s3, some(k)))
                    else:
                        s3.write(acc.a[0], acc.a[1], e.arith("add", k, INT(1)))
                        out.append(("back", s3, None))
        return out
    end = {"any": FALSE, "all": TRUE, "find": NONE, "position": NONE, "find_map": NONE}[n]
    return iterate(ctx, st, a[0], INT(0), step, lambda s, v: end)


@consumer(I + "fold")
def _fold(ctx, st, a):
    def step(s, acc, x):
        out = []
        for s2, v in callv(ctx, s, a[2], [s.read(acc.a[0], acc.a[1]), x]):
            s2.write(acc.a[0], acc.a[1], v)
            out.append(("back", s2, None))
        return out
    return iterate(ctx, st, a[0], a[1], step)


@consumer(I + "try_fold")
def _try_fold(ctx, st, a):
    if ctx.retty().get("adt") != RESULT:
        raise NoModel()

    def step(s, acc, x):
        out = []
        for s2, r in callv(ctx, s, a[2], [s.read(acc.a[0], acc.a[1]), x]):
            for i, s3, q in opt(ctx, s2, r):
                if i == 0:
                    s3.write(acc.a[0], acc.a[1], q)
                    out.append(("back", s3, None))
                else:
                    out.append(("exit", s3, err(q)))
        return out
    return iterate(ctx, st, a[0], a[1], step, lambda s, v: ok(v))


@consumer(I + "sum", I + "count", I + "product")
def _sum(ctx, st, a):
    n = ctx.name.rsplit("::", 1)[1]
    e = ctx.eng
    if n == "count":
        v = e.content(st, a[0])
        l = it_len(ctx, st, v) if v.op == "adt" else None
        if l is not None:
            return [(st, l)]
    if n == "sum" and strip_ref(ctx.retty()).endswith("Duration"):
        f, z = "dadd", mk("duration", 0)
    else:
        f, z = ("mul", INT(1)) if n == "product" else ("add", INT(0))

    def step(s, acc, x):
        old = s.read(acc.a[0], acc.a[1])
        s.write(acc.a[0], acc.a[1], e.arith(f, old, INT(1) if n == "count" else e.norm(s, x)))
        return [("back", s, None)]
    return iterate(ctx, st, a[0], z, step)


@consumer(I + "partition", I + "unzip")
def _partition(ctx, st, a):
    e = ctx.eng
    if ctx.name.endswith("unzip"):
        def step(s, acc, x):
            for i in (0, 1):
                p = mk("ptr", acc.a[0], ((None, i),), True)
                pushed(ctx, s, p, proj(x, (None, i)))
            return [("back", s, None)]
        return iterate(ctx, st, a[0], mk("tuple", mk("seq"), mk("seq")), step)

    def step(s, acc, x):
        out = []
        for s2, t in callv(ctx, s, a[1], [refto(ctx, s, x)]):
            for b, s3 in e.fork_bool(s2, t):
                pushed(ctx, s3, mk("ptr", acc.a[0], ((None, 0 if b else 1),), True), x)
                out.append(("back", s3, None))
        return out
    return iterate(ctx, st, a[0], mk("tuple", mk("seq"), mk("seq")), step)


# ------------------------------------------------------------------ strings
@M("slice::join", "slice::Join::join", "slice::concat")
def _join(ctx, st, a):
    e = ctx.eng
    v = e.norm(st, a[0])
    sep = e.norm(st, a[1]) if len(a) > 1 else STR("")
    if v.op in ("seq", "array"):
        out = []
        for i, x in enumerate(v.a):
            if i:
                out.append(sep)
            out.append(x)
        return [(st, cat(*out))]
    return [(st, mk("join", v, sep))]


@M("ops::arith::Add::add", "ops::arith::Sub::sub", "ops::arith::Mul::mul", "ops::arith::Div::div", "ops::arith::Rem::rem", "ops::arith::AddAssign::add_assign", "ops::arith::SubAssign::sub_assign",
   "ops::arith::Neg::neg", "ops::bit::Not::not", "ops::bit::BitAnd::bitand", "ops::bit::BitOr::bitor", "ops::bit::BitXor::bitxor", "ops::bit::Shl::shl", "ops::bit::Shr::shr")
def _arith(ctx, st, a):
    e = ctx.eng
    n = ctx.name.rsplit("::", 1)[1]
    ty = strip_ref(ctx.targ(0))
    if n.endswith("_assign"):
        root, path, v = place(ctx, st, a[0])
        op = n[:-7]
        b = e.norm(st, a[1])
        if ty == "alloc::string::String":
            st.write(root, path, cat(v, b))
        else:
            st.write(root, path, durop(ctx, st, ty, op, v, b))
        return [(st, UNIT)]
    x = e.norm(st, a[0])
    if len(a) == 1:
        return [(st, mk("neg" if n == "neg" else "bitnot", x))]
    y = e.norm(st, a[1])
    if ty == "alloc::string::String":
        return [(st, cat(x, y))]
    if ty.endswith(("Duration", "Instant", "SystemTime")):
        return [(st, durop(ctx, st, ty, n, x, y))]
    if ty in INTS or ty in ("f64", "f32"):
        return [(st, e.arith(n, x, y))]
    return None


def durop(ctx, st, ty, op, x, y):
    if op in ("add", "sub"):
        maypanic(ctx, st, "time_" + op, [x, y])
        if ty.endswith("Instant") and op == "sub":
            return mk("since", x, y)
        return mk("d" + op, x, y)
    return mk(op, x, y)


@M("time::Instant::duration_since", "time::Instant::saturating_duration_since")
def _since(ctx, st, a):
    e = ctx.eng
    return [(st, mk("since", e.norm(st, a[0]), e.norm(st, a[1])))]


@M("time::Instant::now", "time::SystemTime::now")
def _now(ctx, st, a):
    return [(st, result_of(ctx, st, ctx.name, []))]


@M("time::Instant::elapsed")
def _elapsed(ctx, st, a):
    n = result_of(ctx, st, "time::Instant::now", [])
    return [(st, mk("since", n, ctx.eng.norm(st, a[0])))]


@M("time::SystemTime::elapsed")
def _selapsed(ctx, st, a):
    return [(st, result_of(ctx, st, ctx.name, [ctx.eng.norm(st, a[0])]))]


@M("time::Duration::saturating_sub", "time::Duration::saturating_add")
def _dsat(ctx, st, a):
    e = ctx.eng
    return [(st, mk("dsat" + ctx.name[-3:], e.norm(st, a[0]), e.norm(st, a[1])))]


@M("str::parse")
def _parse(ctx, st, a):
    v = ctx.eng.norm(st, a[0])
    t = ctx.targ(0)
    n = t["s"]
    if n == "alloc::string::String":
        return [(st, ok(v))]
    if v.op == "str" and n in INTS:
        m = re.fullmatch(r"([+-]?)([0-9]+)", v.a[0], re.A)
        from absint import INT_RANGE as RANGES
        if m and not (m.group(1) == "-" and n[0] == "u") and RANGES[n][0] <= int(v.a[0]) <= RANGES[n][1]:
            return [(st, ok(INT(int(v.a[0]))))]
        return [(st, err(mk("call", "num::ParseIntError", v)))]
    return pure(ctx, st, "str::parse", [v, STR(n)])


@M("ops::function::FnOnce::call_once", "ops::function::FnMut::call_mut", "ops::function::Fn::call")
def _call(ctx, st, a):
    e = ctx.eng
    args = e.content(st, a[1]) if len(a) > 1 else UNIT
    if args.op != "tuple":
        return None
    f = a[0]
    v = e.content(st, f)
    if v.op not in ("closure", "fn"):
        return None
    return e.call_value(ctx.fr, st, f, list(args.a), ctx.span)


@M("thread::functions::spawn", "thread::spawn", "thread::scoped::Scope::spawn", "thread::Builder::spawn", "thread::builder::Builder::spawn")
def _spawn(ctx, st, a):
    e = ctx.eng
    f = a[-1]
    v = e.content(st, f)
    if v.op != "closure":
        return None
    np = len(e.panics)
    # the thread runs on its own: its view of the state is the one at the spawn
    s = st.fork()
    base = s.trace
    outs = e.call_value(ctx.fr, s, f, [], ctx.span)
    pan = [Path(x.events(base), x, None, "panic") for x in e.panics[np:]]
    del e.panics[np:]
    u = mk("uid", e.uid())
    res = mk("call", "spawn", u)
    st.ev(Ev("spawn", name="spawn", outs=[Path(x.events(base), x, y) for x, y in outs], panics=pan, res=res, closure=v, env=e.norm(st, v), span=ctx.span, fn=ctx.fr.fn.path))
    if ctx.retty().get("adt") == RESULT:
        return [(st, mk("call", "spawned", res))]
    return [(st, res)]


@M("sync::lazy_lock::LazyLock::new", "cell::lazy::LazyCell::new")
def _lazy(ctx, st, a):
    return [(st, mk("lazy", a[0]))]


@M("sync::lazy_lock::LazyLock::force", "cell::lazy::LazyCell::force")
def _force(ctx, st, a):
    v = ctx.eng.content(st, a[0])
    return callv(ctx, st, v.a[0], []) if v.op == "lazy" else None


@M("sync::once_lock::OnceLock::get_or_init", "cell::once::OnceCell::get_or_init")
def _once_lock(ctx, st, a):
    if len(a) < 2:
        return None
    return callv(ctx, st, a[1], [])


@M("panicking::panic", "panicking::panic_fmt", "panicking::panic_explicit", "rt::begin_panic", "option::unwrap_failed", "result::unwrap_failed", "panicking::assert_failed",
   "panicking::unreachable_display", "panicking::panic_display", "process::exit", "process::abort")
def _panic(ctx, st, a):
    st.ev(Ev("maypanic", what="panic", args=[ctx.eng.norm(st, x) for x in a], span=ctx.span, fn=ctx.fr.fn.path, state=st.fork(), site=(ctx.fr.fn.key, ctx.span)))
    return [(st, UNIT)]


@M("sync::mpsc::channel")
def _channel(ctx, st, a):
    u = mk("uid", ctx.eng.uid())
    ch = mk("channel", u)
    st.ev(Ev("call", name="channel", args=[], raw=[], res=ch, span=ctx.span, fn=ctx.fr.fn.path, pure=False, callee=None, info=ctx.info, outs=None, site=(ctx.fr.fn.key, ctx.span), stack=()))
    return [(st, mk("tuple", mk("sender", ch), mk("receiver", ch)))]


@M("num::to_string")
def _nts(ctx, st, a):
    return _to_string(ctx, st, a)


_CHECKED = {"checked_add", "checked_sub", "checked_mul", "checked_div", "checked_rem", "checked_neg", "checked_shl", "checked_shr", "checked_pow", "wrapping_add", "wrapping_sub", "wrapping_mul",
            "wrapping_neg", "saturating_add", "saturating_sub", "saturating_mul", "abs", "pow", "div_ceil", "rem_euclid", "div_euclid", "unsigned_abs",
            "is_positive", "is_negative", "abs_diff", "checked_abs", "checked_div_euclid", "checked_rem_euclid", "wrapping_shl", "wrapping_shr", "rotate_left", "rotate_right", "count_ones",
            "leading_zeros", "trailing_zeros"}


def checked(ctx, st, a):
    e = ctx.eng
    return pure(ctx, st, "num::" + ctx.name.rsplit("::", 1)[1], [e.norm(st, x) for x in a])


for _n in _CHECKED:
    MODELS["num::" + _n] = checked


@M("num::overflowing_add", "num::overflowing_sub", "num::overflowing_mul")
def _overflowing(ctx, st, a):
    e = ctx.eng
    n = ctx.name[-3:]
    x, y = (e.norm(st, v) for v in a)
    return [(st, mk("tuple", e.arith(n, x, y), e.ovf(n, x, y)))]


def all_of(ctx, st, ts):
    """conjunction of scalar conditions, decided in order"""
    if not ts:
        return [(st, TRUE)]
    out = []
    for x, s in ctx.eng.fork_bool(st, ts[0]):
        out += all_of(ctx, s, ts[1:]) if x else [(s, FALSE)]
    return out


@M("ops::range::Range::contains", "ops::range::RangeInclusive::contains", "ops::range::RangeFrom::contains", "ops::range::RangeTo::contains", "ops::range::RangeToInclusive::contains",
   "ops::range::RangeBounds::contains")
def _range_contains(ctx, st, a):
    e = ctx.eng
    r, x = e.content(st, a[0]), e.norm(st, a[1])
    k = r.a[0].rsplit("::", 1)[-1] if r.op == "adt" else None
    b = [e.norm(st, v) for v in r.a[2:]] if k else []
    if k not in ("Range", "RangeInclusive", "RangeFrom", "RangeTo", "RangeToInclusive") or any(v.op in ("char", "str", "float") for v in b):
        return pure(ctx, st, ctx.name, [e.norm(st, a[0]), x])
    lo = b[0] if k in ("Range", "RangeInclusive", "RangeFrom") else None
    hi = {"Range": 1, "RangeInclusive": 1, "RangeTo": 0, "RangeToInclusive": 0}.get(k)
    ts = [mk("le", lo, x)] if lo is not None else []
    if hi is not None:
        ts.append(mk("le" if k.endswith("Inclusive") else "lt", x, b[hi]))
    return all_of(ctx, st, ts)


@M("slice::contains")
def _slice_contains(ctx, st, a):
    e = ctx.eng
    s0 = e.content(st, a[0])
    if s0.op not in ("array", "seq") or any(v.op == "splice" for v in s0.a):
        return pure(ctx, st, ctx.name, [e.norm(st, a[0]), e.norm(st, a[1])])
    out, left = [], [st]
    for v in s0.a:
        rest = []
        for s in left:
            for s, t in equal(ctx, s, v, a[1]):
                for x, y in e.fork_bool(s, t):
                    if x:
                        out.append((y, TRUE))
                    else:
                        rest.append(y)
        left = rest
    return out + [(s, FALSE) for s in left]

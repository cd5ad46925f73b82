"""P34 what each part may touch, P35 no unsafe code and no hidden state."""
import re
from run import prop
from rules import *
from absint import canon
from checks import evaluation, calls, panics

# what a function from outside may do to the world, by its path without generics; the first match counts
TABLE = [
    (r"^(std::)?fs::(metadata|symlink_metadata|read|read_to_string|read_dir|read_link|canonicalize|exists|try_exists)$", "read files"),
    (r"^fs::File::(open|metadata|try_clone|sync_\w+|options)$", "read files"),
    (r"^fs::(DirEntry|Metadata|FileType|ReadDir|FileTimes|Permissions)::", "read files"),
    (r"^fs::(File::create|File::create_new|OpenOptions)", "create files"),
    (r"^fs::(create_dir|create_dir_all|write|copy|DirBuilder)", "create files"),
    (r"^fs::(remove_\w+|rename|hard_link|soft_link|set_permissions|File::set_\w+)", "destroy files"),
    (r"^fs::", "other file operations"),
    (r"^path::(Path|PathBuf)::(exists|try_exists|is_dir|is_file|is_symlink|metadata|symlink_metadata|canonicalize|read_dir|read_link)$", "read files"),
    (r"^path::absolute", "working directory"),
    (r"^process::(exit_code::)?ExitCode|^<process::ExitCode|^process::Termination", None),
    (r"^process::(exit|abort)$", "exit"),
    (r"^process::", "processes"),
    (r"^env::current_dir$", "working directory"),
    (r"^env::(var|var_os)$", "environment"),
    (r"^env::(vars|vars_os|home_dir|temp_dir|current_exe|args|args_os)$", "other environment"),
    (r"^env::(set_var|remove_var|set_current_dir)$", "change the environment"),
    (r"^env::(VarError|consts|split_paths|join_paths)", None),
    (r"^env::", "other environment"),
    (r"^<?(std::)?net::(tcp::TcpListener|udp::|unix)|^net::(TcpListener|UdpSocket)", "listen"),
    (r"^<?net::(tcp::)?TcpStream|ToSocketAddrs>?::to_socket_addrs$|^net::lookup_host", "network"),
    (r"^os::(fd|unix|linux|raw|net)|^<os::", "operating system"),
    (r"^sys::|^libc::|^nix::", "operating system"),
    (r"^io::stdio::(stdin|Stdin|StdinLock)|^io::(stdin|read_to_string)$|^<&?io::stdio::Stdin", "standard input"),
    (r"^io::stdio::(_print|stdout|Stdout)|^<&?(mut )?io::stdio::Stdout", "standard output"),
    (r"^io::stdio::(_eprint|stderr|Stderr)|^<&?(mut )?io::stdio::Stderr|^macros::dbg", "standard error"),
    (r"^thread::(functions::)?(spawn|scope|scoped::scope)$|^thread::(builder::)?Builder::spawn|^thread::scoped::Scope", "threads"),
    (r"^thread::(functions::)?(sleep|sleep_until|sleep_ms|park|park_timeout|yield_now)", "sleep"),
    (r"^time::(Instant|SystemTime)::(now|elapsed)$", "clock"),
    (r"^ctrlc::", "signals"),
    (r"^multipart::client::lazy::Multipart::add_file$", "read files"),
    (r"^multipart::client::lazy::", None),
    (r"^rustls|^<rustls", "network"),
    (r"^rand|^getrandom|^fastrand|RandomState", "chance"),
    (r"^clap_builder::derive::Parser::(try_)?(parse|get_matches|update_from)\w*$|^clap_builder::(builder::)?command::Command::(try_)?get_matches", "command line"),
    (r"^intrinsics::abort$", "exit"),
]
TABLE = [(re.compile(r), e) for r, e in TABLE]
PURE = ("core", "alloc", "std", "lib", "basjoofan", "regex", "regex_automata", "regex_syntax", "form_urlencoded", "percent_encoding",
        "clap_builder", "clap", "clap_lex", "multipart", "rustls", "rustls_platform_verifier", "rustls_pki_types", "ctrlc", "memchr", "hashbrown")


def externals(f):
    """(name, crate, unsafe) of the functions from outside that f mentions, with their place"""
    out = []

    def walk(x):
        if isinstance(x, dict):
            if "fn" in x:
                i = x["fn"]
                k = i.get("rdef") or i["def"]
                if k not in f.prog.fns:
                    out.append((canon(i.get("rpath") or i["path"]), k.split("::", 1)[0], i))
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    for b in f.blocks:
        walk(b["s"])
        walk(b["t"])
    return out


def touch(name, crate):
    for r, e in TABLE:
        if r.search(name):
            return e
    if crate not in PURE:
        return "the foreign function " + name
    return None


class World:
    def __init__(self, c):
        self.c, self.p = c, c.p
        self.own, self.via, self.n = {}, {}, 0
        for f in self.p.fns.values():
            o = {}
            for name, crate, _ in externals(f):
                self.n += 1
                e = touch(name, crate)
                if e:
                    o.setdefault(e, []).append(name)
            self.own[f.key] = o
        self.next = {k: sorted(panics.callees(f)) for k, f in self.p.fns.items()}

    def cone(self, roots, stop=()):
        """functions reachable from the roots, each with the one it was first reached from"""
        seen, work = {}, [(f.key, None) for f in roots]
        while work:
            k, by = work.pop()
            if k in seen or k in stop:
                continue
            seen[k] = by
            work.extend((n, k) for n in self.next[k])
        return seen

    def path(self, seen, k):
        out = []
        while k is not None:
            out.append(self.p.fns[k].path)
            k = seen[k]
        return " <- ".join(out)


def generated(f):
    return f.derived or f.prog.fns.get(f.key.rsplit("::", 1)[0]) is not None and generated(f.prog.fns[f.key.rsplit("::", 1)[0]])


@prop("P34", floor=150, technique="transitive effect analysis over the type-checked call graph: every outside function a part can reach is classified by what it may touch",
      assumptions="the table of effects of the standard library and of the dependencies (checks/effects.py: TABLE) is right; functions it does not name in the crates listed there touch nothing",
      explain="for every function of both crates the set of effects of everything it can reach is computed and compared with what its role may touch")
def p34(c):
    W = World(c)
    r = evaluation.roles(c)
    fns = W.p.fns

    def confined(what, roots, allowed, stop=()):
        seen = W.cone(roots, stop)
        for k in seen:
            f = fns[k]
            bad = {e: ns for e, ns in W.own[k].items() if e not in allowed}
            c.ob(not bad, "%s: %s" % (what, f.path), "%s touches nothing but %s: %s" % (
                what, ", ".join(sorted(allowed)) or "its own values", "; ".join("%s (%s, through %s)" % (e, ns[0], W.path(seen, k)) for e, ns in bad.items())), c.where(f))
        return seen

    # parsing
    confined("parsing", [c.fn("lib::parser::Parser::new"), c.fn("lib::parser::Parser::parse")], set())
    # implementations of traits: values, expressions, records, errors, ...
    for f in W.p.local_fns(("fn",)):
        if not f.trait or generated(f):
            continue
        t = canon(f.trait)
        allowed = set()
        if t.startswith("io::") or t.split("::")[-1] in ("Read", "Write", "BufRead"):
            allowed = {"network"}
        elif t.endswith("default::Default"):
            allowed = {"clock"}
        elif t.endswith("ops::drop::Drop"):
            allowed = {"network"}
        confined("%s of %s" % (t.rsplit("::", 1)[-1], f.path), [f], allowed)
    # the context and the statistics
    held = [f for f in W.p.local_fns(("fn",)) if not f.trait and (f.path.startswith("lib::context::") or f.path.startswith("lib::stat::"))]
    c.ob(len(held) >= 8, "context", "the functions of the context and the statistics: %d" % len(held), "")
    confined("the context", held, set())
    # the built-in functions
    shown = set()
    for n in r.natives:
        f = c.fn(n)
        seen = W.cone([f])
        if any("standard output" in W.own[k] for k in seen):
            shown.add(f.name)
        confined("built-in " + f.name, [f], {"standard output"} if f.name in ("print", "println") else set())
    # the writer
    ws = [f for f in W.p.local_fns(("fn",)) if f.path.startswith("lib::writer::")]
    c.ob(len(ws) >= 4, "writer", "the functions of the writer: %d" % len(ws), "")
    confined("the writer", ws, {"standard error"})
    # evaluation
    send = calls.send_fn(c)
    http = {f.key for f in W.p.local_fns(("fn", "closure")) if f.path.startswith("lib::http::") or "http::" in f.path.split(" as ")[0]}
    nat = {c.fn(n).key for n in r.natives}
    confined("evaluation outside exchanges", [r.block], set(), stop=nat | http)
    confined("evaluation", [r.block], {"standard output", "network", "read files", "clock", "threads"})
    confined("an exchange", [send], {"network", "clock", "threads", "read files"})
    seen = W.cone([send])
    for k in seen:
        ns = W.own[k].get("read files", [])
        c.ob(all(n.startswith("multipart::") for n in ns), "files of an exchange", "an exchange reads only the files a multipart body names: %s" % ns, c.where(fns[k]))
    # the program
    main = c.fn("basjoofan::main")
    ALL = {"standard output", "standard error", "standard input", "network", "read files", "create files", "clock", "threads", "sleep", "signals", "command line", "environment", "working directory"}
    for f in W.p.fns.values():
        bad = {e: ns for e, ns in W.own[f.key].items() if e not in ALL}
        c.ob(not bad, "program: " + f.path, "the program destroys no file, starts no process, opens no service, changes no environment and never exits on its own: %s" % bad, c.where(f))
        for e, ns in W.own[f.key].items():
            if e == "create files":
                c.ob(f.path.startswith("basjoofan::command") and set(ns) <= {"fs::File::create", "fs::File::create_new", "fs::OpenOptions::new", "fs::OpenOptions::open", "fs::OpenOptions::write", "fs::OpenOptions::create", "fs::OpenOptions::truncate", "fs::OpenOptions::create_new"},
                     "created files", "files are created by the command alone: %s" % ns, c.where(f))
            if e in ("environment", "working directory", "signals", "standard input", "command line"):
                c.ob(f.path.startswith("basjoofan"), "the program's surroundings", "%s is the command's business: %s" % (e, ns), c.where(f))
    seen = W.cone([main])
    c.ob(any("create files" in W.own[k] for k in seen), "records", "the records are written to files", c.where(main))
    c.note("%d functions, %d references to outside functions classified" % (len(W.own), W.n))


@prop("P35", floor=150, technique="HIR and MIR inventory of unsafe code, statics and thread-locals, with initialisers and call graph",
      explain="no unsafe block, function, impl or foreign item written by hand; every static is immutable or a lazily computed constant")
def p35(c):
    p = c.p
    n = 0
    for name, crate in p.crates.items():
        for u in crate["unsafe"]:
            c.ob(bool(u.get("macro")), "unsafe", "the sources contain no unsafe %s of their own" % u["k"], u["span"])
        for s in crate["statics"]:
            n += 1
            key = s["key"]
            parent = p.fns.get(key.rsplit("::", 1)[0])
            ok = not s["mut"] and (s["freeze"] or s.get("macro") or parent is not None and generated(parent))
            why = "immutable"
            if not ok and not s["mut"]:
                ok, why = lazy_constant(c, key)
            c.ob(ok, "static " + key, "no state outlives and is shared by evaluations: a static is immutable or computed once from constants (%s)" % why, s["span"])
    for f in p.fns.values():
        hand = not generated(f)
        for name, crate, i in externals(f):
            if "thread::local" in name or "LocalKey" in name:
                c.ob(False, "thread-local", "no state hidden in threads: %s" % name, c.where(f))
            if i.get("unsafe") in (True, "true"):
                c.ob(name in COMPILER or not hand, "unsafe call", "%s calls no unsafe function: %s" % (f.path, name), c.where(f))
        for l in f.locals if hand else ():
            t = f.ty(l["ty"])["s"]
            if re.search(r"\bUnsafeCell<", t):
                c.ob(False, "cell", "no shared mutable cell: %s" % t, c.where(f))
        c.ob(True, "function " + f.path, "no unsafe call, thread-local or hand-made cell", c.where(f))
    # what is shared by the clones of a context
    C = c.adt("context::Context")
    for v in p.variants(C):
        for fl in v["fields"]:
            c.ob(not SHARED.search(fl["tys"]), "context", "the clones of a context share nothing that can change: %s: %s" % (fl["name"], fl["tys"]), "")
    for adt in ("value::Value", "syntax::Expr", "context::Record", "context::Assert"):
        A = c.adt(adt)
        for v in p.variants(A):
            for fl in v["fields"]:
                c.ob(not SHARED.search(fl["tys"]), adt, "values are owned, not shared: %s: %s" % (fl["name"], fl["tys"]), "")


# emitted by format_args!, vec![] and the like
COMPILER = {"fmt::Arguments::new", "fmt::Arguments::new_v1_formatted", "fmt::rt::UnsafeArg::new", "boxed::box_assume_init_into_vec_unsafe",
            "str::converts::from_utf8_unchecked_const", "fmt::rt::Argument::new"}
SHARED = re.compile(r"\b(Cell|RefCell|Mutex|RwLock|Atomic\w*|OnceCell|OnceLock|UnsafeCell)\b|\*mut |\*const ")


def lazy_constant(c, key):
    """a static computed when first used, by a function of nothing: the same value whoever comes first"""
    f = c.p.fns.get(key)
    if f is None:
        return False, "no initialiser known"
    t = f.local_ty(0)["s"]
    m = re.match(r"^(?:std::|core::)?(?:sync|cell)::(?:\w+::)?(LazyLock|OnceLock)<(.*)>$", t)
    if not m or SHARED.search(m[2]):
        return False, "of type " + t
    roots = [f]
    if m[1] == "OnceLock":
        for g in c.p.fns.values():
            if not mentions(g, key):
                continue
            for name, crate, i in externals(g):
                if "once_lock::OnceLock" not in name:
                    continue
                if not name.endswith("::get_or_init"):
                    return False, "%s uses %s" % (g.path, name)
                for ty in map(g.ty, i.get("targs") or []):
                    if ty["k"] == "closure":
                        h = c.p.fns[ty["def"]]
                        if h.upvars:
                            return False, "%s captures %s" % (h.path, sorted(h.upvars.values()))
                        roots.append(h)
    seen, work = set(), [f.key for f in roots]
    while work:
        k = work.pop()
        if k in seen:
            continue
        seen.add(k)
        g = c.p.fns[k]
        for name, crate, i in externals(g):
            e = touch(name, crate)
            if e:
                return False, "%s: %s" % (g.path, e)
        work.extend(panics.callees(g))
    return True, "computed once from constants"


def mentions(f, key):
    def walk(x):
        if isinstance(x, dict):
            return x.get("static") == key or any(walk(v) for v in x.values())
        return isinstance(x, list) and any(walk(v) for v in x)
    return any(walk(b["s"]) or walk(b["t"]) for b in f.blocks)

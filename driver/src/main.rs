//! Dumps the resolved, drop-elaborated MIR of the crate being compiled as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER under `cargo check`; the dump goes to
//! $MIRDUMP_OUT/<crate>.json.  Nothing in the analysed program is executed.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

mod json {
    pub fn esc(s: &str) -> String {
        let mut o = String::with_capacity(s.len() + 2);
        o.push('"');
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                '\r' => o.push_str("\\r"),
                '\t' => o.push_str("\\t"),
                c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
        o.push('"');
        o
    }
    pub fn arr(v: Vec<String>) -> String {
        format!("[{}]", v.join(","))
    }
    pub fn obj(v: Vec<(&str, String)>) -> String {
        format!("{{{}}}", v.into_iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","))
    }
}
use json::{arr, esc, obj};

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<String>,
    tyidx: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, String>,
    fns: Vec<String>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        let s = ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(self.tcx.def_path_str(d)));
        if d.is_local() && !s.starts_with('<') {
            format!("{}::{}", self.tcx.crate_name(d.krate), s)
        } else {
            s
        }
    }
    /// a stable unique key of a definition
    fn key(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(format!("{}", t)))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tyidx.get(&t) {
            return *i;
        }
        let i = self.tys.len();
        self.tyidx.insert(t, i);
        self.tys.push(String::new());
        let mut f: Vec<(&str, String)> = vec![("s", esc(&self.tystr(t)))];
        match t.kind() {
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                f.push(("k", esc("adt")));
                f.push(("adt", esc(&p)));
                let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                f.push(("args", arr(a)));
                self.adt(*def);
            }
            ty::Ref(_, inner, m) => {
                f.push(("k", esc("ref")));
                f.push(("mut", m.is_mut().to_string()));
                let x = self.ty(*inner);
                f.push(("args", arr(vec![x.to_string()])));
            }
            ty::RawPtr(inner, m) => {
                f.push(("k", esc("ptr")));
                f.push(("mut", m.is_mut().to_string()));
                let x = self.ty(*inner);
                f.push(("args", arr(vec![x.to_string()])));
            }
            ty::Tuple(ts) => {
                f.push(("k", esc("tuple")));
                let a: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                f.push(("args", arr(a)));
            }
            ty::Slice(x) => {
                f.push(("k", esc("slice")));
                let x = self.ty(*x);
                f.push(("args", arr(vec![x.to_string()])));
            }
            ty::Array(x, n) => {
                f.push(("k", esc("array")));
                let x = self.ty(*x);
                f.push(("args", arr(vec![x.to_string()])));
                if let Some(n) = n.try_to_target_usize(self.tcx) {
                    f.push(("len", n.to_string()));
                }
            }
            ty::Closure(d, args) => {
                f.push(("k", esc("closure")));
                f.push(("def", esc(&self.key(*d))));
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                f.push(("args", arr(ups)));
            }
            ty::FnDef(d, args) => {
                f.push(("k", esc("fndef")));
                f.push(("def", esc(&self.key(*d))));
                f.push(("path", esc(&self.path(*d))));
                let a: Vec<String> = args.skip_binder().types().map(|x| self.ty(x).to_string()).collect();
                f.push(("args", arr(a)));
            }
            ty::Param(p) => {
                f.push(("k", esc("param")));
                f.push(("name", esc(p.name.as_str())));
            }
            ty::Int(_) | ty::Uint(_) => f.push(("k", esc("int"))),
            ty::Bool => f.push(("k", esc("bool"))),
            ty::Char => f.push(("k", esc("char"))),
            ty::Str => f.push(("k", esc("str"))),
            ty::Float(_) => f.push(("k", esc("float"))),
            ty::Never => f.push(("k", esc("never"))),
            ty::Dynamic(..) => f.push(("k", esc("dyn"))),
            _ => f.push(("k", esc("other"))),
        }
        self.tys[i] = obj(f);
        i
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let p = self.path(def.did());
        if self.adts.contains_key(&p) {
            return;
        }
        self.adts.insert(p.clone(), String::new());
        let kind = if def.is_enum() {
            "enum"
        } else if def.is_union() {
            "union"
        } else {
            "struct"
        };
        let mut vs = Vec::new();
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() { def.discriminant_for_variant(self.tcx, vi).val.to_string() } else { "0".into() };
            let mut fs = Vec::new();
            for f in v.fields.iter() {
                let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                // types of foreign private fields are of no use: keep local ones and std enums only
                let ti = if def.did().is_local() { self.ty(t) as i64 } else { -1 };
                fs.push(obj(vec![("name", esc(f.name.as_str())), ("ty", ti.to_string()), ("tys", esc(&self.tystr(t)))]));
            }
            vs.push(obj(vec![("name", esc(v.name.as_str())), ("discr", esc(&discr)), ("fields", arr(fs))]));
        }
        let s = obj(vec![
            ("kind", esc(kind)),
            ("local", def.did().is_local().to_string()),
            ("key", esc(&self.key(def.did()))),
            ("variants", arr(vs)),
        ]);
        self.adts.insert(p, s);
    }

    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("{}:{}", name, lo.line)
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = Vec::new();
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i.index(), self.ty(t)),
                ProjectionElem::Downcast(_, vi) => format!("[\"v\",{}]", vi.index()),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => format!("[\"c\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                _ => "[\"o\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.index(), arr(v))
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> Vec<(&'static str, String)> {
        let tcx = self.tcx;
        let mut f: Vec<(&'static str, String)> = vec![("def", esc(&self.key(d))), ("path", esc(&self.path(d)))];
        let a: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        f.push(("targs", arr(a)));
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Some(t) = tcx.trait_of_assoc(d) {
                f.push(("trait", esc(&self.path(t))));
            }
            let args = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, args) {
                let rd = i.def_id();
                let kind = match i.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closure_once",
                    _ => "shim",
                };
                f.push(("rkind", esc(kind)));
                f.push(("rdef", esc(&self.key(rd))));
                f.push(("rpath", esc(&self.path(rd))));
                f.push(("rlocal", rd.is_local().to_string()));
                let ra: Vec<String> = i.args.types().map(|x| self.ty(x).to_string()).collect();
                f.push(("rtargs", arr(ra)));
                if matches!(tcx.def_kind(rd), DefKind::Fn | DefKind::AssocFn) {
                    let tc = tcx.codegen_fn_attrs(rd).flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::TRACK_CALLER);
                    f.push(("track", tc.to_string()));
                }
            }
            let sig = tcx.fn_sig(d).skip_binder().skip_binder();
            f.push(("unsafe", (!sig.safety().is_safe()).to_string()));
            f.push(("diverges", sig.output().is_never().to_string()));
        }
        f
    }

    fn alloc_bytes(&self, id: rustc_middle::mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let (o, l) = (off as usize, len as usize);
                if o + l <= a.len() {
                    Some(a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + l).to_vec())
                } else {
                    None
                }
            }
            _ => None,
        }
    }

    fn bytes_json(b: &[u8]) -> String {
        arr(b.iter().map(|x| x.to_string()).collect())
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut f: Vec<(&str, String)> = vec![("ty", ti.to_string())];
        if let ty::FnDef(d, args) = t.kind() {
            let cal = self.callee(*d, args.skip_binder(), env);
            f.push(("fn", obj(cal)));
            return obj(f);
        }
        match c.const_ {
            Const::Unevaluated(u, _) => {
                f.push(("udef", esc(&self.key(u.def))));
                f.push(("upath", esc(&self.path(u.def))));
                f.push(("ulocal", u.def.is_local().to_string()));
                if let Some(p) = u.promoted {
                    f.push(("promoted", p.index().to_string()));
                }
                // scalar-valued constants are also given by value
                if u.promoted.is_none() {
                    if let Ok(v) = c.const_.eval(tcx, env, rustc_span::DUMMY_SP) {
                        self.value(v, t, &mut f);
                    }
                }
            }
            Const::Val(v, _) => self.value(v, t, &mut f),
            Const::Ty(..) => {
                if let Ok(v) = c.const_.eval(tcx, env, rustc_span::DUMMY_SP) {
                    self.value(v, t, &mut f);
                } else {
                    f.push(("opaque", esc(&format!("{}", c.const_))));
                }
            }
        }
        obj(f)
    }

    fn value(&mut self, v: ConstValue, t: Ty<'tcx>, f: &mut Vec<(&str, String)>) {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => f.push(("zst", "true".into())),
            ConstValue::Scalar(Scalar::Int(i)) => {
                let bits = i.to_bits(i.size());
                match t.kind() {
                    ty::Bool => f.push(("bool", (bits != 0).to_string())),
                    ty::Char => f.push(("char", esc(&char::from_u32(bits as u32).map(|c| c.to_string()).unwrap_or_default()))),
                    ty::Int(_) => f.push(("int", esc(&i.size().sign_extend(bits).to_string()))),
                    ty::Float(_) => f.push(("float", esc(&bits.to_string()))),
                    _ => f.push(("int", esc(&bits.to_string()))),
                }
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                if let ty::Ref(_, inner, _) = t.kind() {
                    if let ty::Array(el, n) = inner.kind() {
                        if *el == tcx.types.u8 {
                            if let Some(n) = n.try_to_target_usize(tcx) {
                                if let Some(b) = self.alloc_bytes(prov.alloc_id(), off.bytes(), n) {
                                    f.push(("bytes", Self::bytes_json(&b)));
                                    return;
                                }
                            }
                        }
                    }
                }
                if let GlobalAlloc::Static(d) = tcx.global_alloc(prov.alloc_id()) {
                    f.push(("static", esc(&self.key(d))));
                    return;
                }
                f.push(("opaque", esc("ptr")));
            }
            ConstValue::Slice { alloc_id, meta } => {
                if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() {
                        if let Some(b) = self.alloc_bytes(alloc_id, 0, meta) {
                            f.push(("str", esc(&String::from_utf8_lossy(&b))));
                            return;
                        }
                    }
                    if let ty::Slice(el) = inner.kind() {
                        if *el == tcx.types.u8 {
                            if let Some(b) = self.alloc_bytes(alloc_id, 0, meta) {
                                f.push(("bytes", Self::bytes_json(&b)));
                                return;
                            }
                        }
                    }
                }
                f.push(("opaque", esc("slice")));
            }
            ConstValue::Indirect { .. } => f.push(("opaque", esc("indirect"))),
        }
    }

    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"const\",{}]", self.constant(c, env)),
            _ => "[\"rtcheck\"]".to_string(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, env)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(o, env),
                n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1)
            ),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(p))
            }
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                format!("[\"cast\",{},{},{}]", esc(&ks), self.operand(o, env), self.ty(*t))
            }
            Rvalue::BinaryOp(op, b) => {
                format!("[\"bin\",{},{},{}]", esc(&format!("{:?}", op)), self.operand(&b.0, env), self.operand(&b.1, env))
            }
            Rvalue::UnaryOp(op, o) => format!("[\"un\",{},{}]", esc(&format!("{:?}", op)), self.operand(o, env)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, fs) => {
                let fs: Vec<String> = fs.iter().map(|x| self.operand(x, env)).collect();
                let k = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        let p = self.path(*d);
                        format!("[\"adt\",{},{},{}]", esc(&p), vi.index(), active.map(|x| x.index() as i64).unwrap_or(-1))
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", esc(&self.key(*d))),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", k, arr(fs))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.key(*d))),
            _ => "[\"other\"]".to_string(),
        }
    }

    fn body(&mut self, key: &str, path: &str, kind: &str, did: DefId, body: &Body<'tcx>) {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, did);
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        let mut upnames: BTreeMap<usize, String> = BTreeMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.index(), v.name.to_string());
                } else if p.local.index() == 1 && kind == "closure" {
                    for e in p.projection.iter() {
                        if let ProjectionElem::Field(i, _) = e {
                            upnames.insert(i.index(), v.name.to_string());
                            break;
                        }
                    }
                }
            }
        }
        let locals: Vec<String> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let mut f = vec![("ty", self.ty(d.ty).to_string())];
                if let Some(n) = names.get(&l.index()) {
                    f.push(("name", esc(n)));
                }
                obj(f)
            })
            .collect();
        let mut blocks = Vec::new();
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = Vec::new();
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let sp = self.span(s.source_info.span);
                        st.push(format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r, env), esc(&sp)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"setdiscr\",{},{}]", self.place(place), variant_index.index()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.index())),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let mut f: Vec<(&str, String)> = Vec::new();
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    f.push(("k", esc("goto")));
                    f.push(("t", target.index().to_string()));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    f.push(("k", esc("switch")));
                    f.push(("o", self.operand(discr, env)));
                    let ti = self.ty(discr.ty(&body.local_decls, tcx));
                    f.push(("ty", ti.to_string()));
                    let signed = discr.ty(&body.local_decls, tcx);
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| {
                            let vs = match signed.kind() {
                                ty::Int(it) => {
                                    let sz = rustc_abi::Size::from_bits(it.bit_width().unwrap_or(64));
                                    sz.sign_extend(v).to_string()
                                }
                                _ => v.to_string(),
                            };
                            format!("[{},{}]", esc(&vs), b.index())
                        })
                        .collect();
                    f.push(("vals", arr(v)));
                    f.push(("else", targets.otherwise().index().to_string()));
                }
                TerminatorKind::Return => f.push(("k", esc("return"))),
                TerminatorKind::Unreachable => f.push(("k", esc("unreachable"))),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => f.push(("k", esc("resume"))),
                TerminatorKind::Drop { place, target, .. } => {
                    f.push(("k", esc("drop")));
                    f.push(("p", self.place(place)));
                    let ti = self.ty(place.ty(&body.local_decls, tcx).ty);
                    f.push(("ty", ti.to_string()));
                    f.push(("t", target.index().to_string()));
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    f.push(("k", esc("call")));
                    f.push(("f", self.operand(func, env)));
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    f.push(("a", arr(a)));
                    let at: Vec<String> = args.iter().map(|x| self.ty(x.node.ty(&body.local_decls, tcx)).to_string()).collect();
                    f.push(("at", arr(at)));
                    f.push(("d", self.place(destination)));
                    let dt = self.ty(destination.ty(&body.local_decls, tcx).ty);
                    f.push(("dt", dt.to_string()));
                    if let Some(t) = target {
                        f.push(("t", t.index().to_string()));
                    }
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    f.push(("k", esc("assert")));
                    f.push(("o", self.operand(cond, env)));
                    f.push(("exp", expected.to_string()));
                    let mut ops = Vec::new();
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ops.push(self.operand(len, env));
                            ops.push(self.operand(index, env));
                            "bounds".to_string()
                        }
                        AssertKind::Overflow(op, a, b) => {
                            ops.push(self.operand(a, env));
                            ops.push(self.operand(b, env));
                            format!("overflow:{:?}", op)
                        }
                        AssertKind::OverflowNeg(a) => {
                            ops.push(self.operand(a, env));
                            "overflow:Neg".to_string()
                        }
                        AssertKind::DivisionByZero(a) => {
                            ops.push(self.operand(a, env));
                            "divzero".to_string()
                        }
                        AssertKind::RemainderByZero(a) => {
                            ops.push(self.operand(a, env));
                            "remzero".to_string()
                        }
                        _ => "other".to_string(),
                    };
                    f.push(("msg", esc(&m)));
                    f.push(("ops", arr(ops)));
                    f.push(("t", target.index().to_string()));
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    f.push(("k", esc("goto")));
                    f.push(("t", real_target.index().to_string()));
                }
                _ => f.push(("k", esc("other"))),
            }
            f.push(("sp", esc(&sp)));
            blocks.push(obj(vec![("s", arr(st)), ("t", obj(f)), ("cleanup", bb.is_cleanup.to_string())]));
        }
        let mut gen = String::from("[");
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
            let g = tcx.generics_of(did);
            let mut first = true;
            for i in 0..g.count() {
                let p = g.param_at(i, tcx);
                if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                    if !first {
                        gen.push(',');
                    }
                    first = false;
                    let _ = write!(gen, "{}", esc(p.name.as_str()));
                }
            }
        }
        gen.push(']');
        let mut f = vec![
            ("key", esc(key)),
            ("path", esc(path)),
            ("kind", esc(kind)),
            ("span", esc(&self.span(body.span))),
            ("argc", body.arg_count.to_string()),
            ("generics", gen),
            ("locals", arr(locals)),
            ("blocks", arr(blocks)),
        ];
        if let Some(l) = body.spread_arg {
            f.push(("spread", l.index().to_string()));
        }
        if kind == "closure" {
            let m: Vec<String> = upnames.iter().map(|(i, n)| format!("{}:{}", esc(&i.to_string()), esc(n))).collect();
            f.push(("upvars", format!("{{{}}}", m.join(","))));
        }
        if matches!(tcx.def_kind(did), DefKind::AssocFn) {
            if let Some(imp) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let ti = self.ty(st);
                f.push(("self_ty", ti.to_string()));
                f.push(("derived", tcx.is_automatically_derived(imp).to_string()));
                if let Some(t) = tcx.impl_opt_trait_ref(imp) {
                    let t = t.skip_binder();
                    f.push(("trait", esc(&self.path(t.def_id))));
                    let ts = ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(format!("{}", t)));
                    f.push(("trait_ref", esc(&ts)));
                }
            }
            f.push(("name", esc(tcx.item_name(did).as_str())));
        } else if matches!(tcx.def_kind(did), DefKind::Fn) {
            f.push(("name", esc(tcx.item_name(did).as_str())));
        }
        if matches!(tcx.def_kind(did), DefKind::AssocFn | DefKind::Fn) {
            f.push(("pub", tcx.visibility(did).is_public().to_string()));
        }
        self.fns.push(obj(f));
    }
}

/// Everything the crate's author had to write `unsafe` for.
struct Unsafety<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<(&'static str, rustc_span::Span)>,
}

impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafety<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.found.push(("block", b.span));
        }
        rustc_hir::intravisit::walk_block(self, b)
    }
    fn visit_fn(&mut self, k: rustc_hir::intravisit::FnKind<'tcx>, d: &'tcx rustc_hir::FnDecl<'tcx>, b: rustc_hir::BodyId, sp: rustc_span::Span, id: rustc_hir::def_id::LocalDefId) {
        if let Some(h) = k.header() {
            if h.is_unsafe() {
                self.found.push(("fn", sp));
            }
        }
        rustc_hir::intravisit::walk_fn(self, k, d, b, id)
    }
    fn visit_item(&mut self, i: &'tcx rustc_hir::Item<'tcx>) {
        match i.kind {
            rustc_hir::ItemKind::Impl(ref x) if x.of_trait.is_some_and(|t| !t.safety.is_safe()) => self.found.push(("impl", i.span)),
            rustc_hir::ItemKind::ForeignMod { .. } => self.found.push(("extern", i.span)),
            rustc_hir::ItemKind::GlobalAsm { .. } => self.found.push(("asm", i.span)),
            _ => {}
        }
        rustc_hir::intravisit::walk_item(self, i)
    }
}

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.inline_mir = Some(false);
        config.opts.cg.overflow_checks = Some(true);
        config.opts.incremental = None;
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let mut d = Dump { tcx, tys: vec![], tyidx: HashMap::new(), adts: BTreeMap::new(), fns: vec![] };
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| tcx.def_path(k.to_def_id()).to_string_no_crate_verbose());
        let mut u = Unsafety { tcx, found: vec![] };
        tcx.hir_walk_toplevel_module(&mut u);
        let us: Vec<String> = u.found.iter().map(|(k, sp)| obj(vec![("k", esc(k)), ("span", esc(&d.span(*sp))), ("macro", (sp.in_derive_expansion() || sp.in_external_macro(tcx.sess.source_map())).to_string())])).collect();
        let mut statics = Vec::new();
        for ld in keys {
            let did = ld.to_def_id();
            let key = d.key(did);
            let path = d.path(did);
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn => {
                    let b = tcx.optimized_mir(did);
                    d.body(&key, &path, "fn", did, b);
                }
                DefKind::Closure => {
                    let b = tcx.optimized_mir(did);
                    d.body(&key, &path, "closure", did, b);
                }
                DefKind::Ctor(..) => continue,
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst => {
                    let b = tcx.mir_for_ctfe(did);
                    d.body(&key, &path, "const", did, b);
                }
                DefKind::Static { mutability, .. } => {
                    let b = tcx.mir_for_ctfe(did);
                    d.body(&key, &path, "static", did, b);
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let freeze = t.is_freeze(tcx, TypingEnv::post_analysis(tcx, did));
                    statics.push(obj(vec![
                        ("key", esc(&key)),
                        ("mut", mutability.is_mut().to_string()),
                        ("freeze", freeze.to_string()),
                        ("macro", (tcx.def_span(did).in_derive_expansion() || tcx.def_span(did).in_external_macro(tcx.sess.source_map())).to_string()),
                        ("span", esc(&d.span(tcx.def_span(did)))),
                    ]));
                }
                _ => continue,
            }
            let pm = tcx.promoted_mir(did);
            for (i, b) in pm.iter_enumerated() {
                let k = format!("{}#promoted[{}]", key, i.index());
                d.body(&k, &path, "promoted", did, b);
            }
        }
        let adts = d.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
        let s = format!(
            "{{\"crate\":{},\"unsafe\":{},\"tys\":{},\"adts\":{{{}}},\"statics\":{},\"fns\":{}}}\n",
            esc(&krate),
            arr(us),
            arr(d.tys),
            adts,
            arr(statics),
            arr(d.fns)
        );
        std::fs::write(format!("{}/{}.json", self.out, krate), s).expect("write dump");
        rustc_driver::Compilation::Continue
    }
}

struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // as a RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...]
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let target = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let is_test = args.iter().any(|a| a == "--test");
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let code = rustc_driver::catch_with_exit_code(|| match target {
        Some(t) if !out.is_empty() && !is_test && !t.starts_with("build_script") && t != "___" => {
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out })
        }
        _ => rustc_driver::compiler_entrypoint(&args, &mut Plain),
    });
    code
}

//! MIR dumper: a rustc driver that writes the type-checked, monomorphised MIR of the crate under
//! analysis (and of the library functions it reaches) as JSON lines. It never runs the code.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use std::collections::{BTreeSet, HashMap, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::sym;
use rustc_trait_selection::infer::InferCtxtExt;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<String>,
    insts: HashMap<Instance<'tcx>, usize>,
    inst_list: Vec<Instance<'tcx>>,
    queue: VecDeque<usize>,
    out: Vec<String>,
    const_depth: usize,
    next: HashMap<usize, usize>,
    eqs: HashMap<usize, usize>,
}

const NOFOLLOW: &[&str] = &[
    "core::fmt", "core::panicking", "core::str::", "core::unicode", "core::num::flt2dec",
    "core::num::dec2flt", "core::num::bignum", "alloc::raw_vec", "alloc::alloc", "alloc::fmt",
    "alloc::string", "core::slice::sort", "core::num::fmt", "core::char", "core::hash",
    "core::sync", "core::cell", "core::alloc", "core::ffi", "core::ascii", "core::escape",
    "alloc::sync", "alloc::collections", "alloc::str", "core::io", "core::any", "core::error",
];

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_forced_impl_filename_line!({
            self.tcx.def_path_debug_str(d)
        }))
    }
    fn pretty(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn follow(&self, d: DefId) -> bool {
        if d.is_local() {
            return true;
        }
        let krate = self.tcx.crate_name(d.krate);
        let k = krate.as_str();
        match k {
            "core" | "alloc" => {
                let p = rustc_middle::ty::print::with_no_visible_paths!(self.pretty(d));
                let p = p.trim_start_matches('<');
                !NOFOLLOW.iter().any(|n| p.starts_with(n))
            }
            "num_integer" | "num_traits" | "numcmp" | "num_rational" => true,
            _ => false,
        }
    }

    fn inst_id(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(x) = self.insts.get(&i) {
            return *x;
        }
        let id = self.inst_list.len();
        self.insts.insert(i, id);
        self.inst_list.push(i);
        self.queue.push_back(id);
        id
    }

    fn resolve(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Option<usize> {
        let kind = self.tcx.def_kind(d);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..) | DefKind::Closure) {
            return None;
        }
        match Instance::try_resolve(self.tcx, self.env, d, args) {
            Ok(Some(i)) => Some(self.inst_id(i)),
            _ => None,
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(x) = self.types.get(&t) {
            return *x;
        }
        let id = self.type_json.len();
        self.types.insert(t, id);
        self.type_json.push(String::new());
        let s = self.ty_json(t);
        let name = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t));
        self.type_json[id] = format!("{{\"name\":{},{}}}", js(&name), s);
        id
    }

    fn list(&mut self, ts: &[Ty<'tcx>]) -> String {
        let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
        format!("[{}]", v.join(","))
    }

    fn implements(&self, t: Ty<'tcx>, tr: Option<DefId>) -> bool {
        let Some(tr) = tr else { return false };
        let (infcx, pe) = self.tcx.infer_ctxt().build_with_typing_env(self.env);
        infcx.type_implements_trait(tr, [t], pe).must_apply_modulo_regions()
    }

    fn ty_json(&mut self, t: Ty<'tcx>) -> String {
        match *t.kind() {
            TyKind::Pat(base, _) => self.ty_json(base),
            TyKind::Bool => "\"k\":\"bool\"".into(),
            TyKind::Char => "\"k\":\"char\"".into(),
            TyKind::Int(i) => {
                format!("\"k\":\"int\",\"s\":true,\"b\":{}", i.bit_width().unwrap_or(64))
            }
            TyKind::Uint(i) => {
                format!("\"k\":\"int\",\"s\":false,\"b\":{}", i.bit_width().unwrap_or(64))
            }
            TyKind::Float(f) => format!("\"k\":\"float\",\"b\":{}", f.bit_width()),
            TyKind::Str => "\"k\":\"str\"".into(),
            TyKind::Never => "\"k\":\"never\"".into(),
            TyKind::Array(e, n) => {
                let n = n.try_to_target_usize(self.tcx);
                let e = self.ty(e);
                format!("\"k\":\"array\",\"e\":{},\"n\":{}", e, n.map(|x| x as i64).unwrap_or(-1))
            }
            TyKind::Slice(e) => {
                let e = self.ty(e);
                format!("\"k\":\"slice\",\"e\":{}", e)
            }
            TyKind::Ref(_, p, m) => {
                let e = self.ty(p);
                format!("\"k\":\"ref\",\"e\":{},\"m\":{}", e, m.is_mut())
            }
            TyKind::RawPtr(p, m) => {
                let e = self.ty(p);
                format!("\"k\":\"ptr\",\"e\":{},\"m\":{}", e, m.is_mut())
            }
            TyKind::Tuple(ts) => {
                let l = self.list(&ts.to_vec());
                format!("\"k\":\"tuple\",\"f\":{}", l)
            }
            TyKind::FnDef(d, args) => {
                let args = args.no_bound_vars().unwrap();
                let id = self.resolve(d, args);
                format!(
                    "\"k\":\"fndef\",\"path\":{},\"inst\":{}",
                    js(&self.path(d)),
                    id.map(|x| x.to_string()).unwrap_or("null".into())
                )
            }
            TyKind::Closure(d, args) => {
                let up = args.as_closure().upvar_tys().to_vec();
                let l = self.list(&up);
                let i = Instance::new_raw(d, args);
                let id = self.inst_id(i);
                format!("\"k\":\"closure\",\"f\":{},\"inst\":{}", l, id)
            }
            TyKind::Adt(def, args) => {
                let path = rustc_middle::ty::print::with_no_visible_paths!(self.pretty(def.did()));
                let kind = if def.is_enum() {
                    "enum"
                } else if def.is_union() {
                    "union"
                } else {
                    "struct"
                };
                let tys: Vec<Ty<'tcx>> = args.types().collect();
                let targs = self.list(&tys);
                let mut vs = Vec::new();
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = Vec::new();
                    for f in v.fields.iter() {
                        let ft = f.ty(self.tcx, args);
                        let ft = self
                            .tcx
                            .try_normalize_erasing_regions(self.env, ft)
                            .unwrap_or(self.tcx.types.unit);
                        let pubv = self.tcx.visibility(f.did).is_public();
                        fs.push(format!("[{},{},{}]", js(f.name.as_str()), self.ty(ft), pubv));
                    }
                    let discr = if def.is_enum() {
                        let d = def.discriminant_for_variant(self.tcx, vi);
                        let sz = d.ty;
                        if sz.is_signed() {
                            let size = rustc_abi::Size::from_bits(sz.primitive_size(self.tcx).bits());
                            size.sign_extend(d.val).to_string()
                        } else {
                            d.val.to_string()
                        }
                    } else {
                        "0".into()
                    };
                    vs.push(format!("[{},{},[{}]]", js(v.name.as_str()), discr, fs.join(",")));
                }
                let mut extra = String::new();
                if def.did().is_local() {
                    let send = self.implements(t, self.tcx.get_diagnostic_item(sym::Send));
                    let sync = self.implements(t, self.tcx.lang_items().sync_trait());
                    let freeze = t.is_freeze(self.tcx, self.env);
                    let vis = self.tcx.visibility(def.did()).is_public();
                    let reach = self.tcx.effective_visibilities(()).is_reachable(def.did().expect_local());
                    let _ = write!(
                        extra,
                        ",\"local\":true,\"send\":{},\"sync\":{},\"freeze\":{},\"pub\":{},\"reach\":{}",
                        send, sync, freeze, vis, reach
                    );
                }
                format!(
                    "\"k\":\"adt\",\"ak\":\"{}\",\"path\":{},\"args\":{},\"vs\":[{}]{}",
                    kind, js(&path), targs, vs.join(","), extra
                )
            }
            TyKind::Dynamic(..) => "\"k\":\"dyn\"".into(),
            TyKind::FnPtr(..) => "\"k\":\"fnptr\"".into(),
            _ => "\"k\":\"other\"".into(),
        }
    }

    fn scalar_int(&mut self, s: ty::ScalarInt, t: Ty<'tcx>) -> String {
        if t.is_signed() {
            format!("{{\"int\":\"{}\"}}", s.to_int(s.size()))
        } else {
            format!("{{\"int\":\"{}\"}}", s.to_uint(s.size()))
        }
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>) -> String {
        self.const_depth += 1;
        let r = if self.const_depth > 8 { "{\"opaque\":\"deep\"}".to_string() } else { self.const_val_(v, t) };
        self.const_depth -= 1;
        r
    }

    fn const_val_(&mut self, v: ConstValue, t: Ty<'tcx>) -> String {
        use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
        match *t.kind() {
            TyKind::Pat(base, _) => return self.const_val(v, base),
            TyKind::Int(_) | TyKind::Uint(_) | TyKind::Bool | TyKind::Char | TyKind::Float(_) => {
                if let Some(s) = v.try_to_scalar_int() {
                    return self.scalar_int(s, t);
                }
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) {
                        let size = t.primitive_size(self.tcx);
                        if let Ok(Scalar::Int(s)) = a.inner().read_scalar(
                            &self.tcx,
                            rustc_middle::mir::interpret::AllocRange { start: offset, size },
                            false,
                        ) {
                            return self.scalar_int(s, t);
                        }
                    }
                }
                return "{\"opaque\":\"scalar\"}".into();
            }
            TyKind::FnDef(..) | TyKind::Closure(..) => return "{\"zst\":1}".into(),
            TyKind::FnPtr(..) => {
                let p = match v {
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => Some(p),
                    ConstValue::Indirect { alloc_id, offset } => match self.tcx.global_alloc(alloc_id) {
                        GlobalAlloc::Memory(a) => match a.inner().read_scalar(
                            &self.tcx,
                            rustc_middle::mir::interpret::AllocRange { start: offset, size: rustc_abi::Size::from_bytes(8) },
                            true,
                        ) {
                            Ok(Scalar::Ptr(p, _)) => Some(p),
                            _ => None,
                        },
                        _ => None,
                    },
                    _ => None,
                };
                if let Some(p) = p {
                    if let GlobalAlloc::Function { instance, .. } = self.tcx.global_alloc(p.into_raw_parts().0.alloc_id()) {
                        let id = self.inst_id(instance);
                        return format!("{{\"fn\":{}}}", id);
                    }
                }
                return "{\"opaque\":\"fnptr\"}".into();
            }
            TyKind::Ref(_, inner, _) | TyKind::RawPtr(inner, _) => {
                if inner.is_str() {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                        return format!("{{\"str\":{}}}", js(&String::from_utf8_lossy(b)));
                    }
                    return "{\"opaque\":\"str\"}".into();
                }
                let ptr = match v {
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => Some(p),
                    ConstValue::Indirect { alloc_id, offset } => {
                        // a pointer stored in memory
                        match self.tcx.global_alloc(alloc_id) {
                            GlobalAlloc::Memory(a) => {
                                let size = rustc_abi::Size::from_bytes(8);
                                match a.inner().read_scalar(
                                    &self.tcx,
                                    rustc_middle::mir::interpret::AllocRange { start: offset, size },
                                    true,
                                ) {
                                    Ok(Scalar::Ptr(p, _)) => Some(p),
                                    _ => None,
                                }
                            }
                            _ => None,
                        }
                    }
                    ConstValue::Slice { alloc_id, meta } => {
                        if let TyKind::Slice(e) = *inner.kind() {
                            let size = match self.tcx.layout_of(self.env.as_query_input(e)) {
                                Ok(l) => l.size,
                                _ => return "{\"opaque\":\"slice\"}".into(),
                            };
                            let mut vs = Vec::new();
                            for i in 0..meta.min(4096) {
                                let v = ConstValue::Indirect { alloc_id, offset: size * i };
                                vs.push(self.const_val(v, e));
                            }
                            return format!("{{\"ref\":{{\"agg\":[null,[{}]]}},\"slice\":true}}", vs.join(","));
                        }
                        None
                    }
                    _ => None,
                };
                if let Some(p) = ptr {
                    let (prov, offset) = p.into_raw_parts();
                    let alloc_id = prov.alloc_id();
                    match self.tcx.global_alloc(alloc_id) {
                        GlobalAlloc::Static(d) => {
                            return self.static_ref(d);
                        }
                        GlobalAlloc::Memory(_) => {
                            if let TyKind::Slice(e) = *inner.kind() {
                                // the length is stored behind the pointer
                                let n = match v {
                                    ConstValue::Indirect { alloc_id, offset } => match self.tcx.global_alloc(alloc_id) {
                                        GlobalAlloc::Memory(a) => {
                                            let size = rustc_abi::Size::from_bytes(8);
                                            match a.inner().read_scalar(
                                                &self.tcx,
                                                rustc_middle::mir::interpret::AllocRange { start: offset + size, size },
                                                false,
                                            ) {
                                                Ok(Scalar::Int(s)) => Some(s.to_uint(size) as u64),
                                                _ => None,
                                            }
                                        }
                                        _ => None,
                                    },
                                    _ => None,
                                };
                                if let (Some(n), Ok(l)) = (n, self.tcx.layout_of(self.env.as_query_input(e))) {
                                    let mut vs = Vec::new();
                                    for i in 0..n.min(4096) {
                                        let v = ConstValue::Indirect { alloc_id, offset: offset + l.size * i };
                                        vs.push(self.const_val(v, e));
                                    }
                                    return format!("{{\"ref\":{{\"agg\":[null,[{}]]}},\"slice\":true}}", vs.join(","));
                                }
                                return "{\"opaque\":\"slice\"}".into();
                            }
                            if inner.is_sized(self.tcx, self.env) {
                                let iv = ConstValue::Indirect { alloc_id, offset };
                                let s = self.const_val(iv, inner);
                                return format!("{{\"ref\":{}}}", s);
                            }
                        }
                        _ => {}
                    }
                }
                return "{\"opaque\":\"ref\"}".into();
            }
            _ => {}
        }
        match *t.kind() {
            TyKind::Adt(def, _) if def.is_union() => return "{\"opaque\":\"union\"}".into(),
            TyKind::Tuple(_) | TyKind::Adt(..) | TyKind::Array(..) => {
                if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs: Vec<(ConstValue, Ty<'tcx>)> = d.fields.to_vec();
                    let mut o = Vec::new();
                    for (fv, ft) in fs {
                        o.push(self.const_val(fv, ft));
                    }
                    let var = match (d.variant, t.is_enum()) {
                        (Some(x), true) => x.as_u32().to_string(),
                        _ => "null".into(),
                    };
                    return format!("{{\"agg\":[{},[{}]]}}", var, o.join(","));
                }
            }
            _ => {}
        }
        "{\"opaque\":\"const\"}".into()
    }

    /// A reference to a static: its value if it can never change, else its initialiser.
    fn static_ref(&mut self, d: DefId) -> String {
        let mut o = format!("{{\"static\":{}", js(&self.path(d)));
        if let DefKind::Static { mutability, .. } = self.tcx.def_kind(d) {
            let t = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let ti = self.ty(t);
            let _ = write!(o, ",\"ty\":{}", ti);
            if d.is_local() && !self.tcx.is_foreign_item(d) {
                if mutability.is_not() && t.is_freeze(self.tcx, self.env) {
                    if let Ok(a) = self.tcx.eval_static_initializer(d) {
                        let alloc_id = self.tcx.reserve_and_set_memory_alloc(a);
                        let v = self.const_val(ConstValue::Indirect { alloc_id, offset: rustc_abi::Size::ZERO }, t);
                        let _ = write!(o, ",\"val\":{}", v);
                    }
                } else {
                    let id = self.inst_id(Instance::mono(self.tcx, d));
                    let _ = write!(o, ",\"init\":{}", id);
                }
            }
        }
        o.push('}');
        o
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut stat = String::new();
        if let Some(d) = c.check_static_ptr(self.tcx) {
            stat = format!(",\"staticptr\":{}", js(&self.path(d)));
        }
        let v = if let TyKind::FnDef(..) = t.kind() {
            "{\"zst\":1}".to_string()
        } else {
            match c.const_.eval(self.tcx, self.env, c.span) {
                Ok(v) => self.const_val(v, t),
                Err(_) => "{\"opaque\":\"unevaluated\"}".to_string(),
            }
        };
        format!("{{\"t\":{},\"v\":{}{}}}", ti, v, stat)
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut o = Vec::new();
        for e in p.projection.iter() {
            o.push(match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    format!("[\"f\",{},{}]", f.as_u32(), t)
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{},{},{}]", from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => format!("[\"dc\",{}]", v.as_u32()),
                _ => "[\"o\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local.as_u32(), o.join(","))
    }

    fn operand(&mut self, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.konst(c)),
            Operand::RuntimeChecks(r) => format!("{{\"rt\":\"{:?}\"}}", r),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                format!("[\"repeat\",{},{}]", self.operand(o), n)
            }
            Rvalue::Ref(_, bk, p) => format!(
                "[\"ref\",{},{}]",
                self.place(p),
                matches!(bk, BorrowKind::Mut { .. })
            ),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", self.static_ref(*d)),
            Rvalue::RawPtr(_, p) => format!("[\"rawptr\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(body, self.tcx);
                let from = self.ty(from);
                let o = self.operand(o);
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{},{}]", js(&format!("{:?}", k)), o, t, from)
            }
            Rvalue::BinaryOp(b, ab) => {
                let lt = ab.0.ty(body, self.tcx);
                let lt = self.ty(lt);
                let (x, y) = (self.operand(&ab.0), self.operand(&ab.1));
                format!("[\"bin\",\"{:?}\",{},{},{}]", b, x, y, lt)
            }
            Rvalue::UnaryOp(u, o) => {
                let lt = o.ty(body, self.tcx);
                let lt = self.ty(lt);
                format!("[\"un\",\"{:?}\",{},{}]", u, self.operand(o), lt)
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let ops = ops.join(",");
                match **k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",null,[{}]]", ops),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,[{}]]", ops),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let en = self.tcx.adt_def(d).is_enum();
                        let un = self.tcx.adt_def(d).is_union();
                        format!(
                            "[\"agg\",\"{}\",{},[{}],{}]",
                            if un { "union" } else { "adt" },
                            if en { v.as_u32().to_string() } else { "null".into() },
                            ops,
                            active.map(|x| x.as_u32().to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(..) => format!("[\"agg\",\"closure\",null,[{}]]", ops),
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"rawptr\",null,[{}]]", ops),
                    _ => "[\"other\"]".into(),
                }
            }
            _ => "[\"other\"]".into(),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> usize {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
    }

    /// `next` of iterator types handed to library functions that consume them, and `eq` of element
    /// types handed to library comparisons.
    fn helpers(&mut self, path: &str, targs: &[Ty<'tcx>]) {
        let low = path.to_lowercase();
        let it = low.contains("iter") || low.contains("extend");
        let pe = low.contains("partialeq") || low.contains("partial_eq");
        if !it && !pe {
            return;
        }
        for t in targs {
            let t = *t;
            if it {
                if let Some(tr) = self.tcx.get_diagnostic_item(rustc_span::sym::Iterator) {
                    if self.implements(t, Some(tr)) {
                        let next = self.tcx.associated_items(tr).in_definition_order()
                            .find(|x| x.name().as_str() == "next").map(|x| x.def_id);
                        if let Some(n) = next {
                            let args = self.tcx.mk_args(&[t.into()]);
                            if let Some(f) = self.resolve(n, args) {
                                let ti = self.ty(t);
                                self.next.insert(ti, f);
                            }
                        }
                    }
                }
            }
            if pe {
                if let Some(tr) = self.tcx.lang_items().eq_trait() {
                    let (infcx, pen) = self.tcx.infer_ctxt().build_with_typing_env(self.env);
                    if infcx.type_implements_trait(tr, [t, t], pen).must_apply_modulo_regions() {
                        let eq = self.tcx.associated_items(tr).in_definition_order()
                            .find(|x| x.name().as_str() == "eq").map(|x| x.def_id);
                        if let Some(n) = eq {
                            let args = self.tcx.mk_args(&[t.into(), t.into()]);
                            if let Some(f) = self.resolve(n, args) {
                                let ti = self.ty(t);
                                self.eqs.insert(ti, f);
                            }
                        }
                    }
                }
            }
        }
    }

    fn body(&mut self, id: usize) {
        let inst = self.inst_list[id];
        let d = inst.def_id();
        let path = self.path(d);
        let name = rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str_with_args(d, inst.args));
        let (kind, has_body) = match inst.def {
            InstanceKind::Item(d) => {
                if self.tcx.is_foreign_item(d) {
                    ("foreign", false)
                } else if let DefKind::Static { .. } = self.tcx.def_kind(d) {
                    ("static", d.is_local())
                } else if let DefKind::Ctor(..) = self.tcx.def_kind(d) {
                    ("ctor", self.tcx.is_mir_available(d))
                } else {
                    ("item", self.follow(d) && self.tcx.is_mir_available(d))
                }
            }
            InstanceKind::Intrinsic(_) => ("intrinsic", false),
            InstanceKind::LlvmIntrinsic(_) => ("llvm", false),
            InstanceKind::Virtual(..) => ("virtual", false),
            InstanceKind::Shim(k) => match k {
                ShimKind::DropGlue(_, _) => ("drop", false),
                ShimKind::Clone(..) => ("cloneshim", true),
                ShimKind::ClosureOnce { .. } => ("closureonce", true),
                ShimKind::FnPtr(..) => ("fnptrshim", true),
                _ => ("shim", false),
            },
        };
        let targs: Vec<Ty<'tcx>> = inst.args.types().collect();
        if !d.is_local() {
            self.helpers(&path, &targs);
        }
        let targs = self.list(&targs);
        let local = d.is_local();
        let kr = self.tcx.crate_name(d.krate);
        let vispath = self.pretty(d);
        let mut meta = format!(
            "\"id\":{},\"kind\":\"{}\",\"path\":{},\"vpath\":{},\"name\":{},\"crate\":{},\"local\":{},\"targs\":{}",
            id, kind, js(&path), js(&vispath), js(&name), js(kr.as_str()), local, targs
        );
        if matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = self.tcx.fn_sig(d).skip_binder();
            let uns = sig.safety() == rustc_hir::Safety::Unsafe;
            let _ = write!(meta, ",\"unsafe\":{}", uns);
            if let Some(tr) = self.tcx.trait_of_assoc(d) {
                let _ = write!(meta, ",\"intrait\":{}", js(&self.pretty(tr)));
            }
            if let Some(im) = self.tcx.impl_of_assoc(d) {
                if let Some(tr) = self.tcx.impl_opt_trait_ref(im) {
                    let tr = tr.skip_binder();
                    let _ = write!(meta, ",\"trait\":{},\"selfty\":{}",
                        js(&self.pretty(tr.def_id)),
                        js(&rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", tr.self_ty()))));
                } else {
                    let st = self.tcx.type_of(im).skip_binder();
                    let _ = write!(meta, ",\"implty\":{}",
                        js(&rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", st))));
                }
            }
            let _ = write!(meta, ",\"item\":{}", js(self.tcx.item_name(d).as_str()));
            if local {
                let pubv = self.tcx.visibility(d).is_public();
                let reach = self.tcx.effective_visibilities(()).is_reachable(d.expect_local());
                let _ = write!(meta, ",\"pub\":{},\"reach\":{}", pubv, reach);
            }
        }
        if let DefKind::Ctor(..) = self.tcx.def_kind(d) {
            let parent = self.tcx.parent(d);
            let adt_variant = match self.tcx.def_kind(parent) {
                DefKind::Variant => {
                    let adt = self.tcx.adt_def(self.tcx.parent(parent));
                    format!("{}", adt.variant_index_with_id(parent).as_u32())
                }
                _ => "null".into(),
            };
            let _ = write!(meta, ",\"ctor\":{}", adt_variant);
        }
        if local {
            let sp = self.tcx.def_span(d);
            let pos = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
            let _ = write!(meta, ",\"file\":{},\"line\":{}",
                js(&pos.file.name.prefer_local_unconditionally().to_string()), pos.line);
        }
        if !has_body {
            self.out.push(format!("F\t{}\t{{{}}}", id, meta));
            return;
        }
        let body0 = self.tcx.instance_mir(inst.def).clone();
        let body = inst.instantiate_mir_and_normalize_erasing_regions(
            self.tcx,
            self.env,
            ty::EarlyBinder::bind(self.tcx, body0),
        );
        let _ = write!(meta, ",\"argc\":{}", body.arg_count);
        if let Some(sl) = body.spread_arg {
            let _ = write!(meta, ",\"spread\":{}", sl.as_u32());
        }
        let locals: Vec<String> =
            body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut vars = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    vars.push(format!("[{},{}]", p.local.as_u32(), js(v.name.as_str())));
                }
            }
        }
        let mut blocks = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut st = Vec::new();
            for s in &bb.statements {
                let ln = if local { self.line(s.source_info.span) } else { 0 };
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0);
                        let r = self.rvalue(&b.1, &body);
                        st.push(format!("[\"=\",{},{},{}]", p, r, ln));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(&place);
                        st.push(format!("[\"sd\",{},{},{}]", p, variant_index.as_u32(), ln));
                    }
                    StatementKind::Intrinsic(b) => match *b.clone() {
                        NonDivergingIntrinsic::Assume(_) => {}
                        _ => st.push(format!("[\"copyno\",{}]", ln)),
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = if local { self.line(t.source_info.span) } else { 0 };
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body, self.tcx);
                    let signed = dt.is_signed();
                    let bits = if dt.is_bool() { 1 } else if dt.is_integral() || dt.is_char() { dt.primitive_size(self.tcx).bits() } else { 128 };
                    let arms: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| {
                            let vs = if signed {
                                rustc_abi::Size::from_bits(bits).sign_extend(v).to_string()
                            } else {
                                v.to_string()
                            };
                            format!("[\"{}\",{}]", vs, b.as_u32())
                        })
                        .collect();
                    format!(
                        "[\"switch\",{},[{}],{}",
                        self.operand(&discr),
                        arms.join(","),
                        targets.otherwise().as_u32()
                    )
                }
                TerminatorKind::Return => "[\"ret\"".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body, self.tcx).ty;
                    let pt = self.ty(pt);
                    format!("[\"drop\",{},{},{}", self.place(&place), target.as_u32(), pt)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(&func);
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node)).collect();
                    format!(
                        "[\"call\",{},[{}],{},{}",
                        f,
                        a.join(","),
                        self.place(&destination),
                        target.map(|t| t.as_u32().to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let kind = match &*msg.clone() {
                        AssertKind::BoundsCheck { .. } => "bounds",
                        AssertKind::Overflow(..) => "overflow",
                        AssertKind::OverflowNeg(_) => "overflow",
                        AssertKind::DivisionByZero(_) => "divzero",
                        AssertKind::RemainderByZero(_) => "divzero",
                        _ => "other",
                    };
                    format!(
                        "[\"assert\",{},{},\"{}\",{}",
                        self.operand(&cond),
                        expected,
                        kind,
                        target.as_u32()
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}", real_target.as_u32()),
                _ => "[\"other\"".to_string(),
            };
            let cl = if bb.is_cleanup { 1 } else { 0 };
            blocks.push(format!("{{\"s\":[{}],\"t\":{},{}],\"c\":{}}}", st.join(","), ts, ln, cl));
        }
        self.out.push(format!(
            "F\t{}\t{{{},\"locals\":[{}],\"vars\":[{}],\"bb\":[{}]}}",
            id, meta, locals.join(","), vars.join(","), blocks.join(",")
        ));
    }
}

fn candidates<'tcx>(tcx: TyCtxt<'tcx>) -> (Vec<Ty<'tcx>>, Vec<Ty<'tcx>>) {
    let t = &tcx.types;
    let ints = vec![t.i8, t.i16, t.i32, t.i64, t.i128, t.u8, t.u16, t.u32, t.u64, t.u128];
    // local fieldless structs implementing a local trait with an associated const: the scales
    let mut scales = Vec::new();
    for id in tcx.hir_crate_items(()).free_items() {
        let d = id.owner_id.to_def_id();
        if tcx.def_kind(d) == DefKind::Struct && tcx.generics_of(d).count() == 0 {
            let adt = tcx.adt_def(d);
            if adt.all_fields().count() == 0 {
                scales.push(tcx.type_of(d).instantiate_identity().skip_norm_wip());
            }
        }
    }
    (ints, scales)
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("MIRDUMP_OUT") {
            Ok(x) => x,
            Err(_) => return Compilation::Continue,
        };
        let name = tcx.crate_name(LOCAL_CRATE);
        if name.as_str() != std::env::var("MIRDUMP_CRATE").unwrap_or("momentous".into()) {
            return Compilation::Continue;
        }
        let mut d = Dump {
            tcx,
            env: TypingEnv::fully_monomorphized(),
            types: HashMap::new(),
            type_json: Vec::new(),
            insts: HashMap::new(),
            inst_list: Vec::new(),
            queue: VecDeque::new(),
            out: Vec::new(),
            const_depth: 0,
            next: HashMap::new(),
            eqs: HashMap::new(),
        };
        let (ints, scales) = candidates(tcx);
        let mut roots = Vec::new();
        let mut skipped = Vec::new();
        for ld in tcx.mir_keys(()) {
            let def = ld.to_def_id();
            if !matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let g = tcx.generics_of(def);
            let mut params: Vec<u32> = Vec::new();
            let mut bad = false;
            for i in 0..g.count() {
                let p = g.param_at(i, tcx);
                match p.kind {
                    ty::GenericParamDefKind::Lifetime => {}
                    ty::GenericParamDefKind::Type { .. } => params.push(p.index),
                    ty::GenericParamDefKind::Const { .. } => bad = true,
                }
            }
            if bad || (g.has_self) {
                skipped.push(d.path(def));
                continue;
            }
            // candidate types per parameter, singly filtered, then the product filtered
            let all: Vec<Ty<'tcx>> = ints.iter().chain(scales.iter()).copied().collect();
            let mk = |assign: &HashMap<u32, Ty<'tcx>>| {
                ty::GenericArgs::for_item(tcx, def, |p, _| match p.kind {
                    ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                    ty::GenericParamDefKind::Type { .. } => assign[&p.index].into(),
                    _ => unreachable!(),
                })
            };
            let mut n = 0;
            let total = all.len().pow(params.len() as u32);
            let mut found = Vec::new();
            for k in 0..total {
                let mut m = HashMap::new();
                let mut kk = k;
                for p in &params {
                    m.insert(*p, all[kk % all.len()]);
                    kk /= all.len();
                }
                // structural pre-filter: comparisons between widths only need some pairs
                let args = mk(&m);
                if tcx.instantiate_and_check_impossible_clauses((def, args)) {
                    continue;
                }
                n += 1;
                found.push(args);
            }
            if params.len() >= 1 && n == total {
                // unconstrained parameters: one representative is enough
                found.truncate(1);
            }
            if found.is_empty() {
                skipped.push(d.path(def));
            }
            for args in found {
                if let Ok(Some(i)) = Instance::try_resolve(tcx, d.env, def, args) {
                    let id = d.inst_id(i);
                    roots.push(id);
                }
            }
        }
        while let Some(id) = d.queue.pop_front() {
            d.body(id);
        }
        // type-level facts for local types not reached
        let mut f = std::io::BufWriter::new(std::fs::File::create(&out).unwrap());
        for (i, t) in d.type_json.iter().enumerate() {
            writeln!(f, "T\t{}\t{}", i, t).unwrap();
        }
        for l in &d.out {
            writeln!(f, "{}", l).unwrap();
        }
        let roots: BTreeSet<usize> = roots.into_iter().collect();
        let roots: Vec<String> = roots.iter().map(|x| x.to_string()).collect();
        let skipped: Vec<String> = skipped.iter().map(|x| js(x)).collect();
        // local statics, extern blocks, unsafe code
        let mut facts = Vec::new();
        struct V<'tcx> {
            tcx: TyCtxt<'tcx>,
            n: usize,
        }
        impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
                self.tcx
            }
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                    if !b.span.from_expansion() {
                        self.n += 1;
                    }
                }
                rustc_hir::intravisit::walk_block(self, b);
            }
        }
        for def in tcx.hir_body_owners() {
            let mut v = V { tcx, n: 0 };
            if let Some(body) = tcx.hir_maybe_body_owned_by(def) {
                rustc_hir::intravisit::Visitor::visit_body(&mut v, body);
            }
            if v.n > 0 {
                facts.push(format!("[\"unsafeblock\",{},{}]", js(&d.path(def.to_def_id())), v.n));
            }
            if matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(def).skip_binder().safety() == rustc_hir::Safety::Unsafe {
                facts.push(format!("[\"unsafefn\",{}]", js(&d.path(def.to_def_id()))));
            }
        }
        for id in tcx.hir_crate_items(()).definitions() {
            let def = id.to_def_id();
            match tcx.def_kind(def) {
                DefKind::Static { mutability, .. } => facts.push(format!(
                    "[\"static\",{},{}]", js(&d.path(def)), mutability.is_mut())),
                DefKind::ForeignMod => facts.push(format!("[\"extern\",{}]", js(&d.path(def)))),
                DefKind::Impl { of_trait: true } => {
                    let h = tcx.impl_trait_header(def);
                    if h.safety == rustc_hir::Safety::Unsafe && !tcx.def_span(def).from_expansion() {
                        facts.push(format!("[\"unsafeimpl\",{}]", js(&d.path(def))));
                    }
                }
                _ => {}
            }
        }
        let m = |h: &HashMap<usize, usize>| {
            let mut v: Vec<String> = h.iter().map(|(a, b)| format!("\"{}\":{}", a, b)).collect();
            v.sort();
            format!("{{{}}}", v.join(","))
        };
        writeln!(f, "R\t0\t{{\"roots\":[{}],\"skipped\":[{}],\"facts\":[{}],\"next\":{},\"eq\":{}}}", roots.join(","), skipped.join(","), facts.join(","), m(&d.next), m(&d.eqs)).unwrap();
        f.flush().unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::install_ice_hook(rustc_driver::DEFAULT_BUG_REPORT_URL, |_| ());
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}

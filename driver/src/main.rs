//! mirdump: a rustc driver that dumps the type-checked, monomorphised MIR that is
//! reachable from a crate's `w_*` root functions (plus the polymorphic MIR of every
//! body of the crates named in MIRDUMP_POLY) as JSON facts. Nothing is executed.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    ids: HashMap<Instance<'tcx>, usize>,
    order: Vec<Instance<'tcx>>,
    queue: VecDeque<Instance<'tcx>>,
    types: BTreeMap<String, String>,
    seen_ty: HashSet<Ty<'tcx>>,
    std_mods: Vec<&'static str>,
    mono: bool,
}

/// std modules whose bodies are worth dumping (small combinators); everything else
/// is a leaf with a hand-written summary or an opaque call in the analyses.
const STD_MODS: &[&str] = &[
    "core::result", "core::option", "core::ops", "core::convert", "core::mem", "core::cmp",
    "core::default", "core::clone", "core::num", "core::iter", "core::array", "core::slice", "core::tuple",
    "core::borrow", "core::bool", "alloc::boxed", "alloc::borrow", "core::net", "core::intrinsics",
    "alloc::sync", "alloc::vec", "core::ptr", "std::io", "alloc::slice", "core::io",
];

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn krate(&self, d: DefId) -> String {
        self.tcx.crate_name(d.krate).to_string()
    }
    fn ty(&mut self, t: Ty<'tcx>) -> String {
        let s = with_no_trimmed_paths!(t.to_string());
        if self.seen_ty.insert(t) {
            self.types.insert(s.clone(), "null".into());
            let info = self.ty_info(t);
            self.types.insert(s.clone(), info);
        }
        s
    }
    fn ty_info(&mut self, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        match t.kind() {
            ty::Adt(def, args) => {
                let big = !def.did().is_local()
                    && !matches!(self.krate(def.did()).as_str(), "deku")
                    && def.is_struct()
                    && false;
                let mut vs = vec![];
                let is_enum = def.is_enum();
                let discrs: Vec<(usize, String)> = if is_enum {
                    def.discriminants(tcx).map(|(i, d)| (i.as_usize(), d.to_string())).collect()
                } else {
                    vec![]
                };
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    if !big {
                        for f in v.fields.iter() {
                            let raw = f.ty(tcx, args);
                            let fty = tcx
                                .try_normalize_erasing_regions(self.env, raw)
                                .unwrap_or_else(|_| raw.skip_norm_wip());
                            let s = with_no_trimmed_paths!(fty.to_string());
                            // recurse only for shallow interest: ints/adts are all fine
                            let s2 = if self.types.contains_key(&s) { s } else { self.ty(fty) };
                            fs.push(format!("[{},{}]", esc(f.name.as_str()), esc(&s2)));
                        }
                    }
                    let d = discrs.iter().find(|(i, _)| *i == vi.as_usize()).map(|(_, d)| d.clone());
                    // discriminants print like "3_u8" / "0_isize"
                    let d = d.map(|d| d.split('_').next().unwrap().to_string()).unwrap_or("0".into());
                    vs.push(format!("{{\"n\":{},\"d\":{},\"f\":{}}}", esc(v.name.as_str()), esc(&d), arr(fs)));
                }
                let targs: Vec<String> = args
                    .iter()
                    .filter_map(|a| {
                        if let Some(t) = a.as_type() {
                            Some(esc(&self.ty(t)))
                        } else {
                            a.as_const().map(|c| esc(&with_no_trimmed_paths!(c.to_string())))
                        }
                    })
                    .collect();
                format!(
                    "{{\"k\":\"adt\",\"def\":{},\"enum\":{},\"union\":{},\"args\":{},\"vs\":{}}}",
                    esc(&self.path(def.did())),
                    is_enum,
                    def.is_union(),
                    arr(targs),
                    arr(vs)
                )
            }
            ty::Ref(_, i, m) => {
                let i = self.ty(*i);
                format!("{{\"k\":\"ref\",\"t\":{},\"mut\":{}}}", esc(&i), m.is_mut())
            }
            ty::RawPtr(i, m) => {
                let i = self.ty(*i);
                format!("{{\"k\":\"ptr\",\"t\":{},\"mut\":{}}}", esc(&i), m.is_mut())
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|t| esc(&self.ty(t))).collect();
                format!("{{\"k\":\"tuple\",\"ts\":{}}}", arr(v))
            }
            ty::Array(e, n) => {
                let e = self.ty(*e);
                let n = n.try_to_target_usize(tcx).map(|n| n.to_string()).unwrap_or("null".into());
                format!("{{\"k\":\"array\",\"t\":{},\"n\":{}}}", esc(&e), n)
            }
            ty::Slice(e) => {
                let e = self.ty(*e);
                format!("{{\"k\":\"slice\",\"t\":{}}}", esc(&e))
            }
            ty::Closure(d, args) => {
                let ts: Vec<String> =
                    if self.mono { args.as_closure().upvar_tys().iter().map(|t| esc(&self.ty(t))).collect() } else { vec![] };
                format!("{{\"k\":\"closure\",\"def\":{},\"ts\":{}}}", esc(&self.path(*d)), arr(ts))
            }
            ty::FnDef(d, _) => format!("{{\"k\":\"fndef\",\"def\":{}}}", esc(&self.path(*d))),
            ty::Bool => "{\"k\":\"bool\"}".into(),
            ty::Char => "{\"k\":\"char\"}".into(),
            ty::Int(i) => format!("{{\"k\":\"int\",\"b\":{}}}", i.bit_width().unwrap_or(64)),
            ty::Uint(i) => format!("{{\"k\":\"uint\",\"b\":{}}}", i.bit_width().unwrap_or(64)),
            ty::Float(f) => format!("{{\"k\":\"float\",\"b\":{}}}", f.bit_width()),
            ty::Str => "{\"k\":\"str\"}".into(),
            ty::Never => "{\"k\":\"never\"}".into(),
            ty::Param(_) => "{\"k\":\"param\"}".into(),
            _ => "{\"k\":\"other\"}".into(),
        }
    }
    fn inst_id(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(x) = self.ids.get(&i) {
            return *x;
        }
        let n = self.order.len();
        self.ids.insert(i, n);
        self.order.push(i);
        if self.want_body(i) {
            self.queue.push_back(i);
        }
        n
    }
    fn want_body(&self, i: Instance<'tcx>) -> bool {
        match i.def {
            InstanceKind::Item(d) => {
                if !self.tcx.is_mir_available(d) {
                    return false;
                }
                let k = self.krate(d);
                if d.is_local() || k == "deku" {
                    return true;
                }
                if matches!(k.as_str(), "core" | "std" | "alloc") {
                    let p = self.path_raw(d);
                    return self.std_mods.iter().any(|m| p.starts_with(m));
                }
                k == "no_std_io2" || k == "no_std_io"
            }
            InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => true,
            _ => false,
        }
    }
    /// crate::module path of a def, even for impl items
    fn path_raw(&self, d: DefId) -> String {
        let p = self.tcx.def_path(d);
        let mut s = self.krate(d);
        for c in p.data {
            s.push_str("::");
            s.push_str(c.as_sym(false).as_str());
        }
        s
    }
    fn loc(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let l = sm.lookup_char_pos(s.lo());
        let f = l.file.name.prefer_local_unconditionally().to_string();
        format!("{}:{}", f, l.line)
    }
    fn inst_meta(&mut self, id: usize) -> String {
        let i = self.order[id];
        let d = i.def_id();
        let name = with_no_trimmed_paths!(i.to_string());
        let targs: Vec<String> = i
            .args
            .iter()
            .filter_map(|a| {
                if let Some(t) = a.as_type() {
                    Some(esc(&self.ty(t)))
                } else {
                    a.as_const().map(|c| esc(&with_no_trimmed_paths!(c.to_string())))
                }
            })
            .collect();
        let kind = match i.def {
            InstanceKind::Item(_) => "item",
            InstanceKind::Intrinsic(_) => "intrinsic",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closure_once",
            InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => "drop",
            InstanceKind::Shim(ty::ShimKind::Clone(..)) => "cloneshim",
            _ => "shim",
        };
        // the trait method this implements (if any)
        let mut tr = String::from("null");
        if let Some(ai) = self.tcx.opt_associated_item(d) {
            if let Some(t) = ai.trait_item_def_id() {
                tr = esc(&self.path(t));
            } else if self.tcx.trait_of_assoc(d).is_some() {
                tr = esc(&self.path(d));
            }
        }
        let is_closure = self.tcx.is_closure_like(d);
        let parent = if is_closure { esc(&self.path(self.tcx.typeck_root_def_id(d))) } else { "null".into() };
        format!(
            "\"name\":{},\"def\":{},\"raw\":{},\"crate\":{},\"kind\":{},\"targs\":{},\"trait\":{},\"closure_of\":{},\"loc\":{}",
            esc(&name),
            esc(&self.path(d)),
            esc(&self.path_raw(d)),
            esc(&self.krate(d)),
            esc(kind),
            arr(targs),
            tr,
            parent,
            esc(&self.loc(self.tcx.def_span(d)))
        )
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, _) => format!("[\"f\",{}]", f.as_usize()),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"ci\",{},{}]", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, vi) => format!("[\"d\",{}]", vi.as_usize()),
                _ => "[\"o\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), arr(v))
    }
    fn bytes_json(&self, b: &[u8]) -> String {
        arr(b.iter().map(|x| x.to_string()).collect())
    }
    fn const_val(&mut self, val: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let ts = self.ty(t);
        if depth > 6 {
            return format!("{{\"k\":\"opq\",\"ty\":{}}}", esc(&ts));
        }
        match t.kind() {
            ty::FnDef(d, args) => return self.fn_const(*d, args.no_bound_vars().unwrap()),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                if let Some(s) = val.try_to_scalar_int() {
                    let size = s.size();
                    let bits = s.to_bits(size);
                    let v = if let ty::Int(_) = t.kind() {
                        (size.sign_extend(bits) as i128).to_string()
                    } else {
                        bits.to_string()
                    };
                    return format!("{{\"k\":\"int\",\"v\":{},\"ty\":{}}}", v, esc(&ts));
                }
                if let ConstValue::Indirect { alloc_id, offset } = val {
                    if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                        let sz = tcx.layout_of(self.env.as_query_input(t)).map(|l| l.size.bytes_usize()).unwrap_or(0);
                        let a = a.inner();
                        let o = offset.bytes_usize();
                        if sz > 0 && sz <= 16 && o + sz <= a.len() {
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + sz);
                            let mut x: u128 = 0;
                            for (i, y) in b.iter().enumerate() {
                                x |= (*y as u128) << (8 * i);
                            }
                            let v = if let ty::Int(_) = t.kind() {
                                (rustc_abi::Size::from_bytes(sz as u64).sign_extend(x) as i128).to_string()
                            } else {
                                x.to_string()
                            };
                            return format!("{{\"k\":\"int\",\"v\":{},\"ty\":{}}}", v, esc(&ts));
                        }
                    }
                }
            }
            ty::Ref(_, inner, _) => {
                if matches!(inner.kind(), ty::Str) || matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8) {
                    if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                        let isstr = matches!(inner.kind(), ty::Str);
                        let bs = self.bytes_json(b);
                        return format!("{{\"k\":\"bytes\",\"str\":{},\"v\":{},\"ty\":{}}}", isstr, bs, esc(&ts));
                    }
                }
                let target: Option<(rustc_middle::mir::interpret::AllocId, rustc_abi::Size)> = match val {
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.into_raw_parts();
                        Some((prov.alloc_id(), off))
                    }
                    ConstValue::Indirect { alloc_id, offset } => {
                        if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
                            let a = a.inner();
                            let mut r = None;
                            for (o, prov) in a.provenance().ptrs().iter() {
                                if *o == offset {
                                    let lo = offset.bytes_usize();
                                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(lo..lo + 8);
                                    let off = u64::from_le_bytes(b.try_into().unwrap());
                                    r = Some((prov.alloc_id(), rustc_abi::Size::from_bytes(off)));
                                }
                            }
                            r
                        } else {
                            None
                        }
                    }
                    _ => None,
                };
                if let Some((aid, off)) = target {
                    if let GlobalAlloc::Memory(_) = tcx.global_alloc(aid) {
                        if inner.is_sized(tcx, self.env) {
                            let iv = ConstValue::Indirect { alloc_id: aid, offset: off };
                            let j = self.const_val(iv, *inner, depth + 1);
                            return format!("{{\"k\":\"ref\",\"v\":{},\"ty\":{}}}", j, esc(&ts));
                        }
                    }
                }
            }
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                if let ty::Array(_, n) = t.kind() {
                    if n.try_to_target_usize(tcx).map(|n| n > 64).unwrap_or(true) {
                        return format!("{{\"k\":\"opq\",\"ty\":{}}}", esc(&ts));
                    }
                }
                if t.is_union() {
                    return format!("{{\"k\":\"opq\",\"ty\":{}}}", esc(&ts));
                }
                if let ConstValue::ZeroSized = val {
                    if let ty::Adt(d, _) = t.kind() {
                        if d.is_struct() && d.non_enum_variant().fields.is_empty() {
                            return format!("{{\"k\":\"agg\",\"ty\":{},\"var\":0,\"f\":[]}}", esc(&ts));
                        }
                    }
                    if let ty::Tuple(ts2) = t.kind() {
                        if ts2.is_empty() {
                            return format!("{{\"k\":\"agg\",\"ty\":{},\"var\":0,\"f\":[]}}", esc(&ts));
                        }
                    }
                }
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(val, t) {
                    let fs: Vec<String> = d.fields.iter().map(|(v, t)| self.const_val(*v, *t, depth + 1)).collect();
                    let var = d.variant.map(|v| v.as_usize()).unwrap_or(0);
                    return format!("{{\"k\":\"agg\",\"ty\":{},\"var\":{},\"f\":{}}}", esc(&ts), var, arr(fs));
                }
            }
            ty::Closure(..) => {
                return format!("{{\"k\":\"agg\",\"ty\":{},\"var\":0,\"f\":[]}}", esc(&ts));
            }
            _ => {}
        }
        format!("{{\"k\":\"opq\",\"ty\":{}}}", esc(&ts))
    }
    fn fn_const(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> String {
        let r = Instance::try_resolve(self.tcx, self.env, d, args);
        match r {
            Ok(Some(i)) => {
                let id = self.inst_id(i);
                format!("{{\"k\":\"fn\",\"id\":{}}}", id)
            }
            _ => {
                let targs: Vec<String> = args.iter().filter_map(|a| a.as_type()).map(|t| esc(&self.ty(t))).collect();
                format!("{{\"k\":\"fn\",\"id\":null,\"def\":{},\"targs\":{}}}", esc(&self.path(d)), arr(targs))
            }
        }
    }
    fn operand(&mut self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                if let ty::FnDef(d, args) = t.kind() {
                    return format!("[\"k\",{}]", self.fn_const(*d, args.no_bound_vars().unwrap()));
                }
                let v = match c.const_.eval(self.tcx, self.env, c.span) {
                    Ok(v) => self.const_val(v, t, 0),
                    Err(_) => {
                        let ts = self.ty(t);
                        let nm = with_no_trimmed_paths!(format!("{}", c.const_));
                        format!("{{\"k\":\"opq\",\"ty\":{},\"n\":{}}}", esc(&ts), esc(&nm))
                    }
                };
                format!("[\"k\",{}]", v)
            }
            Operand::RuntimeChecks(_) => "[\"rc\"]".to_string(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|n| n.to_string()).unwrap_or("null".into());
                format!("[\"rep\",{},{}]", self.operand(o), n)
            }
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(bk, BorrowKind::Mut { .. })),
            Rvalue::RawPtr(k, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(k, RawPtrKind::Mut)),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                let ts = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&ks), self.operand(o), esc(&ts))
            }
            Rvalue::BinaryOp(op, b) => {
                format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(&b.0), self.operand(&b.1))
            }
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(o)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",[{}],{}]", self.place(p), m.is_mut()),
            Rvalue::Aggregate(k, fs) => {
                let f: Vec<String> = fs.iter().map(|o| self.operand(o)).collect();
                match &**k {
                    AggregateKind::Adt(d, vi, args, _, uf) => {
                        let raw = self.tcx.type_of(*d).instantiate(self.tcx, args);
                        let t = self
                            .tcx
                            .try_normalize_erasing_regions(self.env, raw)
                            .unwrap_or_else(|_| raw.skip_norm_wip());
                        let ts = self.ty(t);
                        format!(
                            "[\"agg\",\"adt\",{},{},{},{}]",
                            esc(&ts),
                            vi.as_usize(),
                            arr(f),
                            uf.map(|x| x.as_usize().to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",\"\",0,{},null]", arr(f)),
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",\"\",0,{},null]", arr(f)),
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(self.tcx, *d, args);
                        let ts = self.ty(t);
                        let id = if self.mono {
                            let i = Instance::new_raw(*d, args);
                            self.inst_id(i).to_string()
                        } else {
                            let i = Instance::new_raw(*d, args);
                            self.inst_id(i).to_string()
                        };
                        format!("[\"agg\",\"closure\",{},{},{},null]", esc(&ts), id, arr(f))
                    }
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"rawptr\",\"\",0,{},null]", arr(f)),
                    _ => format!("[\"agg\",\"other\",\"\",0,{},null]", arr(f)),
                }
            }
            _ => "[\"other\"]".to_string(),
        }
    }
    fn body_json(&mut self, body: &Body<'tcx>) -> String {
        let locals: Vec<String> = body.local_decls.iter().map(|l| esc(&self.ty(l.ty))).collect();
        let mut names: Vec<String> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(p)));
            }
        }
        let mut blocks = vec![];
        for (_bb, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &b.statements {
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1);
                        st.push(format!("[\"=\",{},{},{}]", p, r, esc(&self.loc(s.source_info.span))));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.as_usize()))
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(format!("[\"intr\",{}]", esc(&format!("{:?}", i))));
                    }
                    _ => {}
                }
            }
            let term = b.terminator();
            let loc = esc(&self.loc(term.source_info.span));
            let unwind = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => b.as_usize().to_string(),
                _ => "null".into(),
            };
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, t)| format!("[{},{}]", v, t.as_usize())).collect();
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        self.operand(discr),
                        arr(v),
                        targets.otherwise().as_usize(),
                        loc
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Drop { place, target, unwind: u, .. } => {
                    let t = place.ty(&body.local_decls, self.tcx).ty;
                    let t = self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t)).unwrap_or(t);
                    let ts = self.ty(t);
                    format!("[\"drop\",{},{},{},{}]", self.place(place), target.as_usize(), esc(&ts), unwind(u))
                }
                TerminatorKind::Call { func, args, destination, target, unwind: u, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node)).collect();
                    format!(
                        "[\"call\",{},{},{},{},{},{}]",
                        self.operand(func),
                        arr(a),
                        self.place(destination),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        loc,
                        unwind(u)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (k, ops): (String, Vec<String>) = match &**msg {
                        AssertKind::Overflow(op, a, b) => {
                            (format!("overflow:{:?}", op), vec![self.operand(a), self.operand(b)])
                        }
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds".into(), vec![self.operand(len), self.operand(index)])
                        }
                        AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![self.operand(a)]),
                        AssertKind::DivisionByZero(a) => ("divzero".into(), vec![self.operand(a)]),
                        AssertKind::RemainderByZero(a) => ("remzero".into(), vec![self.operand(a)]),
                        _ => ("other".into(), vec![]),
                    };
                    format!(
                        "[\"assert\",{},{},{},{},{},{}]",
                        self.operand(cond),
                        expected,
                        target.as_usize(),
                        esc(&k),
                        arr(ops),
                        loc
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                _ => "[\"other\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"c\":{}}}", arr(st), t, b.is_cleanup));
        }
        format!(
            "\"argc\":{},\"spread\":{},\"locals\":{},\"names\":{},\"blocks\":{}",
            body.arg_count,
            body.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()),
            arr(locals),
            arr(names),
            arr(blocks)
        )
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let out = match std::env::var("MIRDUMP_OUT") {
            Ok(o) => o,
            Err(_) => return rustc_driver::Compilation::Continue,
        };
        let has = |var: &str| {
            std::env::var(var).map(|v| v.split(',').any(|x| x == krate)).unwrap_or(false)
        };
        if has("MIRDUMP_MONO") {
            dump_mono(tcx, &format!("{}/{}.mono.json", out, krate));
        }
        if has("MIRDUMP_POLY") {
            dump_poly(tcx, &format!("{}/{}.poly.json", out, krate));
        }
        rustc_driver::Compilation::Continue
    }
}

fn finish<'tcx>(cx: &mut Cx<'tcx>, bodies: &HashMap<usize, String>, roots: Vec<String>, path: &str) {
    let mut fns = vec![];
    let mut i = 0;
    while i < cx.order.len() {
        let m = cx.inst_meta(i);
        match bodies.get(&i) {
            Some(b) => fns.push(format!("{{{},{}}}", m, b)),
            None => fns.push(format!("{{{}}}", m)),
        }
        i += 1;
    }
    let types: Vec<String> = cx.types.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let s = format!(
        "{{\"roots\":{},\n\"types\":{{{}}},\n\"fns\":[\n{}\n]}}\n",
        arr(roots),
        types.join(",\n"),
        fns.join(",\n")
    );
    std::fs::write(path, s).unwrap();
}

fn dump_mono<'tcx>(tcx: TyCtxt<'tcx>, path: &str) {
    let env = TypingEnv::fully_monomorphized();
    let mut cx = Cx {
        tcx,
        env,
        ids: HashMap::new(),
        order: vec![],
        queue: VecDeque::new(),
        types: BTreeMap::new(),
        seen_ty: HashSet::new(),
        std_mods: STD_MODS.to_vec(),
        mono: true,
    };
    let mut roots = vec![];
    for d in tcx.mir_keys(()) {
        let d = d.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Fn) {
            continue;
        }
        let n = tcx.item_name(d).to_string();
        if !["w_", "r_", "rd_", "wd_", "u_", "s_"].iter().any(|p| n.starts_with(p)) {
            continue;
        }
        if tcx.generics_of(d).requires_monomorphization(tcx) {
            continue;
        }
        let i = Instance::mono(tcx, d);
        let id = cx.inst_id(i);
        roots.push(format!("[{},{}]", esc(&with_no_trimmed_paths!(tcx.def_path_str(d))), id));
    }
    let mut bodies = HashMap::new();
    while let Some(i) = cx.queue.pop_front() {
        let id = cx.ids[&i];
        let body = tcx.instance_mir(i.def);
        let body = i.instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, body.clone()));
        let j = cx.body_json(&body);
        bodies.insert(id, j);
    }
    finish(&mut cx, &bodies, roots, path);
}

fn dump_poly<'tcx>(tcx: TyCtxt<'tcx>, path: &str) {
    let mut cx = Cx {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        ids: HashMap::new(),
        order: vec![],
        queue: VecDeque::new(),
        types: BTreeMap::new(),
        seen_ty: HashSet::new(),
        std_mods: vec![],
        mono: false,
    };
    let mut roots = vec![];
    let mut bodies = HashMap::new();
    for ld in tcx.mir_keys(()) {
        let d = ld.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            continue;
        }
        cx.env = TypingEnv::post_analysis(tcx, d);
        let args = ty::GenericArgs::identity_for_item(tcx, d);
        let i = Instance::new_raw(d, args);
        let id = cx.inst_id(i);
        roots.push(format!("[{},{}]", esc(&cx.path(d)), id));
        let body = tcx.optimized_mir(d);
        let j = cx.body_json(body);
        bodies.insert(id, j);
    }
    cx.queue.clear();
    finish(&mut cx, &bodies, roots, path);
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let mut cb = Cb;
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}

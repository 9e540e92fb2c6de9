//! Dumps the MIR of a crate (all bodies, closures, promoteds, referenced external bodies) as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`, or directly in place of rustc.
//! MIRDUMP_OUT  = output file; MIRDUMP_CRATE = crate name to dump (others are compiled normally).
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, ConstValue, Operand, Place, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c if (c as u32) > 0xffff => { let mut b = [0u16; 2]; for u in c.encode_utf16(&mut b) { let _ = write!(o, "\\u{:04x}", u); } }
            c if (c as u32) > 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    format!("[{}]", i.into_iter().collect::<Vec<_>>().join(","))
}
fn bytes_json(b: &[u8]) -> String { arr(b.iter().map(|x| x.to_string())) }

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tyidx: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, String>,
    bodies: Vec<(String, String)>,
    seen: HashSet<DefId>,
    queue: Vec<DefId>,
    unsafe_sites: usize,
}

impl<'tcx> Dumper<'tcx> {
    fn key(&self, d: DefId) -> String {
        let krate = self.tcx.crate_name(d.krate);
        format!("{}{}", krate, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn name(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(self.tcx.def_path_str(d)))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tyidx.get(&t) { return *i; }
        let tcx = self.tcx;
        let s = match t.kind() {
            ty::Bool => "[\"bool\"]".into(),
            ty::Char => "[\"char\"]".into(),
            ty::Int(i) => format!("[\"int\",{}]", esc(i.name_str())),
            ty::Uint(i) => format!("[\"uint\",{}]", esc(i.name_str())),
            ty::Float(_) => "[\"float\"]".into(),
            ty::Str => "[\"str\"]".into(),
            ty::Never => "[\"never\"]".into(),
            ty::Slice(e) => { let e = self.ty(*e); format!("[\"slice\",{}]", e) }
            ty::Array(e, n) => { let e = self.ty(*e); let n = n.try_to_target_usize(tcx).map(|n| n.to_string()).unwrap_or("null".into()); format!("[\"array\",{},{}]", e, n) }
            ty::RawPtr(e, m) => { let e = self.ty(*e); format!("[\"ptr\",{},{}]", e, m.is_mut()) }
            ty::Ref(_, e, m) => { let e = self.ty(*e); format!("[\"ref\",{},{}]", e, m.is_mut()) }
            ty::Tuple(ts) => { let v: Vec<_> = ts.iter().map(|t| self.ty(t).to_string()).collect(); format!("[\"tuple\",{}]", arr(v)) }
            ty::Adt(d, args) => {
                let v: Vec<_> = args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(t).to_string()).collect();
                let s = format!("[\"adt\",{},{}]", esc(&self.name(d.did())), arr(v));
                self.adt(*d);
                s
            }
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let v: Vec<_> = args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(t).to_string()).collect();
                self.want(*d);
                format!("[\"fndef\",{},{}]", esc(&self.key(*d)), arr(v))
            }
            ty::FnPtr(..) => "[\"fnptr\"]".into(),
            ty::Closure(d, args) => {
                let v: Vec<_> = args.as_closure().parent_args().iter().filter_map(|a| a.as_type()).map(|t| self.ty(t).to_string()).collect();
                self.want(*d);
                format!("[\"closure\",{},{}]", esc(&self.key(*d)), arr(v))
            }
            ty::Param(p) => format!("[\"param\",{},{}]", p.index, esc(p.name.as_str())),
            ty::Dynamic(..) => "[\"dyn\"]".into(),
            ty::Alias(..) => format!("[\"alias\",{}]", esc(&format!("{:?}", t))),
            _ => format!("[\"other\",{}]", esc(&format!("{:?}", t))),
        };
        let i = self.types.len();
        self.types.push(s);
        self.tyidx.insert(t, i);
        i
    }
    fn adt(&mut self, d: ty::AdtDef<'tcx>) {
        if self.adts.contains_key(&d.did()) { return; }
        self.adts.insert(d.did(), String::new());
        let tcx = self.tcx;
        let kind = if d.is_struct() { "struct" } else if d.is_enum() { "enum" } else { "union" };
        let local = d.did().is_local();
        let mut vs = Vec::new();
        let discrs: Vec<u128> = if d.is_enum() { d.discriminants(tcx).map(|(_, x)| x.val).collect() } else { vec![0] };
        for (i, v) in d.variants().iter().enumerate() {
            let mut fs = Vec::new();
            for f in v.fields.iter() {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let ti = if local || d.is_enum() { self.ty(t) as i64 } else { -1 };
                fs.push(format!("[{},{}]", esc(f.name.as_str()), ti));
            }
            let ctor = v.ctor_def_id().map(|c| esc(&self.key(c))).unwrap_or("null".into());
            vs.push(format!("[{},\"{}\",{},{}]", esc(v.name.as_str()), discrs.get(i).copied().unwrap_or(0), arr(fs), ctor));
        }
        let g = tcx.generics_of(d.did());
        let params: Vec<String> = (0..g.count()).filter_map(|i| { let p = g.param_at(i, tcx); if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) { Some(p.index.to_string()) } else { None } }).collect();
        let s = format!("{{\"kind\":\"{}\",\"key\":{},\"params\":{},\"variants\":{}}}", kind, esc(&self.key(d.did())), arr(params), arr(vs));
        self.adts.insert(d.did(), s);
    }
    fn want(&mut self, d: DefId) {
        if self.seen.insert(d) { self.queue.push(d); }
    }
    fn sp(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let f = match &lo.file.name { n => format!("{:?}", n) };
        let f = match f.find(".rs") { Some(i) => f[..i + 3].to_string(), None => f };
        let f = f.rsplit("src/").next().unwrap_or(&f).to_string();
        esc(&format!("{}:{}", f, lo.line))
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = Vec::new();
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(f, t) => { let t = self.ty(t); format!("[\"f\",{},{}]", f.as_usize(), t) }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"v\",{}]", v.as_usize()),
                _ => "[\"x\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_usize(), arr(v))
    }
    fn alloc_bytes(&self, id: AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let o = off as usize; let l = len as usize;
                if o + l > a.len() { return None; }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + l).to_vec())
            }
            _ => None,
        }
    }
    /// decode a value of type t stored in memory
    fn mem(&mut self, id: AllocId, off: u64, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        let bad = |why: &str| format!("{{\"k\":\"unk\",\"why\":{}}}", esc(why));
        if depth > 8 { return bad("depth"); }
        let te = TypingEnv::fully_monomorphized();
        let Ok(layout) = tcx.layout_of(te.as_query_input(t)) else { return bad("layout") };
        let size = layout.size.bytes();
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                match self.alloc_bytes(id, off, size) {
                    Some(b) => { let mut x: u128 = 0; for (i, y) in b.iter().enumerate() { x |= (*y as u128) << (8 * i); }
                        let x: i128 = if let ty::Int(_) = t.kind() { let sh = 128 - 8 * size as u32; ((x << sh) as i128) >> sh } else { x as i128 };
                        let ti = self.ty(t); format!("{{\"k\":\"int\",\"v\":\"{}\",\"t\":{}}}", x, ti) }
                    None => bad("bytes"),
                }
            }
            ty::Array(e, n) => {
                let Some(n) = n.try_to_target_usize(tcx) else { return bad("arraylen") };
                if let ty::Uint(ty::UintTy::U8) = e.kind() {
                    return match self.alloc_bytes(id, off, n) { Some(b) => format!("{{\"k\":\"bytes\",\"v\":{}}}", bytes_json(&b)), None => bad("bytes") };
                }
                let Ok(el) = tcx.layout_of(te.as_query_input(*e)) else { return bad("layout") };
                let es = el.size.bytes();
                if n > 4096 { return bad("big"); }
                let v: Vec<_> = (0..n).map(|i| self.mem(id, off + i * es, *e, depth + 1)).collect();
                format!("{{\"k\":\"array\",\"v\":{}}}", arr(v))
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                let GlobalAlloc::Memory(a) = tcx.global_alloc(id) else { return bad("ptr") };
                let ps = tcx.data_layout.pointer_size();
                let Some(prov) = a.inner().provenance().ptrs().get(&rustc_abi::Size::from_bytes(off)) else { return bad("noprov") };
                let target = prov.alloc_id();
                let pb = self.alloc_bytes(id, off, ps.bytes()).unwrap();
                let mut o2: u64 = 0; for (i, y) in pb.iter().enumerate() { o2 |= (*y as u64) << (8 * i); }
                let mut meta = 0u64;
                if matches!(inner.kind(), ty::Str | ty::Slice(_)) {
                    let mb = self.alloc_bytes(id, off + ps.bytes(), ps.bytes()).unwrap();
                    for (i, y) in mb.iter().enumerate() { meta |= (*y as u64) << (8 * i); }
                }
                self.pointee(target, o2, meta, *inner, depth)
            }
            ty::Tuple(ts) => {
                let v: Vec<_> = ts.iter().enumerate().map(|(i, t)| { let o = layout.fields.offset(i).bytes(); self.mem(id, off + o, t, depth + 1) }).collect();
                format!("{{\"k\":\"tuple\",\"v\":{}}}", arr(v))
            }
            ty::Adt(..) => {
                let val = ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::from_bytes(off) };
                self.adtconst(val, t, depth)
            }
            _ => bad("memty"),
        }
    }
    fn adtconst(&mut self, val: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let ti = self.ty(t);
        match self.tcx.try_destructure_mir_constant_for_user_output(val, t) {
            Some(d) => {
                let v: Vec<_> = d.fields.iter().map(|(c, t)| self.cval(*c, *t, depth + 1)).collect();
                format!("{{\"k\":\"adt\",\"t\":{},\"variant\":{},\"v\":{}}}", ti, d.variant.map(|v| v.as_usize()).unwrap_or(0), arr(v))
            }
            None => format!("{{\"k\":\"unk\",\"why\":\"adt\",\"t\":{}}}", ti),
        }
    }
    fn pointee(&mut self, id: AllocId, off: u64, meta: u64, inner: Ty<'tcx>, depth: usize) -> String {
        match inner.kind() {
            ty::Str => match self.alloc_bytes(id, off, meta) { Some(b) => format!("{{\"k\":\"refbytes\",\"str\":true,\"v\":{}}}", bytes_json(&b)), None => "{\"k\":\"unk\"}".into() },
            ty::Slice(e) => {
                if let ty::Uint(ty::UintTy::U8) = e.kind() {
                    return match self.alloc_bytes(id, off, meta) { Some(b) => format!("{{\"k\":\"refbytes\",\"v\":{}}}", bytes_json(&b)), None => "{\"k\":\"unk\"}".into() };
                }
                let te = TypingEnv::fully_monomorphized();
                let Ok(el) = self.tcx.layout_of(te.as_query_input(*e)) else { return "{\"k\":\"unk\"}".into() };
                let es = el.size.bytes();
                if meta > 70000 { return "{\"k\":\"unk\",\"why\":\"big\"}".into(); }
                let v: Vec<_> = (0..meta).map(|i| self.mem(id, off + i * es, *e, depth + 1)).collect();
                format!("{{\"k\":\"ref\",\"v\":{{\"k\":\"array\",\"v\":{}}}}}", arr(v))
            }
            _ => {
                if let GlobalAlloc::Static(d) = self.tcx.global_alloc(id) {
                    return format!("{{\"k\":\"static\",\"d\":{}}}", esc(&self.key(d)));
                }
                let v = self.mem(id, off, inner, depth + 1);
                format!("{{\"k\":\"ref\",\"v\":{}}}", v)
            }
        }
    }
    fn cval(&mut self, val: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let ti = self.ty(t);
        match (val, t.kind()) {
            (ConstValue::ZeroSized, ty::FnDef(d, args)) => {
                let args = args.skip_binder();
                let v: Vec<_> = args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(t).to_string()).collect();
                self.want(*d);
                format!("{{\"k\":\"fn\",\"d\":{},\"a\":{}}}", esc(&self.key(*d)), arr(v))
            }
            (ConstValue::ZeroSized, ty::Closure(..)) => format!("{{\"k\":\"closure\",\"t\":{}}}", ti),
            (ConstValue::ZeroSized, ty::Tuple(_)) => "{\"k\":\"tuple\",\"v\":[]}".into(),
            (ConstValue::Scalar(Scalar::Int(i)), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_)) => {
                let v: i128 = if let ty::Int(_) = t.kind() { i.to_int(i.size()) } else { i.to_bits_unchecked() as i128 };
                format!("{{\"k\":\"int\",\"v\":\"{}\",\"t\":{}}}", v, ti)
            }
            (ConstValue::Scalar(Scalar::Ptr(p, _)), ty::Ref(_, inner, _) | ty::RawPtr(inner, _)) => {
                let (prov, off) = p.into_raw_parts();
                self.pointee(prov.alloc_id(), off.bytes(), 0, *inner, depth)
            }
            (ConstValue::Slice { alloc_id, meta }, ty::Ref(_, inner, _) | ty::RawPtr(inner, _)) => self.pointee(alloc_id, 0, meta, *inner, depth),
            (ConstValue::Indirect { alloc_id, offset }, ty::Array(..) | ty::Ref(..) | ty::Tuple(..) | ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char) => self.mem(alloc_id, offset.bytes(), t, depth),
            (v, ty::Adt(..)) if !t.has_param_() => self.adtconst(v, t, depth),
            (ConstValue::ZeroSized, ty::Adt(..)) => format!("{{\"k\":\"adt\",\"t\":{},\"variant\":0,\"v\":[]}}", ti),
            _ => format!("{{\"k\":\"unk\",\"t\":{}}}", ti),
        }
    }
    fn konst(&mut self, c: &mir::Const<'tcx>, te: TypingEnv<'tcx>, owner: DefId) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        if let mir::Const::Unevaluated(u, _) = c {
            let evaluable = !u.args.iter().any(|a| a.as_type().map_or(false, |t| t.has_param_()));
            if let Some(p) = u.promoted {
                if !evaluable {
                    return format!("{{\"k\":\"promoted\",\"d\":{},\"i\":{},\"t\":{}}}", esc(&self.key(u.def)), p.as_usize(), ti);
                }
            }
            if evaluable {
                if let Ok(v) = c.eval(self.tcx, te, rustc_span::DUMMY_SP) {
                    let s = self.cval(v, t, 0);
                    if s.contains("\"unk\"") {
                        if let Some(p) = u.promoted {
                            return format!("{{\"k\":\"promoted\",\"d\":{},\"i\":{},\"t\":{}}}", esc(&self.key(u.def)), p.as_usize(), ti);
                        }
                    }
                    return s;
                }
            }
            return format!("{{\"k\":\"unk\",\"why\":\"uneval\",\"d\":{},\"t\":{}}}", esc(&self.name(u.def)), ti);
        }
        let _ = owner;
        match c.eval(self.tcx, te, rustc_span::DUMMY_SP) {
            Ok(v) => self.cval(v, t, 0),
            Err(_) => format!("{{\"k\":\"unk\",\"why\":\"evalerr\",\"t\":{}}}", ti),
        }
    }
    fn op(&mut self, o: &Operand<'tcx>, te: TypingEnv<'tcx>, owner: DefId) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_, te, owner)),
            Operand::RuntimeChecks(r) => format!("[\"rt\",{}]", esc(&format!("{:?}", r))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, te: TypingEnv<'tcx>, owner: DefId) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.op(o, te, owner)),
            Rvalue::Repeat(o, n) => { let n = n.try_to_target_usize(self.tcx).map(|n| n.to_string()).unwrap_or("null".into()); format!("[\"repeat\",{},{}]", self.op(o, te, owner), n) }
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, mir::BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::RawPtr(_, p) => format!("[\"raw\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => { let t = self.ty(*t); format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.op(o, te, owner), t) }
            Rvalue::BinaryOp(b, ops) => format!("[\"bin\",{},{},{}]", esc(&format!("{:?}", b)), self.op(&ops.0, te, owner), self.op(&ops.1, te, owner)),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", esc(&format!("{:?}", u)), self.op(o, te, owner)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<_> = ops.iter().map(|o| self.op(o, te, owner)).collect();
                let ks = match &**k {
                    mir::AggregateKind::Array(t) => { let t = self.ty(*t); format!("[\"array\",{}]", t) }
                    mir::AggregateKind::Tuple => "[\"tuple\"]".into(),
                    mir::AggregateKind::Adt(d, v, args, _, _) => {
                        let def = self.tcx.adt_def(*d); self.adt(def);
                        let a: Vec<_> = args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(t).to_string()).collect();
                        format!("[\"adt\",{},{},{}]", esc(&self.name(*d)), v.as_usize(), arr(a))
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        self.want(*d);
                        let a: Vec<_> = args.as_closure().parent_args().iter().filter_map(|a| a.as_type()).map(|t| self.ty(t).to_string()).collect();
                        format!("[\"closure\",{},{}]", esc(&self.key(*d)), arr(a))
                    }
                    mir::AggregateKind::RawPtr(t, _) => { let t = self.ty(*t); format!("[\"rawptr\",{}]", t) }
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{},{}]", ks, arr(v))
            }
            _ => format!("[\"other\",{}]", esc(&format!("{:?}", r))),
        }
    }
    fn callee(&mut self, func: &Operand<'tcx>, te: TypingEnv<'tcx>, owner: DefId) -> String {
        if let Operand::Constant(c) = func {
            if let ty::FnDef(d, args) = c.const_.ty().kind() {
                let (d, args) = (*d, args.skip_binder());
                let tcx = self.tcx;
                let mut rd = d; let mut rargs = args; let mut extra = String::new();
                let mut kind = "item";
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, te, d, args) {
                    match inst.def {
                        ty::InstanceKind::Item(x) => { rd = x; rargs = inst.args; }
                        ty::InstanceKind::Intrinsic(x) => { rd = x; rargs = inst.args; kind = "intrinsic"; }
                        _ => { kind = "shim"; extra = format!("{:?}", inst.def); }
                    }
                }
                self.want(rd);
                let a: Vec<_> = rargs.iter().filter_map(|a| a.as_type()).map(|t| self.ty(t).to_string()).collect();
                let oa: Vec<_> = args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(t).to_string()).collect();
                let tr = tcx.trait_of_assoc(d).map(|t| esc(&self.name(t))).unwrap_or("null".into());
                let tr2 = if rd == d { tr.clone() } else { "null".into() };
                return format!("{{\"d\":{},\"n\":{},\"a\":{},\"o\":{},\"on\":{},\"oa\":{},\"tr\":{},\"utr\":{},\"kind\":\"{}\",\"x\":{}}}", esc(&self.key(rd)), esc(&self.name(rd)), arr(a), esc(&self.key(d)), esc(&self.name(d)), arr(oa), tr, tr2, kind, esc(&extra));
            }
        }
        format!("{{\"ptr\":{}}}", self.op(func, te, owner))
    }
    fn body(&mut self, owner: DefId, b: &mir::Body<'tcx>) -> String {
        let te = TypingEnv::post_analysis(self.tcx, owner);
        let mut o = String::new();
        let locals: Vec<_> = b.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names: Vec<String> = Vec::new();
        for v in &b.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value { names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(&p))); }
        }
        let mut blocks = Vec::new();
        for (_bi, bb) in b.basic_blocks.iter_enumerated() {
            let mut ss = Vec::new();
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(a) => { let p = self.place(&a.0); let r = self.rvalue(&a.1, te, owner); ss.push(format!("[\"=\",{},{},{}]", p, r, self.sp(s.source_info.span))); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); ss.push(format!("[\"sd\",{},{}]", p, variant_index.as_usize())); }
                    StatementKind::StorageLive(l) => ss.push(format!("[\"live\",{}]", l.as_usize())),
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l.as_usize())),
                    StatementKind::Intrinsic(i) => {
                        match &**i {
                            mir::NonDivergingIntrinsic::Assume(op) => { let x = self.op(op, te, owner); ss.push(format!("[\"assume\",{}]", x)); }
                            _ => ss.push("[\"intrinsic\"]".into()),
                        }
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let span = self.sp(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<_> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                    let dt = discr.ty(&b.local_decls, self.tcx); let dt = self.ty(dt);
                    format!("[\"switch\",{},{},{},{}]", self.op(discr, te, owner), dt, arr(v), targets.otherwise().as_usize())
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"unwind\"]".into(),
                TerminatorKind::Drop { place, target, .. } => { let p = self.place(place); format!("[\"drop\",{},{}]", p, target.as_usize()) }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.callee(func, te, owner);
                    let a: Vec<_> = args.iter().map(|a| self.op(&a.node, te, owner)).collect();
                    let ats: Vec<_> = args.iter().map(|a| { let t = a.node.ty(&b.local_decls, self.tcx); self.ty(t).to_string() }).collect();
                    let d = self.place(destination);
                    let dt = destination.ty(&b.local_decls, self.tcx).ty; let dt = self.ty(dt);
                    format!("[\"call\",{},{},{},{},{},{}]", f, arr(a), d, target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()), dt, arr(ats))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (m, ops): (String, Vec<String>) = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => ("BoundsCheck".into(), vec![self.op(len, te, owner), self.op(index, te, owner)]),
                        mir::AssertKind::Overflow(b, l, r) => (format!("Overflow({:?})", b), vec![self.op(l, te, owner), self.op(r, te, owner)]),
                        mir::AssertKind::DivisionByZero(o) => ("DivisionByZero".into(), vec![self.op(o, te, owner)]),
                        mir::AssertKind::RemainderByZero(o) => ("RemainderByZero".into(), vec![self.op(o, te, owner)]),
                        mir::AssertKind::OverflowNeg(o) => ("OverflowNeg".into(), vec![self.op(o, te, owner)]),
                        _ => ("Other".into(), vec![]),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.op(cond, te, owner), expected, esc(&m), arr(ops), target.as_usize())
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
                _ => "[\"other\"]".into(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"sp\":{},\"cl\":{}}}", arr(ss), ts, span, bb.is_cleanup));
        }
        let _ = write!(o, "{{\"args\":{},\"locals\":{},\"names\":{},\"spread\":{},\"blocks\":{},\"sp\":{}}}", b.arg_count, arr(locals), arr(names), b.spread_arg.map(|l| l.as_usize().to_string()).unwrap_or("null".into()), arr(blocks), self.sp(b.span));
        o
    }
    fn external_ok(&self, name: &str) -> bool {
        let pre = ["core::option::", "core::result::", "core::ops::", "core::convert::", "core::bool::", "core::cmp::", "core::mem::", "core::tuple::", "std::option::", "std::result::", "std::ops::", "std::convert::", "std::bool::", "std::cmp::", "std::mem::"];
        let k = name;
        k.starts_with("textcode") || pre.iter().any(|p| k.starts_with(p))
    }
    fn run(&mut self) {
        let tcx = self.tcx;
        let owners: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        for d in owners { self.want(d.to_def_id()); }
        while let Some(d) = self.queue.pop() {
            let kind = tcx.def_kind(d);
            let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
            if !is_fn { continue; }
            let key = self.key(d);
            if !d.is_local() && !self.external_ok(&key) { continue; }
            if !tcx.is_mir_available(d) { continue; }
            let b = tcx.optimized_mir(d);
            let text = self.body(d, b);
            let mut proms = Vec::new();
            for p in tcx.promoted_mir(d).iter() { proms.push(self.body(d, p)); }
            let generics = {
                let g = tcx.generics_of(d);
                let mut v = Vec::new();
                for i in 0..g.count() { let p = g.param_at(i, tcx); if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) { v.push(format!("[{},{}]", p.index, esc(p.name.as_str()))); } }
                arr(v)
            };
            let vis = if d.is_local() && !matches!(kind, DefKind::Closure) { format!("{:?}", tcx.visibility(d)) } else { "".into() };
            let reach = d.as_local().map(|l| tcx.effective_visibilities(()).is_reachable(l)).unwrap_or(false);
            // generics of closures: parent type params only
            let impl_self = tcx.opt_parent(d).filter(|p| matches!(tcx.def_kind(*p), DefKind::Impl { .. })).map(|p| {
                let t = tcx.type_of(p).instantiate_identity().skip_norm_wip(); self.ty(t).to_string()
            }).unwrap_or("null".into());
            let impl_trait = tcx.opt_parent(d).filter(|p| matches!(tcx.def_kind(*p), DefKind::Impl { of_trait: true })).map(|p| {
                let t = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                let a: Vec<_> = t.args.iter().filter_map(|a| a.as_type()).map(|t| self.ty(t).to_string()).collect();
                format!("[{},{}]", esc(&self.name(t.def_id)), arr(a))
            }).unwrap_or("null".into());
            let safety = if matches!(kind, DefKind::Closure) { false } else { tcx.fn_sig(d).skip_binder().safety().is_unsafe() };
            let sig = if matches!(kind, DefKind::Closure) { String::new() } else { let g = tcx.fn_sig(d).instantiate_identity(); format!("{:?}", g.skip_norm_wip()) };
            let s = format!("{{\"sig\":{},\"name\":{},\"local\":{},\"kind\":\"{:?}\",\"vis\":{},\"reach\":{},\"generics\":{},\"impl_self\":{},\"impl_trait\":{},\"unsafe\":{},\"body\":{},\"promoted\":{}}}",
                esc(&sig), esc(&self.name(d)), d.is_local(), kind, esc(&vis), reach, generics, impl_self, impl_trait, safety, text, arr(proms));
            self.bodies.push((key, s));
        }
    }
    fn statics(&self) -> String {
        let tcx = self.tcx;
        let mut v = Vec::new();
        for d in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Static { mutability, .. } = tcx.def_kind(d.to_def_id()) {
                let t = tcx.type_of(d.to_def_id()).instantiate_identity().skip_norm_wip();
                let frozen = t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized());
                v.push(format!("[{},{},{},{}]", esc(&self.key(d.to_def_id())), mutability.is_mut(), frozen, esc(&self.sp(tcx.def_span(d)).trim_matches('"').to_string())));
            }
        }
        arr(v)
    }
    fn finish(&mut self) -> String {
        let mut o = String::new();
        let _ = write!(o, "{{\"crate\":{},\n\"statics\":{},\n\"types\":{},\n\"adts\":{{", esc(self.tcx.crate_name(LOCAL_CRATE).as_str()), self.statics(), arr(self.types.iter().cloned()));
        let mut first = true;
        let mut l: Vec<_> = self.adts.iter().map(|(d, s)| (self.name(*d), s.clone())).collect();
        l.sort();
        for (n, s) in l { if !first { o.push(','); } first = false; let _ = write!(o, "\n{}:{}", esc(&n), s); }
        o.push_str("},\n\"names\":{");
        first = true;
        let mut nl: Vec<(String, String)> = self.seen.iter().map(|d| (self.key(*d), self.name(*d))).collect();
        nl.sort();
        nl.dedup();
        for (k, n) in nl { if !first { o.push(','); } first = false; let _ = write!(o, "\n{}:{}", esc(&k), esc(&n)); }
        o.push_str("},\n\"bodies\":{");
        first = true;
        self.bodies.sort();
        for (n, s) in &self.bodies { if !first { o.push(','); } first = false; let _ = write!(o, "\n{}:{}", esc(n), s); }
        o.push_str("}}\n");
        o
    }
}
trait HasParam { fn has_param_(&self) -> bool; }
impl<'tcx> HasParam for Ty<'tcx> {
    fn has_param_(&self) -> bool { use rustc_middle::ty::TypeVisitableExt; self.has_param() }
}

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.inline_mir = Some(false);
        config.opts.debug_assertions = true;
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        if let (Ok(out), Ok(want)) = (std::env::var("MIRDUMP_OUT"), std::env::var("MIRDUMP_CRATE")) {
            if want == name {
                let mut d = Dumper { tcx, types: vec![], tyidx: HashMap::new(), adts: HashMap::new(), bodies: vec![], seen: HashSet::new(), queue: vec![], unsafe_sites: 0 };
                d.run();
                let _ = d.unsafe_sites;
                let s = d.finish();
                std::fs::write(&out, s).expect("write dump");
            }
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as a wrapper, argv[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) { args.remove(1); }
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}

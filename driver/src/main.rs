//! Extraction driver: a rustc wrapper that, for the harness crate, lowers the monomorphised MIR of
//! everything reachable from the harness roots into the IR in ../../ir/ir.rs.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

#[path = "../../ir/ir.rs"]
#[allow(dead_code)]
mod ir;

use ir::Codec;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir;
use rustc_public::ty::{Allocation, ConstantKind, GenericArgKind, GenericArgs, RigidTy, Ty, TyConstKind, TyKind, FnDef};
use rustc_public::{CrateDef, CrateDefType};
use std::collections::HashMap;
use std::ops::ControlFlow;

#[derive(Default)]
struct Cx {
    files: Vec<String>,
    file_ix: HashMap<String, u32>,
    spans: Vec<(u32, (u32, u32))>,
    span_ix: HashMap<(u32, (u32, u32)), u32>,
    types: Vec<ir::Ty>,
    type_names: Vec<String>,
    type_ix: HashMap<Ty, u32>,
    funcs: Vec<ir::Func>,
    func_ix: HashMap<(Instance, String), u32>,
    queue: Vec<(Instance, u32)>,
    statics: Vec<ir::StaticItem>,
    static_ix: HashMap<String, u32>,
    models: HashMap<String, FnDef>,
    drops: Vec<(u32, u32)>,
    drop_seen: HashMap<u32, ()>,
    local_tys: Vec<mir::LocalDecl>,
}

/// std consumer/adapter functions whose meaning is given by a plain `next()` loop in harness::models.
const MODEL_TABLE: &[(&str, &str)] = &include!("models.in");

fn std_crate(k: &str) -> bool {
    matches!(k, "core" | "alloc" | "std")
}

impl Cx {
    fn span(&mut self, sp: rustc_public::ty::Span) -> u32 {
        let f = sp.get_filename();
        let l = sp.get_lines();
        let fi = match self.file_ix.get(&f) {
            Some(&i) => i,
            None => {
                let i = self.files.len() as u32;
                self.files.push(f.clone());
                self.file_ix.insert(f, i);
                i
            }
        };
        let key = (fi, (l.start_line as u32, l.start_col as u32));
        if let Some(&i) = self.span_ix.get(&key) {
            return i;
        }
        let i = self.spans.len() as u32;
        self.spans.push(key);
        self.span_ix.insert(key, i);
        i
    }

    fn gargs(&mut self, a: &GenericArgs) -> Vec<ir::GArg> {
        a.0.iter()
            .filter_map(|g| match g {
                GenericArgKind::Lifetime(_) => None,
                GenericArgKind::Type(t) => Some(ir::GArg::Ty(self.ty(*t))),
                GenericArgKind::Const(c) => Some(match c.kind() {
                    TyConstKind::Value(_, a) => match a.read_uint() {
                        Ok(v) => ir::GArg::Const(v),
                        _ => ir::GArg::Other(),
                    },
                    _ => match c.eval_target_usize() {
                        Ok(v) => ir::GArg::Const(v as u128),
                        _ => ir::GArg::Other(),
                    },
                }),
            })
            .collect()
    }

    fn ty(&mut self, t: Ty) -> u32 {
        if let Some(&i) = self.type_ix.get(&t) {
            return i;
        }
        let i = self.types.len() as u32;
        self.type_ix.insert(t, i);
        self.types.push(ir::Ty::Other("pending".into()));
        self.type_names.push(format!("{}", t));
        let k = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => ir::Ty::Bool(),
                RigidTy::Char => ir::Ty::Char(),
                RigidTy::Int(x) => ir::Ty::Int(true, x.num_bytes() as u32 * 8),
                RigidTy::Uint(x) => ir::Ty::Int(false, x.num_bytes() as u32 * 8),
                RigidTy::Float(_) => ir::Ty::Float(64),
                RigidTy::Adt(def, args) => {
                    let kind = match def.kind() {
                        rustc_public::ty::AdtKind::Struct => 0,
                        rustc_public::ty::AdtKind::Enum => 1,
                        rustc_public::ty::AdtKind::Union => 2,
                    };
                    let ga = self.gargs(&args);
                    let mut vs = vec![];
                    for v in def.variants() {
                        let discr = if kind == 1 { def.discriminant_for_variant(v.idx()).val } else { 0 };
                        let fs = v.fields();
                        let fields = fs.iter().map(|f| self.ty(f.ty_with_args(&args))).collect();
                        let fnames = fs.iter().map(|f| f.name.to_string()).collect();
                        vs.push(ir::Variant { name: v.name().to_string(), discr, fields, fnames });
                    }
                    ir::Ty::Adt(def.name().to_string(), kind, ga, vs)
                }
                RigidTy::Str => ir::Ty::Str(),
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().unwrap_or(u64::MAX);
                    ir::Ty::Array(self.ty(e), n)
                }
                RigidTy::Pat(b, _) => {
                    let id = self.ty(b);
                    self.types[id as usize].clone()
                }
                RigidTy::Slice(e) => ir::Ty::Slice(self.ty(e)),
                RigidTy::RawPtr(p, m) => ir::Ty::RawPtr(self.ty(p), m == mir::Mutability::Mut),
                RigidTy::Ref(_, p, m) => ir::Ty::Ref(self.ty(p), m == mir::Mutability::Mut),
                RigidTy::FnDef(d, args) => {
                    let f = self.callee(d, &args);
                    ir::Ty::FnDef(f, d.name().to_string())
                }
                RigidTy::FnPtr(_) => ir::Ty::FnPtr(),
                RigidTy::Closure(d, args) => {
                    // upvar tuple is the last type argument
                    let ups = match args.0.last() {
                        Some(GenericArgKind::Type(t)) => match t.kind() {
                            TyKind::RigidTy(RigidTy::Tuple(v)) => v.iter().map(|t| self.ty(*t)).collect(),
                            _ => vec![],
                        },
                        _ => vec![],
                    };
                    ir::Ty::Closure(d.name().to_string(), ups)
                }
                RigidTy::Dynamic(..) => ir::Ty::Dyn(format!("{}", t)),
                RigidTy::Never => ir::Ty::Never(),
                RigidTy::Tuple(v) => ir::Ty::Tuple(v.iter().map(|t| self.ty(*t)).collect()),
                o => ir::Ty::Other(format!("{:?}", o)),
            },
            o => ir::Ty::Other(format!("{:?}", o)),
        };
        self.types[i as usize] = k;
        i
    }

    fn callee(&mut self, def: FnDef, args: &GenericArgs) -> Option<u32> {
        let name = def.name().to_string();
        let inst = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::resolve(def, args))).ok()?.ok()?;
        let rk = inst.def.krate().name.to_string();
        if std_crate(&rk) {
            for (from, model) in MODEL_TABLE {
                let rname = inst.def.name().to_string();
                if rname.contains("GenericShunt") {
                    continue; // its `next` is defined through its own try_fold
                }
                if *from == name || *from == rname {
                    // string patterns given as predicates have models of their own
                    let pred = args.0.iter().any(|a| matches!(a, GenericArgKind::Type(t) if matches!(t.kind(), TyKind::RigidTy(RigidTy::Closure(..) | RigidTy::FnDef(..)))));
                    let md = if pred { self.models.get(&format!("{model}_fn")).or(self.models.get(*model)) } else { self.models.get(*model) };
                    if let Some(md) = md.copied() {
                        let use_args = if *from == name { args.clone() } else { inst.args() };
                        let use_args = GenericArgs(use_args.0.iter().filter(|a| !matches!(a, GenericArgKind::Lifetime(_))).cloned().collect());
                        if let Ok(Ok(mi)) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::resolve(md, &use_args))) {
                            let id = self.instance(mi, "");
                            self.funcs[id as usize].model_of = rname;
                            return Some(id);
                        }
                    }
                }
            }
        }
        Some(self.instance(inst, &name))
    }

    fn instance(&mut self, inst: Instance, trait_name: &str) -> u32 {
        let tn = if inst.def.name().to_string() == trait_name { String::new() } else { trait_name.to_string() };
        if let Some(&i) = self.func_ix.get(&(inst.clone(), tn.clone())) {
            return i;
        }
        let i = self.funcs.len() as u32;
        self.func_ix.insert((inst.clone(), tn.clone()), i);
        let name = match inst.kind {
            InstanceKind::Intrinsic => inst.intrinsic_name().map(|s| s.to_string()).unwrap_or_default(),
            _ => inst.def.name().to_string(),
        };
        self.funcs.push(ir::Func {
            name,
            full: inst.name().to_string(),
            trait_name: tn,
            kind: match inst.kind {
                InstanceKind::Item => 0,
                InstanceKind::Shim => 1,
                InstanceKind::Intrinsic => 2,
                InstanceKind::Virtual { .. } => 3,
                _ => 2,
            },
            krate: inst.def.krate().name.to_string(),
            gargs: vec![],
            inputs: vec![],
            output: 0,
            span: 0,
            is_closure: false,
            is_unsafe: false,
            foreign: inst.is_foreign_item(),
            model_of: String::new(),
            body: None,
        });
        self.queue.push((inst, i));
        i
    }

    fn static_item(&mut self, s: StaticDef) -> u32 {
        let name = s.name().to_string();
        if let Some(&i) = self.static_ix.get(&name) {
            return i;
        }
        let i = self.statics.len() as u32;
        self.static_ix.insert(name.clone(), i);
        let t = s.ty();
        let tid = self.ty(t);
        self.statics.push(ir::StaticItem { name, ty: tid, mutable: false, krate: s.krate().name.to_string(), val: ir::CVal::Opaque("static".into()) });
        if let Ok(a) = s.eval_initializer() {
            let v = self.decode(&a, 0, t, 0);
            self.statics[i as usize].mutable = a.mutability == mir::Mutability::Mut;
            self.statics[i as usize].val = v;
        }
        i
    }

    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> ir::CVal {
        use ir::CVal;
        if depth > 12 {
            return CVal::Opaque("deep".into());
        }
        let rd = |off: usize, n: usize| -> Option<u128> {
            let mut v = 0u128;
            for k in 0..n {
                v |= ((*a.bytes.get(off + k)?)? as u128) << (8 * k);
            }
            Some(v)
        };
        let shape = match t.layout() {
            Ok(l) => l.shape(),
            Err(_) => return CVal::Opaque("no layout".into()),
        };
        let size = shape.size.bytes();
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool | RigidTy::Char | RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Float(_) => match rd(off, size) {
                    Some(v) => CVal::Int(v),
                    None => CVal::Uninit(),
                },
                RigidTy::Pat(b, _) => self.decode(a, off, b, depth),
                RigidTy::Tuple(ts) => {
                    let offs = field_offsets(&shape.fields, ts.len());
                    CVal::Agg(ts.iter().zip(offs).map(|(t, o)| self.decode(a, off + o, *t, depth + 1)).collect())
                }
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().unwrap_or(0) as usize;
                    self.decode_elems(a, off, e, n, depth)
                }
                RigidTy::Adt(def, args) => {
                    if def.kind() == rustc_public::ty::AdtKind::Union {
                        return CVal::Opaque("union".into());
                    }
                    if def.kind() == rustc_public::ty::AdtKind::Struct {
                        let v = &def.variants()[0];
                        let fs = v.fields();
                        let offs = field_offsets(&shape.fields, fs.len());
                        return CVal::Agg(fs.iter().zip(offs).map(|(f, o)| self.decode(a, off + o, f.ty_with_args(&args), depth + 1)).collect());
                    }
                    let (vi, offs): (usize, Vec<usize>) = match &shape.variants {
                        VariantsShape::Empty => return CVal::Uninit(),
                        VariantsShape::Single { index } => {
                            let vi = vidx(*index);
                            let n = def.variants()[vi].fields().len();
                            (vi, field_offsets(&shape.fields, n))
                        }
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let toff = field_offsets(&shape.fields, 1).get(*tag_field).copied().unwrap_or(0);
                            let tsz = scalar_size(tag);
                            // a pointer niche with provenance is never null
                            let has_ptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                            let tagv = if has_ptr { Some(u128::MAX) } else { rd(off + toff, tsz) };
                            let Some(tagv) = tagv else { return CVal::Uninit() };
                            let vi = match tag_encoding {
                                TagEncoding::Direct => {
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    let mut r = None;
                                    for v in def.variants() {
                                        if def.discriminant_for_variant(v.idx()).val & mask == tagv {
                                            r = Some(vidx(v.idx()));
                                        }
                                    }
                                    match r {
                                        Some(x) => x,
                                        None => return CVal::Opaque("tag".into()),
                                    }
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    let s = vidx(*niche_variants.start());
                                    let e = vidx(*niche_variants.end());
                                    let rel = tagv.wrapping_sub(*niche_start) & mask;
                                    if !has_ptr && rel <= (e - s) as u128 {
                                        s + rel as usize
                                    } else {
                                        vidx(*untagged_variant)
                                    }
                                }
                            };
                            (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                        }
                    };
                    let v = &def.variants()[vi];
                    let fs = v.fields();
                    CVal::Enum(vi as u32, fs.iter().zip(offs).map(|(f, o)| self.decode(a, off + o, f.ty_with_args(&args), depth + 1)).collect())
                }
                RigidTy::Ref(_, p, _) | RigidTy::RawPtr(p, _) => self.decode_ptr(a, off, p, depth),
                RigidTy::FnPtr(_) => {
                    for (o, p) in &a.provenance.ptrs {
                        if *o == off {
                            if let GlobalAlloc::Function(i) = GlobalAlloc::from(p.0) {
                                return CVal::Fn(self.instance(i, ""));
                            }
                        }
                    }
                    CVal::Opaque("fnptr".into())
                }
                RigidTy::FnDef(..) => CVal::Zst(),
                RigidTy::Closure(_, args) => {
                    let ts = match args.0.last() {
                        Some(GenericArgKind::Type(t)) => match t.kind() {
                            TyKind::RigidTy(RigidTy::Tuple(v)) => v.clone(),
                            _ => vec![],
                        },
                        _ => vec![],
                    };
                    let offs = field_offsets(&shape.fields, ts.len());
                    CVal::Agg(ts.iter().zip(offs).map(|(t, o)| self.decode(a, off + o, *t, depth + 1)).collect())
                }
                _ => CVal::Opaque(format!("{}", t)),
            },
            _ => CVal::Opaque(format!("{}", t)),
        }
    }

    fn decode_elems(&mut self, a: &Allocation, off: usize, e: Ty, n: usize, depth: usize) -> ir::CVal {
        let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
        if matches!(e.kind(), TyKind::RigidTy(RigidTy::Uint(rustc_public::ty::UintTy::U8))) {
            let b: Option<Vec<u8>> = (0..n).map(|k| a.bytes.get(off + k).copied().flatten()).collect();
            if let Some(b) = b {
                return ir::CVal::Bytes(b);
            }
        }
        if n > 1 << 16 {
            return ir::CVal::Opaque("big array".into());
        }
        ir::CVal::Agg((0..n).map(|k| self.decode(a, off + k * es, e, depth + 1)).collect())
    }

    fn decode_ptr(&mut self, a: &Allocation, off: usize, p: Ty, depth: usize) -> ir::CVal {
        use ir::CVal;
        let mut target = None;
        for (o, pr) in &a.provenance.ptrs {
            if *o == off {
                target = Some(pr.0);
            }
        }
        let mut addr = 0usize;
        let mut meta = 0usize;
        for k in 0..8 {
            if let Some(Some(b)) = a.bytes.get(off + k) {
                addr |= (*b as usize) << (8 * k);
            }
            if let Some(Some(b)) = a.bytes.get(off + 8 + k) {
                meta |= (*b as usize) << (8 * k);
            }
        }
        let Some(target) = target else {
            // dangling pointer to a zero-sized value
            return match p.kind() {
                TyKind::RigidTy(RigidTy::Str) => CVal::Ref(Box::new(CVal::Bytes(vec![]))),
                TyKind::RigidTy(RigidTy::Slice(_)) => CVal::Ref(Box::new(CVal::Agg(vec![]))),
                _ => {
                    let empty = Allocation { bytes: vec![], provenance: rustc_public::ty::ProvenanceMap { ptrs: vec![] }, align: 1, mutability: mir::Mutability::Not };
                    CVal::Ref(Box::new(self.decode(&empty, 0, p, depth + 1)))
                }
            };
        };
        match GlobalAlloc::from(target) {
            GlobalAlloc::Memory(m) => {
                let v = match p.kind() {
                    TyKind::RigidTy(RigidTy::Str) => {
                        let b: Option<Vec<u8>> = (0..meta).map(|k| m.bytes.get(addr + k).copied().flatten()).collect();
                        match b {
                            Some(b) => CVal::Bytes(b),
                            None => CVal::Opaque("str".into()),
                        }
                    }
                    TyKind::RigidTy(RigidTy::Slice(e)) => self.decode_elems(&m, addr, e, meta, depth + 1),
                    _ => self.decode(&m, addr, p, depth + 1),
                };
                CVal::Ref(Box::new(v))
            }
            GlobalAlloc::Static(s) => CVal::Static(self.static_item(s)),
            GlobalAlloc::Function(i) => CVal::Fn(self.instance(i, "")),
            _ => CVal::Opaque("ptr".into()),
        }
    }

    fn konst(&mut self, c: &rustc_public::ty::MirConst) -> ir::CVal {
        match c.kind() {
            ConstantKind::ZeroSized => {
                let empty = Allocation { bytes: vec![], provenance: rustc_public::ty::ProvenanceMap { ptrs: vec![] }, align: 1, mutability: mir::Mutability::Not };
                self.decode(&empty, 0, c.ty(), 0)
            }
            ConstantKind::Allocated(a) => self.decode(a, 0, c.ty(), 0),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.decode(a, 0, *t, 0),
                TyConstKind::ZSTValue(_) => ir::CVal::Zst(),
                o => ir::CVal::Opaque(format!("{:?}", o)),
            },
            o => ir::CVal::Opaque(format!("{:?}", o)),
        }
    }

    fn place(&mut self, p: &mir::Place) -> ir::Place {
        ir::Place {
            local: p.local as u32,
            proj: p
                .projection
                .iter()
                .map(|e| match e {
                    mir::ProjectionElem::Deref => ir::Proj::Deref(),
                    mir::ProjectionElem::Field(i, t) => ir::Proj::Field(*i as u32, self.ty(*t)),
                    mir::ProjectionElem::Index(l) => ir::Proj::Index(*l as u32),
                    mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => ir::Proj::ConstIndex(*offset, *min_length, *from_end),
                    mir::ProjectionElem::Subslice { from, to, from_end } => ir::Proj::Subslice(*from, *to, *from_end),
                    mir::ProjectionElem::Downcast(v) => ir::Proj::Downcast(vidx(*v) as u32),
                    mir::ProjectionElem::OpaqueCast(t) => ir::Proj::Cast(self.ty(*t)),
                })
                .collect(),
        }
    }

    fn operand(&mut self, o: &mir::Operand) -> ir::Operand {
        match o {
            mir::Operand::Copy(p) => ir::Operand::Copy(self.place(p)),
            mir::Operand::Move(p) => ir::Operand::Move(self.place(p)),
            mir::Operand::Constant(c) => {
                let t = self.ty(c.const_.ty());
                ir::Operand::Const(self.konst(&c.const_), t)
            }
            mir::Operand::RuntimeChecks(k) => ir::Operand::RtCheck(match k {
                mir::RuntimeChecks::UbChecks => 0,
                mir::RuntimeChecks::ContractChecks => 1,
                mir::RuntimeChecks::OverflowChecks => 2,
            }),
        }
    }

    fn rvalue(&mut self, r: &mir::Rvalue) -> ir::Rvalue {
        use mir::Rvalue as R;
        match r {
            R::Use(o, _) => ir::Rvalue::Use(self.operand(o)),
            R::CopyForDeref(p) => ir::Rvalue::Use(ir::Operand::Copy(self.place(p))),
            R::Reborrow(_, _, p) => ir::Rvalue::Use(ir::Operand::Copy(self.place(p))),
            R::Repeat(o, n) => ir::Rvalue::Repeat(self.operand(o), n.eval_target_usize().unwrap_or(u64::MAX)),
            R::Ref(_, k, p) => ir::Rvalue::Ref(matches!(k, mir::BorrowKind::Mut { .. }), self.place(p)),
            R::AddressOf(_, p) => ir::Rvalue::AddrOf(self.place(p)),
            R::Len(p) => ir::Rvalue::Len(self.place(p)),
            R::Cast(mir::CastKind::PointerCoercion(mir::PointerCoercion::ClosureFnPointer(_)), o, t) => {
                let f = match o.ty(&self.local_tys).map(|t| t.kind()) {
                    Ok(TyKind::RigidTy(RigidTy::Closure(d, args))) => Instance::resolve_closure(d, &args, rustc_public::ty::ClosureKind::Fn).ok(),
                    _ => None,
                };
                let t = self.ty(*t);
                match f {
                    Some(i) => {
                        let id = self.instance(i, "");
                        ir::Rvalue::Use(ir::Operand::Const(ir::CVal::Fn(id), t))
                    }
                    None => ir::Rvalue::Cast("closure to function pointer".into(), self.operand(o), t),
                }
            }
            R::Cast(k, o, t) => ir::Rvalue::Cast(format!("{:?}", k), self.operand(o), self.ty(*t)),
            R::BinaryOp(op, a, b) => ir::Rvalue::Bin(format!("{:?}", op), self.operand(a), self.operand(b)),
            R::CheckedBinaryOp(op, a, b) => ir::Rvalue::CheckedBin(format!("{:?}", op), self.operand(a), self.operand(b)),
            R::UnaryOp(op, a) => ir::Rvalue::Un(format!("{:?}", op), self.operand(a)),
            R::Discriminant(p) => ir::Rvalue::Discr(self.place(p)),
            R::Aggregate(k, ops) => {
                let ops: Vec<_> = ops.iter().map(|o| self.operand(o)).collect();
                let k = match k {
                    mir::AggregateKind::Array(t) => ir::Agg::Array(self.ty(*t)),
                    mir::AggregateKind::Tuple => ir::Agg::Tuple(),
                    mir::AggregateKind::Adt(d, v, args, _, uf) => {
                        let t = self.ty(d.ty_with_args(args));
                        ir::Agg::Adt(t, vidx(*v) as u32, uf.map(|x| x as u32))
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        let t = self.ty(Ty::new_closure(*d, args.clone()));
                        ir::Agg::Closure(t)
                    }
                    mir::AggregateKind::RawPtr(t, _) => ir::Agg::RawPtr(self.ty(*t)),
                    o => ir::Agg::Other(format!("{:?}", o)),
                };
                ir::Rvalue::Aggregate(k, ops)
            }
            R::ThreadLocalRef(_) => ir::Rvalue::Other("thread_local".into()),
        }
    }

    fn body(&mut self, b: &mir::Body) -> ir::Body {
        let locals: Vec<u32> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        self.local_tys = b.locals().to_vec();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut stmts = vec![];
            for s in &bb.statements {
                use mir::StatementKind as S;
                let st = match &s.kind {
                    S::Assign(p, r) => {
                        let sp = self.span(s.source_info.span);
                        ir::Stmt::Assign(self.place(p), self.rvalue(r), sp)
                    }
                    S::SetDiscriminant { place, variant_index } => ir::Stmt::SetDiscr(self.place(place), vidx(*variant_index) as u32),
                    S::StorageLive(l) => ir::Stmt::Live(*l as u32),
                    S::StorageDead(l) => ir::Stmt::Dead(*l as u32),
                    S::Intrinsic(mir::NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        ir::Stmt::CopyNonOverlapping(self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count))
                    }
                    _ => continue,
                };
                stmts.push(st);
            }
            use mir::TerminatorKind as K;
            let sp = self.span(bb.terminator.source_info.span);
            let term = match &bb.terminator.kind {
                K::Goto { target } => ir::Term::Goto(*target as u32),
                K::SwitchInt { discr, targets } => {
                    let t = discr.ty(b.locals()).map(|t| self.ty(t)).unwrap_or(0);
                    ir::Term::Switch(self.operand(discr), t, targets.branches().map(|(v, b)| (v, b as u32)).collect(), targets.otherwise() as u32)
                }
                K::Return => ir::Term::Return(),
                K::Unreachable => ir::Term::Unreachable(),
                K::Resume => ir::Term::Abort("resume".into()),
                K::Abort => ir::Term::Abort("abort".into()),
                K::Drop { place, target, .. } => {
                    let pty = place.ty(b.locals());
                    let t = match pty {
                        Ok(pt) => {
                            let id = self.ty(pt);
                            if self.drop_seen.insert(id, ()).is_none() {
                                let di = Instance::resolve_drop_in_place(pt);
                                if !di.is_empty_shim() {
                                    let f = self.instance(di, "");
                                    self.drops.push((id, f));
                                }
                            }
                            id
                        }
                        _ => 0,
                    };
                    ir::Term::Drop(self.place(place), t, *target as u32)
                }
                K::Call { func, args, destination, target, .. } => {
                    let mut f = None;
                    if let Ok(t) = func.ty(b.locals()) {
                        if let TyKind::RigidTy(RigidTy::FnDef(d, ga)) = t.kind() {
                            f = self.callee(d, &ga).map(ir::Callee::Func);
                        }
                    }
                    let f = match f {
                        Some(f) => f,
                        None => ir::Callee::Op(self.operand(func)),
                    };
                    let args = args.iter().map(|a| self.operand(a)).collect();
                    ir::Term::Call(f, args, self.place(destination), target.map(|t| t as u32), sp)
                }
                K::Assert { cond, expected, msg, target, .. } => {
                    let m = msg.description().map(|s| s.to_string()).unwrap_or_default();
                    ir::Term::Assert(self.operand(cond), *expected, m, *target as u32, sp)
                }
                K::InlineAsm { .. } => ir::Term::Abort("asm".into()),
            };
            blocks.push(ir::Block { stmts, term });
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push((p.local as u32, v.name.to_string()));
                }
            }
        }
        ir::Body { argc: b.arg_locals().len() as u32, locals, names, spread: b.spread_arg().map(|x| x as u32), blocks }
    }
}

fn vidx(v: rustc_public::ty::VariantIdx) -> usize {
    use rustc_public_bridge::IndexedVal;
    v.to_index()
}

fn scalar_size(s: &rustc_public::abi::Scalar) -> usize {
    let p = match s {
        rustc_public::abi::Scalar::Initialized { value, .. } => value,
        rustc_public::abi::Scalar::Union { value } => value,
    };
    p.size(&rustc_public::target::MachineInfo::target()).bytes()
}

fn field_offsets(f: &FieldsShape, n: usize) -> Vec<usize> {
    match f {
        FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
        FieldsShape::Array { stride, count } => (0..*count as usize).map(|i| i * stride.bytes()).collect(),
        _ => vec![0; n],
    }
}

fn extract(out: String) -> ControlFlow<()> {
    let mut cx = Cx::default();
    let krate = rustc_public::local_crate();
    let defs = krate.fn_defs();
    for d in &defs {
        let n = d.name().to_string();
        let short = n.strip_prefix("harness::").unwrap_or(&n).to_string();
        if let Some(m) = short.strip_prefix("models::") {
            cx.models.insert(m.to_string(), *d);
        }
    }
    let unit = cx.ty(Ty::new_tuple(&[]));
    let mut roots = vec![];
    for d in &defs {
        let n = d.name().to_string();
        let short = n.rsplit("::").next().unwrap_or("").to_string();
        if short.starts_with("prop_") {
            if let Ok(i) = Instance::resolve(*d, &GenericArgs(vec![])) {
                let id = cx.instance(i, "");
                roots.push((short, id));
            }
        }
    }
    let mut done = 0;
    while let Some((inst, id)) = cx.queue.pop() {
        done += 1;
        // a function the compiler interface cannot lower stays without a body instead of ending the run
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let ga = cx.gargs(&inst.args());
        let sp = cx.span(inst.def.span());
        let t = inst.ty();
        let (mut inputs, mut output, mut is_closure, mut is_unsafe) = (vec![], unit, false, false);
        match t.kind() {
            TyKind::RigidTy(RigidTy::FnDef(..)) | TyKind::RigidTy(RigidTy::FnPtr(..)) => {}
            TyKind::RigidTy(RigidTy::Closure(..)) => is_closure = true,
            _ => {}
        }
        if let Some(sig) = t.kind().fn_sig() {
            let sig = sig.skip_binder();
            is_unsafe = format!("{:?}", sig.safety).contains("Unsafe");
        }
        let lowered = if inst.has_body() && !matches!(inst.kind, InstanceKind::Intrinsic | InstanceKind::Virtual { .. }) {
            inst.body().map(|b| {
                inputs = b.arg_locals().iter().map(|l| cx.ty(l.ty)).collect();
                output = cx.ty(b.ret_local().ty);
                cx.body(&b)
            })
        } else {
            if let Ok(abi) = inst.fn_abi() {
                inputs = abi.args.iter().map(|a| cx.ty(a.ty)).collect();
                output = cx.ty(abi.ret.ty);
            }
            None
        };
        let f = &mut cx.funcs[id as usize];
        f.gargs = ga;
        f.span = sp;
        f.inputs = inputs;
        f.output = output;
        f.is_closure = is_closure;
        f.is_unsafe = is_unsafe;
        f.body = lowered;
        }));
        if r.is_err() {
            eprintln!("mirdump: not lowered: {}", inst.def.name());
        }
    }
    let p = ir::Program {
        files: cx.files,
        spans: cx.spans,
        types: cx.types,
        type_names: cx.type_names,
        funcs: cx.funcs,
        statics: cx.statics,
        roots,
        drops: cx.drops,
    };
    let mut o = vec![];
    p.enc(&mut o);
    std::fs::write(&out, &o).unwrap();
    eprintln!("mirdump: {} instances, {} types, {} roots, {} bytes", done, p.types.len(), p.roots.len(), o.len());
    ControlFlow::Continue(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    // invoked as RUSTC_WRAPPER: argv = [driver, rustc, args...]
    let rest: Vec<String> = args[1..].to_vec();
    let is_harness = rest.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "harness");
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    if !is_harness || out.is_empty() {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(&rest[0]).args(&rest[1..]).exec();
        panic!("exec: {e}");
    }
    let r = run!(&rest, move || extract(out));
    if let Err(e) = r {
        eprintln!("mirdump: {:?}", e);
        std::process::exit(1);
    }
}

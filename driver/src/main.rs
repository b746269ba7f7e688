//! MIR fact extractor: a rustc driver that dumps, for the crates named in MIRFACTS_CRATES, the
//! monomorphic MIR of every function reachable from them (and the generic MIR of the generic ones)
//! as JSON. It decides nothing; the analysers in ../vlib read its output.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;
extern crate serde_json;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::crate_def::CrateDef;
use rustc_public::crate_def::CrateDefType;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::ItemKind;
use rustc_public_bridge::IndexedVal;
use serde_json::{json, Map, Value};
use std::collections::{HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

struct Ctx {
    prefixes: Vec<String>,
    types: Vec<Value>,
    tyids: HashMap<Ty, usize>,
    queue: VecDeque<Instance>,
    seen: HashSet<String>,
    bodies: Vec<Value>,
    files: HashMap<String, usize>,
    file_list: Vec<String>,
}

fn ints(v: u128) -> Value {
    if v <= u64::MAX as u128 {
        json!(v as u64)
    } else {
        json!(v.to_string())
    }
}
fn intv(v: i128) -> Value {
    if v >= i64::MIN as i128 && v <= i64::MAX as i128 {
        json!(v as i64)
    } else {
        json!(v.to_string())
    }
}

fn has_param(t: Ty) -> bool {
    match t.kind() {
        TyKind::Param(_) | TyKind::Alias(..) | TyKind::Bound(..) => true,
        TyKind::RigidTy(r) => match r {
            RigidTy::Adt(_, a) | RigidTy::FnDef(_, a) | RigidTy::Closure(_, a) => args_param(&a),
            RigidTy::Array(t, c) => has_param(t) || c.eval_target_usize().is_err(),
            RigidTy::Slice(t) | RigidTy::RawPtr(t, _) | RigidTy::Ref(_, t, _) => has_param(t),
            RigidTy::Tuple(ts) => ts.iter().any(|t| has_param(*t)),
            RigidTy::FnPtr(sig) => sig.skip_binder().inputs_and_output.iter().any(|t| has_param(*t)),
            RigidTy::Dynamic(ps, _) => ps.iter().any(|p| match p.clone().skip_binder() {
                ExistentialPredicate::Trait(t) => args_param(&t.generic_args),
                ExistentialPredicate::Projection(p) => args_param(&p.generic_args),
                _ => false,
            }),
            _ => false,
        },
    }
}
fn args_param(a: &GenericArgs) -> bool {
    a.0.iter().any(|x| match x {
        GenericArgKind::Type(t) => has_param(*t),
        GenericArgKind::Const(c) => c.eval_target_usize().is_err(),
        _ => false,
    })
}

impl Ctx {

    fn file(&mut self, f: String) -> usize {
        if let Some(i) = self.files.get(&f) {
            return *i;
        }
        let i = self.file_list.len();
        self.file_list.push(f.clone());
        self.files.insert(f, i);
        i
    }

    fn span(&mut self, s: &Span) -> Value {
        let f = self.file(s.get_filename());
        let l = s.get_lines();
        json!([f, l.start_line, l.end_line])
    }

    fn args(&mut self, a: &GenericArgs) -> Vec<Value> {
        let mut out = vec![];
        for x in a.0.iter() {
            match x {
                GenericArgKind::Type(t) => out.push(json!(self.ty(*t))),
                GenericArgKind::Const(c) => match c.eval_target_usize() {
                    Ok(v) => out.push(json!({"const": v})),
                    Err(_) => out.push(json!({"const": format!("{:?}", c)})),
                },
                GenericArgKind::Lifetime(_) => {}
            }
        }
        out
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tyids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(Value::Null);
        self.tyids.insert(t, id);
        let s = format!("{}", t);
        let mut m = Map::new();
        m.insert("s".into(), json!(s));
        let k = t.kind();
        match &k {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => { m.insert("k".into(), json!("bool")); }
                RigidTy::Char => { m.insert("k".into(), json!("char")); }
                RigidTy::Int(i) => {
                    m.insert("k".into(), json!("int"));
                    m.insert("bytes".into(), json!(i.num_bytes()));
                    m.insert("sz".into(), json!(matches!(i, IntTy::Isize)));
                }
                RigidTy::Uint(i) => {
                    m.insert("k".into(), json!("uint"));
                    m.insert("bytes".into(), json!(i.num_bytes()));
                    m.insert("sz".into(), json!(matches!(i, UintTy::Usize)));
                }
                RigidTy::Float(f) => {
                    m.insert("k".into(), json!("float"));
                    m.insert("bytes".into(), json!(match f { FloatTy::F16 => 2, FloatTy::F32 => 4, FloatTy::F64 => 8, FloatTy::F128 => 16 }));
                }
                RigidTy::Adt(def, args) => {
                    m.insert("k".into(), json!("adt"));
                    m.insert("name".into(), json!(def.name().to_string()));
                    let a = self.args(args);
                    m.insert("args".into(), json!(a));
                    m.insert("kind".into(), json!(format!("{:?}", def.kind())));
                    let mut vs = vec![];
                    let mono = true; let pa = args_param(args);
                    if mono {
                        for v in def.variants() {
                            let fields: Vec<Value> = v.fields().iter().map(|f| {
                                if pa { return json!([f.name.to_string(), null]); }
                                let fty = f.ty_with_args(args);
                                json!([f.name.to_string(), self.ty(fty)])
                            }).collect();
                            let d = if matches!(def.kind(), AdtKind::Enum) { def.discriminant_for_variant(v.idx()).val } else { 0 };
                            vs.push(json!({"name": v.name().to_string(), "fields": fields, "discr": ints(d)}));
                        }
                    }
                    m.insert("variants".into(), json!(vs));
                    let sp = def.span();
                    let sp = self.span(&sp);
                    m.insert("span".into(), sp);
                }
                RigidTy::Str => { m.insert("k".into(), json!("str")); }
                RigidTy::Array(t2, c) => {
                    m.insert("k".into(), json!("array"));
                    m.insert("ty".into(), json!(self.ty(*t2)));
                    m.insert("len".into(), c.eval_target_usize().map(|v| json!(v)).unwrap_or(Value::Null));
                }
                RigidTy::Slice(t2) => {
                    m.insert("k".into(), json!("slice"));
                    m.insert("ty".into(), json!(self.ty(*t2)));
                }
                RigidTy::RawPtr(t2, _) => {
                    m.insert("k".into(), json!("ptr"));
                    m.insert("ty".into(), json!(self.ty(*t2)));
                }
                RigidTy::Ref(_, t2, mu) => {
                    m.insert("k".into(), json!("ref"));
                    m.insert("ty".into(), json!(self.ty(*t2)));
                    m.insert("mut".into(), json!(matches!(mu, Mutability::Mut)));
                }
                RigidTy::FnDef(def, args) => {
                    m.insert("k".into(), json!("fndef"));
                    m.insert("name".into(), json!(def.name().to_string()));
                    let a = self.args(args);
                    m.insert("args".into(), json!(a));
                    if let (false, Ok(inst)) = (args_param(args), if args_param(args) { Err(()) } else { Instance::resolve(*def, args).map_err(|_| ()) }) {
                        let v = self.inst_ref(&inst);
                        m.insert("inst".into(), v);
                    }
                }
                RigidTy::FnPtr(sig) => {
                    m.insert("k".into(), json!("fnptr"));
                    let o = sig.clone().skip_binder().output();
                    m.insert("out".into(), json!(self.ty(o)));
                }
                RigidTy::Closure(def, args) => {
                    m.insert("k".into(), json!("closure"));
                    m.insert("name".into(), json!(def.name().to_string()));
                    if args_param(args) {} else if let Ok(inst) = Instance::resolve_closure(*def, args, ClosureKind::FnOnce) {
                        // the FnOnce instance may be a shim; record the def body through FnMut/Fn
                        let mut best = inst;
                        for kind in [ClosureKind::Fn, ClosureKind::FnMut] {
                            if let Ok(i2) = Instance::resolve_closure(*def, args, kind) {
                                if i2.kind == InstanceKind::Item { best = i2; break; }
                            }
                        }
                        let v = self.inst_ref(&best);
                        m.insert("inst".into(), v);
                    }
                }
                RigidTy::Dynamic(preds, _) => {
                    m.insert("k".into(), json!("dyn"));
                    let mut tr = vec![];
                    for p in preds {
                        match p.clone().skip_binder() {
                            ExistentialPredicate::Trait(t) => tr.push(t.def_id.name().to_string()),
                            _ => {}
                        }
                    }
                    m.insert("traits".into(), json!(tr));
                }
                RigidTy::Never => { m.insert("k".into(), json!("never")); }
                RigidTy::Tuple(ts) => {
                    m.insert("k".into(), json!("tuple"));
                    let v: Vec<Value> = ts.iter().map(|t| json!(self.ty(*t))).collect();
                    m.insert("tys".into(), json!(v));
                }
                _ => { m.insert("k".into(), json!("other")); }
            },
            TyKind::Param(p) => {
                m.insert("k".into(), json!("param"));
                m.insert("name".into(), json!(p.name));
            }
            TyKind::Alias(..) => { m.insert("k".into(), json!("alias")); }
            _ => { m.insert("k".into(), json!("other")); }
        }
        self.types[id] = Value::Object(m);
        id
    }

    fn inst_ref(&mut self, i: &Instance) -> Value {
        let name = i.name().to_string();
        let def = i.def.name().to_string();
        let kind = match i.kind {
            InstanceKind::Item => "item".to_string(),
            InstanceKind::Intrinsic => "intrinsic".to_string(),
            InstanceKind::LlvmIntrinsic => "intrinsic".to_string(),
            InstanceKind::Virtual { .. } => "virtual".to_string(),
            InstanceKind::Shim => "shim".to_string(),
        };
        let a = self.args(&i.args());
        let kn = i.def.krate().name.to_string();
        let local = self.prefixes.iter().any(|p| p.trim_end_matches("::") == kn);
        let mut id = Value::Null;
        if local && i.kind == InstanceKind::Item {
            let mn = i.mangled_name().to_string();
            id = json!(mn);
            if self.seen.insert(mn) {
                self.queue.push_back(*i);
            }
        }
        let mut r = json!({"name": name, "def": def, "kind": kind, "args": a, "id": id, "krate": kn});
        // a provided method outside the workspace that forwards to a method of a workspace impl: `Into` to `From`,
        // `<` to `partial_cmp`, `from_i32` to `from_i64`
        if !local && i.kind == InstanceKind::Item && (name.contains("std::convert::Into<") || name.contains("std::cmp::PartialOrd") || name.contains("num_traits::")) {
            if let Some(b) = i.body() {
                for bl in &b.blocks {
                    if let TerminatorKind::Call { func, .. } = &bl.terminator.kind {
                        if let Ok(ft) = func.ty(b.locals()) {
                            if let TyKind::RigidTy(RigidTy::FnDef(d, ga)) = ft.kind() {
                                if let Ok(j) = Instance::resolve(d, &ga) {
                                    if self.prefixes.iter().any(|p| p.trim_end_matches("::") == j.def.krate().name.to_string()) {
                                        r["inner"] = self.inst_ref(&j);
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        r
    }

    // ---- constants
    fn decode(&mut self, t: Ty, al: &Allocation, off: usize, depth: usize) -> Value {
        if has_param(t) { return json!({"opaque": "param"}); }
        if depth > 6 { return json!({"opaque": "depth"}); }
        let layout = match t.layout() { Ok(l) => l.shape(), Err(_) => return json!({"opaque": "layout"}) };
        let size = layout.size.bytes();
        let k = t.kind();
        let uint = |off: usize, n: usize| -> Option<u128> { al.read_partial_uint(off..off + n).ok() };
        match k {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => uint(off, 1).map(|v| json!({"int": (v as u64)})).unwrap_or(Value::Null),
                RigidTy::Char => uint(off, 4).map(|v| json!({"int": (v as u64), "char": true})).unwrap_or(Value::Null),
                RigidTy::Int(_) => uint(off, size).map(|v| {
                    let sh = 128 - size * 8;
                    json!({"int": intv(((v << sh) as i128) >> sh)})
                }).unwrap_or(Value::Null),
                RigidTy::Uint(_) => uint(off, size).map(|v| json!({"int": ints(v)})).unwrap_or(Value::Null),
                RigidTy::Float(_) => uint(off, size).map(|v| {
                    let f = if size == 4 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) };
                    json!({"float": format!("{}", f)})
                }).unwrap_or(Value::Null),
                RigidTy::Tuple(ts) => {
                    let offs = match &layout.fields { FieldsShape::Arbitrary { offsets } => offsets.clone(), _ => vec![] };
                    let mut v = vec![];
                    for (i, x) in ts.iter().enumerate() {
                        let o = offs.get(i).map(|o| o.bytes()).unwrap_or(0);
                        v.push(self.decode(*x, al, off + o, depth + 1));
                    }
                    json!({"tuple": v})
                }
                RigidTy::Array(et, _) => {
                    if let FieldsShape::Array { stride, count } = &layout.fields {
                        let st = stride.bytes();
                        if *count > 4096 { return json!({"opaque": "bigarray"}); }
                        let mut v = vec![];
                        for i in 0..*count { v.push(self.decode(et, al, off + i as usize * st, depth + 1)); }
                        json!({"array": v})
                    } else { json!({"opaque": "array"}) }
                }
                RigidTy::Adt(def, args) => {
                    let dec_variant = |this: &mut Self, vi: usize, offs: Vec<usize>| -> Value {
                        let v = &def.variants()[vi];
                        let mut fs = vec![];
                        for (i, f) in v.fields().iter().enumerate() {
                            let ft = f.ty_with_args(&args);
                            let o = offs.get(i).copied().unwrap_or(0);
                            fs.push(this.decode(ft, al, off + o, depth + 1));
                        }
                        json!({"adt": def.name().to_string(), "variant": vi, "fields": fs})
                    };
                    match &layout.variants {
                        VariantsShape::Single { index } => {
                            let offs = match &layout.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![] };
                            if matches!(def.kind(), AdtKind::Union) { return json!({"opaque": "union"}); }
                            dec_variant(self, index.to_index(), offs)
                        }
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let toff = match &layout.fields { FieldsShape::Arbitrary { offsets } => offsets.get(*tag_field).map(|o| o.bytes()).unwrap_or(0), _ => 0 };
                            let prim = match tag { rustc_public::abi::Scalar::Initialized { value, .. } => *value, rustc_public::abi::Scalar::Union { value } => *value };
                            let tsz = prim.size(&rustc_public::target::MachineInfo::target()).bytes();
                            let has_prov = al.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                            let tagv = if has_prov { None } else { uint(off + toff, tsz) };
                            let vi = match tag_encoding {
                                TagEncoding::Direct => {
                                    let tv = match tagv { Some(v) => v, None => return json!({"opaque": "tag"}) };
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    def.variants().iter().position(|v| def.discriminant_for_variant(v.idx()).val & mask == tv)
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    match tagv {
                                        None => Some(untagged_variant.to_index()),
                                        Some(tv) => {
                                            let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                            let rel = tv.wrapping_sub(*niche_start) & mask;
                                            let s = niche_variants.start().to_index();
                                            let e = niche_variants.end().to_index();
                                            if rel <= (e - s) as u128 { Some(s + rel as usize) } else { Some(untagged_variant.to_index()) }
                                        }
                                    }
                                }
                            };
                            match vi {
                                Some(vi) => {
                                    let offs = variants[vi].offsets.iter().map(|o| o.bytes()).collect();
                                    dec_variant(self, vi, offs)
                                }
                                None => json!({"opaque": "variant"}),
                            }
                        }
                        _ => json!({"opaque": "empty"}),
                    }
                }
                RigidTy::Ref(_, pt, _) | RigidTy::RawPtr(pt, _) => {
                    let prov = al.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                    let base = uint(off, 8).unwrap_or(0) as usize;
                    match prov {
                        None => json!({"opaque": "ptr"}),
                        Some(aid) => match GlobalAlloc::from(aid) {
                            GlobalAlloc::Memory(m) => {
                                match pt.kind() {
                                    TyKind::RigidTy(RigidTy::Str) => {
                                        let n = uint(off + 8, 8).unwrap_or(0) as usize;
                                        let b: Option<Vec<u8>> = m.bytes[base..base + n].iter().copied().collect();
                                        json!({"str": String::from_utf8_lossy(&b.unwrap_or_default()).to_string()})
                                    }
                                    TyKind::RigidTy(RigidTy::Slice(et)) => {
                                        let n = uint(off + 8, 8).unwrap_or(0) as usize;
                                        let st = et.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                                        if n > 4096 { return json!({"opaque": "bigslice"}); }
                                        let mut v = vec![];
                                        for i in 0..n { v.push(self.decode(et, &m, base + i * st, depth + 1)); }
                                        json!({"ref": {"array": v}})
                                    }
                                    _ => { let d = self.decode(pt, &m, base, depth + 1); json!({"ref": d}) }
                                }
                            }
                            GlobalAlloc::Static(s) => json!({"static": s.name().to_string()}),
                            GlobalAlloc::Function(i) => { let v = self.inst_ref(&i); json!({"fn": v}) }
                            GlobalAlloc::VTable(..) => json!({"opaque": "vtable"}),
                            _ => json!({"opaque": "alloc"}),
                        },
                    }
                }
                RigidTy::FnPtr(_) => {
                    let prov = al.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                    match prov.map(GlobalAlloc::from) {
                        Some(GlobalAlloc::Function(i)) => { let v = self.inst_ref(&i); json!({"fn": v}) }
                        _ => json!({"opaque": "fnptr"}),
                    }
                }
                RigidTy::FnDef(..) | RigidTy::Closure(..) => { let i = self.ty(t); json!({"zst": i}) }
                _ => json!({"opaque": "kind"}),
            },
            _ => json!({"opaque": "ty"}),
        }
    }

    fn konst(&mut self, c: &MirConst) -> Value {
        let t = c.ty();
        let tid = self.ty(t);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.decode(t, a, 0, 0),
            ConstantKind::ZeroSized => json!({"zst": tid}),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() { Ok(v) => json!({"int": v}), Err(_) => json!({"opaque": format!("{:?}", tc)}) },
            ConstantKind::Unevaluated(u) => {
                json!({"uneval": u.def.name().to_string(), "promoted": u.promoted.is_some()})
            }
            ConstantKind::Param(p) => json!({"param": p.name}),
        };
        json!({"ty": tid, "v": v})
    }

    fn place(&mut self, p: &Place, locals: &[LocalDecl]) -> Value {
        if p.projection.is_empty() { return json!([p.local]); }
        let mut out = vec![json!(p.local)];
        let mut cur = locals[p.local].ty;
        let mut variant: Option<VariantIdx> = None;
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => {
                    out.push(json!("*"));
                }
                ProjectionElem::Field(i, fty) => {
                    let name = match cur.kind() {
                        TyKind::RigidTy(RigidTy::Adt(def, _)) => {
                            let v = variant.unwrap_or(VariantIdx::to_val(0));
                            def.variant(v).and_then(|v| v.fields().get(*i).map(|f| f.name.to_string())).unwrap_or(i.to_string())
                        }
                        _ => i.to_string(),
                    };
                    let owner = self.ty(cur);
                    out.push(json!(["f", i, name, owner, self.ty(*fty)]));
                }
                ProjectionElem::Index(l) => out.push(json!(["i", l])),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => out.push(json!(["c", offset, from_end])),
                ProjectionElem::Subslice { from, to, from_end } => out.push(json!(["s", from, to, from_end])),
                ProjectionElem::Downcast(v) => {
                    let name = match cur.kind() {
                        TyKind::RigidTy(RigidTy::Adt(def, _)) => def.variant(*v).map(|v| v.name().to_string()).unwrap_or_default(),
                        _ => String::new(),
                    };
                    out.push(json!(["d", v.to_index(), name]))
                }
                ProjectionElem::OpaqueCast(_) => out.push(json!("o")),
            }
            variant = if let ProjectionElem::Downcast(v) = e { Some(*v) } else { None };
            if let Ok(t) = e.ty(cur) { cur = t; }
        }
        json!(out)
    }

    fn operand(&mut self, o: &Operand, locals: &[LocalDecl]) -> Value {
        match o {
            Operand::Copy(p) => json!({"cp": self.place(p, locals)}),
            Operand::Move(p) => json!({"mv": self.place(p, locals)}),
            Operand::Constant(c) => json!({"c": self.konst(&c.const_)}),
            Operand::RuntimeChecks(r) => json!({"rc": format!("{:?}", r)}),
        }
    }

    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> Value {
        match r {
            Rvalue::AddressOf(_, p) => json!(["addr", self.place(p, locals)]),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<Value> = ops.iter().map(|x| self.operand(x, locals)).collect();
                match k {
                    AggregateKind::Array(t) => json!(["agg", "array", self.ty(*t), o]),
                    AggregateKind::Tuple => json!(["agg", "tuple", null, o]),
                    AggregateKind::Adt(def, v, args, _, _) => {
                        let t = def.ty_with_args(args);
                        json!(["agg", "adt", self.ty(t), o, v.to_index()])
                    }
                    AggregateKind::Closure(def, args) => {
                        let t = Ty::new_closure(*def, args.clone());
                        json!(["agg", "closure", self.ty(t), o])
                    }
                    _ => json!(["agg", "other", null, o]),
                }
            }
            Rvalue::BinaryOp(op, a, b) => json!(["bin", format!("{:?}", op), self.operand(a, locals), self.operand(b, locals)]),
            Rvalue::CheckedBinaryOp(op, a, b) => json!(["cbin", format!("{:?}", op), self.operand(a, locals), self.operand(b, locals)]),
            Rvalue::Cast(k, o, t) => json!(["cast", format!("{:?}", k), self.operand(o, locals), self.ty(*t)]),
            Rvalue::CopyForDeref(p) => json!(["use", {"cp": self.place(p, locals)}]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(locals).ok().map(|t| self.ty(t));
                json!(["discr", self.place(p, locals), t])
            }
            Rvalue::Len(p) => json!(["len", self.place(p, locals)]),
            Rvalue::Ref(_, bk, p) => json!(["ref", matches!(bk, BorrowKind::Mut{..}), self.place(p, locals)]),
            Rvalue::Reborrow(_, mu, p) => json!(["reborrow", matches!(mu, Mutability::Mut), self.place(p, locals)]),
            Rvalue::Repeat(o, c) => json!(["repeat", self.operand(o, locals), c.eval_target_usize().ok()]),
            Rvalue::ThreadLocalRef(c) => json!(["tls", c.name().to_string()]),
            Rvalue::UnaryOp(op, o) => json!(["un", format!("{:?}", op), self.operand(o, locals)]),
            Rvalue::Use(o, _) => json!(["use", self.operand(o, locals)]),
        }
    }

    fn body(&mut self, b: &Body, id: String, name: String, def: String, poly: bool, args: Vec<Value>, itemspan: Span, arg_list: Vec<Value>) -> Value {
        let locals = b.locals();
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upvars: Vec<Value> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local).or_insert(v.name.to_string());
                } else {
                    upvars.push(json!([v.name.to_string(), self.place(p, locals)]));
                }
            }
        }
        let l: Vec<Value> = locals.iter().enumerate().map(|(i, d)| json!([self.ty(d.ty), names.get(&i)])).collect();
        let mut blocks = vec![];
        for blk in &b.blocks {
            let mut st = vec![];
            for s in &blk.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let line = s.source_info.span.get_lines().start_line;
                        st.push(json!(["=", self.place(p, locals), self.rvalue(r, locals), line]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(json!(["sd", self.place(place, locals), variant_index.to_index()]));
                    }
                    StatementKind::Intrinsic(i) => st.push(json!(["intr", format!("{:?}", i)])),
                    _ => {}
                }
            }
            let sp = self.span(&blk.terminator.source_info.span);
            let t = match &blk.terminator.kind {
                TerminatorKind::Goto { target } => json!({"k": "goto", "t": target}),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<Value> = targets.branches().map(|(v, t)| json!([ints(v), t])).collect();
                    let dt = discr.ty(locals).ok().map(|t| self.ty(t));
                    json!({"k": "switch", "d": self.operand(discr, locals), "br": br, "o": targets.otherwise(), "ty": dt})
                }
                TerminatorKind::Resume => json!({"k": "resume"}),
                TerminatorKind::Abort => json!({"k": "abort"}),
                TerminatorKind::Return => json!({"k": "return"}),
                TerminatorKind::Unreachable => json!({"k": "unreachable"}),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(locals).ok().map(|t| self.ty(t));
                    json!({"k": "drop", "p": self.place(place, locals), "t": target, "ty": t})
                }
                TerminatorKind::Call { func, args, destination, target, unwind: _ } => {
                    let a: Vec<Value> = args.iter().map(|x| self.operand(x, locals)).collect();
                    let mut callee = Value::Null;
                    let mut unsafe_fn = false;
                    if let Ok(ft) = func.ty(locals) {
                        match ft.kind() {
                            TyKind::RigidTy(RigidTy::FnDef(d, ga)) => {
                                let sig = d.fn_sig().skip_binder();
                                unsafe_fn = matches!(sig.safety, Safety::Unsafe);
                                callee = if args_param(&ga) { Value::Null } else {
                                    match Instance::resolve(d, &ga) {
                                        Ok(i) => self.inst_ref(&i),
                                        Err(_) => Value::Null,
                                    }
                                };
                                if callee.is_null() {
                                    let x = self.args(&ga);
                                    callee = json!({"name": format!("{}", d.name()), "def": d.name().to_string(), "kind": "unresolved", "args": x, "id": null});
                                }
                                callee["decl"] = json!(d.name().to_string());
                                let x = self.args(&ga);
                                callee["dargs"] = json!(x);
                                if matches!(sig.safety, Safety::Unsafe) { callee["unsafe"] = json!(true); }
                            }
                            _ => {
                                callee = json!({"kind": "indirect", "op": self.operand(func, locals), "ty": self.ty(ft)});
                            }
                        }
                    }
                    let _ = unsafe_fn;
                    json!({"k": "call", "f": callee, "a": a, "d": self.place(destination, locals), "t": target})
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let mk = format!("{:?}", msg);
                    let mk = mk.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
                    let ops: Vec<Value> = match msg {
                        AssertMessage::BoundsCheck { len, index } => vec![self.operand(len, locals), self.operand(index, locals)],
                        AssertMessage::Overflow(op, a, b) => vec![json!(format!("{:?}", op)), self.operand(a, locals), self.operand(b, locals)],
                        _ => vec![],
                    };
                    json!({"k": "assert", "c": self.operand(cond, locals), "e": expected, "m": mk, "ops": ops, "t": target})
                }
                TerminatorKind::InlineAsm { .. } => json!({"k": "asm"}),
            };
            blocks.push(json!({"s": st, "t": t, "sp": sp}));
        }
        let bsp = self.span(&b.span);
        let isp = self.span(&itemspan);
        json!({"id": id, "name": name, "def": def, "poly": poly, "args": args, "argc": arg_list.len(), "nargs": b.arg_locals().len(),
               "spread": b.spread_arg(), "locals": l, "upvars": upvars, "blocks": blocks, "span": bsp, "ispan": isp})
    }
}

fn analyze(tcx: rustc_middle::ty::TyCtxt<'_>) -> ControlFlow<()> {
    let out = std::env::var("MIRFACTS_OUT").expect("MIRFACTS_OUT");
    let crates: Vec<String> = std::env::var("MIRFACTS_CRATES").unwrap_or_default().split(',').map(|s| s.trim().to_string()).collect();
    let krate = rustc_public::local_crate();
    let mut prefixes: Vec<String> = crates.iter().map(|c| format!("{}::", c)).collect();
    prefixes.push(format!("{}::", krate.name));
    let mut cx = Ctx {
        prefixes, types: vec![], tyids: HashMap::new(), queue: VecDeque::new(), seen: HashSet::new(),
        bodies: vec![], files: HashMap::new(), file_list: vec![],
    };
    let items = rustc_public::all_local_items();
    let mut inventory = vec![];
    let mut poly = vec![];
    let mut statics = vec![];
    for it in items {
        let kind = it.kind();
        let nm = it.name().to_string();
        let sp = it.span();
        let spv = cx.span(&sp);
        inventory.push(json!([nm, format!("{:?}", kind), it.requires_monomorphization(), spv]));
        if kind == ItemKind::Static {
            if let Some(b) = it.body() {
                let v = cx.body(&b, format!("static:{}", nm), nm.clone(), nm.clone(), false, vec![], sp, vec![]);
                statics.push(v);
            }
            continue;
        }
        if kind == ItemKind::Const {
            if let Some(b) = it.body() {
                let v = cx.body(&b, format!("const:{}", nm), nm.clone(), nm.clone(), false, vec![], sp, vec![]);
                statics.push(v);
            }
            continue;
        }
        if !matches!(kind, ItemKind::Fn) { continue; }
        if it.requires_monomorphization() {
            poly.push(it);
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            let mn = i.mangled_name().to_string();
            if cx.seen.insert(mn) { cx.queue.push_back(i); }
        }
    }
    for it in poly {
        let nm = it.name().to_string();
        if let Some(b) = it.body() {
            let sp = it.span();
            let al: Vec<Value> = b.arg_locals().iter().map(|_| Value::Null).collect();
            let v = cx.body(&b, format!("poly:{}", nm), nm.clone(), nm, true, vec![], sp, al);
            cx.bodies.push(v);
        }
    }
    while let Some(i) = cx.queue.pop_front() {
        let Some(b) = i.body() else { continue };
        let args = cx.args(&i.args());
        let al: Vec<Value> = b.arg_locals().iter().map(|_| Value::Null).collect();
        let sp = i.def.span();
        let v = cx.body(&b, i.mangled_name().to_string(), i.name().to_string(), i.def.name().to_string(), false, args, sp, al);
        cx.bodies.push(v);
    }
    let mut adts = vec![];
    for a in krate.adts() {
        let sp = a.span();
        let spv = cx.span(&sp);
        let t = a.ty();
        let tid = cx.ty(t);
        adts.push(json!([a.name().to_string(), tid, spv]));
    }
    let mut impls = vec![];
    for im in krate.trait_impls() {
        let ti = im.trait_impl();
        let tr = ti.value;
        let t = tr.self_ty();
        let methods: Vec<Value> = im.associated_items().iter().map(|a| json!(format!("{:?}", a.def_id))).collect();
        impls.push(json!({"trait": tr.def_id.name().to_string(), "self": cx.ty(t), "n": methods.len()}));
    }
    let _ = tcx;
    let v = json!({"crate": krate.name, "types": cx.types, "bodies": cx.bodies, "statics": statics, "files": cx.file_list,
                   "inventory": inventory, "adts": adts, "impls": impls});
    let path = format!("{}/{}.json", out, krate.name);
    let tmp = format!("{}.tmp{}", path, std::process::id());
    std::fs::write(&tmp, serde_json::to_vec(&v).unwrap()).unwrap();
    std::fs::rename(&tmp, &path).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as RUSTC_WRAPPER: argv[1] is the real rustc
    let wrapped = args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("rustc"));
    if wrapped { args.remove(1); }
    let mut name = String::new();
    let mut is_test = false;
    for (i, a) in args.iter().enumerate() {
        if a == "--crate-name" { name = args.get(i + 1).cloned().unwrap_or_default(); }
        if a == "--test" { is_test = true; }
    }
    let crates = std::env::var("MIRFACTS_CRATES").unwrap_or_default();
    let want = !is_test && crates.split(',').any(|c| c.trim() == name) && std::env::var("MIRFACTS_OUT").is_ok();
    if !want {
        let rustc = std::env::args().nth(1).unwrap();
        let st = std::process::Command::new(rustc).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    let r = rustc_public::run_with_tcx!(&args, analyze);
    match r {
        Ok(_) => std::process::exit(0),
        Err(_) => std::process::exit(1),
    }
}

//! Exports the monomorphic MIR of a crate (and of the library functions it reaches) as JSON.
//! Run as RUSTC_WORKSPACE_WRAPPER: `mirdump <rustc> <args..>`.  For the crate named by
//! MIRDUMP_CRATE (lib target, not test) it runs the compiler through rustc_public and writes
//! MIRDUMP_OUT; for everything else it just execs the real compiler.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate serde_json;

use rustc_public::abi::FieldsShape;
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CompilerError, ItemKind};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

struct Cx {
    tys: HashMap<Ty, usize>,
    tyv: Vec<Value>,
    insts: HashMap<Instance, usize>,
    instv: Vec<Value>,
    queue: VecDeque<(Instance, usize)>,
    bodies: serde_json::Map<String, Value>,
    prune: Vec<String>,
}

fn span_str(s: &Span) -> String {
    let l = s.get_lines();
    format!("{}:{}", s.get_filename(), l.start_line)
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.tyv.len();
        self.tys.insert(t, i);
        self.tyv.push(Value::Null);
        let v = self.ty_value(t);
        self.tyv[i] = v;
        i
    }

    fn targs(&mut self, a: &GenericArgs) -> Vec<Value> {
        a.0.iter()
            .filter_map(|g| match g {
                GenericArgKind::Type(t) => Some(json!(self.ty(*t))),
                GenericArgKind::Const(c) => {
                    Some(json!({"const": c.eval_target_usize().ok()}))
                }
                _ => None,
            })
            .collect()
    }

    fn ty_value(&mut self, t: Ty) -> Value {
        let name = format!("{}", t);
        let kind = t.kind();
        let r = match kind.rigid() {
            Some(r) => r.clone(),
            None => return json!({"k": "opaque", "n": name}),
        };
        match r {
            RigidTy::Bool => json!({"k":"bool"}),
            RigidTy::Char => json!({"k":"char"}),
            RigidTy::Int(i) => json!({"k":"int","s":true,"w":i.num_bytes()*8}),
            RigidTy::Uint(i) => json!({"k":"int","s":false,"w":i.num_bytes()*8}),
            RigidTy::Float(f) => json!({"k":"float","w": match f {FloatTy::F16=>16,FloatTy::F32=>32,FloatTy::F64=>64,FloatTy::F128=>128}}),
            RigidTy::Str => json!({"k":"str"}),
            RigidTy::Never => json!({"k":"never"}),
            RigidTy::Array(e, n) => {
                let e = self.ty(e);
                json!({"k":"array","e":e,"len":n.eval_target_usize().ok()})
            }
            RigidTy::Slice(e) => {
                let e = self.ty(e);
                json!({"k":"slice","e":e})
            }
            RigidTy::RawPtr(p, m) => {
                let p = self.ty(p);
                json!({"k":"ptr","p":p,"mut":m==Mutability::Mut})
            }
            RigidTy::Ref(_, p, m) => {
                let p = self.ty(p);
                json!({"k":"ref","p":p,"mut":m==Mutability::Mut})
            }
            RigidTy::Tuple(ts) => {
                let fs: Vec<usize> = ts.iter().map(|t| self.ty(*t)).collect();
                json!({"k":"tuple","f":fs})
            }
            RigidTy::FnDef(def, args) => {
                let a = self.targs(&args);
                let res = Instance::resolve(def, &args).ok().map(|i| self.inst(i));
                json!({"k":"fn","n":def.name(),"args":a,"inst":res,"full":name})
            }
            RigidTy::FnPtr(_) => json!({"k":"fnptr","n":name}),
            RigidTy::Closure(def, args) => {
                let a = self.targs(&args);
                // the last type argument is the tuple of captured values
                let up = match args.0.last() {
                    Some(GenericArgKind::Type(t)) => Some(self.ty(*t)),
                    _ => None,
                };
                let mut insts = Vec::new();
                for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                    insts.push(
                        Instance::resolve_closure(def, &args, k).ok().map(|i| self.inst(i)),
                    );
                }
                json!({"k":"closure","n":def.name(),"up":up,"args":a,"insts":insts})
            }
            RigidTy::Dynamic(..) => json!({"k":"dyn","n":name}),
            RigidTy::Adt(def, args) => {
                let a = self.targs(&args);
                let k = match def.kind() {
                    AdtKind::Enum => "enum",
                    AdtKind::Struct => "struct",
                    AdtKind::Union => "union",
                };
                let vars: Vec<Value> = def
                    .variants()
                    .iter()
                    .map(|v| {
                        let fs: Vec<Value> = v
                            .fields()
                            .iter()
                            .map(|f| {
                                let t = self.ty(f.ty_with_args(&args));
                                json!([f.name, t])
                            })
                            .collect();
                        let d = if k == "enum" { def.discriminant_for_variant(v.idx()).val } else { 0 };
                        json!({"n":v.name(),"f":fs,"d":d.to_string()})
                    })
                    .collect();
                json!({"k":k,"n":def.name(),"args":a,"vars":vars,"full":name})
            }
            _ => json!({"k":"opaque","n":name}),
        }
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.insts.get(&i) {
            return *x;
        }
        let id = self.instv.len();
        self.insts.insert(i, id);
        self.instv.push(Value::Null);
        let name = i.name();
        let (k, vidx) = match i.kind {
            InstanceKind::Item => ("item", None),
            InstanceKind::Intrinsic => ("intrinsic", None),
            InstanceKind::LlvmIntrinsic => ("llvm", None),
            InstanceKind::Virtual { idx } => ("virtual", Some(idx)),
            InstanceKind::Shim => ("shim", None),
        };
        let intr = i.intrinsic_name();
        let krate = i.def.krate().name;
        let args = self.targs(&i.args());
        self.instv[id] = json!({"n":name,"trim":i.def.name(),"k":k,"vidx":vidx,"intr":intr,
            "crate":krate,"args":args,"mangled":i.mangled_name()});
        self.queue.push_back((i, id));
        id
    }

    fn decode(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> Value {
        if depth > 12 {
            return json!({"k":"raw"});
        }
        let sz = match t.layout() {
            Ok(l) => l.shape().size.bytes(),
            Err(_) => return json!({"k":"raw"}),
        };
        let kind = t.kind();
        let r = match kind.rigid() {
            Some(r) => r.clone(),
            None => return json!({"k":"raw"}),
        };
        let ptr_at = |o: usize| a.provenance.ptrs.iter().find(|(p, _)| *p == o).map(|(_, q)| q.0);
        match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => {
                match a.read_partial_uint(off..off + sz) {
                    Ok(v) => json!({"k":"int","v":v.to_string()}),
                    _ => json!({"k":"raw"}),
                }
            }
            RigidTy::Int(_) => match a.read_partial_uint(off..off + sz) {
                Ok(v) => {
                    let bits = sz * 8;
                    let sv: i128 = if bits == 128 { v as i128 } else if v >> (bits - 1) & 1 == 1 { v as i128 - (1i128 << bits) } else { v as i128 };
                    json!({"k":"int","v":sv.to_string()})
                }
                _ => json!({"k":"raw"}),
            },
            RigidTy::Float(_) => match a.read_partial_uint(off..off + sz) {
                Ok(v) => json!({"k":"float","w":sz*8,"bits":v.to_string()}),
                _ => json!({"k":"raw"}),
            },
            RigidTy::Ref(_, p, _) | RigidTy::RawPtr(p, _) => {
                let Some(id) = ptr_at(off) else { return json!({"k":"raw"}) };
                let po = a.read_partial_uint(off..off + 8).unwrap_or(0) as usize;
                let pk = p.kind();
                match GlobalAlloc::from(id) {
                    GlobalAlloc::Memory(m) => match pk.rigid() {
                        Some(RigidTy::Str) | Some(RigidTy::Slice(_)) => {
                            let len = a.read_partial_uint(off + 8..off + 16).unwrap_or(0) as usize;
                            if let Some(RigidTy::Slice(e)) = pk.rigid() {
                                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                                if len > 64 { return json!({"k":"raw"}); }
                                let v: Vec<Value> = (0..len).map(|i| self.decode(*e, &m, po + i * es, depth + 1)).collect();
                                json!({"k":"ref","to":{"k":"array","e":v}})
                            } else {
                                let b: Vec<u8> = m.bytes[po..po + len].iter().map(|x| x.unwrap_or(0)).collect();
                                json!({"k":"str","v":String::from_utf8_lossy(&b)})
                            }
                        }
                        _ => {
                            let v = self.decode(p, &m, po, depth + 1);
                            let pt = self.ty(p);
                            json!({"k":"ref","to":v,"t":pt})
                        }
                    },
                    GlobalAlloc::Static(s) => json!({"k":"static","n":s.name()}),
                    GlobalAlloc::Function(i) => { let x = self.inst(i); json!({"k":"fnref","inst":x}) }
                    _ => json!({"k":"raw"}),
                }
            }
            RigidTy::Tuple(ts) => {
                let shape = t.layout().unwrap().shape();
                let FieldsShape::Arbitrary { offsets } = shape.fields else {
                    return json!({"k":"agg","f":[],"var":0});
                };
                let v: Vec<Value> = ts.iter().enumerate().map(|(i, ft)| self.decode(*ft, a, off + offsets[i].bytes(), depth + 1)).collect();
                json!({"k":"agg","f":v,"var":0})
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                if n > 64 { return json!({"k":"raw"}); }
                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let v: Vec<Value> = (0..n).map(|i| self.decode(e, a, off + i * es, depth + 1)).collect();
                json!({"k":"array","e":v})
            }
            RigidTy::Adt(def, args) if def.kind() == AdtKind::Struct => {
                let shape = t.layout().unwrap().shape();
                let offs: Vec<usize> = match shape.fields {
                    FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                    _ => vec![],
                };
                let fs = def.variants()[0].fields();
                if offs.len() != fs.len() { return json!({"k":"raw"}); }
                let v: Vec<Value> = fs.iter().enumerate().map(|(i, f)| self.decode(f.ty_with_args(&args), a, off + offs[i], depth + 1)).collect();
                json!({"k":"agg","f":v,"var":0})
            }
            RigidTy::Adt(def, args) if def.kind() == AdtKind::Enum => {
                use rustc_public::abi::{TagEncoding, VariantsShape, Scalar, Primitive};
                let shape = t.layout().unwrap().shape();
                let (vi, offs): (usize, Vec<usize>) = match shape.variants {
                    VariantsShape::Single { index } => {
                        let offs = match shape.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![] };
                        (index.to_index(), offs)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &shape.fields { FieldsShape::Arbitrary { offsets } => offsets[tag_field].bytes(), _ => 0 };
                        let prim = match tag { Scalar::Initialized { value, .. } => value, Scalar::Union { value } => value };
                        let tsz = match prim { Primitive::Int { length, .. } => length.bits() / 8, _ => 8 };
                        if ptr_at(off + toff).is_some() {
                            // pointer niche: the dataful variant
                            if let TagEncoding::Niche { untagged_variant, .. } = tag_encoding {
                                let vi = untagged_variant.to_index();
                                let offs: Vec<usize> = variants[vi].offsets.iter().map(|o| o.bytes()).collect();
                                let fs = def.variants()[vi].fields();
                                let v: Vec<Value> = fs.iter().enumerate().map(|(i, f)| self.decode(f.ty_with_args(&args), a, off + offs[i], depth + 1)).collect();
                                return json!({"k":"agg","f":v,"var":vi});
                            }
                            return json!({"k":"raw"});
                        }
                        let Ok(tagv) = a.read_partial_uint(off + toff..off + toff + tsz) else { return json!({"k":"raw"}) };
                        let mask: u128 = if tsz == 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let mut r = None;
                                for v in def.variants() {
                                    if def.discriminant_for_variant(v.idx()).val & mask == tagv { r = Some(v.idx().to_index()); }
                                }
                                match r { Some(x) => x, None => return json!({"k":"raw"}) }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let rel = tagv.wrapping_sub(niche_start) & mask;
                                let s = niche_variants.start().to_index() as u128;
                                let e = niche_variants.end().to_index() as u128;
                                if rel <= e - s { (s + rel) as usize } else { untagged_variant.to_index() }
                            }
                        };
                        let offs = variants[vi].offsets.iter().map(|o| o.bytes()).collect();
                        (vi, offs)
                    }
                    _ => return json!({"k":"raw"}),
                };
                let fs = def.variants()[vi].fields();
                if offs.len() < fs.len() { return json!({"k":"raw"}); }
                let v: Vec<Value> = fs.iter().enumerate().map(|(i, f)| self.decode(f.ty_with_args(&args), a, off + offs[i], depth + 1)).collect();
                json!({"k":"agg","f":v,"var":vi})
            }
            _ => json!({"k":"raw"}),
        }
    }

    fn konst(&mut self, c: &MirConst) -> Value {
        let t = self.ty(c.ty());
        let v = match c.kind() {
            ConstantKind::ZeroSized => json!({"k":"zst"}),
            ConstantKind::Allocated(a) => {
                let a = a.clone();
                self.decode(c.ty(), &a, 0, 0)
            }
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(ty, a) => { let a = a.clone(); self.decode(*ty, &a, 0, 0) }
                TyConstKind::ZSTValue(_) => json!({"k":"zst"}),
                _ => json!({"k":"raw"}),
            },
            _ => json!({"k":"raw"}),
        };
        json!(["k", v, t])
    }

    fn place(&mut self, p: &Place) -> Value {
        let pr: Vec<Value> = p
            .projection
            .iter()
            .map(|e| match e {
                ProjectionElem::Deref => json!("*"),
                ProjectionElem::Field(i, t) => { let t = self.ty(*t); json!(["f", i, t]) }
                ProjectionElem::Index(l) => json!(["i", l]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => json!(["ci", offset, min_length, from_end]),
                ProjectionElem::Subslice { from, to, from_end } => json!(["sub", from, to, from_end]),
                ProjectionElem::Downcast(v) => json!(["d", v.to_index()]),
                ProjectionElem::OpaqueCast(t) => { let t = self.ty(*t); json!(["oc", t]) }
            })
            .collect();
        json!([p.local, pr])
    }

    fn op(&mut self, o: &Operand) -> Value {
        match o {
            Operand::Copy(p) => { let p = self.place(p); json!(["c", p]) }
            Operand::Move(p) => { let p = self.place(p); json!(["m", p]) }
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => json!(["rt", format!("{:?}", r)]),
        }
    }

    fn rv(&mut self, r: &Rvalue) -> Value {
        match r {
            Rvalue::Use(o, _) => { let o = self.op(o); json!(["use", o]) }
            Rvalue::Aggregate(k, os) => {
                let os: Vec<Value> = os.iter().map(|o| self.op(o)).collect();
                let k = match k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); json!(["array", t]) }
                    AggregateKind::Tuple => json!(["tuple"]),
                    AggregateKind::Adt(d, v, a, _, f) => { let t = self.ty(d.ty_with_args(a)); json!(["adt", t, v.to_index(), f]) }
                    AggregateKind::Closure(d, a) => { let t = self.ty(Ty::new_closure(*d, a.clone())); json!(["closure", t]) }
                    AggregateKind::RawPtr(t, _) => { let t = self.ty(*t); json!(["rawptr", t]) }
                    _ => json!(["other"]),
                };
                json!(["agg", k, os])
            }
            Rvalue::BinaryOp(b, x, y) => { let x = self.op(x); let y = self.op(y); json!(["bin", format!("{:?}", b), x, y]) }
            Rvalue::CheckedBinaryOp(b, x, y) => { let x = self.op(x); let y = self.op(y); json!(["cbin", format!("{:?}", b), x, y]) }
            Rvalue::UnaryOp(u, x) => { let x = self.op(x); json!(["un", format!("{:?}", u), x]) }
            Rvalue::Cast(k, o, t) => { let o = self.op(o); let t = self.ty(*t); json!(["cast", format!("{:?}", k), o, t]) }
            Rvalue::CopyForDeref(p) => { let p = self.place(p); json!(["use", ["c", p]]) }
            Rvalue::Discriminant(p) => { let p = self.place(p); json!(["disc", p]) }
            Rvalue::Len(p) => { let p = self.place(p); json!(["len", p]) }
            Rvalue::Ref(_, k, p) => { let m = k.to_mutable_lossy() == Mutability::Mut; let p = self.place(p); json!(["ref", m, p]) }
            Rvalue::AddressOf(_, p) => { let p = self.place(p); json!(["ref", true, p]) }
            Rvalue::Repeat(o, n) => { let o = self.op(o); json!(["rep", o, n.eval_target_usize().ok()]) }
            Rvalue::ThreadLocalRef(i) => json!(["tls", i.name()]),
            Rvalue::Reborrow(_, _, p) => { let p = self.place(p); json!(["use", ["c", p]]) }
        }
    }

    fn body(&mut self, b: &Body) -> Value {
        let locals: Vec<usize> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let mut blocks = Vec::new();
        for blk in &b.blocks {
            let mut ss = Vec::new();
            for s in &blk.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let p = self.place(p);
                        let r = self.rv(r);
                        ss.push(json!(["=", p, r, s.source_info.span.get_lines().start_line]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        ss.push(json!(["sd", p, variant_index.to_index()]));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                        let o = self.op(o);
                        ss.push(json!(["assume", o]));
                    }
                    StatementKind::Intrinsic(_) => ss.push(json!(["copynon"])),
                    _ => {}
                }
            }
            let t = &blk.terminator;
            let tv = match &t.kind {
                TerminatorKind::Goto { target } => json!(["goto", target]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.op(discr);
                    let br: Vec<Value> = targets.branches().map(|(v, b)| json!([v.to_string(), b])).collect();
                    json!(["switch", d, br, targets.otherwise()])
                }
                TerminatorKind::Resume => json!(["resume"]),
                TerminatorKind::Abort => json!(["abort"]),
                TerminatorKind::Return => json!(["ret"]),
                TerminatorKind::Unreachable => json!(["unreach"]),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place);
                    json!(["drop", p, target])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func);
                    let a: Vec<Value> = args.iter().map(|o| self.op(o)).collect();
                    let d = self.place(destination);
                    json!(["call", f, a, d, target])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond);
                    json!(["assert", c, expected, msg.description().map(|s| s.to_string()).unwrap_or_else(|_| format!("{:?}", msg)), target])
                }
                _ => json!(["other"]),
            };
            blocks.push(json!({"s": ss, "t": tv, "l": t.source_info.span.get_lines().start_line}));
        }
        let dbg: Vec<Value> = b.var_debug_info.iter().filter_map(|v| v.local().map(|l| json!([v.name, l]))).collect();
        json!({"argc": b.arg_locals().len(), "spread": b.spread_arg(), "locals": locals, "blocks": blocks, "span": span_str(&b.span), "dbg": dbg})
    }

    fn pruned(&self, i: &Instance) -> bool {
        let n = i.def.name();
        let k = i.def.krate();
        if k.is_local { return false; }
        if !(k.name == "core" || k.name == "alloc" || k.name == "std") { return true; }
        self.prune.iter().any(|p| n.contains(p.as_str()))
    }
}

fn dump(out: &str) {
    let prune = std::env::var("MIRDUMP_PRUNE").unwrap_or_default();
    let mut cx = Cx {
        tys: HashMap::new(), tyv: vec![], insts: HashMap::new(), instv: vec![],
        queue: VecDeque::new(), bodies: serde_json::Map::new(),
        prune: prune.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
    };
    let mut roots = Vec::new();
    let mut generic = Vec::new();
    let mut seen = HashSet::new();
    for it in rustc_public::all_local_items() {
        if it.kind() != ItemKind::Fn { continue; }
        if !seen.insert(it.name()) {}
        if it.requires_monomorphization() {
            generic.push(it.name());
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            let id = cx.inst(i);
            roots.push(json!([it.name(), id, span_str(&it.span())]));
        }
    }
    while let Some((i, id)) = cx.queue.pop_front() {
        if cx.pruned(&i) { continue; }
        if matches!(i.kind, InstanceKind::Virtual { .. } | InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic) { continue; }
        if !i.has_body() { continue; }
        if let Some(b) = i.body() {
            let v = cx.body(&b);
            cx.bodies.insert(id.to_string(), v);
        }
    }
    // local ADTs, also when no body mentions them
    let v = json!({"types": cx.tyv, "insts": cx.instv, "bodies": cx.bodies, "roots": roots, "generic": generic});
    std::fs::write(out, serde_json::to_string(&v).unwrap()).unwrap();
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let is_target = get("--crate-name").as_deref() == Some(&want)
        && get("--crate-type").as_deref() == Some("lib")
        && !args.iter().any(|a| a == "--test");
    if !is_target || out.is_empty() {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    let mut a = args.clone();
    a.push("-Zmir-opt-level=0".into());
    a.push("-Coverflow-checks=on".into());
    a.push("-Zalways-encode-mir".into());
    let r: Result<(), CompilerError<()>> = rustc_public::run!(&a, || -> ControlFlow<(), ()> {
        dump(&out);
        ControlFlow::Continue(())
    });
    if let Err(e) = r {
        match e {
            CompilerError::Skipped => {}
            _ => std::process::exit(1),
        }
    }
}

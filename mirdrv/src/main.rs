//! MIR server.  Compiles the harness crate with the real rustc front end and then answers
//! requests (one JSON object per line on stdin) about the monomorphic MIR of /repo's code.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
#[macro_use]
extern crate rustc_public;
extern crate serde;
extern crate serde_json;

use std::collections::{BTreeSet, HashMap};
use std::io::{BufRead, Write};
use std::ops::ControlFlow;

use rustc_middle::ty::TyCtxt;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{rustc_internal, CrateDef, CrateDefType};
use serde_json::{json, Value};

fn idx<T: serde::Serialize>(t: &T) -> u64 {
    let v = serde_json::to_value(t).unwrap();
    num(&v)
}
fn num(v: &Value) -> u64 {
    match v {
        Value::Number(n) => n.as_u64().unwrap(),
        Value::Array(a) => num(&a[0]),
        Value::Object(o) => num(o.values().next().unwrap()),
        _ => panic!("idx {v:?}"),
    }
}

struct Srv<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<u64, Ty>,
    insts: Vec<Instance>,
    inst_ix: HashMap<Instance, usize>,
    fndefs: HashMap<String, Vec<FnDef>>,
    traitfns: HashMap<String, FnDef>,
}

struct TyCollect(BTreeSet<u64>, Vec<Ty>);
impl MirVisitor for TyCollect {
    fn visit_ty(&mut self, ty: &Ty, _l: Location) {
        if self.0.insert(idx(ty)) {
            self.1.push(*ty);
        }
    }
    fn visit_const_operand(&mut self, c: &ConstOperand, l: Location) {
        let t = c.const_.ty();
        self.visit_ty(&t, l);
        self.super_const_operand(c, l);
    }
}

impl<'tcx> Srv<'tcx> {
    fn reg(&mut self, t: Ty) -> u64 {
        let i = idx(&t);
        self.tys.insert(i, t);
        i
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.inst_ix.get(&i) {
            return *x;
        }
        let n = self.insts.len();
        self.insts.push(i);
        self.inst_ix.insert(i, n);
        n
    }
    fn args(&mut self, a: &GenericArgs) -> Value {
        let v: Vec<Value> = a
            .0
            .iter()
            .filter_map(|k| match k {
                GenericArgKind::Type(t) => Some(json!({"t": self.reg(*t)})),
                GenericArgKind::Const(c) => Some(json!({"c": format!("{c:?}")})),
                GenericArgKind::Lifetime(_) => None,
            })
            .collect();
        Value::Array(v)
    }
    fn inst_json(&mut self, i: Instance) -> Value {
        let id = self.inst(i);
        let kind = match i.kind {
            InstanceKind::Item => "Item".to_string(),
            InstanceKind::Intrinsic => "Intrinsic".to_string(),
            InstanceKind::LlvmIntrinsic => "LlvmIntrinsic".to_string(),
            InstanceKind::Virtual { idx } => format!("Virtual{idx}"),
            InstanceKind::Shim => "Shim".to_string(),
        };
        let args = self.args(&i.args());
        let empty = i.kind == InstanceKind::Shim && i.is_empty_shim();
        let defname = i.def.def_id().name();
        json!({"inst": id, "kind": kind, "name": i.name(), "def": defname, "args": args,
               "intr": i.intrinsic_name(), "empty": empty, "has_body": i.has_body()})
    }
    fn ty_json(&mut self, t: Ty) -> Value {
        let k = t.kind();
        let TyKind::RigidTy(r) = k else {
            return json!({"k": "Other", "s": format!("{t}")});
        };
        let s = format!("{t}");
        match r {
            RigidTy::Bool => json!({"k":"Bool"}),
            RigidTy::Char => json!({"k":"Char"}),
            RigidTy::Int(i) => json!({"k":"Int","w":format!("{i:?}")}),
            RigidTy::Uint(i) => json!({"k":"Uint","w":format!("{i:?}")}),
            RigidTy::Float(i) => json!({"k":"Float","w":format!("{i:?}")}),
            RigidTy::Adt(d, a) => {
                let mut vs = vec![];
                for v in d.variants() {
                    // as a value of the discriminant's type (rustc gives the bits, unsigned)
                    let dis: i128 = if d.kind() == AdtKind::Enum {
                        let x = d.discriminant_for_variant(v.idx());
                        let bits = match x.ty.kind() {
                            TyKind::RigidTy(RigidTy::Int(i)) => 8 * i.num_bytes() as u32,
                            _ => 0,
                        };
                        if bits > 0 && bits < 128 { ((x.val as i128) << (128 - bits)) >> (128 - bits) } else { x.val as i128 }
                    } else { 0 };
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(&a);
                        fs.push(json!({"name": f.name, "ty": self.reg(ft)}));
                    }
                    vs.push(json!({"name": v.name(), "discr": dis.to_string(), "fields": fs}));
                }
                let args = self.args(&a);
                json!({"k":"Adt","name":d.name(),"ak":format!("{:?}",d.kind()),"variants":vs,"args":args,"s":s,"box":d.is_box()})
            }
            RigidTy::Foreign(_) => json!({"k":"Foreign"}),
            RigidTy::Str => json!({"k":"Str"}),
            RigidTy::Array(t, c) => json!({"k":"Array","ty":self.reg(t),"len":c.eval_target_usize().ok()}),
            RigidTy::Pat(t, _) => json!({"k":"Pat","ty":self.reg(t)}),
            RigidTy::Slice(t) => json!({"k":"Slice","ty":self.reg(t)}),
            RigidTy::RawPtr(t, m) => json!({"k":"RawPtr","ty":self.reg(t),"mut":format!("{m:?}")}),
            RigidTy::Ref(_, t, m) => json!({"k":"Ref","ty":self.reg(t),"mut":format!("{m:?}")}),
            RigidTy::FnDef(d, a) => {
                let args = self.args(&a);
                json!({"k":"FnDef","name":d.name(),"args":args,"s":s})
            }
            RigidTy::FnPtr(_) => json!({"k":"FnPtr","s":s}),
            RigidTy::Closure(_, a) => {
                let args = self.args(&a);
                let it: rustc_middle::ty::Ty<'tcx> = rustc_internal::internal(self.tcx, t);
                let mut ups: Vec<u64> = vec![];
                if let rustc_middle::ty::TyKind::Closure(_, ga) = it.kind() {
                    let ut: Vec<_> = ga.as_closure().upvar_tys().iter().collect();
                    for u in ut { let st: Ty = rustc_internal::stable(u); ups.push(self.reg(st)); }
                }
                json!({"k":"Closure","args":args,"s":s,"ups":ups})
            }
            RigidTy::Coroutine(_, a) => {
                let args = self.args(&a);
                let it: rustc_middle::ty::Ty<'tcx> = rustc_internal::internal(self.tcx, t);
                let mut vf: Vec<Vec<u32>> = vec![];
                let mut ups: Vec<u64> = vec![];
                if let rustc_middle::ty::TyKind::Coroutine(did, ga) = it.kind() {
                    if let Ok(l) = self.tcx.coroutine_layout(*did, ga) {
                        for v in l.variant_fields.iter() { vf.push(v.iter().map(|x| x.as_u32()).collect()); }
                    }
                    let ut: Vec<_> = ga.as_coroutine().upvar_tys().iter().collect();
                    for u in ut { let st: Ty = rustc_internal::stable(u); ups.push(self.reg(st)); }
                }
                json!({"k":"Coroutine","args":args,"s":s,"vf":vf,"ups":ups})
            }
            RigidTy::CoroutineClosure(_, _) => json!({"k":"CoroutineClosure","s":s}),
            RigidTy::Dynamic(..) => json!({"k":"Dyn","s":s}),
            RigidTy::Never => json!({"k":"Never"}),
            RigidTy::Tuple(ts) => { let v: Vec<u64> = ts.iter().map(|t| self.reg(*t)).collect(); json!({"k":"Tuple","tys":v}) }
            RigidTy::CoroutineWitness(..) => json!({"k":"CoroutineWitness"}),
        }
    }
    fn callee(&mut self, f: Ty) -> Value {
        match f.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) {
                Ok(i) => {
                    let mut j = self.inst_json(i);
                    j["src"] = json!(d.name());
                    j["srcargs"] = self.args(&a);
                    j
                }
                Err(e) => json!({"err": format!("{e:?}"), "src": d.name()}),
            },
            _ => json!({"indirect": true}),
        }
    }
    fn body(&mut self, id: usize) -> Value {
        let i = self.insts[id];
        let Some(b) = i.body() else { return json!({"err": "no body", "name": i.name()}) };
        let mut tc = TyCollect(BTreeSet::new(), vec![]);
        tc.visit_body(&b);
        for t in tc.1.clone() {
            self.reg(t);
        }
        let mut calls = serde_json::Map::new();
        let mut drops = serde_json::Map::new();
        for (n, bb) in b.blocks.iter().enumerate() {
            match &bb.terminator.kind {
                TerminatorKind::Call { func, .. } => {
                    if let Ok(t) = func.ty(b.locals()) {
                        self.reg(t);
                        let c = self.callee(t);
                        calls.insert(n.to_string(), c);
                    }
                }
                TerminatorKind::Drop { place, .. } => {
                    if let Ok(t) = place.ty(b.locals()) {
                        let ti = self.reg(t);
                        let di = Instance::resolve_drop_in_place(t);
                        let mut j = self.inst_json(di);
                        j["ty"] = json!(ti);
                        drops.insert(n.to_string(), j);
                    }
                }
                _ => {}
            }
        }
        let locals: Vec<u64> = b.locals().iter().map(|l| self.reg(l.ty)).collect();
        let span = b.span.diagnostic();
        json!({"name": i.name(), "locals": locals, "nargs": b.arg_locals().len(), "spread": b.spread_arg(),
               "blocks": b.blocks, "calls": calls, "drops": drops, "span": span})
    }
    fn build_defs(&mut self) {
        let mut crates = vec![rustc_public::local_crate()];
        for n in ["xtra", "catty", "event_listener", "futures_util", "futures_core", "core", "alloc", "std", "spin"] {
            crates.extend(rustc_public::find_crates(n));
        }
        for c in crates {
            for f in c.fn_defs() {
                self.fndefs.entry(f.name()).or_default().push(f);
            }
        }
        // trait functions
        for tr in self.tcx.all_traits_including_private() {
            if self.tcx.def_kind(tr) != rustc_hir::def::DefKind::Trait { continue; }
            let path = self.tcx.def_path_str(tr);
            for it in self.tcx.associated_item_def_ids(tr) {
                if matches!(self.tcx.def_kind(*it), rustc_hir::def::DefKind::AssocFn) {
                    let ty = self.tcx.type_of(*it).instantiate_identity().skip_norm_wip();
                    let st: Ty = rustc_internal::stable(ty);
                    if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = st.kind() {
                        self.traitfns.insert(format!("{}::{}", path, self.tcx.item_name(*it)), d);
                    }
                }
            }
        }
    }
    fn handle(&mut self, q: &Value) -> Value {
        let gt = |s: &Self, v: &Value| -> Ty { s.tys[&v.as_u64().unwrap()] };
        match q["cmd"].as_str().unwrap_or("") {
            "body" => self.body(q["inst"].as_u64().unwrap() as usize),
            "ty" => {
                let t = gt(self, &q["ty"]);
                self.ty_json(t)
            }
            "drop" => {
                let t = gt(self, &q["ty"]);
                let i = Instance::resolve_drop_in_place(t);
                self.inst_json(i)
            }
            "names" => {
                let p = q["prefix"].as_str().unwrap();
                let mut v: Vec<&String> = self.fndefs.keys().filter(|k| k.contains(p)).collect();
                v.sort();
                json!(v)
            }
            "traitnames" => {
                let p = q["prefix"].as_str().unwrap();
                let mut v: Vec<&String> = self.traitfns.keys().filter(|k| k.contains(p)).collect();
                v.sort();
                json!(v)
            }
            "resolve" => {
                let p = q["path"].as_str().unwrap();
                let defs: Vec<FnDef> = match self.traitfns.get(p) {
                    Some(d) => vec![*d],
                    None => self.fndefs.get(p).cloned().unwrap_or_default(),
                };
                let targs: Vec<Ty> = q["args"].as_array().unwrap().iter().map(|a| gt(self, a)).collect();
                let mut res = vec![];
                for d in defs {
                    // fill lifetimes with erased, following the generics of the item
                    let did = rustc_internal::internal(self.tcx, d.def_id());
                    let mut it = targs.iter();
                    let mut short = false;
                    let tcx = self.tcx;
                    let ga = rustc_middle::ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                        rustc_middle::ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                        _ => match it.next() {
                            Some(t) => rustc_internal::internal(tcx, *t).into(),
                            None => { short = true; tcx.types.unit.into() }
                        },
                    });
                    if short || it.next().is_some() { continue; }
                    let fty: Ty = rustc_internal::stable(rustc_middle::ty::Ty::new_fn_def(tcx, did, rustc_middle::ty::Binder::dummy(ga)));
                    if let TyKind::RigidTy(RigidTy::FnDef(d, sga)) = fty.kind() {
                        if let Ok(i) = Instance::resolve(d, &sga) {
                            res.push(self.inst_json(i));
                        }
                    }
                }
                json!(res)
            }
            "closure" => {
                let t = gt(self, &q["ty"]);
                let kind = match q["ck"].as_str().unwrap() { "Fn" => ClosureKind::Fn, "FnMut" => ClosureKind::FnMut, _ => ClosureKind::FnOnce };
                match t.kind() {
                    TyKind::RigidTy(RigidTy::Closure(d, a)) => match Instance::resolve_closure(d, &a, kind) {
                        Ok(i) => self.inst_json(i),
                        Err(e) => json!({"err": format!("{e:?}")}),
                    },
                    TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) {
                        Ok(i) => self.inst_json(i),
                        Err(e) => json!({"err": format!("{e:?}")}),
                    },
                    _ => json!({"err": "not a closure"}),
                }
            }
            "alloc" => {
                // resolve a provenance entry found in a constant of instance q.inst: nth const
                json!({"err": "unsupported"})
            }
            "fnty" => {
                // instance's own type as a type id
                let i = self.insts[q["inst"].as_u64().unwrap() as usize];
                let t = i.ty();
                json!(self.reg(t))
            }
            "tuple" => {
                let ts: Vec<Ty> = q["tys"].as_array().unwrap().iter().map(|a| gt(self, a)).collect();
                let t = Ty::new_tuple(&ts);
                json!(self.reg(t))
            }
            c => json!({"err": format!("unknown cmd {c}")}),
        }
    }
}

fn serve(tcx: TyCtxt<'_>) -> ControlFlow<()> {
    let mut s = Srv { tcx, tys: HashMap::new(), insts: vec![], inst_ix: HashMap::new(), fndefs: HashMap::new(), traitfns: HashMap::new() };
    s.build_defs();
    // roots
    let mut roots = serde_json::Map::new();
    for f in rustc_public::local_crate().fn_defs() {
        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = f.ty().kind() {
            if a.0.iter().any(|k| matches!(k, GenericArgKind::Type(_) | GenericArgKind::Const(_))) { continue; }
            if let Ok(i) = Instance::resolve(d, &a) {
                let j = s.inst_json(i);
                roots.insert(f.name(), j);
            }
        }
    }
    let out = std::io::stdout();
    let mut out = out.lock();
    writeln!(out, "{}", json!({"roots": roots})).unwrap();
    out.flush().unwrap();
    for l in std::io::stdin().lock().lines() {
        let Ok(l) = l else { break };
        if l.trim().is_empty() { continue; }
        let q: Value = serde_json::from_str(&l).unwrap();
        if q["cmd"] == "quit" { break; }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.handle(&q)));
        let r = r.unwrap_or_else(|_| json!({"err": "panic"}));
        writeln!(out, "{}", r).unwrap();
        out.flush().unwrap();
    }
    ControlFlow::Break(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if let Ok(p) = std::env::var("MIRDRV_CAPTURE") {
        // wrapper mode: remember how cargo calls rustc for the harness crate, then call rustc
        let rest = &args[1..];
        let env: HashMap<String, String> = std::env::vars().filter(|(k, _)| k.starts_with("CARGO")).collect();
        std::fs::write(p, json!({"args": rest, "cwd": std::env::current_dir().unwrap(), "env": env}).to_string()).unwrap();
        let st = std::process::Command::new(&rest[0]).args(&rest[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    let _ = run_with_tcx!(&args, serve);
}

use std::collections::HashMap;
use std::io::Write;

use rustc::hir;
use rustc::hir::def_id::{DefId, LOCAL_CRATE};
use rustc::mir::*;
use rustc::mir::interpret::{ConstValue, Scalar, AllocKind, GlobalId};
use rustc::ty::{self, Instance, InstanceDef, Ty, TyCtxt, ParamEnv};
use rustc::ty::subst::{Substs, Subst};
use rustc::ty::TypeFoldable;

use json::*;

struct Cx<'a, 'tcx: 'a> {
    tcx: TyCtxt<'a, 'tcx, 'tcx>,
    types: Vec<String>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    insts: Vec<Option<String>>,
    inst_ids: HashMap<(DefId, &'tcx Substs<'tcx>), usize>,
    queue: Vec<(usize, DefId, &'tcx Substs<'tcx>, ParamEnv<'tcx>)>,
    stop: Vec<String>,
    go: Vec<String>,
}

pub fn dump<'a, 'tcx>(tcx: TyCtxt<'a, 'tcx, 'tcx>) {
    let read = |v: &str| -> Vec<String> {
        std::fs::read_to_string(std::env::var(v).expect("driver lists are not set")).expect("cannot read driver list")
            .lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect()
    };
    let mut cx = Cx {
        tcx, types: vec![], type_ids: HashMap::new(), insts: vec![], inst_ids: HashMap::new(), queue: vec![],
        stop: read("VP_STOP"), go: read("VP_GO"),
    };
    let mut roots = vec![];
    let mut local = vec![];

    for def_id in tcx.body_owners() {
        let node_id = tcx.hir().as_local_node_id(def_id).unwrap();
        let is_fn = match tcx.hir().body_owner_kind(node_id) {
            hir::BodyOwnerKind::Fn => true,
            _ => false,
        };
        if !is_fn || tcx.is_closure(def_id) { continue; }
        let env = tcx.param_env(def_id).with_reveal_all();
        let substs = Substs::identity_for_item(tcx, def_id);
        let substs = tcx.erase_regions(&substs);
        let id = cx.instance(def_id, substs, env);
        if let Some(id) = id { roots.push(format!("{}", id)); }
        local.push(cx.item_facts(def_id, id));
    }
    let adts = cx.local_types();
    let consts = cx.local_consts();
    let statics_user = cx.impls();

    while let Some((id, def_id, substs, env)) = cx.queue.pop() {
        let s = cx.body(def_id, substs, env);
        cx.insts[id] = Some(s);
    }
    let out = obj(vec![
        ("crate", esc(&tcx.crate_name(LOCAL_CRATE).as_str())),
        ("roots", arr(roots)),
        ("items", arr(local)),
        ("adts", arr(adts)),
        ("consts", arr(consts)),
        ("impls", arr(statics_user)),
        ("types", arr(cx.types.clone())),
        ("insts", arr(cx.insts.iter().map(|x| opt(x.clone())).collect::<Vec<_>>())),
    ]);
    let path = format!("{}/{}.json", std::env::var("VP_OUT").expect("VP_OUT"), tcx.crate_name(LOCAL_CRATE));
    let mut f = std::fs::File::create(&path).expect("cannot write");
    f.write_all(out.as_bytes()).unwrap();
}

impl<'a, 'tcx> Cx<'a, 'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::item_path::with_forced_absolute_paths(|| self.tcx.item_path_str(d))
    }

    fn span(&self, sp: syntax_pos::Span) -> String {
        // The place a macro was called is more telling than the place it was defined at.
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        esc(&format!("{}:{}", lo.file.name, lo.line))
    }

    /// Whether the body of a function is left out. The lists name crates and modules by where things are defined.
    fn stopped(&self, d: DefId) -> bool {
        let krate = self.tcx.crate_name(d.krate).as_str().to_string();
        let full = format!("{}{}::", krate, self.tcx.def_path(d).to_string_no_crate().replace("[0]", ""));
        let within = |g: &String| full.starts_with(&format!("{}::", g)[..]);
        if self.go.iter().any(|g| within(g)) { return false; }
        self.stop.iter().any(|g| within(g))
    }

    fn instance(&mut self, d: DefId, substs: &'tcx Substs<'tcx>, env: ParamEnv<'tcx>) -> Option<usize> {
        if let Some(&i) = self.inst_ids.get(&(d, substs)) { return Some(i); }
        if !self.tcx.is_mir_available(d) { return None; }
        if self.stopped(d) { return None; }
        let id = self.insts.len();
        self.insts.push(None);
        self.inst_ids.insert((d, substs), id);
        self.queue.push((id, d, substs, env));
        Some(id)
    }

    fn vis(&self, v: ty::Visibility) -> String {
        match v {
            ty::Visibility::Public => esc("pub"),
            ty::Visibility::Restricted(d) => esc(&format!("in {}", self.path(d))),
            ty::Visibility::Invisible => esc("none"),
        }
    }

    /// `tcx.visibility` panics for some of the items which a derive generates.
    fn vis_of(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let id = tcx.hir().as_local_node_id(d).unwrap();
        let v = match tcx.hir().get(id) {
            hir::Node::Item(i) => ty::Visibility::from_hir(&i.vis, id, tcx),
            hir::Node::ImplItem(i) => ty::Visibility::from_hir(&i.vis, id, tcx),
            _ => ty::Visibility::Public,
        };
        self.vis(v)
    }

    fn item_facts(&mut self, d: DefId, inst: Option<usize>) -> String {
        let tcx = self.tcx;
        let sig = tcx.fn_sig(d);
        let sig = sig.skip_binder();
        let inputs: Vec<String> = sig.inputs().iter().map(|t| { let t = tcx.erase_regions(t); self.ty(t).to_string() }).collect();
        let out = { let t = tcx.erase_regions(&sig.output()); self.ty(t).to_string() };
        let impl_of = tcx.impl_of_method(d);
        let tr = impl_of.and_then(|i| tcx.impl_trait_ref(i)).map(|t| esc(&self.path(t.def_id)));
        let self_ty = impl_of.map(|i| { let t = tcx.erase_regions(&tcx.type_of(i)); self.ty(t).to_string() });
        let access = tcx.privacy_access_levels(LOCAL_CRATE);
        let node = tcx.hir().as_local_node_id(d).unwrap();
        let attrs = tcx.get_attrs(d);
        let has = |n: &str| attrs.iter().any(|a| a.path == n);
        let from_expn = tcx.def_span(d).ctxt().outer().expn_info().map(|e| esc(&e.format.name().as_str()));
        obj(vec![
            ("path", esc(&self.path(d))),
            ("name", esc(&tcx.item_name(d).as_str())),
            ("inst", opt(inst.map(|i| i.to_string()))),
            ("inputs", arr(inputs)),
            ("output", out),
            ("vis", self.vis_of(d)),
            ("reachable", boolean(access.is_exported(node))),
            ("trait", opt(tr)),
            ("self_ty", opt(self_ty)),
            ("abi", esc(sig.abi.name())),
            ("unsafe", boolean(sig.unsafety == hir::Unsafety::Unsafe)),
            ("no_mangle", boolean(has("no_mangle"))),
            ("attrs", arr(attrs.iter().map(|a| esc(&a.path.to_string())).collect::<Vec<_>>())),
            ("expn", opt(from_expn)),
            ("generics", self.generics(d)),
            ("span", self.span(tcx.def_span(d))),
        ])
    }

    fn generics(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let mut v = vec![];
        let preds = tcx.predicates_of(d);
        for (p, _) in preds.predicates.iter() {
            if let ty::Predicate::Trait(t) = p {
                let t = t.skip_binder();
                v.push(esc(&format!("{:?}: {}", t.trait_ref.self_ty(), self.path(t.trait_ref.def_id))));
            }
        }
        arr(v)
    }

    fn local_types(&mut self) -> Vec<String> {
        let tcx = self.tcx;
        let mut v = vec![];
        let krate = tcx.hir().krate();
        let access = tcx.privacy_access_levels(LOCAL_CRATE);
        for (_, item) in krate.items.iter() {
            match item.node {
                hir::ItemKind::Struct(..) | hir::ItemKind::Enum(..) | hir::ItemKind::Union(..) => {
                    let d = tcx.hir().local_def_id(item.id);
                    let def = tcx.adt_def(d);
                    let variants: Vec<String> = def.variants.iter().map(|var| {
                        let fields: Vec<String> = var.fields.iter().map(|f| {
                            let t = tcx.erase_regions(&tcx.type_of(f.did));
                            let t = self.ty(t);
                            obj(vec![("name", esc(&f.ident.as_str())), ("vis", self.vis(f.vis)), ("ty", t.to_string())])
                        }).collect();
                        obj(vec![("name", esc(&var.ident.as_str())), ("fields", arr(fields))])
                    }).collect();
                    v.push(obj(vec![
                        ("path", esc(&self.path(d))),
                        ("vis", self.vis_of(d)),
                        ("reachable", boolean(access.is_exported(item.id))),
                        ("repr_c", boolean(def.repr.c())),
                        ("drop", boolean(def.has_dtor(tcx))),
                        ("variants", arr(variants)),
                        ("span", self.span(item.span)),
                    ]));
                }
                _ => {}
            }
        }
        v
    }

    fn local_consts(&mut self) -> Vec<String> {
        let tcx = self.tcx;
        let mut v = vec![];
        let krate = tcx.hir().krate();
        for (_, item) in krate.items.iter() {
            if let hir::ItemKind::Const(..) = item.node {
                let d = tcx.hir().local_def_id(item.id);
                let t = tcx.type_of(d);
                let val = self.const_item(d, Substs::empty(), ParamEnv::reveal_all(), t);
                v.push(obj(vec![("path", esc(&self.path(d))), ("val", val), ("span", self.span(item.span)),
                                ("vis", self.vis_of(d))]));
            }
        }
        v
    }

    fn impls(&mut self) -> Vec<String> {
        let tcx = self.tcx;
        let mut v = vec![];
        let krate = tcx.hir().krate();
        for (_, item) in krate.items.iter() {
            if let hir::ItemKind::Impl(..) = item.node {
                let d = tcx.hir().local_def_id(item.id);
                let t = tcx.erase_regions(&tcx.type_of(d));
                let t = self.ty(t).to_string();
                let tr = tcx.impl_trait_ref(d);
                let args: Vec<String> = tr.map(|r| r.substs.types().map(|t| { let t = tcx.erase_regions(&t); self.ty(t).to_string() }).collect()).unwrap_or(vec![]);
                let from_expn = item.span.ctxt().outer().expn_info().map(|e| esc(&e.format.name().as_str()));
                v.push(obj(vec![("self_ty", t), ("trait", opt(tr.map(|r| esc(&self.path(r.def_id))))), ("trait_args", arr(args)),
                                ("expn", opt(from_expn)), ("span", self.span(item.span))]));
            }
        }
        v
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.type_ids.get(&t) { return i; }
        let id = self.types.len();
        self.types.push(String::new());
        self.type_ids.insert(t, id);
        let tcx = self.tcx;
        let kind = |k: &str| ("k", esc(k));
        let s = match t.sty {
            ty::Bool => obj(vec![kind("bool")]),
            ty::Char => obj(vec![kind("char")]),
            ty::Int(i) => obj(vec![kind("int"), ("name", esc(i.ty_to_string()))]),
            ty::Uint(i) => obj(vec![kind("uint"), ("name", esc(i.ty_to_string()))]),
            ty::Float(_) => obj(vec![kind("float")]),
            ty::Str => obj(vec![kind("str")]),
            ty::Never => obj(vec![kind("never")]),
            ty::Adt(def, substs) => {
                let args: Vec<String> = substs.types().map(|t| self.ty(t).to_string()).collect();
                let mut variants = vec![];
                for (i, var) in def.variants.iter_enumerated() {
                    let discr = def.discriminant_for_variant(tcx, i).val;
                    let mut fields = vec![];
                    // The insides of other crates' types are none of our business, except for plain enums.
                    for f in var.fields.iter() {
                        let ft = f.ty(tcx, substs);
                        let ft = normalize(tcx, ft, ParamEnv::reveal_all());
                        fields.push(obj(vec![("name", esc(&f.ident.as_str())), ("ty", self.ty(ft).to_string())]));
                    }
                    variants.push(obj(vec![("name", esc(&var.ident.as_str())), ("discr", format!("{}", discr)), ("fields", arr(fields))]));
                }
                let what = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                obj(vec![kind("adt"), ("adt", esc(what)), ("path", esc(&self.path(def.did))), ("args", arr(args)),
                         ("box", boolean(def.is_box())), ("variants", arr(variants)), ("drop", boolean(def.has_dtor(tcx)))])
            }
            ty::Array(e, n) => {
                let n = n.assert_usize(tcx).map(|x| x.to_string());
                let e = self.ty(e);
                obj(vec![kind("array"), ("elem", e.to_string()), ("len", opt(n))])
            }
            ty::Slice(e) => { let e = self.ty(e); obj(vec![kind("slice"), ("elem", e.to_string())]) }
            ty::RawPtr(tm) => { let e = self.ty(tm.ty); obj(vec![kind("ptr"), ("to", e.to_string()), ("mut", boolean(tm.mutbl == hir::MutMutable))]) }
            ty::Ref(_, to, m) => { let e = self.ty(to); obj(vec![kind("ref"), ("to", e.to_string()), ("mut", boolean(m == hir::MutMutable))]) }
            ty::FnDef(d, substs) => {
                let args: Vec<String> = substs.types().map(|t| self.ty(t).to_string()).collect();
                obj(vec![kind("fndef"), ("path", esc(&self.path(d))), ("args", arr(args))])
            }
            ty::FnPtr(_) => obj(vec![kind("fnptr")]),
            ty::Dynamic(ref preds, _) => {
                let p = preds.principal().map(|p| esc(&self.path(p.skip_binder().def_id)));
                obj(vec![kind("dyn"), ("trait", opt(p))])
            }
            ty::Closure(d, substs) => {
                let up: Vec<String> = substs.upvar_tys(d, tcx).map(|t| self.ty(t).to_string()).collect();
                obj(vec![kind("closure"), ("path", esc(&self.path(d))), ("upvars", arr(up))])
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                obj(vec![kind("tuple"), ("elems", arr(v))])
            }
            ty::Param(p) => obj(vec![kind("param"), ("name", esc(&p.name.as_str()))]),
            ty::Projection(p) => {
                let args: Vec<String> = p.substs.types().map(|t| self.ty(t).to_string()).collect();
                obj(vec![kind("proj"), ("path", esc(&self.path(p.item_def_id))), ("args", arr(args))])
            }
            _ => obj(vec![kind("other"), ("name", esc(&format!("{:?}", t)))]),
        };
        let s = s[..s.len() - 1].to_string() + &format!(",\"s\":{}}}", esc(&format!("{:?}", t)));
        self.types[id] = s;
        id
    }

    fn mono(&self, t: Ty<'tcx>, substs: &'tcx Substs<'tcx>, env: ParamEnv<'tcx>) -> Ty<'tcx> {
        let t = t.subst(self.tcx, substs);
        let t = self.tcx.erase_regions(&t);
        if env.caller_bounds.is_empty() { normalize(self.tcx, t, env) } else { self.tcx.normalize_erasing_regions(env, t) }
    }

    fn bytes_of_alloc(&self, id: rustc::mir::interpret::AllocId, off: u64, len: Option<u64>) -> Option<Vec<u8>> {
        let map = self.tcx.alloc_map.lock();
        match map.get(id) {
            Some(AllocKind::Memory(a)) => {
                let from = off as usize;
                let to = len.map(|l| from + l as usize).unwrap_or(a.bytes.len());
                if to <= a.bytes.len() { Some(a.bytes[from..to].to_vec()) } else { None }
            }
            _ => None,
        }
    }

    /// What the pointers in a piece of memory point to: [position, bytes there, its own pointers].
    fn pointers(&self, a: &rustc::mir::interpret::Allocation, from: u64, to: u64, depth: usize) -> String {
        let list = |b: &[u8]| arr(b.iter().map(|x| x.to_string()));
        let mut r: Vec<String> = Vec::new();
        for (off, (_, id)) in a.relocations.iter() {
            let o = off.bytes();
            if o < from || o >= to || depth == 0 { continue; }
            let target = { let map = self.tcx.alloc_map.lock(); match map.get(*id) { Some(AllocKind::Memory(x)) => Some(x), _ => None } };
            if let Some(x) = target {
                r.push(arr(vec![(o - from).to_string(), list(&x.bytes), self.pointers(x, 0, x.bytes.len() as u64, depth - 1)]));
            }
        }
        arr(r)
    }

    fn memory(&self, id: rustc::mir::interpret::AllocId, off: u64) -> String {
        let a = { let map = self.tcx.alloc_map.lock(); match map.get(id) { Some(AllocKind::Memory(x)) => Some(x), _ => None } };
        match a { Some(a) => self.pointers(a, off, a.bytes.len() as u64, 3), None => arr(Vec::<String>::new()) }
    }

    /// The value of a static which never changes, or null.
    fn static_value(&mut self, d: DefId, ty: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let env = ParamEnv::reveal_all();
        if tcx.is_static(d) != Some(hir::Mutability::MutImmutable) || !ty.is_freeze(tcx, env, ::syntax_pos::DUMMY_SP) || self.stop.contains(&tcx.crate_name(d.krate).as_str().to_string()) {
            return "null".to_string();
        }
        let s = match tcx.const_eval(env.and(GlobalId { instance: Instance::mono(tcx, d), promoted: None })) {
            Ok(c) => self.const_val(ty, c.val),
            Err(_) => return "null".to_string(),
        };
        s[..s.len() - 1].to_string() + &format!(",\"item\":{}}}", esc(&self.path(d)))
    }

    fn const_val(&mut self, t: Ty<'tcx>, val: ConstValue<'tcx>) -> String {
        let tid = self.ty(t).to_string();
        let list = |b: Vec<u8>| arr(b.into_iter().map(|x| x.to_string()));
        match val {
            ConstValue::Scalar(Scalar::Bits { bits, size }) => obj(vec![("ty", tid), ("bits", format!("{}", bits)), ("size", size.to_string())]),
            ConstValue::Scalar(Scalar::Ptr(p)) => {
                match self.bytes_of_alloc(p.alloc_id, p.offset.bytes(), None) {
                    Some(b) => obj(vec![("ty", tid), ("refbytes", list(b)), ("relocs", self.memory(p.alloc_id, p.offset.bytes()))]),
                    None => obj(vec![("ty", tid), ("opaque", esc("pointer"))]),
                }
            }
            ConstValue::ScalarPair(Scalar::Ptr(p), Scalar::Bits { bits, .. }) => {
                let bytes = match t.sty {
                    ty::Ref(_, x, _) => match x.sty {
                        ty::Str => true,
                        ty::Slice(e) => match e.sty { ty::Uint(u) => u == ::syntax::ast::UintTy::U8, _ => false },
                        _ => false,
                    },
                    _ => false,
                };
                match self.bytes_of_alloc(p.alloc_id, p.offset.bytes(), if bytes { Some(bits as u64) } else { None }) {
                    Some(ref b) if !bytes => obj(vec![("ty", tid), ("refbytes", list(b.clone())), ("len", format!("{}", bits)), ("fat", boolean(true)), ("relocs", self.memory(p.alloc_id, p.offset.bytes()))]),
                    Some(b) => obj(vec![("ty", tid), ("refbytes", list(b)), ("len", format!("{}", bits)), ("fat", boolean(true))]),
                    None => obj(vec![("ty", tid), ("opaque", esc("fat pointer"))]),
                }
            }
            ConstValue::ScalarPair(..) => obj(vec![("ty", tid), ("opaque", esc("pair"))]),
            ConstValue::ByRef(_, a, off) => {
                let b = a.bytes[off.bytes() as usize..].to_vec();
                let rel = self.pointers(a, off.bytes(), a.bytes.len() as u64, 3);
                obj(vec![("ty", tid), ("bytes", list(b)), ("relocs", rel)])
            }
        }
    }

    fn const_item(&mut self, d: DefId, substs: &'tcx Substs<'tcx>, env: ParamEnv<'tcx>, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let inst = Instance::resolve(tcx, env, d, substs);
        let r = inst.and_then(|i| tcx.const_eval(env.with_reveal_all().and(GlobalId { instance: i, promoted: None })).ok());
        let s = match r {
            Some(c) => self.const_val(t, c.val),
            None => { let t = self.ty(t).to_string(); obj(vec![("ty", t), ("opaque", esc("unevaluated"))]) }
        };
        s[..s.len() - 1].to_string() + &format!(",\"item\":{}}}", esc(&self.path(d)))
    }

    fn callee(&mut self, d: DefId, substs: &'tcx Substs<'tcx>, env: ParamEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let tr = tcx.trait_of_item(d);
        let args: Vec<String> = substs.types().map(|t| self.ty(t).to_string()).collect();
        let mut o = vec![
            ("path", esc(&self.path(d))),
            ("name", esc(&opt_name(tcx, d))),
            ("args", arr(args)),
            ("trait", opt(tr.map(|t| esc(&self.path(t))))),
            ("krate", esc(&tcx.crate_name(d.krate).as_str())),
        ];
        let resolved = if tr.is_some() && substs.types().next().map(|t| unresolvable(t)).unwrap_or(true) { None }
                       else { Instance::resolve(tcx, env, d, substs) };
        match resolved {
            None => o.push(("kind", esc("unresolved"))),
            Some(inst) => {
                let (k, target) = match inst.def {
                    InstanceDef::Item(x) => ("item", Some(x)),
                    InstanceDef::Intrinsic(x) => ("intrinsic", Some(x)),
                    InstanceDef::Virtual(x, _) => ("virtual", Some(x)),
                    InstanceDef::FnPtrShim(..) => ("fnptrshim", None),
                    InstanceDef::ClosureOnceShim { .. } => ("closureonce", None),
                    InstanceDef::DropGlue(..) => ("dropglue", None),
                    InstanceDef::CloneShim(..) => ("cloneshim", None),
                    _ => ("other", None),
                };
                o.push(("kind", esc(k)));
                if k == "closureonce" {
                    // The shim for calling a closure by value: run the closure's own body on a reference to it.
                    if let ty::Closure(cd, cs) = inst.substs.types().next().map(|t| &t.sty).unwrap_or(&ty::Never) {
                        let id = self.instance(*cd, cs.substs, env);
                        o.push(("inst", opt(id.map(|i| i.to_string()))));
                    }
                }
                if let Some(x) = target {
                    o.push(("rpath", esc(&self.path(x))));
                    o.push(("rkrate", esc(&tcx.crate_name(x.krate).as_str())));
                    let impl_of = tcx.impl_of_method(x);
                    if let Some(i) = impl_of {
                        let t = tcx.type_of(i).subst(tcx, inst.substs);
                        let t = tcx.erase_regions(&t);
                        let t = self.ty(t).to_string();
                        o.push(("impl_self", t));
                        if let Some(r) = tcx.impl_trait_ref(i) {
                            o.push(("impl_trait", esc(&self.path(r.def_id))));
                        }
                    }
                    if k == "item" {
                        let rargs: Vec<String> = inst.substs.types().map(|t| self.ty(t).to_string()).collect();
                        o.push(("rargs", arr(rargs)));
                        let id = self.instance(x, inst.substs, env);
                        o.push(("inst", opt(id.map(|i| i.to_string()))));
                    }
                }
            }
        }
        obj(o)
    }

    fn body(&mut self, d: DefId, substs: &'tcx Substs<'tcx>, env: ParamEnv<'tcx>) -> String {
        let mir = self.tcx.optimized_mir(d);
        let promoted: Vec<String> = mir.promoted.iter().map(|p| self.one_body(p, substs, env)).collect();
        let b = self.one_body(mir, substs, env);
        let tcx = self.tcx;
        let args: Vec<String> = substs.types().map(|t| self.ty(t).to_string()).collect();
        let impl_of = tcx.impl_of_method(d);
        let impl_trait = impl_of.and_then(|i| tcx.impl_trait_ref(i)).map(|r| esc(&self.path(r.def_id)));
        let impl_self = impl_of.map(|i| { let t = tcx.type_of(i).subst(tcx, substs); let t = tcx.erase_regions(&t); self.ty(t).to_string() });
        b[..b.len() - 1].to_string() + &format!(",\"path\":{},\"krate\":{},\"args\":{},\"impl_trait\":{},\"impl_self\":{},\"name\":{},\"local\":{},\"span\":{},\"closure\":{},\"promoted\":{}}}",
            esc(&self.path(d)), esc(&tcx.crate_name(d.krate).as_str()), arr(args), opt(impl_trait), opt(impl_self),
            esc(&opt_name(tcx, d)),
            boolean(d.is_local()), self.span(tcx.def_span(d)), boolean(tcx.is_closure(d)), arr(promoted))
    }

    fn one_body(&mut self, mir: &Mir<'tcx>, substs: &'tcx Substs<'tcx>, env: ParamEnv<'tcx>) -> String {
        let locals: Vec<String> = mir.local_decls.iter().map(|l| {
            let t = self.mono(l.ty, substs, env);
            // A closure that captures nothing is never assigned: its type is all there is.
            if let ty::Closure(cd, cs) = t.sty { self.instance(cd, cs.substs, env); }
            let t = self.ty(t).to_string();
            obj(vec![("ty", t), ("name", opt(l.name.map(|n| esc(&n.as_str()))))])
        }).collect();
        let mut blocks = vec![];
        for bb in mir.basic_blocks().iter() {
            let mut st = vec![];
            for s in bb.statements.iter() {
                if let Some(x) = self.statement(mir, s, substs, env) { st.push(x); }
            }
            let term = self.terminator(mir, bb.terminator(), substs, env);
            blocks.push(obj(vec![("st", arr(st)), ("t", term), ("cleanup", boolean(bb.is_cleanup))]));
        }
        obj(vec![
            ("argc", mir.arg_count.to_string()),
            ("spread", opt(mir.spread_arg.map(|l| l.index().to_string()))),
            ("locals", arr(locals)),
            ("blocks", arr(blocks)),
        ])
    }

    fn place(&mut self, mir: &Mir<'tcx>, p: &Place<'tcx>, substs: &'tcx Substs<'tcx>, env: ParamEnv<'tcx>) -> String {
        // ["l", n] or ["s", path] or ["p", n], followed by the projections, outermost last.
        let mut projs = vec![];
        let mut cur = p;
        loop {
            match cur {
                Place::Projection(pr) => {
                    let e = match &pr.elem {
                        ProjectionElem::Deref => arr(vec![esc("*")]),
                        ProjectionElem::Field(f, t) => { let t = self.mono(t, substs, env); let t = self.ty(t); arr(vec![esc("f"), f.index().to_string(), t.to_string()]) }
                        ProjectionElem::Index(l) => arr(vec![esc("i"), l.index().to_string()]),
                        ProjectionElem::ConstantIndex { offset, min_length, from_end } =>
                            arr(vec![esc("c"), offset.to_string(), min_length.to_string(), boolean(*from_end)]),
                        ProjectionElem::Subslice { from, to } => arr(vec![esc("sub"), from.to_string(), to.to_string()]),
                        ProjectionElem::Downcast(_, v) => arr(vec![esc("d"), v.index().to_string()]),
                    };
                    let ty = pr.base.ty(mir, self.tcx).to_ty(self.tcx);
                    let ty = self.mono(ty, substs, env);
                    let bt = self.ty(ty);
                    projs.push(e[..e.len() - 1].to_string() + &format!(",{}]", bt));
                    cur = &pr.base;
                }
                _ => break,
            }
        }
        projs.reverse();
        let base = match cur {
            Place::Local(l) => arr(vec![esc("l"), l.index().to_string()]),
            Place::Static(s) => { let t = self.mono(s.ty, substs, env); let v = self.static_value(s.def_id, t); let t = self.ty(t); arr(vec![esc("s"), esc(&self.path(s.def_id)), t.to_string(), v]) }
            Place::Promoted(b) => { let t = self.mono(b.1, substs, env); let t = self.ty(t); arr(vec![esc("p"), b.0.index().to_string(), t.to_string()]) }
            Place::Projection(_) => unreachable!(),
        };
        let ty = p.ty(mir, self.tcx).to_ty(self.tcx);
        let ty = self.mono(ty, substs, env);
        let t = self.ty(ty);
        obj(vec![("b", base), ("p", arr(projs)), ("ty", t.to_string())])
    }

    fn operand(&mut self, mir: &Mir<'tcx>, o: &Operand<'tcx>, substs: &'tcx Substs<'tcx>, env: ParamEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => obj(vec![("copy", self.place(mir, p, substs, env))]),
            Operand::Move(p) => obj(vec![("move", self.place(mir, p, substs, env))]),
            Operand::Constant(c) => {
                let t = self.mono(c.ty, substs, env);
                if let ty::FnDef(d, s) = t.sty {
                    let x = self.callee(d, s, env);
                    let t = self.ty(t);
                    return obj(vec![("fn", x), ("ty", t.to_string())]);
                }
                let s = match c.literal {
                    ty::LazyConst::Evaluated(k) => self.const_val(t, k.val),
                    ty::LazyConst::Unevaluated(d, s) => {
                        let s = s.subst(self.tcx, substs);
                        let s = self.tcx.erase_regions(&s);
                        self.const_item(*d, s, env, t)
                    }
                };
                obj(vec![("const", s)])
            }
        }
    }

    fn statement(&mut self, mir: &Mir<'tcx>, s: &Statement<'tcx>, substs: &'tcx Substs<'tcx>, env: ParamEnv<'tcx>) -> Option<String> {
        let sp = ("sp", self.span(s.source_info.span));
        Some(match &s.kind {
            StatementKind::Assign(p, r) => {
                let p = self.place(mir, p, substs, env);
                let r = self.rvalue(mir, r, substs, env);
                obj(vec![("s", esc("=")), ("p", p), ("r", r), sp])
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let p = self.place(mir, place, substs, env);
                obj(vec![("s", esc("discr")), ("p", p), ("v", variant_index.index().to_string()), sp])
            }
            StatementKind::StorageDead(l) => obj(vec![("s", esc("dead")), ("l", l.index().to_string())]),
            StatementKind::StorageLive(l) => obj(vec![("s", esc("live")), ("l", l.index().to_string())]),
            StatementKind::InlineAsm { .. } => obj(vec![("s", esc("asm")), sp]),
            _ => return None,
        })
    }

    fn rvalue(&mut self, mir: &Mir<'tcx>, r: &Rvalue<'tcx>, substs: &'tcx Substs<'tcx>, env: ParamEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o) => obj(vec![("k", esc("use")), ("o", self.operand(mir, o, substs, env))]),
            Rvalue::Repeat(o, n) => obj(vec![("k", esc("repeat")), ("o", self.operand(mir, o, substs, env)), ("n", n.to_string())]),
            Rvalue::Ref(_, bk, p) => {
                let m = match bk { BorrowKind::Mut { .. } => true, _ => false };
                obj(vec![("k", esc("ref")), ("p", self.place(mir, p, substs, env)), ("mut", boolean(m))])
            }
            Rvalue::Len(p) => obj(vec![("k", esc("len")), ("p", self.place(mir, p, substs, env))]),
            Rvalue::Cast(ck, o, t) => {
                let t = self.mono(t, substs, env);
                let from = o.ty(mir, self.tcx);
                let from = self.mono(from, substs, env);
                let (t, from) = (self.ty(t), self.ty(from));
                obj(vec![("k", esc("cast")), ("c", esc(&format!("{:?}", ck))), ("o", self.operand(mir, o, substs, env)),
                         ("ty", t.to_string()), ("from", from.to_string())])
            }
            Rvalue::BinaryOp(op, a, b) => obj(vec![("k", esc("bin")), ("op", esc(&format!("{:?}", op))),
                ("a", self.operand(mir, a, substs, env)), ("b", self.operand(mir, b, substs, env))]),
            Rvalue::CheckedBinaryOp(op, a, b) => obj(vec![("k", esc("cbin")), ("op", esc(&format!("{:?}", op))),
                ("a", self.operand(mir, a, substs, env)), ("b", self.operand(mir, b, substs, env))]),
            Rvalue::NullaryOp(op, t) => {
                let t = self.mono(t, substs, env);
                let t = self.ty(t);
                obj(vec![("k", esc("nullary")), ("op", esc(&format!("{:?}", op))), ("ty", t.to_string())])
            }
            Rvalue::UnaryOp(op, a) => obj(vec![("k", esc("un")), ("op", esc(&format!("{:?}", op))), ("a", self.operand(mir, a, substs, env))]),
            Rvalue::Discriminant(p) => obj(vec![("k", esc("discr")), ("p", self.place(mir, p, substs, env))]),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<String> = ops.iter().map(|o| self.operand(mir, o, substs, env)).collect();
                let mut o = vec![("k", esc("agg")), ("ops", arr(ops))];
                match **k {
                    AggregateKind::Array(t) => { let t = self.mono(t, substs, env); let t = self.ty(t); o.push(("of", esc("array"))); o.push(("elem", t.to_string())); }
                    AggregateKind::Tuple => o.push(("of", esc("tuple"))),
                    AggregateKind::Adt(def, v, s, _, active) => {
                        let t = self.tcx.mk_adt(def, s);
                        let t = self.mono(t, substs, env);
                        let t = self.ty(t);
                        o.push(("of", esc("adt")));
                        o.push(("ty", t.to_string()));
                        o.push(("v", v.index().to_string()));
                        if let Some(a) = active { o.push(("active", a.to_string())); }
                    }
                    AggregateKind::Closure(d, s) => {
                        let t = self.tcx.mk_closure(d, s);
                        let t = self.mono(t, substs, env);
                        let id = if let ty::Closure(_, cs) = t.sty { self.instance(d, cs.substs, env) } else { None };
                        let t = self.ty(t);
                        o.push(("of", esc("closure")));
                        o.push(("ty", t.to_string()));
                        o.push(("inst", opt(id.map(|i| i.to_string()))));
                    }
                    _ => o.push(("of", esc("other"))),
                }
                obj(o)
            }
        }
    }

    fn terminator(&mut self, mir: &Mir<'tcx>, t: &Terminator<'tcx>, substs: &'tcx Substs<'tcx>, env: ParamEnv<'tcx>) -> String {
        let sp = ("sp", self.span(t.source_info.span));
        let b = |b: &BasicBlock| b.index().to_string();
        match &t.kind {
            TerminatorKind::Goto { target } => obj(vec![("t", esc("goto")), ("to", b(target))]),
            TerminatorKind::SwitchInt { discr, switch_ty, values, targets } => {
                let st = self.mono(switch_ty, substs, env);
                let st = self.ty(st);
                obj(vec![("t", esc("switch")), ("o", self.operand(mir, discr, substs, env)), ("ty", st.to_string()),
                         ("vals", arr(values.iter().map(|v| v.to_string()).collect::<Vec<_>>())),
                         ("to", arr(targets.iter().map(|t| b(t)).collect::<Vec<_>>())), sp])
            }
            TerminatorKind::Resume => obj(vec![("t", esc("resume"))]),
            TerminatorKind::Abort => obj(vec![("t", esc("abort"))]),
            TerminatorKind::Return => obj(vec![("t", esc("return"))]),
            TerminatorKind::Unreachable => obj(vec![("t", esc("unreachable"))]),
            TerminatorKind::Drop { location, target, .. } =>
                obj(vec![("t", esc("drop")), ("p", self.place(mir, location, substs, env)), ("to", b(target)), sp]),
            TerminatorKind::DropAndReplace { location, value, target, .. } =>
                obj(vec![("t", esc("dropreplace")), ("p", self.place(mir, location, substs, env)),
                         ("o", self.operand(mir, value, substs, env)), ("to", b(target)), sp]),
            TerminatorKind::Call { func, args, destination, .. } => {
                let f = self.operand(mir, func, substs, env);
                let a: Vec<String> = args.iter().map(|o| self.operand(mir, o, substs, env)).collect();
                let (dst, to) = match destination {
                    Some((p, t)) => (Some(self.place(mir, p, substs, env)), Some(b(t))),
                    None => (None, None),
                };
                obj(vec![("t", esc("call")), ("f", f), ("a", arr(a)), ("dst", opt(dst)), ("to", opt(to)), sp])
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } =>
                obj(vec![("t", esc("assert")), ("o", self.operand(mir, cond, substs, env)), ("exp", boolean(*expected)),
                         ("msg", esc(&format!("{:?}", msg).chars().take(120).collect::<String>())), ("to", b(target)), sp]),
            TerminatorKind::FalseEdges { real_target, .. } => obj(vec![("t", esc("goto")), ("to", b(real_target))]),
            TerminatorKind::FalseUnwind { real_target, .. } => obj(vec![("t", esc("goto")), ("to", b(real_target))]),
            _ => obj(vec![("t", esc("other")), sp]),
        }
    }
}

/// Whether a call of a trait's method on this type cannot be resolved to an implementation here.
fn unresolvable(t: Ty) -> bool {
    match t.sty {
        ty::Param(_) | ty::Projection(_) | ty::Opaque(..) => true,
        ty::Ref(_, t, _) => unresolvable(t),
        _ => false,
    }
}

fn opt_name(tcx: TyCtxt, d: DefId) -> String {
    tcx.def_key(d).disambiguated_data.data.get_opt_name().map(|s| s.as_str().to_string()).unwrap_or("{{closure}}".to_string())
}

fn normalize<'a, 'tcx>(tcx: TyCtxt<'a, 'tcx, 'tcx>, t: Ty<'tcx>, env: ParamEnv<'tcx>) -> Ty<'tcx> {
    let t = tcx.erase_regions(&t);
    if t.has_projections() && (t.has_param_types() || t.has_self_ty()) { return t; }
    tcx.normalize_erasing_regions(env, t)
}

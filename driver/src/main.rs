//! MIR extractor: a rustc driver, used as RUSTC_WORKSPACE_WRAPPER, which
//! compiles the crate as usual and then writes down, as JSON, the
//! type-checked, drop-elaborated MIR of every function of the crate with all
//! callees resolved. Generic helper functions of `core` (Option, Result, ...)
//! that are reached are written down as well, monomorphised.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;

use json::J;
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{
    with_forced_trimmed_paths, with_no_trimmed_paths, with_no_visible_paths,
    with_resolve_crate_name,
};
use rustc_middle::ty::{
    self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv,
};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

struct Extract;

impl rustc_driver::Callbacks for Extract {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(dir) = std::env::var("KSA_OUT") {
            let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
            let kind = if tcx.crate_types().iter().any(|t| format!("{t:?}") == "Executable") {
                "bin"
            } else {
                "lib"
            };
            let mut cx = Cx::new(tcx);
            cx.run();
            let out = cx.finish(&name, kind);
            let path = format!("{dir}/{name}-{kind}.json");
            std::fs::write(&path, out.to_string()).expect("cannot write KSA output");
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    if std::env::var("KSA_OUT").is_ok() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir".into());
        args.push("--cap-lints=allow".into());
    }
    let code = rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut Extract);
    });
    if code != std::process::ExitCode::SUCCESS {
        std::process::exit(1);
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    queue: VecDeque<Instance<'tcx>>,
    seen: HashSet<Instance<'tcx>>,
    keys: HashMap<Instance<'tcx>, String>,
    used_keys: HashSet<String>,
    bodies: BTreeMap<String, J>,
    adts: BTreeMap<String, J>,
    tys: Vec<J>,
    ty_ids: HashMap<Ty<'tcx>, usize>,
}

fn inline_std(path: &str) -> bool {
    const P: &[&str] = &[
        "core::option::",
        "core::result::",
        "<core::option::Option",
        "<core::result::Result",
        "<core::ops::control_flow::",
        "core::ops::control_flow::",
        "core::bool::",
    ];
    P.iter().any(|p| path.starts_with(p))
}

impl<'tcx> Cx<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Cx {
            tcx,
            queue: VecDeque::new(),
            seen: HashSet::new(),
            keys: HashMap::new(),
            used_keys: HashSet::new(),
            bodies: BTreeMap::new(),
            adts: BTreeMap::new(),
            tys: vec![],
            ty_ids: HashMap::new(),
        }
    }

    fn path(&self, def: DefId) -> String {
        with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!(
            self.tcx.def_path_str(def)
        )))
    }

    fn tystr(&self, ty: Ty<'tcx>) -> String {
        with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!(format!("{ty}"))))
    }

    fn key(&mut self, inst: Instance<'tcx>) -> String {
        if let Some(k) = self.keys.get(&inst) {
            return k.clone();
        }
        let def = inst.def_id();
        let mut k = self.path(def);
        let has_args = inst
            .args
            .iter()
            .any(|a| a.as_type().is_some() || a.as_const().is_some());
        if has_args && !self.tcx.is_closure_like(def) {
            let a: Vec<String> = inst
                .args
                .iter()
                .filter_map(|a| {
                    a.as_type()
                        .map(|t| self.tystr(t))
                        .or_else(|| a.as_const().map(|c| format!("{c:?}")))
                })
                .collect();
            k = format!("{k}<{}>", a.join(","));
        }
        if !matches!(inst.def, InstanceKind::Item(_)) {
            k = format!("{k}#{:?}", inst.def).split('(').next().unwrap_or("").to_string();
        }
        let base = k.clone();
        let mut n = 1;
        while self.used_keys.contains(&k) {
            n += 1;
            k = format!("{base}@{n}");
        }
        self.used_keys.insert(k.clone());
        self.keys.insert(inst, k.clone());
        k
    }

    fn enqueue(&mut self, inst: Instance<'tcx>) {
        if self.seen.insert(inst) {
            self.queue.push_back(inst);
        }
    }

    fn run(&mut self) {
        let tcx = self.tcx;
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|d| tcx.def_span(d.to_def_id()).lo());
        for ldef in keys {
            let def = ldef.to_def_id();
            match tcx.def_kind(def) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                _ => continue,
            }
            if tcx.is_closure_like(def) {
                continue; // reached through their parents
            }
            let generics = tcx.generics_of(def);
            let args = ty::GenericArgs::for_item(tcx, def, |p, _| {
                if let ty::GenericParamDefKind::Lifetime = p.kind {
                    tcx.lifetimes.re_erased.into()
                } else {
                    tcx.mk_param_from_def(p)
                }
            });
            let generic = generics.requires_monomorphization(tcx);
            if generic {
                let inst = Instance { def: InstanceKind::Item(def), args };
                let env = TypingEnv::post_analysis(tcx, def);
                self.dump(inst, env, true);
            } else {
                self.enqueue(Instance { def: InstanceKind::Item(def), args });
            }
        }
        while let Some(inst) = self.queue.pop_front() {
            self.dump(inst, TypingEnv::fully_monomorphized(), false);
        }
    }

    fn span(&self, span: Span) -> J {
        let s = span.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::S(format!("{}:{}", f, lo.line))
    }

    fn macro_crate(&self, span: Span) -> Option<String> {
        let mut s = span;
        let mut last = None;
        while s.from_expansion() {
            let d = s.ctxt().outer_expn_data();
            if let Some(m) = d.macro_def_id {
                last = Some(format!("{}::{}", self.tcx.crate_name(m.krate), d.kind.descr()));
            }
            s = d.call_site;
        }
        last
    }

    fn dump(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, generic: bool) {
        let tcx = self.tcx;
        let def = inst.def_id();
        let body: &Body<'tcx> = tcx.instance_mir(inst.def);
        let body: Body<'tcx> = if generic {
            body.clone()
        } else {
            inst.instantiate_mir_and_normalize_erasing_regions(
                tcx,
                env,
                EarlyBinder::bind(tcx, body.clone()),
            )
        };
        let mut key = self.key(inst);
        if generic {
            key = format!("generic:{key}");
        }
        let mut o = self.body(&body, inst, env, generic);
        o.push(("path", J::S(self.path(def))));
        o.push(("generic", J::B(generic)));
        o.push(("local", J::B(def.is_local())));
        o.push(("span", self.span(tcx.def_span(def))));
        if tcx.is_closure_like(def) {
            o.push(("closure", J::B(true)));
            if let ty::Closure(_, a) = tcx.type_of(def).instantiate_identity().skip_norm_wip().kind() {
                o.push(("closure_kind", J::S(format!("{:?}", a.as_closure().kind()))));
            }
            o.push(("parent", J::S(self.path(tcx.typeck_root_def_id(def)))));
        }
        // automatically derived?
        let mut d = def;
        let mut derived = false;
        loop {
            if matches!(tcx.def_kind(d), DefKind::Impl { .. }) && tcx.is_automatically_derived(d) {
                derived = true;
                break;
            }
            match tcx.opt_parent(d) {
                Some(p) => d = p,
                None => break,
            }
        }
        o.push(("derived", J::B(derived)));
        // promoted
        if let InstanceKind::Item(d) = inst.def {
            if d.is_local() || tcx.is_mir_available(d) {
                let ps = tcx.promoted_mir(d);
                let mut v = vec![];
                for p in ps.iter() {
                    let p: Body<'tcx> = if generic {
                        p.clone()
                    } else {
                        inst.instantiate_mir_and_normalize_erasing_regions(
                            tcx,
                            env,
                            EarlyBinder::bind(tcx, p.clone()),
                        )
                    };
                    v.push(J::o(self.body(&p, inst, env, generic)));
                }
                o.push(("promoted", J::A(v)));
            }
        }
        self.bodies.insert(key, J::o(o));
    }

    fn body(
        &mut self,
        body: &Body<'tcx>,
        inst: Instance<'tcx>,
        env: TypingEnv<'tcx>,
        generic: bool,
    ) -> Vec<(&'static str, J)> {
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (i, l) in body.local_decls.iter_enumerated() {
            let mut v = vec![J::N(self.ty(l.ty) as i128)];
            if let Some(n) = names.get(&i.as_usize()) {
                v.push(J::S(n.clone()));
            }
            locals.push(J::A(v));
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bb.statements {
                if let Some(j) = self.stmt(s, body, inst, env, generic) {
                    st.push(j);
                }
            }
            let t = bb.terminator();
            let mut tj = self.term(t, body, inst, env, generic);
            tj.push(("sp", self.span(t.source_info.span)));
            if let Some(m) = self.macro_crate(t.source_info.span) {
                tj.push(("mac", J::S(m)));
            }
            blocks.push(J::o(vec![
                ("s", J::A(st)),
                ("t", J::o(tj)),
                ("c", J::B(bb.is_cleanup)),
            ]));
        }
        vec![
            ("argc", J::N(body.arg_count as i128)),
            ("spread", match body.spread_arg { Some(l) => J::N(l.as_usize() as i128), None => J::Null }),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ]
    }

    fn stmt(
        &mut self,
        s: &Statement<'tcx>,
        body: &Body<'tcx>,
        inst: Instance<'tcx>,
        env: TypingEnv<'tcx>,
        generic: bool,
    ) -> Option<J> {
        match &s.kind {
            StatementKind::Assign(b) => {
                let (p, r) = &**b;
                Some(J::A(vec![
                    J::S("=".into()),
                    self.place(*p, body),
                    self.rvalue(r, body, inst, env, generic),
                ]))
            }
            StatementKind::SetDiscriminant { place, variant_index } => Some(J::A(vec![
                J::S("setd".into()),
                self.place(**place, body),
                J::N(variant_index.as_usize() as i128),
            ])),
            StatementKind::StorageDead(l) => {
                Some(J::A(vec![J::S("dead".into()), J::N(l.as_usize() as i128)]))
            }
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(_) => None,
                _ => Some(J::A(vec![J::S("intrinsic".into())])),
            },
            _ => None,
        }
    }

    fn place(&mut self, p: Place<'tcx>, body: &Body<'tcx>) -> J {
        let mut v = vec![J::N(p.local.as_usize() as i128)];
        let mut pty = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let next = pty.projection_ty(self.tcx, e);
            let j = match e {
                ProjectionElem::Deref => {
                    let k = match pty.ty.kind() {
                        ty::Ref(_, _, m) | ty::RawPtr(_, m) => {
                            if m.is_mut() {
                                "m"
                            } else {
                                "s"
                            }
                        }
                        _ => "b",
                    };
                    J::A(vec![J::S("*".into()), J::S(k.into())])
                }
                ProjectionElem::Field(f, t) => J::A(vec![
                    J::S(".".into()),
                    J::N(f.as_usize() as i128),
                    J::N(self.ty(t) as i128),
                ]),
                ProjectionElem::Downcast(_, vi) => {
                    J::A(vec![J::S("v".into()), J::N(vi.as_usize() as i128)])
                }
                ProjectionElem::Index(l) => {
                    J::A(vec![J::S("[]".into()), J::N(l.as_usize() as i128)])
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::A(vec![
                    J::S("[c]".into()),
                    J::N(offset as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { .. } => J::A(vec![J::S("[s]".into())]),
                _ => J::A(vec![J::S("?".into())]),
            };
            v.push(j);
            pty = next;
        }
        J::A(v)
    }

    fn operand(
        &mut self,
        op: &Operand<'tcx>,
        body: &Body<'tcx>,
        inst: Instance<'tcx>,
        env: TypingEnv<'tcx>,
        generic: bool,
    ) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![J::S("cp".into()), self.place(*p, body)]),
            Operand::Move(p) => J::A(vec![J::S("mv".into()), self.place(*p, body)]),
            Operand::Constant(c) => self.constant(&c.const_, c.span, inst, env, generic),
            Operand::RuntimeChecks(_) => J::A(vec![J::S("k".into()), J::o(vec![("bool", J::B(false))])]),
        }
    }

    fn constant(
        &mut self,
        c: &Const<'tcx>,
        span: Span,
        _inst: Instance<'tcx>,
        env: TypingEnv<'tcx>,
        generic: bool,
    ) -> J {
        let tcx = self.tcx;
        let ty = c.ty();
        let mut o: Vec<(&'static str, J)> = vec![("ty", J::N(self.ty(ty) as i128))];
        if let Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                o.push(("promoted", J::N(p.as_usize() as i128)));
                return J::A(vec![J::S("k".into()), J::o(o)]);
            }
            o.push(("def", J::S(self.path(u.def))));
        }
        match ty.kind() {
            ty::FnDef(d, a) => {
                let c = self.callee(*d, a.no_bound_vars().unwrap(), env, generic);
                o.push(("fn", c));
                return J::A(vec![J::S("k".into()), J::o(o)]);
            }
            _ => {}
        }
        let pattern = matches!(c, Const::Ty(_, ct) if ct.try_to_value().is_some());
        if !generic || pattern || matches!(c, Const::Val(..)) {
            if let Ok(v) = c.eval(tcx, env, span) {
                self.constval(v, ty, env, &mut o);
            }
        }
        J::A(vec![J::S("k".into()), J::o(o)])
    }

    fn constval(
        &mut self,
        v: ConstValue,
        ty: Ty<'tcx>,
        env: TypingEnv<'tcx>,
        o: &mut Vec<(&'static str, J)>,
    ) {
        let tcx = self.tcx;
        match ty.kind() {
            ty::Bool => {
                if let Some(b) = v.try_to_bool() {
                    o.push(("bool", J::B(b)));
                }
            }
            ty::Int(_) | ty::Uint(_) | ty::Char => {
                if let Some(s) = v.try_to_scalar_int() {
                    let size = s.size();
                    let val: i128 = if matches!(ty.kind(), ty::Int(_)) {
                        s.to_int(size)
                    } else {
                        s.to_uint(size) as i128
                    };
                    o.push(("int", J::N(val)));
                }
            }
            ty::Ref(_, inner, _) if inner.is_str() => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    o.push(("str", J::S(String::from_utf8_lossy(b).to_string())));
                }
            }
            ty::Ref(_, inner, _) if matches!(inner.kind(), ty::Slice(t) if *t == tcx.types.u8) => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    o.push(("bytes", J::A(b.iter().map(|x| J::N(*x as i128)).collect())));
                }
            }
            ty::Ref(_, inner, _) if matches!(inner.kind(), ty::Array(t, _) if *t == tcx.types.u8) => {
                if let Some(mir::interpret::Scalar::Ptr(p, _)) = v.try_to_scalar() {
                    let (prov, off) = p.prov_and_relative_offset();
                    if let mir::interpret::GlobalAlloc::Memory(a) =
                        tcx.global_alloc(prov.alloc_id())
                    {
                        let a = a.inner();
                        let s = off.bytes() as usize;
                        let e = a.len();
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(s..e);
                        o.push(("bytes", J::A(b.iter().map(|x| J::N(*x as i128)).collect())));
                    }
                }
            }
            ty::Adt(adt, _) => {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, ty) {
                    let vi = d.variant.map(|x| x.as_usize()).unwrap_or(0);
                    let mut fs = vec![];
                    for (fv, ft) in d.fields.iter() {
                        let mut fo = vec![("ty", J::N(self.ty(*ft) as i128))];
                        self.constval(*fv, *ft, env, &mut fo);
                        fs.push(J::o(fo));
                    }
                    self.adt(*adt);
                    o.push(("adt", J::S(self.path(adt.did()))));
                    o.push(("variant", J::N(vi as i128)));
                    o.push(("fields", J::A(fs)));
                }
            }
            // a restricted integer, such as the inside of NonZero
            ty::Pat(inner, _) => self.constval(v, *inner, env, o),
            ty::Tuple(ts) if ts.is_empty() => o.push(("unit", J::B(true))),
            ty::Closure(..) => o.push(("closure", J::B(true))),
            _ => {}
        }
    }

    fn ty(&mut self, ty: Ty<'tcx>) -> usize {
        if let Some(i) = self.ty_ids.get(&ty) {
            return *i;
        }
        let id = self.tys.len();
        self.tys.push(J::Null);
        self.ty_ids.insert(ty, id);
        let mut o: Vec<(&'static str, J)> = vec![];
        match ty.kind() {
            ty::Adt(a, args) => {
                self.adt(*a);
                o.push(("k", J::S("adt".into())));
                o.push(("n", J::S(self.path(a.did()))));
                let v: Vec<J> = args
                    .iter()
                    .filter_map(|x| x.as_type())
                    .map(|t| J::N(self.ty(t) as i128))
                    .collect();
                o.push(("a", J::A(v)));
                // substituted field types
                let mut vs = vec![];
                let opaque = !a.did().is_local()
                    && !matches!(
                        self.tcx.crate_name(a.did().krate).as_str(),
                        "core" | "krill_sync"
                    );
                if !opaque {
                    for v in a.variants() {
                        let fs: Vec<J> = v
                            .fields
                            .iter()
                            .map(|f| {
                                let t = f.ty(self.tcx, args).skip_norm_wip();
                                let t = self
                                    .tcx
                                    .try_normalize_erasing_regions(
                                        TypingEnv::fully_monomorphized(),
                                        ty::Unnormalized::new_wip(t),
                                    )
                                    .unwrap_or(t);
                                J::N(self.ty(t) as i128)
                            })
                            .collect();
                        vs.push(J::A(fs));
                    }
                    o.push(("f", J::A(vs)));
                }
            }
            ty::Ref(_, t, m) => {
                o.push(("k", J::S(if m.is_mut() { "refm" } else { "ref" }.into())));
                o.push(("t", J::N(self.ty(*t) as i128)));
            }
            ty::RawPtr(t, _) => {
                o.push(("k", J::S("ptr".into())));
                o.push(("t", J::N(self.ty(*t) as i128)));
            }
            ty::Tuple(ts) => {
                o.push(("k", J::S("tuple".into())));
                let v: Vec<J> = ts.iter().map(|t| J::N(self.ty(t) as i128)).collect();
                o.push(("a", J::A(v)));
            }
            ty::Array(t, _) => {
                o.push(("k", J::S("array".into())));
                o.push(("t", J::N(self.ty(*t) as i128)));
            }
            ty::Slice(t) => {
                o.push(("k", J::S("slice".into())));
                o.push(("t", J::N(self.ty(*t) as i128)));
            }
            ty::Bool => o.push(("k", J::S("bool".into()))),
            ty::Char => o.push(("k", J::S("char".into()))),
            ty::Int(_) | ty::Uint(_) => o.push(("k", J::S("int".into()))),
            ty::Str => o.push(("k", J::S("str".into()))),
            ty::Never => o.push(("k", J::S("never".into()))),
            ty::FnDef(..) => o.push(("k", J::S("fndef".into()))),
            ty::Closure(d, _) => {
                o.push(("k", J::S("closure".into())));
                o.push(("n", J::S(self.path(*d))));
            }
            ty::Dynamic(..) => o.push(("k", J::S("dyn".into()))),
            ty::Param(_) => o.push(("k", J::S("param".into()))),
            _ => o.push(("k", J::S("other".into()))),
        }
        o.push(("s", J::S(self.tystr(ty))));
        self.tys[id] = J::o(o);
        id
    }

    fn adt(&mut self, a: ty::AdtDef<'tcx>) {
        let p = self.path(a.did());
        if self.adts.contains_key(&p) {
            return;
        }
        self.adts.insert(p.clone(), J::Null);
        let mut vs = vec![];
        let discrs: Vec<i128> = if a.is_enum() {
            a.discriminants(self.tcx).map(|(_, d)| {
                // sign extension for small signed discriminants such as Ordering
                let t = d.ty;
                if let ty::Int(it) = t.kind() {
                    let bits = it.bit_width().unwrap_or(64);
                    let v = d.val as i128;
                    let sh = 128 - bits as u32;
                    (v << sh) >> sh
                } else {
                    d.val as i128
                }
            }).collect()
        } else {
            vec![0]
        };
        for (i, v) in a.variants().iter_enumerated() {
            vs.push(J::o(vec![
                ("n", J::S(v.name.to_string())),
                ("d", J::N(*discrs.get(i.as_usize()).unwrap_or(&0))),
                (
                    "f",
                    J::A(v.fields.iter().map(|f| J::S(f.name.to_string())).collect()),
                ),
            ]));
        }
        let j = J::o(vec![
            ("kind", J::S(if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" }.into())),
            ("local", J::B(a.did().is_local())),
            ("v", J::A(vs)),
        ]);
        self.adts.insert(p, j);
    }

    fn callee(
        &mut self,
        def: DefId,
        args: GenericArgsRef<'tcx>,
        env: TypingEnv<'tcx>,
        generic: bool,
    ) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("path", J::S(self.path(def)))];
        let targs: Vec<J> = args
            .iter()
            .filter_map(|a| a.as_type())
            .map(|t| J::N(self.ty(t) as i128))
            .collect();
        o.push(("args", J::A(targs)));
        if let Some(tr) = tcx.trait_of_assoc(def) {
            o.push(("trait", J::S(self.path(tr))));
            o.push(("method", J::S(tcx.item_name(def).to_string())));
        }
        // constructors of tuple structs and variants used as functions
        if let DefKind::Ctor(..) = tcx.def_kind(def) {
            let parent = tcx.parent(def);
            let (adt, vi) = match tcx.def_kind(parent) {
                DefKind::Variant => {
                    let adt = tcx.adt_def(tcx.parent(parent));
                    let vi = adt.variant_index_with_id(parent).as_usize();
                    (adt, vi)
                }
                _ => (tcx.adt_def(parent), 0),
            };
            self.adt(adt);
            o.push(("ctor", J::S(self.path(adt.did()))));
            o.push(("variant", J::N(vi as i128)));
            return J::o(o);
        }
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            Instance::try_resolve(tcx, env, def, args)
        }));
        match res {
            Ok(Ok(Some(inst))) => {
                let rdef = inst.def_id();
                match inst.def {
                    InstanceKind::Virtual(..) => o.push(("virtual", J::B(true))),
                    InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => {
                        o.push(("closure_once", J::B(true)));
                    }
                    _ => {}
                }
                o.push(("rpath", J::S(self.path(rdef))));
                if let Some(im) = tcx.impl_of_assoc(rdef) {
                    let s = tcx.type_of(im).instantiate(tcx, inst.args).skip_norm_wip();
                    o.push(("impl_self", J::S(self.tystr(s))));
                    o.push((
                        "impl_derived",
                        J::B(tcx.is_automatically_derived(im)),
                    ));
                }
                if !generic {
                    if let InstanceKind::Item(d) = inst.def {
                        let p = self.path(d);
                        let local = d.is_local();
                        let root = tcx.typeck_root_def_id(d);
                        let _ = root;
                        let want = local || inline_std(&p);
                        if want
                            && !matches!(tcx.def_kind(d), DefKind::Ctor(..))
                            && tcx.is_mir_available(d)
                        {
                            self.enqueue(inst);
                            let k = self.key(inst);
                            o.push(("key", J::S(k)));
                        } else if tcx.crate_name(d.krate).as_str() == "krill_sync" {
                            // the library, seen from the binary
                            let k = self.key(inst);
                            o.push(("key", J::S(k)));
                        }
                    }
                }
            }
            _ => {}
        }
        J::o(o)
    }

    fn rvalue(
        &mut self,
        r: &Rvalue<'tcx>,
        body: &Body<'tcx>,
        inst: Instance<'tcx>,
        env: TypingEnv<'tcx>,
        generic: bool,
    ) -> J {
        let s = |x: &str| J::S(x.to_string());
        match r {
            Rvalue::Use(op, _) => {
                J::A(vec![s("use"), self.operand(op, body, inst, env, generic)])
            }
            Rvalue::Repeat(op, _) => {
                J::A(vec![s("repeat"), self.operand(op, body, inst, env, generic)])
            }
            Rvalue::Ref(_, bk, p) => J::A(vec![
                s("ref"),
                s(match bk {
                    BorrowKind::Mut { .. } => "m",
                    BorrowKind::Fake(_) => "f",
                    _ => "s",
                }),
                self.place(*p, body),
            ]),
            Rvalue::RawPtr(k, p) => J::A(vec![
                s("ref"),
                s(if format!("{k:?}").contains("Mut") { "m" } else { "s" }),
                self.place(*p, body),
            ]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![
                s("reborrow"),
                s(if m.is_mut() { "m" } else { "s" }),
                self.place(*p, body),
            ]),
            Rvalue::Cast(k, op, t) => J::A(vec![
                s("cast"),
                s(&format!("{k:?}")),
                self.operand(op, body, inst, env, generic),
                J::N(self.ty(*t) as i128),
            ]),
            Rvalue::BinaryOp(b, ops) => J::A(vec![
                s("bin"),
                s(&format!("{b:?}")),
                self.operand(&ops.0, body, inst, env, generic),
                self.operand(&ops.1, body, inst, env, generic),
            ]),
            Rvalue::UnaryOp(u, op) => J::A(vec![
                s("un"),
                s(&format!("{u:?}")),
                self.operand(op, body, inst, env, generic),
            ]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let ti = self.ty(t);
                J::A(vec![s("disc"), self.place(*p, body), J::N(ti as i128)])
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> =
                    ops.iter().map(|o| self.operand(o, body, inst, env, generic)).collect();
                let (kind, extra, vi) = match &**k {
                    AggregateKind::Array(_) => ("array", J::Null, 0),
                    AggregateKind::Tuple => ("tuple", J::Null, 0),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let a = self.tcx.adt_def(*d);
                        self.adt(a);
                        ("adt", J::S(self.path(*d)), vi.as_usize())
                    }
                    AggregateKind::Closure(d, a) => {
                        let i = Instance::new_raw(*d, a);
                        if generic {
                            let k = format!("generic:{}", self.key(i));
                            self.dump_generic_closure(i);
                            ("closure", J::S(k), 0)
                        } else {
                            self.enqueue(i);
                            let k = self.key(i);
                            ("closure", J::S(k), 0)
                        }
                    }
                    _ => ("other", J::Null, 0),
                };
                J::A(vec![s("agg"), s(kind), extra, J::N(vi as i128), J::A(v)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![
                s("use"),
                J::A(vec![s("cp"), self.place(*p, body)]),
            ]),
            _ => J::A(vec![s("other"), s(&format!("{r:?}"))]),
        }
    }

    fn dump_generic_closure(&mut self, i: Instance<'tcx>) {
        if self.seen.insert(i) {
            let env = TypingEnv::post_analysis(self.tcx, i.def_id());
            self.dump(i, env, true);
        }
    }

    fn term(
        &mut self,
        t: &Terminator<'tcx>,
        body: &Body<'tcx>,
        inst: Instance<'tcx>,
        env: TypingEnv<'tcx>,
        generic: bool,
    ) -> Vec<(&'static str, J)> {
        let s = |x: &str| J::S(x.to_string());
        let bb = |b: BasicBlock| J::N(b.as_usize() as i128);
        match &t.kind {
            TerminatorKind::Goto { target, .. } => vec![("k", s("goto")), ("to", bb(*target))],
            TerminatorKind::SwitchInt { discr, targets } => {
                let ty = discr.ty(body, self.tcx);
                let signed = match ty.kind() {
                    ty::Int(it) => Some(it.bit_width().unwrap_or(64)),
                    _ => None,
                };
                let v: Vec<J> = targets
                    .iter()
                    .map(|(v, b)| {
                        let mut x = v as i128;
                        if let Some(bits) = signed {
                            let sh = 128 - bits as u32;
                            x = (x << sh) >> sh;
                        }
                        J::A(vec![J::N(x), bb(b)])
                    })
                    .collect();
                vec![
                    ("k", s("switch")),
                    ("d", self.operand(discr, body, inst, env, generic)),
                    ("ty", J::N(self.ty(ty) as i128)),
                    ("v", J::A(v)),
                    ("else", bb(targets.otherwise())),
                ]
            }
            TerminatorKind::Return => vec![("k", s("ret"))],
            TerminatorKind::Unreachable => vec![("k", s("unreachable"))],
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(body, self.tcx).ty;
                vec![
                    ("k", s("drop")),
                    ("p", self.place(*place, body)),
                    ("ty", J::N(self.ty(ty) as i128)),
                    ("to", bb(*target)),
                ]
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = func.ty(body, self.tcx);
                let callee = match fty.kind() {
                    ty::FnDef(d, a) => self.callee(*d, a.no_bound_vars().unwrap(), env, generic),
                    _ => J::o(vec![("dyn", self.operand(func, body, inst, env, generic))]),
                };
                let a: Vec<J> = args
                    .iter()
                    .map(|x| self.operand(&x.node, body, inst, env, generic))
                    .collect();
                let at: Vec<J> = args
                    .iter()
                    .map(|x| {
                        let t = x.node.ty(body, self.tcx);
                        J::N(self.ty(t) as i128)
                    })
                    .collect();
                let dty = destination.ty(body, self.tcx).ty;
                vec![
                    ("k", s("call")),
                    ("f", callee),
                    ("a", J::A(a)),
                    ("at", J::A(at)),
                    ("dst", self.place(*destination, body)),
                    ("dty", J::N(self.ty(dty) as i128)),
                    ("to", match target { Some(b) => bb(*b), None => J::Null }),
                ]
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => vec![
                ("k", s("assert")),
                ("c", self.operand(cond, body, inst, env, generic)),
                ("e", J::B(*expected)),
                ("msg", s(&format!("{msg:?}").split('(').next().unwrap_or("").to_string())),
                ("to", bb(*target)),
            ],
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                vec![("k", s("resume"))]
            }
            TerminatorKind::FalseEdge { real_target, .. } => {
                vec![("k", s("goto")), ("to", bb(*real_target))]
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                vec![("k", s("goto")), ("to", bb(*real_target))]
            }
            k => vec![("k", s("other")), ("x", s(&format!("{k:?}")))],
        }
    }

    fn finish(self, name: &str, kind: &str) -> J {
        let _ = with_forced_trimmed_paths!(0);
        J::o(vec![
            ("crate", J::S(name.to_string())),
            ("kind", J::S(kind.to_string())),
            ("bodies", J::M(self.bodies.into_iter().collect())),
            ("adts", J::M(self.adts.into_iter().collect())),
            ("tys", J::A(self.tys)),
        ])
    }
}

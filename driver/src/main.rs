// Fact extractor: runs the compiler front end on one crate and dumps the
// type-checked program (MIR with resolved callees, evaluated constants, types,
// ADTs, statics) as JSON.  It never runs the code.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;

use rustc_abi::{FieldIdx, VariantIdx};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::interpret::{AllocId, AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, PrintTraitRefExt};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};

struct Cb {
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_expansion<'tcx>(
        &mut self,
        _c: &interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let mut cx = Cx::new(tcx);
        cx.run();
        let j = cx.finish();
        let mut s = String::new();
        j.write(&mut s);
        std::fs::write(&self.out, s).expect("write facts");
        rustc_driver::Compilation::Continue
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tmap: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    adt_seen: HashSet<DefId>,
    adt_queue: Vec<DefId>,
    fns: Vec<J>,
    files: Vec<String>,
    fmap: HashMap<String, usize>,
    queue: VecDeque<(Instance<'tcx>, usize)>,
    seen: HashSet<String>,
    consts: BTreeMap<String, J>,
    statics: Vec<J>,
    impls: Vec<J>,
}

fn s<T: ToString>(x: T) -> J {
    J::S(x.to_string())
}
fn n<T: TryInto<i128>>(x: T) -> J {
    J::N(x.try_into().ok().unwrap_or(-1))
}

impl<'tcx> Cx<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        Cx {
            tcx,
            types: vec![],
            tmap: HashMap::new(),
            adts: BTreeMap::new(),
            adt_seen: HashSet::new(),
            adt_queue: vec![],
            fns: vec![],
            files: vec![],
            fmap: HashMap::new(),
            queue: VecDeque::new(),
            seen: HashSet::new(),
            consts: BTreeMap::new(),
            statics: vec![],
            impls: vec![],
        }
    }
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn krate(&self, d: DefId) -> String {
        self.tcx.crate_name(d.krate).to_string()
    }
    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(t.to_string())
    }
    fn key(&self, inst: Instance<'tcx>) -> String {
        let d = inst.def_id();
        let base = self.path(d);
        let args: Vec<String> = inst
            .args
            .iter()
            .filter(|a| a.as_region().is_none())
            .map(|a| with_no_trimmed_paths!(a.to_string()))
            .collect();
        if args.is_empty() {
            base
        } else {
            format!("{}::<{}>", base, args.join(", "))
        }
    }
    fn loc(&mut self, sp: Span) -> (usize, usize, bool) {
        let exp = sp.from_expansion();
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        let f = match &l.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_else(|| format!("{:?}", l.file.name)),
            o => format!("{:?}", o),
        };
        let id = *self.fmap.entry(f.clone()).or_insert_with(|| {
            self.files.push(f);
            self.files.len() - 1
        });
        (id, l.line, exp)
    }
    fn macro_name(&self, sp: Span) -> Option<String> {
        let mut r = None;
        for e in sp.macro_backtrace() {
            if let rustc_span::ExpnKind::Macro(_, name) = e.kind {
                r = Some(name.to_string());
            }
        }
        r
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tmap.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(J::Null);
        self.tmap.insert(t, id);
        let tcx = self.tcx;
        let mut m: Vec<(&str, J)> = vec![];
        macro_rules! k {
            ($e:expr) => {
                m.push(("k", s($e)))
            };
        }
        m.push(("n", s(self.tystr(t))));
        match *t.kind() {
            ty::Bool => k!("bool"),
            ty::Char => k!("char"),
            ty::Str => k!("str"),
            ty::Never => k!("never"),
            ty::Int(i) => {
                k!("int");
                m.push(("s", n(1)));
                m.push(("b", n(i.bit_width().unwrap_or(64) as i128)));
            }
            ty::Uint(i) => {
                k!("int");
                m.push(("s", n(0)));
                m.push(("b", n(i.bit_width().unwrap_or(64) as i128)));
            }
            ty::Float(f) => {
                k!("float");
                m.push(("b", n(f.bit_width() as i128)));
            }
            ty::Adt(def, args) => {
                k!("adt");
                m.push(("d", s(self.path(def.did()))));
                m.push(("cr", s(self.krate(def.did()))));
                let a: Vec<J> = args.types().map(|t| n(self.ty(t) as i128)).collect();
                m.push(("a", J::A(a)));
                if self.adt_seen.insert(def.did()) {
                    self.adt_queue.push(def.did());
                }
                // instantiated field types for fully known types
                if !t.has_param() && def.variants().len() <= 64 {
                    let mut vs = vec![];
                    for v in def.variants() {
                        let fs: Vec<J> = v
                            .fields
                            .iter()
                            .map(|f| {
                                let ft = tcx
                                    .try_normalize_erasing_regions(
                                        ty::TypingEnv::fully_monomorphized(),
                                        f.ty(tcx, args),
                                    )
                                    .unwrap_or_else(|_| tcx.types.unit);
                                n(self.ty(ft) as i128)
                            })
                            .collect();
                        vs.push(J::A(fs));
                    }
                    m.push(("v", J::A(vs)));
                }
            }
            ty::RawPtr(i, mu) => {
                k!("ptr");
                m.push(("m", n(mu.is_mut() as i128)));
                let x = self.ty(i);
                m.push(("t", n(x as i128)));
            }
            ty::Ref(_, i, mu) => {
                k!("ref");
                m.push(("m", n(mu.is_mut() as i128)));
                let x = self.ty(i);
                m.push(("t", n(x as i128)));
            }
            ty::Slice(i) => {
                k!("slice");
                let x = self.ty(i);
                m.push(("t", n(x as i128)));
            }
            ty::Array(i, len) => {
                k!("array");
                let x = self.ty(i);
                m.push(("t", n(x as i128)));
                if let Some(l) = len.try_to_target_usize(tcx) {
                    m.push(("len", n(l as i128)));
                }
            }
            ty::Tuple(ts) => {
                k!("tuple");
                let a: Vec<J> = ts.iter().map(|t| n(self.ty(t) as i128)).collect();
                m.push(("ts", J::A(a)));
            }
            ty::FnDef(d, ga) => {
                k!("fndef");
                m.push(("d", s(self.path(d))));
                if !t.has_param() {
                    let ga = tcx.erase_and_anonymize_regions(ga.no_bound_vars().unwrap_or_else(|| ga.skip_binder()));
                    let te = ty::TypingEnv::fully_monomorphized();
                    if let Ok(Some(inst)) = Instance::try_resolve(tcx, te, d, ga) {
                        m.push(("rs", s(self.path(inst.def_id()))));
                        m.push(("rk", s(self.key(inst))));
                        if matches!(inst.def, InstanceKind::Item(_)) {
                            self.queue.push_back((inst, 1));
                        }
                    }
                }
            }
            ty::FnPtr(..) => k!("fnptr"),
            ty::Closure(d, args) => {
                k!("closure");
                m.push(("d", s(self.path(d))));
                if !t.has_param() {
                    let a: Vec<J> = args
                        .as_closure()
                        .upvar_tys()
                        .iter()
                        .map(|t| n(self.ty(t) as i128))
                        .collect();
                    m.push(("ts", J::A(a)));
                }
            }
            ty::Coroutine(d, _) => {
                k!("coroutine");
                m.push(("d", s(self.path(d))));
            }
            ty::Dynamic(..) => k!("dyn"),
            ty::Param(_) => k!("param"),
            _ => k!("other"),
        }
        if !t.has_param() && !t.has_escaping_bound_vars() && !t.has_aliases() && !t.walk().any(|g| g.as_type().map_or(false, |x| matches!(x.kind(), ty::Coroutine(..) | ty::CoroutineWitness(..)))) {
            if let Ok(l) =
                tcx.layout_of(ty::TypingEnv::fully_monomorphized().as_query_input(t))
            {
                if l.is_sized() {
                    m.push(("sz", n(l.size.bytes() as i128)));
                }
            }
        }
        self.types[id] = J::o(m);
        id
    }
    fn drain_adts(&mut self) {
        while let Some(d) = self.adt_queue.pop() {
            let tcx = self.tcx;
            let def = tcx.adt_def(d);
            let mut vs = vec![];
            let discrs: Vec<i128> = if def.is_enum() {
                def.discriminants(tcx).map(|(_, dd)| {
                    let sz = tcx.layout_of(ty::TypingEnv::fully_monomorphized().as_query_input(dd.ty)).map(|l| l.size.bits()).unwrap_or(128);
                    if dd.ty.is_signed() && sz < 128 {
                        let sh = 128 - sz;
                        ((dd.val as i128) << sh) >> sh
                    } else { dd.val as i128 }
                }).collect()
            } else {
                vec![0]
            };
            for (i, v) in def.variants().iter().enumerate() {
                let mut fs = vec![];
                for f in &v.fields {
                    let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let tid = self.ty(ft);
                    fs.push(J::o(vec![
                        ("n", s(f.name)),
                        ("t", n(tid as i128)),
                        ("pub", J::B(f.vis.is_public())),
                    ]));
                }
                vs.push(J::o(vec![
                    ("n", s(v.name)),
                    ("d", n(discrs.get(i).copied().unwrap_or(i as i128))),
                    ("f", J::A(fs)),
                ]));
            }
            let mut m = vec![
                ("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
                ("v", J::A(vs)),
                ("crate", s(self.krate(d))),
                ("c", J::B(def.repr().c())),
            ];
            if let Some(dt) = tcx.adt_destructor(d) {
                m.push(("drop", s(self.path(dt.did))));
            }
            if d.is_local() {
                let (f, l, _) = self.loc(tcx.def_span(d));
                m.push(("loc", J::A(vec![n(f as i128), n(l as i128)])));
            }
            let p = self.path(d);
            self.adts.insert(p, J::o(m));
        }
    }

    // ---------- constants ----------
    fn read_mem(&mut self, id: AllocId, off: u64, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let te = ty::TypingEnv::fully_monomorphized();
        let lay = match tcx.layout_of(te.as_query_input(t)) {
            Ok(l) => l,
            Err(_) => return J::o(vec![("x", s("nolayout"))]),
        };
        let alloc = match tcx.try_get_global_alloc(id) {
            Some(GlobalAlloc::Memory(a)) => a,
            Some(GlobalAlloc::Static(d)) => return J::o(vec![("staticmem", s(self.path(d)))]),
            _ => return J::o(vec![("x", s("noalloc"))]),
        };
        if lay.is_zst() {
            return self.const_val(ConstValue::ZeroSized, t, depth);
        }
        let rng = |o: u64, l: u64| AllocRange {
            start: rustc_abi::Size::from_bytes(o),
            size: rustc_abi::Size::from_bytes(l),
        };
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                match alloc.inner().read_scalar(&tcx, rng(off, lay.size.bytes()), false) {
                    Ok(sc) => self.const_val(ConstValue::Scalar(sc), t, depth),
                    Err(_) => J::o(vec![("x", s("uninit"))]),
                }
            }
            ty::RawPtr(i, _) | ty::Ref(_, i, _) => {
                let ptr = alloc.inner().read_scalar(&tcx, rng(off, 8), true);
                let sc = match ptr {
                    Ok(p) => p,
                    Err(_) => return J::o(vec![("x", s("uninit"))]),
                };
                if lay.size.bytes() == 16 && matches!(i.kind(), ty::Str | ty::Slice(_)) {
                    let meta = alloc
                        .inner()
                        .read_scalar(&tcx, rng(off + 8, 8), false)
                        .ok()
                        .and_then(|m| m.to_u64().discard_err())
                        .unwrap_or(0);
                    if let Scalar::Ptr(p, _) = sc {
                        let (prov, o) = p.prov_and_relative_offset();
                        return self.slice_at(prov.alloc_id(), o.bytes(), meta, i, depth);
                    }
                    return J::o(vec![("x", s("emptyslice"))]);
                }
                self.const_val(ConstValue::Scalar(sc), t, depth)
            }
            ty::FnPtr(..) => match alloc.inner().read_scalar(&tcx, rng(off, 8), true) {
                Ok(sc) => self.const_val(ConstValue::Scalar(sc), t, depth),
                Err(_) => J::o(vec![("x", s("uninit"))]),
            },
            _ => self.const_val(
                ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::from_bytes(off) },
                t,
                depth,
            ),
        }
    }
    fn slice_at(&mut self, id: AllocId, off: u64, meta: u64, elem: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if elem.is_str() || matches!(elem.kind(), ty::Slice(e) if *e == tcx.types.u8) {
            if let Some(GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(id) {
                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                    off as usize..(off + meta) as usize,
                );
                return if elem.is_str() {
                    J::o(vec![("str", s(String::from_utf8_lossy(b)))])
                } else {
                    J::o(vec![("bytes", J::A(b.iter().map(|x| n(*x as i128)).collect()))])
                };
            }
            return J::o(vec![("x", s("slice"))]);
        }
        let e = match elem.kind() {
            ty::Slice(e) => *e,
            _ => return J::o(vec![("x", s("dst"))]),
        };
        let sz = tcx
            .layout_of(ty::TypingEnv::fully_monomorphized().as_query_input(e))
            .map(|l| l.size.bytes())
            .unwrap_or(0);
        let mut v = vec![];
        for i in 0..meta.min(65536) {
            v.push(self.read_mem(id, off + i * sz, e, depth + 1));
        }
        J::o(vec![("sl", J::A(v))])
    }
    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 {
            return J::o(vec![("x", s("deep"))]);
        }
        match *t.kind() {
            ty::FnDef(d, args) => {
                let ga = match args.no_bound_vars() { Some(a) => a, None => tcx.erase_and_anonymize_regions(args.skip_binder()) };
                return self.fn_const(d, ga);
            }
            _ => {}
        }
        match v {
            ConstValue::ZeroSized => {
                if let ty::Adt(def, _) = t.kind() {
                    if def.is_enum() {
                        return self.destructure(v, t, depth);
                    }
                }
                J::o(vec![("zst", n(1))])
            }
            ConstValue::Scalar(Scalar::Int(i)) => {
                let size = i.size();
                let bits = i.to_bits(size);
                if let ty::Adt(..) | ty::Tuple(..) | ty::Array(..) = t.kind() {
                    return self.destructure(v, t, depth);
                }
                if let ty::Float(f) = t.kind() {
                    let val = match f.bit_width() {
                        32 => f32::from_bits(bits as u32) as f64,
                        64 => f64::from_bits(bits as u64),
                        _ => 0.0,
                    };
                    return J::o(vec![("fl", s(format!("{:?}", val))), ("bits", n(bits as i128))]);
                }
                let val = if t.is_signed() && size.bits() < 128 {
                    let sh = 128 - size.bits();
                    ((bits as i128) << sh) >> sh
                } else {
                    bits as i128
                };
                J::o(vec![("v", J::N(val))])
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                let id = prov.alloc_id();
                match tcx.try_get_global_alloc(id) {
                    Some(GlobalAlloc::Function { instance }) => {
                        J::o(vec![("fnptr", s(self.path(instance.def_id()))), ("fkey", s(self.key(instance)))])
                    }
                    Some(GlobalAlloc::Static(d)) => J::o(vec![("static", s(self.path(d)))]),
                    Some(GlobalAlloc::Memory(_)) => {
                        if let ty::Adt(..) | ty::Tuple(..) = t.kind() {
                            return self.destructure(v, t, depth);
                        }
                        match t.builtin_deref(true) {
                            Some(inner) => {
                                let x = self.read_mem(id, off.bytes(), inner, depth + 1);
                                let it = self.ty(inner);
                                J::o(vec![("ref", x), ("rt", n(it as i128))])
                            }
                            None => J::o(vec![("x", s("ptr"))]),
                        }
                    }
                    _ => J::o(vec![("x", s("ptr2"))]),
                }
            }
            ConstValue::Slice { alloc_id, meta } => match t.builtin_deref(true) {
                Some(inner) => self.slice_at(alloc_id, 0, meta, inner, depth),
                None => J::o(vec![("x", s("slice"))]),
            },
            ConstValue::Indirect { alloc_id, offset } => match t.kind() {
                ty::Adt(..) | ty::Tuple(..) => self.destructure(v, t, depth),
                ty::Array(e, l) => {
                    let len = l.try_to_target_usize(tcx).unwrap_or(0);
                    let sz = tcx
                        .layout_of(ty::TypingEnv::fully_monomorphized().as_query_input(*e))
                        .map(|l| l.size.bytes())
                        .unwrap_or(0);
                    let mut out = vec![];
                    for i in 0..len.min(65536) {
                        let x = self.read_mem(alloc_id, offset.bytes() + i * sz, *e, depth + 1);
                        out.push(match x {
                            J::O(ref m) if m.len() == 1 && m[0].0 == "v" => m[0].1.clone(),
                            x => x,
                        });
                    }
                    J::o(vec![("arr", J::A(out))])
                }
                ty::RawPtr(..) | ty::Ref(..) | ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_)
                | ty::Float(_) => self.read_mem(alloc_id, offset.bytes(), t, depth + 1),
                _ => J::o(vec![("x", s("indirect"))]),
            },
        }
    }
    fn destructure(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        match self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
            Some(d) => {
                let fs: Vec<J> = d
                    .fields
                    .iter()
                    .map(|(cv, ct)| match cv {
                        ConstValue::Indirect { alloc_id, offset } => {
                            self.read_mem(*alloc_id, offset.bytes(), *ct, depth + 1)
                        }
                        _ => self.const_val(*cv, *ct, depth + 1),
                    })
                    .collect();
                let tid = self.ty(t);
                J::o(vec![
                    ("var", n(d.variant.map(|x| x.as_usize() as i128).unwrap_or(0))),
                    ("f", J::A(fs)),
                    ("ct", n(tid as i128)),
                ])
            }
            None => J::o(vec![("x", s("destructure"))]),
        }
    }
    fn fn_const(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let a: Vec<J> = args.types().map(|t| n(self.ty(t) as i128)).collect();
        J::o(vec![("fn", s(self.path(d))), ("fa", J::A(a))])
    }
    fn konst(&mut self, c: Const<'tcx>, te: ty::TypingEnv<'tcx>) -> J {
        let t = c.ty();
        let tid = self.ty(t);
        let mut m: Vec<(&str, J)> = vec![("t", n(tid as i128))];
        let mut named = None;
        if let Const::Unevaluated(u, _) = c {
            // an associated constant of a generic item has one value per instance: never shared by name
            if u.promoted.is_none() && u.args.types().next().is_none() && u.args.consts().next().is_none() {
                named = Some(self.path(u.def));
                m.push(("name", s(named.clone().unwrap())));
            }
        }
        if let ty::FnDef(..) = t.kind() {
            m.push(("c", self.const_val(ConstValue::ZeroSized, t, 0)));
            return J::o(m);
        }
        // a promoted of an async body or closure of a non-generic function only mentions the
        // body's synthetic parameters; it evaluates without them
        let synthetic = match c {
            Const::Unevaluated(u, _) => {
                let root = self.tcx.typeck_root_def_id(u.def);
                u.promoted.is_some() && root != u.def && self.tcx.generics_of(root).count() == 0 && !t.has_param()
            }
            _ => false,
        };
        if c.has_param() && !synthetic && !matches!(c, Const::Val(..)) {
            m.push(("c", J::o(vec![("param", s(with_no_trimmed_paths!(format!("{}", c))))])));
            return J::o(m);
        }
        if let Some(nm) = &named {
            if self.consts.contains_key(nm) {
                m.push(("cn", n(1)));
                return J::o(m);
            }
        }
        let v = match c.eval(self.tcx, te, rustc_span::DUMMY_SP) {
            Ok(v) => self.const_val(v, t, 0),
            Err(_) => J::o(vec![("x", s("eval"))]),
        };
        if let (Some(nm), false) = (&named, c.has_param()) {
            self.consts.insert(nm.clone(), J::o(vec![("t", n(tid as i128)), ("c", v)]));
            m.push(("cn", n(1)));
        } else {
            m.push(("c", v));
        }
        J::o(m)
    }

    // ---------- MIR ----------
    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut v = vec![n(p.local.as_usize() as i128)];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let x = match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, _) => {
                    let nm = self.field_name(pt, f);
                    J::A(vec![s("."), n(f.as_usize() as i128), s(nm)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("[]"), n(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => J::A(vec![
                    s("[c]"),
                    n(offset as i128),
                    n(from_end as i128),
                    n(min_length as i128),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("[s]"), n(from as i128), n(to as i128), n(from_end as i128)])
                }
                ProjectionElem::Downcast(_, vi) => {
                    J::A(vec![s("as"), n(vi.as_usize() as i128)])
                }
                _ => J::A(vec![s("?")]),
            };
            v.push(x);
            pt = pt.projection_ty(tcx, e);
        }
        J::A(v)
    }
    fn field_name(&self, pt: mir::PlaceTy<'tcx>, f: FieldIdx) -> String {
        if let ty::Adt(def, _) = pt.ty.kind() {
            let vi = pt.variant_index.unwrap_or(VariantIdx::from_usize(0));
            if let Some(v) = def.variants().get(vi) {
                if let Some(fd) = v.fields.get(f) {
                    return fd.name.to_string();
                }
            }
        }
        f.as_usize().to_string()
    }
    fn op(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, te: ty::TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p, body)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p, body)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(c.const_, te)]),
            #[allow(unreachable_patterns)]
            x => J::A(vec![s("rt"), s(format!("{:?}", x))]),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, te: ty::TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.op(o, body, te)]),
            Rvalue::Repeat(o, c) => {
                let o = self.op(o, body, te);
                let l = c.try_to_target_usize(self.tcx);
                J::A(vec![s("rep"), o, l.map(|x| n(x as i128)).unwrap_or(J::Null)])
            }
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    BorrowKind::Mut { .. } => "mut",
                    BorrowKind::Fake(_) => "fake",
                    _ => "shr",
                };
                J::A(vec![s("ref"), s(m), self.place(p, body)])
            }
            Rvalue::Reborrow(_, _, p) => J::A(vec![s("ref"), s("mut"), self.place(p, body)]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), s("raw"), self.place(p, body)]),
            Rvalue::Cast(k, o, t) => {
                let ft = o.ty(&body.local_decls, self.tcx);
                let o = self.op(o, body, te);
                let ti = self.ty(*t);
                let fi = self.ty(ft);
                J::A(vec![s("cast"), s(format!("{:?}", k)), o, n(ti as i128), n(fi as i128)])
            }
            Rvalue::BinaryOp(b, x) => {
                let lt = x.0.ty(&body.local_decls, self.tcx);
                let lt = self.ty(lt);
                let a = self.op(&x.0, body, te);
                let c = self.op(&x.1, body, te);
                J::A(vec![s("bin"), s(format!("{:?}", b)), a, c, n(lt as i128)])
            }
            Rvalue::UnaryOp(u, o) => {
                let lt = o.ty(&body.local_decls, self.tcx);
                let lt = self.ty(lt);
                let o = self.op(o, body, te);
                J::A(vec![s("un"), s(format!("{:?}", u)), o, n(lt as i128)])
            }
            Rvalue::Discriminant(p) => {
                let pt = p.ty(&body.local_decls, self.tcx).ty;
                let pt = self.ty(pt);
                J::A(vec![s("disc"), self.place(p, body), n(pt as i128)])
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|o| self.op(o, body, te)).collect();
                let t = r.ty(&body.local_decls, self.tcx);
                let tid = self.ty(t);
                let kk = match **k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, _, _, af) => J::A(vec![
                        s("adt"),
                        s(self.path(d)),
                        n(v.as_usize() as i128),
                        af.map(|x| n(x.as_usize() as i128)).unwrap_or(J::Null),
                    ]),
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(self.path(d))]),
                    AggregateKind::Coroutine(d, _) => J::A(vec![s("coroutine"), s(self.path(d))]),
                    AggregateKind::CoroutineClosure(d, _) => {
                        J::A(vec![s("coroclosure"), s(self.path(d))])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                };
                J::A(vec![s("agg"), kk, J::A(os), n(tid as i128)])
            }
            Rvalue::CopyForDeref(p) => {
                J::A(vec![s("use"), J::A(vec![s("c"), self.place(p, body)])])
            }
            _ => J::A(vec![s("other"), s(format!("{:?}", r))]),
        }
    }
    fn body(&mut self, body: &Body<'tcx>, te: ty::TypingEnv<'tcx>, depth: usize, mono: bool) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &data.statements {
                let (_f, line, _) = self.loc(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0, body);
                        let r = self.rvalue(&b.1, body, te);
                        st.push(J::A(vec![s("="), p, r, n(line as i128)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, body);
                        st.push(J::A(vec![
                            s("sd"),
                            p,
                            n(variant_index.as_usize() as i128),
                            n(line as i128),
                        ]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![s("dead"), n(l.as_usize() as i128)]))
                    }
                    StatementKind::StorageLive(l) => {
                        st.push(J::A(vec![s("live"), n(l.as_usize() as i128)]))
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => {
                            let o = self.op(o, body, te);
                            st.push(J::A(vec![s("assume"), o, n(line as i128)]))
                        }
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let a = self.op(&c.src, body, te);
                            let b = self.op(&c.dst, body, te);
                            let d = self.op(&c.count, body, te);
                            st.push(J::A(vec![s("copynonov"), a, b, d, n(line as i128)]))
                        }
                    },
                    _ => {}
                }
            }
            let t = match &data.terminator {
                Some(t) => t,
                None => {
                    blocks.push(J::o(vec![("s", J::A(st)), ("t", J::Null)]));
                    continue;
                }
            };
            let (_f, line, _) = self.loc(t.source_info.span);
            let mac = self.macro_name(t.source_info.span);
            let mut m: Vec<(&str, J)> = vec![];
            let bbn = |b: &BasicBlock| n(b.as_usize() as i128);
            let unw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => n(b.as_usize() as i128),
                _ => J::Null,
            };
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    m.push(("k", s("goto")));
                    m.push(("t", bbn(target)));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    m.push(("k", s("switch")));
                    let dt = discr.ty(&body.local_decls, tcx);
                    m.push(("d", self.op(discr, body, te)));
                    let bits = match dt.kind() {
                        ty::Int(_) => tcx
                            .layout_of(te.as_query_input(dt))
                            .map(|l| l.size.bits())
                            .unwrap_or(0),
                        _ => 0,
                    };
                    let tv: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| {
                            let val = if bits > 0 && bits < 128 {
                                let sh = 128 - bits;
                                ((v as i128) << sh) >> sh
                            } else {
                                v as i128
                            };
                            J::A(vec![J::N(val), bbn(&b)])
                        })
                        .collect();
                    m.push(("v", J::A(tv)));
                    m.push(("o", bbn(&targets.otherwise())));
                    let x = self.ty(dt);
                    m.push(("dt", n(x as i128)));
                }
                TerminatorKind::Return => m.push(("k", s("ret"))),
                TerminatorKind::Unreachable => m.push(("k", s("unreach"))),
                TerminatorKind::UnwindResume => m.push(("k", s("resume"))),
                TerminatorKind::UnwindTerminate(_) => m.push(("k", s("uterm"))),
                TerminatorKind::CoroutineDrop => m.push(("k", s("cdrop"))),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    m.push(("k", s("drop")));
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    m.push(("p", self.place(place, body)));
                    let x = self.ty(pt);
                    m.push(("pt", n(x as i128)));
                    m.push(("t", bbn(target)));
                    m.push(("u", unw(unwind)));
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    m.push(("k", s("call")));
                    let ft = func.ty(&body.local_decls, tcx);
                    match *ft.kind() {
                        ty::FnDef(d, ga) => {
                            let ga_s = match ga.no_bound_vars() { Some(a) => a, None => tcx.erase_and_anonymize_regions(ga.skip_binder()) };
                            m.push(("fn", s(self.path(d))));
                            let a: Vec<J> =
                                ga_s.types().map(|t| n(self.ty(t) as i128)).collect();
                            m.push(("fa", J::A(a)));
                            m.push(("fcr", s(self.krate(d))));
                            if let Some(it) = tcx.intrinsic(d) {
                                m.push(("intr", s(it.name)));
                            }
                            let ga2 = tcx.erase_and_anonymize_regions(ga_s);
                            if let Ok(Some(inst)) = Instance::try_resolve(tcx, te, d, ga2) {
                                m.push(("rs", s(self.path(inst.def_id()))));
                                let key = self.key(inst);
                                m.push(("key", s(&key)));
                                m.push(("rcr", s(self.krate(inst.def_id()))));
                                let kind = match inst.def {
                                    InstanceKind::Item(_) => "item".to_string(),
                                    InstanceKind::Intrinsic(_) => "intr".to_string(),
                                    InstanceKind::Virtual(..) => "virtual".to_string(),
                                    InstanceKind::Shim(k) => {
                                        let z = format!("{:?}", k);
                                        z.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("shim").to_string()
                                    }
                                    _ => "other".to_string(),
                                };
                                m.push(("ik", s(kind)));
                                if mono && !inst.args.has_param() {
                                    self.queue.push_back((inst, depth + 1));
                                }
                            }
                        }
                        _ => {
                            m.push(("fp", self.op(func, body, te)));
                        }
                    }
                    let a: Vec<J> = args.iter().map(|a| self.op(&a.node, body, te)).collect();
                    m.push(("a", J::A(a)));
                    m.push(("d", self.place(destination, body)));
                    m.push(("t", target.as_ref().map(bbn).unwrap_or(J::Null)));
                    m.push(("u", unw(unwind)));
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    m.push(("k", s("assert")));
                    m.push(("c", self.op(cond, body, te)));
                    m.push(("e", J::B(*expected)));
                    let mk = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(_) => "overflow:neg".to_string(),
                        AssertKind::DivisionByZero(_) => "div0".to_string(),
                        AssertKind::RemainderByZero(_) => "rem0".to_string(),
                        AssertKind::MisalignedPointerDereference { .. } => "misaligned".to_string(),
                        AssertKind::NullPointerDereference => "null".to_string(),
                        o => format!("{:?}", o).chars().take(40).collect(),
                    };
                    m.push(("mk", s(mk)));
                    m.push(("t", bbn(target)));
                    m.push(("u", unw(unwind)));
                }
                TerminatorKind::Yield { value, resume, resume_arg, drop } => {
                    m.push(("k", s("yield")));
                    m.push(("v", self.op(value, body, te)));
                    m.push(("t", bbn(resume)));
                    m.push(("d", self.place(resume_arg, body)));
                    m.push(("u", drop.as_ref().map(bbn).unwrap_or(J::Null)));
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    m.push(("k", s("goto")));
                    m.push(("t", bbn(real_target)));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    m.push(("k", s("goto")));
                    m.push(("t", bbn(real_target)));
                }
                o => {
                    m.push(("k", s("other")));
                    m.push(("x", s(format!("{:?}", o))));
                }
            }
            m.push(("l", n(line as i128)));
            if let Some(mm) = mac {
                m.push(("mac", s(mm)));
            }
            let mut b = vec![("s", J::A(st)), ("t", J::o(m))];
            if data.is_cleanup {
                b.push(("c", n(1)));
            }
            blocks.push(J::o(b));
        }
        let locals: Vec<J> =
            body.local_decls.iter().map(|d| n(self.ty(d.ty) as i128)).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pj = self.place(p, body);
                names.push(J::A(vec![s(v.name), pj, v.argument_index.map(|x| n(x as i128)).unwrap_or(J::Null)]));
            }
        }
        vec![
            ("argc", n(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ]
    }
    fn meta(&mut self, d: DefId) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut m: Vec<(&'static str, J)> = vec![];
        let (f, l, _) = self.loc(tcx.def_span(d));
        m.push(("file", n(f as i128)));
        m.push(("line", n(l as i128)));
        m.push(("crate", s(self.krate(d))));
        if let Some(ld) = d.as_local() {
            m.push(("local", n(1)));
            let dk = tcx.def_kind(d);
            if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
                m.push(("reach", J::B(tcx.effective_visibilities(()).is_reachable(ld))));
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
                m.push(("abi", s(format!("{:?}", sig.abi()))));
                m.push(("unsafe", J::B(format!("{:?}", sig.safety()).contains("Unsafe"))));
                let at = tcx.codegen_fn_attrs(d);
                let nm = at.symbol_name.is_some()
                    || at.flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE);
                m.push(("nomangle", J::B(nm)));
            }
            m.push(("dk", s(format!("{:?}", dk))));
            if let Some(p) = tcx.opt_parent(d) {
                if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    m.push(("self", s(self.tystr(st))));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                        m.push(("trait", s(with_no_trimmed_paths!(tr.print_only_trait_path().to_string()))));
                    }
                }
            }
        }
        m
    }
    fn emit_fn(&mut self, key: String, d: DefId, body: &Body<'tcx>, te: ty::TypingEnv<'tcx>, depth: usize, mono: bool, extra: Vec<(&'static str, J)>) {
        let mut m: Vec<(&'static str, J)> = vec![("key", s(&key)), ("path", s(self.path(d)))];
        m.extend(self.meta(d));
        m.extend(extra);
        let b = self.body(body, te, depth, mono);
        m.extend(b);
        self.fns.push(J::o(m));
    }
    fn run(&mut self) {
        let tcx = self.tcx;
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        // 1: coroutine bodies before the state transform
        let mut coro: Vec<(LocalDefId, Body<'tcx>)> = vec![];
        for &d in &owners {
            let dk = tcx.def_kind(d);
            if matches!(dk, DefKind::Closure) && tcx.is_coroutine(d.to_def_id()) {
                let b = tcx.mir_promoted(d).0.borrow().clone();
                coro.push((d, b));
            }
        }
        for (d, b) in coro {
            let b = self.erase(b);
            let te = ty::TypingEnv::post_analysis(tcx, d.to_def_id());
            let key = self.path(d.to_def_id());
            self.seen.insert(key.clone());
            self.emit_fn(key, d.to_def_id(), &b, te, 0, true, vec![("coroutine", n(1))]);
        }
        // 2: all other local bodies
        for &d in &owners {
            let dk = tcx.def_kind(d);
            let did = d.to_def_id();
            if !matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                continue;
            }
            if tcx.is_coroutine(did) {
                continue;
            }
            let body = tcx.mir_drops_elaborated_and_const_checked(d).borrow().clone();
            let body = self.erase(body);
            let te = ty::TypingEnv::post_analysis(tcx, did);
            let key = self.path(did);
            let generic = tcx.generics_of(did).requires_monomorphization(tcx);
            self.seen.insert(key.clone());
            let ex = vec![("generic", J::B(generic))];
            self.emit_fn(key, did, &body, te, 0, !generic || matches!(dk, DefKind::Closure), ex);
        }
        // 3: constants and statics
        for d in tcx.hir_crate_items(()).definitions() {
            let did = d.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    if tcx.generics_of(did).requires_monomorphization(tcx) {
                        continue;
                    }
                    if tcx.def_kind(tcx.parent(did)) == DefKind::Trait {
                        continue;
                    }
                    let nm = self.path(did);
                    if self.consts.contains_key(&nm) {
                        continue;
                    }
                    let c = Const::from_unevaluated(tcx, did).instantiate_identity().skip_norm_wip();
                    let te = ty::TypingEnv::fully_monomorphized();
                    let _ = self.konst(c, te);
                }
                DefKind::Static { mutability, nested, .. } => {
                    if nested {
                        continue;
                    }
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let tid = self.ty(t);
                    let (f, l, _) = self.loc(tcx.def_span(did));
                    let freeze = t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized());
                    let val = match tcx.eval_static_initializer(did) {
                        Ok(a) => {
                            let id = tcx.reserve_and_set_memory_alloc(a);
                            self.read_mem(id, 0, t, 0)
                        }
                        Err(_) => J::Null,
                    };
                    let tl = tcx.is_thread_local_static(did);
                    self.statics.push(J::o(vec![
                        ("name", s(self.path(did))),
                        ("t", n(tid as i128)),
                        ("mut", J::B(mutability.is_mut())),
                        ("freeze", J::B(freeze)),
                        ("tls", J::B(tl)),
                        ("file", n(f as i128)),
                        ("line", n(l as i128)),
                        ("c", val),
                    ]));
                }
                DefKind::Impl { of_trait: true } => {
                    let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let (f, l, _) = self.loc(tcx.def_span(did));
                    let r = J::o(vec![
                        ("trait", s(with_no_trimmed_paths!(tr.print_only_trait_path().to_string()))),
                        ("self", s(self.tystr(st))),
                        ("file", n(f as i128)),
                        ("line", n(l as i128)),
                    ]);
                    self.impls.push(r);
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    if self.adt_seen.insert(did) {
                        self.adt_queue.push(did);
                    }
                }
                _ => {}
            }
        }
        // 4: needed instances of generic code (library combinators, local generics)
        let maxd: usize = 10;
        while let Some((inst, depth)) = self.queue.pop_front() {
            if depth > maxd {
                continue;
            }
            let did = inst.def_id();
            let kr = self.krate(did);
            let local = did.is_local();
            if !local && !matches!(kr.as_str(), "core" | "alloc" | "std") {
                continue;
            }
            match inst.def {
                InstanceKind::Item(_) => {}
                _ => continue,
            }
            let key = self.key(inst);
            if self.seen.contains(&key) {
                continue;
            }
            self.seen.insert(key.clone());
            if !local {
                let p = self.path(did);
                if p.contains("panicking") || p.contains("fmt::") || p.contains("std::io")
                    || p.contains("::sync::") || p.contains("std::fs") || p.contains("std::thread")
                    || p.contains("raw_vec") || p.contains("std::sys") || p.contains("core_arch")
                    || p.contains("std::backtrace") || p.contains("alloc::alloc")
                {
                    continue;
                }
                if !tcx.is_mir_available(did) {
                    continue;
                }
            } else if tcx.is_foreign_item(did) || !tcx.is_mir_available(did) || !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                continue;
            }
            if tcx.is_coroutine(did) {
                continue;
            }
            let te = ty::TypingEnv::fully_monomorphized();
            let body: Body<'tcx> = if local {
                tcx.mir_drops_elaborated_and_const_checked(did.expect_local()).borrow().clone()
            } else {
                tcx.instance_mir(inst.def).clone()
            };
            let body = inst.instantiate_mir_and_normalize_erasing_regions(
                tcx,
                te,
                ty::EarlyBinder::bind(tcx, body),
            );
            let a: Vec<J> = inst.args.types().map(|t| n(self.ty(t) as i128)).collect();
            self.emit_fn(key, did, &body, te, depth, true, vec![("inst", J::A(a))]);
        }
    }
    fn erase(&self, b: Body<'tcx>) -> Body<'tcx> {
        self.tcx.erase_and_anonymize_regions(b)
    }
    fn finish(mut self) -> J {
        self.drain_adts();
        let consts = J::O(std::mem::take(&mut self.consts).into_iter().collect());
        let adts = J::O(std::mem::take(&mut self.adts).into_iter().collect());
        let da = self.tcx.sess.opts.debug_assertions;
        J::o(vec![
            ("crate", s(self.tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE))),
            ("debug_assertions", J::B(da)),
            ("files", J::A(self.files.iter().map(|f| s(f)).collect())),
            ("types", J::A(std::mem::take(&mut self.types))),
            ("adts", adts),
            ("consts", consts),
            ("statics", J::A(std::mem::take(&mut self.statics))),
            ("impls", J::A(std::mem::take(&mut self.impls))),
            ("fns", J::A(std::mem::take(&mut self.fns))),
        ])
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as the first argument
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let get = |f: &str| args.iter().position(|a| a == f).and_then(|i| args.get(i + 1)).cloned();
    let name = get("--crate-name");
    let ctype = get("--crate-type").unwrap_or_default();
    let outdir = std::env::var("FACTS_OUT").ok();
    let is_probe = name.is_none()
        || name.as_deref() == Some("___")
        || args.iter().any(|a| a == "--print" || a.starts_with("--print=") || a == "-vV");
    if let (Some(dir), Some(nm), false) = (outdir, name, is_probe) {
        let out = format!("{}/{}.{}.json", dir, nm, if ctype == "bin" { "bin" } else { "lib" });
        if std::env::var("FACTS_RELEASE").is_ok() {
            args.push("-Cdebug-assertions=off".into());
        }
        let mut cb = Cb { out };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        struct Nop;
        impl rustc_driver::Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}

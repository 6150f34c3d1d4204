//! MIR -> JSON.
use crate::json::J;
use rustc_hir as hir;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc};
use rustc_middle::mir::*;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::ty::{self, GenericArgKind, Ty, TyCtxt, TypingEnv, Upcast};
use rustc_trait_selection::infer::InferCtxtExt;
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet};

struct Cx<'tcx> {
  tcx: TyCtxt<'tcx>,
  tys: Vec<J>,
  ty_ids: HashMap<Ty<'tcx>, usize>,
  defs: BTreeMap<String, J>,
  adts_seen: HashSet<DefId>,
  adts: Vec<(String, J)>,
}

fn tcx_crate_name(m: DefId) -> String {
  ty::tls::with(|tcx| tcx.crate_name(m.krate).to_string())
}

/// spans of the user-written `unsafe` blocks of one body
struct UnsafeBlocks(Vec<Span>);

impl<'v> Visitor<'v> for UnsafeBlocks {
  fn visit_block(&mut self, b: &'v hir::Block<'v>) {
    if matches!(b.rules, hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided)) {
      // not those in expansions of the standard library's macros
      let m = b.span.ctxt().outer_expn_data().macro_def_id;
      let name = m.map(|m| tcx_crate_name(m)).unwrap_or_default();
      if !matches!(name.as_str(), "std" | "core" | "alloc") {
        self.0.push(b.span);
      }
    }
    intravisit::walk_block(self, b);
  }
}

pub fn dump(tcx: TyCtxt<'_>) -> String {
  let mut cx = Cx {
    tcx,
    tys: vec![],
    ty_ids: HashMap::new(),
    defs: BTreeMap::new(),
    adts_seen: HashSet::new(),
    adts: vec![],
  };
  let mut bodies = vec![];
  let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
  keys.sort_by_key(|d| tcx.def_path(d.to_def_id()).to_string_no_crate_verbose());
  for d in keys {
    let id = d.to_def_id();
    let body = match tcx.def_kind(id) {
      DefKind::Fn | DefKind::AssocFn | DefKind::Closure => tcx.optimized_mir(id),
      DefKind::Ctor(..) => continue,
      _ => tcx.mir_for_ctfe(id),
    };
    bodies.push(cx.body(id, body, None));
    for (i, p) in tcx.promoted_mir(id).iter_enumerated() {
      bodies.push(cx.body(id, p, Some(i.as_usize())));
    }
  }
  // trait impls and traits of the local crate
  let mut impls = vec![];
  for id in tcx.hir_crate_items(()).definitions() {
    let id = id.to_def_id();
    match tcx.def_kind(id) {
      DefKind::Impl { .. } => impls.push(cx.impl_(id)),
      DefKind::Struct | DefKind::Enum | DefKind::Union => cx.adt(id),
      DefKind::Trait => {
        cx.def(id);
      }
      _ => {}
    }
  }
  let mut traits = vec![];
  for id in tcx.hir_crate_items(()).definitions() {
    let id = id.to_def_id();
    if tcx.def_kind(id) == DefKind::Trait {
      let items = tcx
        .associated_items(id)
        .in_definition_order()
        .map(|i| {
          J::Arr(vec![
            J::s(i.opt_name().map(|n| n.to_string()).unwrap_or_default()),
            J::s(cx.def(i.def_id)),
            J::Bool(i.defaultness(tcx).has_value()),
          ])
        })
        .collect();
      traits.push(J::Obj(vec![
        ("key", J::s(cx.def(id))),
        ("items", J::Arr(items)),
        ("generics", cx.generics(id)),
      ]));
    }
  }
  let cfg: Vec<String> = tcx
    .sess
    .config
    .iter()
    .filter_map(|(k, v)| v.as_ref().map(|v| format!("{k}={v}")))
    .filter(|s| s.starts_with("feature="))
    .collect();
  let mut cfg = cfg;
  cfg.sort();
  let mut o = String::new();
  let files: Vec<J> = tcx
    .sess
    .source_map()
    .files()
    .iter()
    .map(|f| J::s(f.name.prefer_local_unconditionally()))
    .collect();
  J::Obj(vec![
    ("crate", J::s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE))),
    ("cfg", J::Arr(cfg.into_iter().map(J::Str).collect())),
    ("files", J::Arr(files)),
    ("bodies", J::Arr(bodies)),
    ("impls", J::Arr(impls)),
    ("traits", J::Arr(traits)),
    ("adts", J::Map(std::mem::take(&mut cx.adts))),
    ("defs", J::Map(std::mem::take(&mut cx.defs).into_iter().collect())),
    ("tys", J::Arr(std::mem::take(&mut cx.tys))),
  ])
  .write(&mut o);
  o
}

impl<'tcx> Cx<'tcx> {
  fn key(&self, id: DefId) -> String {
    format!(
      "{}{}",
      self.tcx.crate_name(id.krate),
      self.tcx.def_path(id).to_string_no_crate_verbose()
    )
  }

  fn def(&mut self, id: DefId) -> String {
    let key = self.key(id);
    if self.defs.contains_key(&key) {
      return key;
    }
    self.defs.insert(key.clone(), J::Null);
    let tcx = self.tcx;
    let kind = tcx.def_kind(id);
    let path = ty::print::with_no_trimmed_paths!(tcx.def_path_str(id));
    let mut o = vec![
      ("path", J::s(path)),
      ("kind", J::s(format!("{kind:?}"))),
      ("name", J::s(tcx.opt_item_name(id).map(|n| n.to_string()).unwrap_or_default())),
      ("local", J::Bool(id.is_local())),
      ("line", if id.is_local() { self.span(tcx.def_span(id)) } else { J::Null }),
    ];
    if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
      let unsafe_ = tcx.fn_sig(id).skip_binder().safety().is_unsafe();
      o.push(("unsafe", J::Bool(unsafe_)));
      o.push(("generics", self.generics(id)));
    }
    if let Some(item) = tcx.opt_associated_item(id) {
      let parent = tcx.parent(id);
      if tcx.def_kind(parent) == DefKind::Trait {
        let t = self.def(parent);
        o.push(("trait", J::s(t)));
        o.push(("has_default", J::Bool(item.defaultness(tcx).has_value())));
      } else if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
        let p = self.key(parent);
        o.push(("impl", J::s(p)));
        let self_ty = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
        let t = self.ty(self_ty);
        o.push(("impl_self", J::Num(t as i128)));
        if of_trait {
          let tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
          let t = self.def(tr.def_id);
          o.push(("impl_trait", J::s(t)));
        }
      }
    }
    self.defs.insert(key.clone(), J::Obj(o));
    key
  }

  fn generics(&self, id: DefId) -> J {
    let mut v = vec![];
    let mut g = Some(self.tcx.generics_of(id));
    let mut chain = vec![];
    while let Some(x) = g {
      chain.push(x);
      g = x.parent.map(|p| self.tcx.generics_of(p));
    }
    for x in chain.iter().rev() {
      for p in &x.own_params {
        let k = match p.kind {
          ty::GenericParamDefKind::Lifetime => "lt",
          ty::GenericParamDefKind::Type { .. } => "ty",
          ty::GenericParamDefKind::Const { .. } => "const",
        };
        v.push(J::Arr(vec![J::s(p.name), J::s(k)]));
      }
    }
    J::Arr(v)
  }

  fn impl_(&mut self, id: DefId) -> J {
    let tcx = self.tcx;
    let mut o = vec![("key", J::s(self.key(id))), ("generics", self.generics(id))];
    let DefKind::Impl { of_trait } = tcx.def_kind(id) else { unreachable!() };
    if of_trait {
      let tr = tcx.impl_trait_ref(id).instantiate_identity().skip_norm_wip();
      let t = self.def(tr.def_id);
      o.push(("trait", J::s(t)));
      let a = self.args(tr.args);
      o.push(("args", a));
      let safety = tcx.impl_trait_header(id).safety;
      o.push(("unsafe", J::Bool(safety.is_unsafe())));
    }
    let self_ty = tcx.type_of(id).instantiate_identity().skip_norm_wip();
    let t = self.ty(self_ty);
    o.push(("self", J::Num(t as i128)));
    o.push(("derived", J::Bool(tcx.is_automatically_derived(id))));
    let mut items = vec![];
    for i in tcx.associated_items(id).in_definition_order() {
      let k = self.def(i.def_id);
      let t = i.trait_item_def_id().map(|t| self.def(t));
      let mut e = vec![
        J::s(i.opt_name().map(|n| n.to_string()).unwrap_or_default()),
        J::s(k),
        t.map(J::Str).unwrap_or(J::Null),
      ];
      if matches!(i.kind, ty::AssocKind::Type { .. }) {
        let t = tcx.type_of(i.def_id).instantiate_identity().skip_norm_wip();
        e.push(J::Num(self.ty(t) as i128));
      }
      items.push(J::Arr(e));
    }
    o.push(("items", J::Arr(items)));
    o.push(("line", self.span(tcx.def_span(id))));
    J::Obj(o)
  }

  /// whether a local type and its fields are Send if its parameters are, and Sync if they are
  fn auto(&mut self, id: DefId) -> J {
    let tcx = self.tcx;
    let Some(local) = id.as_local() else { return J::Null };
    let mut o = vec![(
      "public",
      J::Bool(tcx.effective_visibilities(()).is_reachable(local)),
    )];
    let own = tcx.type_of(id).instantiate_identity().skip_norm_wip();
    let args = ty::GenericArgs::identity_for_item(tcx, id);
    let mut fields = vec![];
    for v in tcx.adt_def(id).variants() {
      for f in &v.fields {
        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
        fields.push((format!("{}::{}", v.name, f.name), t));
      }
    }
    // what the type is made of that the user chooses: parameters and what they project to
    let mut parts: Vec<Ty<'tcx>> = args.types().collect();
    for (_, t) in &fields {
      for g in t.walk() {
        if let Some(t) = g.as_type() {
          if matches!(t.kind(), ty::Alias(..)) && !parts.contains(&t) {
            parts.push(t);
          }
        }
      }
    }
    let send = tcx.get_diagnostic_item(rustc_span::sym::Send);
    let sync = tcx.get_diagnostic_item(rustc_span::sym::Sync);
    let (Some(send), Some(sync)) = (send, sync) else { return J::Null };
    for (name, want, given) in [
      ("send", send, vec![send]),
      ("sync", sync, vec![sync]),
      ("send_if_both", send, vec![send, sync]),
      ("sync_if_both", sync, vec![send, sync]),
    ] {
      let mut clauses: Vec<ty::Clause<'tcx>> = tcx.param_env(id).caller_bounds().collect();
      for t in &parts {
        for g in &given {
          clauses.push(ty::TraitRef::new(tcx, *g, [*t]).upcast(tcx));
        }
      }
      let env = ty::ParamEnv::new(tcx, clauses);
      let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
      let holds = |t: Ty<'tcx>| infcx.type_implements_trait(want, [t], env).must_apply_modulo_regions();
      let bad: Vec<J> = fields.iter().filter(|(_, t)| !holds(*t)).map(|(n, _)| J::s(n)).collect();
      o.push((name, J::Arr(vec![J::Bool(holds(own)), J::Arr(bad)])));
    }
    o.push(("line", self.span(tcx.def_span(id))));
    J::Obj(o)
  }

  fn adt(&mut self, id: DefId) {
    if !self.adts_seen.insert(id) {
      return;
    }
    let tcx = self.tcx;
    let def = tcx.adt_def(id);
    let key = self.def(id);
    let mut vs = vec![];
    for (vi, v) in def.variants().iter_enumerated() {
      let discr = if def.is_enum() {
        J::Num(def.discriminant_for_variant(tcx, vi).val as i128)
      } else {
        J::Num(0)
      };
      let mut fs = vec![];
      for f in &v.fields {
        let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
        let vis = match f.vis {
          ty::Visibility::Public => J::s("pub"),
          ty::Visibility::Restricted(d) => J::s(self.key(d.to_def_id())),
        };
        fs.push(J::Arr(vec![J::s(f.name), J::Num(self.ty(t) as i128), vis]));
      }
      vs.push(J::Obj(vec![("name", J::s(v.name)), ("discr", discr), ("fields", J::Arr(fs))]));
    }
    let kind = if def.is_enum() {
      "enum"
    } else if def.is_union() {
      "union"
    } else {
      "struct"
    };
    let j = J::Obj(vec![
      ("kind", J::s(kind)),
      ("generics", self.generics(id)),
      ("variants", J::Arr(vs)),
      ("auto", self.auto(id)),
      ("has_dtor", J::Bool(def.has_dtor(tcx))),
    ]);
    self.adts.push((key, j));
  }

  fn args(&mut self, args: &[ty::GenericArg<'tcx>]) -> J {
    J::Arr(
      args
        .iter()
        .map(|a| match a.kind() {
          GenericArgKind::Lifetime(_) => J::s("'"),
          GenericArgKind::Type(t) => J::Num(self.ty(t) as i128),
          GenericArgKind::Const(c) => self.tyconst(c),
        })
        .collect(),
    )
  }

  fn tyconst(&mut self, c: ty::Const<'tcx>) -> J {
    match c.kind() {
      ty::ConstKind::Param(p) => J::Arr(vec![J::s("cparam"), J::s(p.name), J::Num(p.index as i128)]),
      _ => match c.try_to_target_usize(self.tcx) {
        Some(n) => J::Arr(vec![J::s("cval"), J::Num(n as i128)]),
        None => J::Arr(vec![J::s("cother"), J::s(format!("{c:?}"))]),
      },
    }
  }

  fn ty(&mut self, t: Ty<'tcx>) -> usize {
    if let Some(i) = self.ty_ids.get(&t) {
      return *i;
    }
    let id = self.tys.len();
    self.ty_ids.insert(t, id);
    self.tys.push(J::Null);
    let n = |x: usize| J::Num(x as i128);
    let j = match *t.kind() {
      ty::Bool => vec![J::s("bool")],
      ty::Char => vec![J::s("char")],
      ty::Str => vec![J::s("str")],
      ty::Never => vec![J::s("never")],
      ty::Int(i) => vec![J::s("int"), J::s(i.name_str())],
      ty::Uint(i) => vec![J::s("int"), J::s(i.name_str())],
      ty::Float(f) => vec![J::s("float"), J::s(f.name_str())],
      ty::Adt(d, a) => {
        self.adt(d.did());
        let k = self.def(d.did());
        vec![J::s("adt"), J::s(k), self.args(a)]
      }
      ty::Array(e, l) => {
        let e = self.ty(e);
        vec![J::s("array"), n(e), self.tyconst(l)]
      }
      ty::Slice(e) => vec![J::s("slice"), n(self.ty(e))],
      ty::RawPtr(e, m) => vec![J::s("ptr"), n(self.ty(e)), J::Bool(m.is_mut())],
      ty::Ref(_, e, m) => vec![J::s("ref"), n(self.ty(e)), J::Bool(m.is_mut())],
      ty::FnDef(d, a) => {
        let k = self.def(d.into());
        vec![J::s("fndef"), J::s(k), self.args(a.skip_binder())]
      }
      ty::FnPtr(..) => vec![J::s("fnptr"), J::s(format!("{t:?}"))],
      ty::Closure(d, a) => {
        let k = self.def(d.into());
        let c = a.as_closure();
        let up: Vec<J> = c.upvar_tys().iter().map(|t| J::Num(self.ty(t) as i128)).collect();
        let kind = c.kind_ty().to_opt_closure_kind().map(|k| format!("{k:?}")).unwrap_or_default();
        vec![J::s("closure"), J::s(k), self.args(c.parent_args()), J::Arr(up), J::s(kind)]
      }
      ty::Tuple(ts) => {
        let v = ts.iter().map(|t| J::Num(self.ty(t) as i128)).collect();
        vec![J::s("tuple"), J::Arr(v)]
      }
      ty::Param(p) => vec![J::s("param"), J::s(p.name), J::Num(p.index as i128)],
      ty::Alias(_, ref a) => {
        let (k, args) = self.alias(a);
        vec![J::s("alias"), J::s(k), args]
      }
      _ => vec![J::s("other"), J::s(format!("{t:?}"))],
    };
    let mut j = j;
    if !matches!(t.kind(), ty::Closure(..)) && j.len() < 6 {
      // human readable rendering, for reports
      while j.len() < 4 {
        j.push(J::Null);
      }
      j.push(J::s(ty::print::with_no_trimmed_paths!(format!("{t}"))));
    } else {
      j.push(J::s("closure"));
    }
    self.tys[id] = J::Arr(j);
    id
  }

  fn span(&self, s: Span) -> J {
    let sm = self.tcx.sess.source_map();
    let outer = s.source_callsite();
    let lo = sm.lookup_char_pos(s.lo());
    let olo = sm.lookup_char_pos(outer.lo());
    let f = format!("{}", olo.file.name.prefer_local_unconditionally());
    // prefer the innermost location if it lies in the same file (macro_rules of this file)
    let lf = format!("{}", lo.file.name.prefer_local_unconditionally());
    let line = if lf == f { lo.line } else { olo.line };
    J::Arr(vec![J::Str(f), J::Num(line as i128)])
  }

  fn line(&self, s: Span) -> J {
    let sm = self.tcx.sess.source_map();
    let lo = sm.lookup_char_pos(s.lo());
    let olo = sm.lookup_char_pos(s.source_callsite().lo());
    let same = lo.file.name == olo.file.name;
    J::Num(if same { lo.line } else { olo.line } as i128)
  }

  fn body(&mut self, id: DefId, b: &Body<'tcx>, promoted: Option<usize>) -> J {
    let tcx = self.tcx;
    let env = TypingEnv::post_analysis(tcx, id);
    let key = self.def(id);
    let mut names: HashMap<Local, String> = HashMap::new();
    for v in &b.var_debug_info {
      if let VarDebugInfoContents::Place(p) = v.value {
        if p.projection.is_empty() {
          names.insert(p.local, v.name.to_string());
        }
      }
    }
    let locals: Vec<J> = b
      .local_decls
      .iter_enumerated()
      .map(|(l, d)| {
        J::Arr(vec![
          J::Num(self.ty(d.ty) as i128),
          names.get(&l).map(|n| J::s(n)).unwrap_or(J::Null),
        ])
      })
      .collect();
    let blocks: Vec<J> = b
      .basic_blocks
      .iter()
      .map(|bb| {
        let mut stmts = vec![];
        for s in &bb.statements {
          if let Some(j) = self.stmt(env, b, s) {
            stmts.push(j);
          }
        }
        let t = self.term(env, b, bb.terminator());
        J::Obj(vec![("s", J::Arr(stmts)), ("t", t), ("c", J::Bool(bb.is_cleanup))])
      })
      .collect();
    let mut o = vec![
      ("key", J::s(key)),
      ("promoted", promoted.map(|i| J::Num(i as i128)).unwrap_or(J::Null)),
      ("kind", J::s(format!("{:?}", tcx.def_kind(id)))),
      ("generics", self.generics(id)),
      ("argc", J::Num(b.arg_count as i128)),
      ("locals", J::Arr(locals)),
      ("blocks", J::Arr(blocks)),
      ("span", self.span(b.span)),
      ("spread", b.spread_arg.map(|l| J::Num(l.as_usize() as i128)).unwrap_or(J::Null)),
    ];
    if promoted.is_none() {
      let mut v = UnsafeBlocks(vec![]);
      if let Some(b) = id.as_local().and_then(|l| tcx.hir_maybe_body_owned_by(l)) {
        v.visit_body(b);
      }
      if matches!(tcx.def_kind(id), DefKind::Fn | DefKind::AssocFn)
        && tcx.fn_sig(id).skip_binder().safety().is_unsafe()
      {
        v.0.push(b.span);
      }
      let mut u = vec![];
      for s in v.0 {
        u.push(J::Arr(vec![self.line(s), self.line(s.shrink_to_hi())]));
      }
      if !u.is_empty() {
        o.push(("unsafe", J::Arr(u)));
      }
    }
    if tcx.def_kind(id) == DefKind::Closure {
      let p = self.def(tcx.parent(id));
      o.push(("parent", J::s(p)));
    }
    J::Obj(o)
  }

  fn place(&mut self, p: &Place<'tcx>) -> J {
    let mut v = vec![J::Num(p.local.as_usize() as i128)];
    for e in p.projection.iter() {
      v.push(match e {
        ProjectionElem::Deref => J::s("*"),
        ProjectionElem::Field(f, t) => {
          J::Arr(vec![J::s("f"), J::Num(f.as_usize() as i128), J::Num(self.ty(t) as i128)])
        }
        ProjectionElem::Index(l) => J::Arr(vec![J::s("i"), J::Num(l.as_usize() as i128)]),
        ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::Arr(vec![
          J::s("ci"),
          J::Num(offset as i128),
          J::Num(min_length as i128),
          J::Bool(from_end),
        ]),
        ProjectionElem::Subslice { from, to, from_end } => J::Arr(vec![
          J::s("sub"),
          J::Num(from as i128),
          J::Num(to as i128),
          J::Bool(from_end),
        ]),
        ProjectionElem::Downcast(_, v) => J::Arr(vec![J::s("d"), J::Num(v.as_usize() as i128)]),
        other => J::Arr(vec![J::s("other"), J::s(format!("{other:?}"))]),
      });
    }
    J::Arr(v)
  }

  fn alloc_bytes(&mut self, id: AllocId, off: u64, len: Option<u64>) -> Option<J> {
    let GlobalAlloc::Memory(a) = self.tcx.global_alloc(id) else { return None };
    let a = a.inner();
    let size = a.size().bytes();
    let len = len.unwrap_or(size - off);
    if len > 16 << 20 || off + len > size {
      return None;
    }
    if !a.provenance().ptrs().is_empty() {
      // pointers inside: list them as well
      let ptrs: Vec<(u64, AllocId, u64)> = a
        .provenance()
        .ptrs()
        .iter()
        .map(|(o, p)| {
          let raw = a.inspect_with_uninit_and_ptr_outside_interpreter(
            o.bytes() as usize..o.bytes() as usize + 8,
          );
          (o.bytes(), p.alloc_id(), u64::from_le_bytes(raw.try_into().unwrap()))
        })
        .collect();
      let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
      let hex: String = bytes.iter().map(|b| format!("{b:02x}")).collect();
      let mut v = vec![];
      for (o, p, at) in ptrs {
        if o >= off && o < off + len {
          let inner = self.alloc_bytes(p, 0, None).unwrap_or(J::Null);
          v.push(J::Arr(vec![J::Num((o - off) as i128), inner, J::Num(at as i128)]));
        }
      }
      return Some(J::Obj(vec![("hex", J::Str(hex)), ("ptrs", J::Arr(v))]));
    }
    let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
    let hex: String = bytes.iter().map(|b| format!("{b:02x}")).collect();
    Some(J::Obj(vec![("hex", J::Str(hex))]))
  }

  fn constant(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> J {
    let tcx = self.tcx;
    let ty = c.const_.ty();
    let t = self.ty(ty) as i128;
    let mut o = vec![("t", J::Num(t))];
    if let Const::Unevaluated(u, _) = c.const_ {
      let k = self.def(u.def);
      o.push(("unev", J::s(k)));
      if let Some(p) = u.promoted {
        o.push(("promoted", J::Num(p.as_usize() as i128)));
      }
      let a = self.args(u.args);
      o.push(("args", a));
    }
    if let Const::Ty(_, ct) = c.const_ {
      let j = self.tyconst(ct);
      o.push(("tyconst", j));
    }
    if matches!(ty.kind(), ty::FnDef(..)) {
      return J::Obj(o);
    }
    if let Some(bits) = c.const_.try_eval_bits(tcx, env) {
      // integers, bool, char
      o.push(("bits", J::s(bits)));
      return J::Obj(o);
    }
    let generic = matches!(c.const_, Const::Unevaluated(u, _) if u.args.iter().any(|a| {
      use rustc_middle::ty::TypeVisitableExt;
      a.has_param()
    }));
    if generic {
      return J::Obj(o);
    }
    if let Ok(v) = c.const_.eval(tcx, env, c.span) {
      match v {
        ConstValue::ZeroSized => o.push(("zst", J::Bool(true))),
        ConstValue::Slice { alloc_id, meta } => {
          if let Some(j) = self.alloc_bytes(alloc_id, 0, Some(meta)) {
            o.push(("slice", j));
          }
        }
        ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) => {
          let (prov, off) = p.prov_and_relative_offset();
          if let Some(j) = self.alloc_bytes(prov.alloc_id(), off.bytes(), None) {
            o.push(("ptr", j));
          } else {
            o.push(("ptr", J::s(format!("{:?}", tcx.global_alloc(prov.alloc_id())))));
          }
        }
        ConstValue::Indirect { alloc_id, offset } => {
          if let Some(j) = self.alloc_bytes(alloc_id, offset.bytes(), None) {
            o.push(("mem", j));
          }
        }
        _ => {}
      }
    }
    J::Obj(o)
  }

  fn operand(&mut self, env: TypingEnv<'tcx>, op: &Operand<'tcx>) -> J {
    match op {
      Operand::Copy(p) => J::Arr(vec![J::s("copy"), self.place(p)]),
      Operand::Move(p) => J::Arr(vec![J::s("move"), self.place(p)]),
      Operand::Constant(c) => J::Arr(vec![J::s("const"), self.constant(env, c)]),
      Operand::RuntimeChecks(r) => J::Arr(vec![J::s("rtcheck"), J::s(format!("{r:?}"))]),
    }
  }

  fn rvalue(&mut self, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> J {
    let v = match r {
      Rvalue::Use(op, _) => vec![J::s("use"), self.operand(env, op)],
      Rvalue::Repeat(op, n) => vec![J::s("repeat"), self.operand(env, op), self.tyconst(*n)],
      Rvalue::Ref(_, k, p) => {
        let m = match k {
          BorrowKind::Shared => "shared",
          BorrowKind::Fake(_) => "fake",
          BorrowKind::Mut { .. } => "mut",
          #[allow(unreachable_patterns)]
          _ => "other",
        };
        vec![J::s("ref"), J::s(m), self.place(p)]
      }
      Rvalue::ThreadLocalRef(d) => vec![J::s("tls"), J::s(self.def(*d))],
      Rvalue::RawPtr(_, p) => vec![J::s("rawptr"), self.place(p)],
      Rvalue::Cast(k, op, t) => {
        let k = format!("{k:?}");
        vec![J::s("cast"), J::s(k), self.operand(env, op), J::Num(self.ty(*t) as i128)]
      }
      Rvalue::BinaryOp(op, ab) => vec![
        J::s("bin"),
        J::s(format!("{op:?}")),
        self.operand(env, &ab.0),
        self.operand(env, &ab.1),
      ],
      Rvalue::UnaryOp(op, a) => vec![J::s("un"), J::s(format!("{op:?}")), self.operand(env, a)],
      Rvalue::Discriminant(p) => vec![J::s("discr"), self.place(p)],
      Rvalue::Aggregate(k, ops) => {
        let k = match &**k {
          AggregateKind::Array(t) => J::Arr(vec![J::s("array"), J::Num(self.ty(*t) as i128)]),
          AggregateKind::Tuple => J::Arr(vec![J::s("tuple")]),
          AggregateKind::Adt(d, v, a, _, f) => {
            self.adt(*d);
            let key = self.def(*d);
            J::Arr(vec![
              J::s("adt"),
              J::s(key),
              J::Num(v.as_usize() as i128),
              self.args(a),
              f.map(|f| J::Num(f.as_usize() as i128)).unwrap_or(J::Null),
            ])
          }
          AggregateKind::Closure(d, a) => {
            let key = self.def(*d);
            let c = a.as_closure();
            J::Arr(vec![J::s("closure"), J::s(key), self.args(c.parent_args())])
          }
          other => J::Arr(vec![J::s("other"), J::s(format!("{other:?}"))]),
        };
        vec![J::s("agg"), k, J::Arr(ops.iter().map(|o| self.operand(env, o)).collect())]
      }
      Rvalue::CopyForDeref(p) => vec![J::s("use"), J::Arr(vec![J::s("copy"), self.place(p)])],
      other => vec![J::s("other"), J::s(format!("{other:?}"))],
    };
    J::Arr(v)
  }

  fn stmt(&mut self, env: TypingEnv<'tcx>, _b: &Body<'tcx>, s: &Statement<'tcx>) -> Option<J> {
    let l = self.line(s.source_info.span);
    Some(J::Arr(match &s.kind {
      StatementKind::Assign(pr) => {
        vec![J::s("="), self.place(&pr.0), self.rvalue(env, &pr.1), l]
      }
      StatementKind::SetDiscriminant { place, variant_index } => vec![
        J::s("setd"),
        self.place(place),
        J::Num(variant_index.as_usize() as i128),
        l,
      ],
      StatementKind::StorageLive(x) => vec![J::s("live"), J::Num(x.as_usize() as i128)],
      StatementKind::StorageDead(x) => vec![J::s("dead"), J::Num(x.as_usize() as i128)],
      StatementKind::Intrinsic(i) => vec![J::s("intrinsic"), J::s(format!("{i:?}")), l],
      _ => return None,
    }))
  }

  fn callee(&mut self, env: TypingEnv<'tcx>, f: &Operand<'tcx>) -> J {
    // resolved instance, if the callee is a function item
    let tcx = self.tcx;
    let Operand::Constant(c) = f else { return J::Null };
    let ty::FnDef(d, a) = *c.const_.ty().kind() else { return J::Null };
    let a = tcx.erase_and_anonymize_regions(a.skip_binder());
    let d: DefId = d.into();
    match ty::Instance::try_resolve(tcx, env, d, a) {
      Ok(Some(i)) => {
        let kind = match i.def {
          ty::InstanceKind::Item(_) => "item".to_string(),
          ty::InstanceKind::Virtual(..) => "virtual".to_string(),
          ref k => format!("{k:?}").split('(').next().unwrap_or("").to_string(),
        };
        let k = self.def(i.def_id());
        let args = self.args(i.args);
        J::Arr(vec![J::s(k), args, J::s(kind)])
      }
      _ => J::Null,
    }
  }

  fn term(&mut self, env: TypingEnv<'tcx>, b: &Body<'tcx>, t: &Terminator<'tcx>) -> J {
    let l = self.line(t.source_info.span);
    let bbn = |b: &BasicBlock| J::Num(b.as_usize() as i128);
    J::Arr(match &t.kind {
      TerminatorKind::Goto { target, .. } => vec![J::s("goto"), bbn(target), l],
      TerminatorKind::SwitchInt { discr, targets } => {
        let ty = discr.ty(&b.local_decls, self.tcx);
        vec![
          J::s("switch"),
          self.operand(env, discr),
          J::Num(self.ty(ty) as i128),
          J::Arr(targets.iter().map(|(v, t)| J::Arr(vec![J::s(v), bbn(&t)])).collect()),
          bbn(&targets.otherwise()),
          l,
        ]
      }
      TerminatorKind::Return => vec![J::s("return"), l],
      TerminatorKind::Unreachable => vec![J::s("unreachable"), l],
      TerminatorKind::UnwindResume => vec![J::s("resume"), l],
      TerminatorKind::UnwindTerminate(_) => vec![J::s("abort"), l],
      TerminatorKind::Drop { place, target, .. } => {
        let ty = place.ty(&b.local_decls, self.tcx).ty;
        vec![J::s("drop"), self.place(place), bbn(target), J::Num(self.ty(ty) as i128), l]
      }
      TerminatorKind::Call { func, args, destination, target, .. } => vec![
        J::s("call"),
        self.operand(env, func),
        J::Arr(args.iter().map(|a| self.operand(env, &a.node)).collect()),
        self.place(destination),
        target.as_ref().map(bbn).unwrap_or(J::Null),
        self.callee(env, func),
        l,
      ],
      TerminatorKind::Assert { cond, expected, msg, target, .. } => {
        let (k, ops) = match &**msg {
          AssertKind::BoundsCheck { len, index } => (
            "bounds".to_string(),
            vec![self.operand(env, len), self.operand(env, index)],
          ),
          AssertKind::Overflow(op, a, c) => (
            format!("overflow:{op:?}"),
            vec![self.operand(env, a), self.operand(env, c)],
          ),
          AssertKind::OverflowNeg(a) => ("overflow:Neg".to_string(), vec![self.operand(env, a)]),
          AssertKind::DivisionByZero(a) => ("divzero".to_string(), vec![self.operand(env, a)]),
          AssertKind::RemainderByZero(a) => ("remzero".to_string(), vec![self.operand(env, a)]),
          other => (format!("other:{other:?}"), vec![]),
        };
        vec![
          J::s("assert"),
          self.operand(env, cond),
          J::Bool(*expected),
          J::s(k),
          J::Arr(ops),
          bbn(target),
          l,
        ]
      }
      other => vec![J::s("other"), J::s(format!("{other:?}")), l],
    })
  }

  fn alias(&mut self, a: &ty::AliasTy<'tcx>) -> (String, J) {
    let id: DefId = match a.kind {
      ty::AliasTyKind::Projection { def_id } => def_id.into(),
      ty::AliasTyKind::Inherent { def_id } => def_id.into(),
      ty::AliasTyKind::Opaque { def_id } => def_id.into(),
      ty::AliasTyKind::Free { def_id } => def_id.into(),
    };
    let k = self.def(id);
    (k, self.args(a.args))
  }
}

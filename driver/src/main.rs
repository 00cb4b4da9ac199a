//! A rustc driver that dumps the resolved MIR of the crate `dbml_rs` as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...].
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::fmt::Write as _;

// ---------------------------------------------------------------- json
fn esc(s: &str) -> String {
  let mut o = String::with_capacity(s.len() + 2);
  o.push('"');
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\r' => o.push_str("\\r"),
      '\t' => o.push_str("\\t"),
      c if (c as u32) < 0x20 => {
        let _ = write!(o, "\\u{:04x}", c as u32);
      }
      c => o.push(c),
    }
  }
  o.push('"');
  o
}
fn arr(v: Vec<String>) -> String {
  format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
  tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
  fn span(&self, sp: rustc_span::Span) -> String {
    // user-written call site of macros
    let sp = sp.source_callsite();
    let sm = self.tcx.sess.source_map();
    let lo = sm.lookup_char_pos(sp.lo());
    format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
  }

  fn id(&self, d: DefId) -> String {
    format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
  }

  fn ty(&self, t: Ty<'tcx>) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t))
  }

  /// head of a type: adt id / "ref" / "str" ... used by the analysis to pick models
  fn tyj(&self, t: Ty<'tcx>) -> String {
    match t.kind() {
      ty::Adt(def, args) => format!(
        "{{\"k\":\"adt\",\"id\":{},\"args\":{}}}",
        esc(&self.tcx.def_path_str(def.did())),
        arr(args.types().map(|a| self.tyj(a)).collect())
      ),
      ty::Ref(_, inner, m) => {
        format!("{{\"k\":\"ref\",\"mut\":{},\"args\":[{}]}}", m.is_mut(), self.tyj(*inner))
      }
      ty::RawPtr(inner, _) => format!("{{\"k\":\"ptr\",\"args\":[{}]}}", self.tyj(*inner)),
      ty::Slice(inner) => format!("{{\"k\":\"slice\",\"args\":[{}]}}", self.tyj(*inner)),
      ty::Array(inner, n) => format!(
        "{{\"k\":\"array\",\"n\":{},\"args\":[{}]}}",
        esc(&format!("{n}")),
        self.tyj(*inner)
      ),
      ty::Tuple(ts) => {
        format!("{{\"k\":\"tuple\",\"args\":{}}}", arr(ts.iter().map(|a| self.tyj(a)).collect()))
      }
      ty::Closure(d, _) => format!("{{\"k\":\"closure\",\"id\":{}}}", esc(&self.id(*d))),
      ty::FnDef(d, _) => format!("{{\"k\":\"fndef\",\"id\":{}}}", esc(&self.id(*d))),
      ty::Alias(..) | ty::Param(_) => format!("{{\"k\":\"opaque\",\"s\":{}}}", esc(&self.ty(t))),
      _ => format!("{{\"k\":\"prim\",\"s\":{}}}", esc(&self.ty(t))),
    }
  }

  fn callee(&self, env: TypingEnv<'tcx>, def_id: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
    let tcx = self.tcx;
    let path = tcx.def_path_str(def_id);
    let mut o = format!("{{\"path\":{},\"id\":{}", esc(&path), esc(&self.id(def_id)));
    let tys: Vec<String> = args.types().map(|t| self.tyj(t)).collect();
    let _ = write!(o, ",\"targs\":{}", arr(tys));
    let _ = write!(o, ",\"name\":{}", esc(tcx.opt_item_name(def_id).map(|s| s.to_string()).unwrap_or_default().as_str()));
    if let Some(tr) = tcx.trait_of_assoc(def_id) {
      let _ = write!(o, ",\"trait\":{}", esc(&tcx.def_path_str(tr)));
    }
    if let Some(imp) = tcx.impl_of_assoc(def_id) {
      let t = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
      let _ = write!(o, ",\"implself\":{}", self.tyj(t));
    }
    if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, def_id, args) {
      let d = inst.def_id();
      let kind = match inst.def {
        ty::InstanceKind::Item(_) => "item",
        ty::InstanceKind::Virtual(..) => "virtual",
        _ => "shim",
      };
      let _ = write!(
        o,
        ",\"res\":{{\"id\":{},\"path\":{},\"crate\":{},\"kind\":\"{}\",\"local\":{},\"derived\":{}}}",
        esc(&self.id(d)),
        esc(&tcx.def_path_str(d)),
        esc(tcx.crate_name(d.krate).as_str()),
        kind,
        d.is_local(),
        self.derived(d)
      );
    }
    o.push('}');
    o
  }

  fn derived(&self, d: DefId) -> bool {
    let tcx = self.tcx;
    let mut cur = d;
    while tcx.is_closure_like(cur) {
      cur = tcx.parent(cur);
    }
    tcx.impl_of_assoc(cur).map(|i| tcx.is_automatically_derived(i)).unwrap_or(false)
  }

  fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
    let tcx = self.tcx;
    let mut cur = PlaceTy::from_ty(body.local_decls[p.local].ty);
    let mut ps = vec![];
    for elem in p.projection.iter() {
      let s = match elem {
        ProjectionElem::Deref => "[\"*\"]".to_string(),
        ProjectionElem::Field(f, _) => {
          let name = match cur.ty.kind() {
            ty::Adt(def, _) => {
              let v = cur.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
              def.variant(v).fields[f].name.to_string()
            }
            _ => f.as_usize().to_string(),
          };
          format!("[\".\",{},{}]", esc(&name), f.as_usize())
        }
        ProjectionElem::Downcast(_, v) => {
          let name = match cur.ty.kind() {
            ty::Adt(def, _) => def.variant(v).name.to_string(),
            _ => v.as_usize().to_string(),
          };
          format!("[\"v\",{}]", esc(&name))
        }
        ProjectionElem::Index(l) => format!("[\"[]\",{}]", l.as_usize()),
        ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
          format!("[\"[c]\",{offset},{min_length},{from_end}]")
        }
        ProjectionElem::Subslice { from, to, from_end } => format!("[\"sub\",{from},{to},{from_end}]"),
        _ => "[\"?\"]".to_string(),
      };
      ps.push(s);
      cur = cur.projection_ty(tcx, elem);
    }
    format!("{{\"l\":{},\"p\":{}}}", p.local.as_usize(), arr(ps))
  }

  fn scalar(&self, int: ty::ScalarInt, t: Ty<'tcx>) -> String {
    match t.kind() {
      ty::Bool => format!("{{\"bool\":{}}}", int.try_to_bool().unwrap_or(false)),
      ty::Char => format!("{{\"char\":{}}}", int.to_u32()),
      ty::Int(_) => {
        let sz = int.size();
        format!("{{\"int\":\"{}\"}}", int.to_int(sz))
      }
      ty::Uint(_) => format!("{{\"int\":\"{}\"}}", int.to_uint(int.size())),
      _ => format!("{{\"bits\":\"{}\"}}", int.to_bits(int.size())),
    }
  }

  fn constant(&self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
    let tcx = self.tcx;
    let t = c.const_.ty();
    let tj = self.tyj(t);
    let inner = (|| -> String {
      if let ty::FnDef(d, args) = t.kind() {
        return format!("{{\"fn\":{}}}", self.callee(env, *d, args.no_bound_vars().unwrap_or_else(|| args.skip_binder())));
      }
      if let mir::Const::Unevaluated(u, _) = c.const_ {
        if let Some(p) = u.promoted {
          return format!("{{\"promoted\":{},\"of\":{}}}", p.as_usize(), esc(&self.id(u.def)));
        }
      }
      let path = match c.const_ {
        mir::Const::Unevaluated(u, _) => format!(",\"path\":{}", esc(&tcx.def_path_str(u.def))),
        _ => String::new(),
      };
      match c.const_.eval(tcx, env, c.span) {
        Ok(val) => {
          if let Some(s) = self.const_value(val, t) {
            return s;
          }
          if let mir::Const::Unevaluated(u, _) = c.const_ {
            if u.def.is_local() {
              return format!("{{\"item\":{}}}", esc(&self.id(u.def)));
            }
          }
          if let Some(b) = self.byte_array(val, t) {
            return format!("{{\"bytes\":[{}]}}", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
          }
          format!("{{\"opaque\":{}{}}}", esc(&format!("{}", c.const_)), path)
        }
        Err(_) => format!("{{\"opaque\":{}{}}}", esc(&format!("{}", c.const_)), path),
      }
    })();
    format!("{{\"ty\":{},\"v\":{}}}", tj, inner)
  }

  /// contents of a constant of type &[u8; N] (format templates)
  fn byte_array(&self, val: ConstValue, t: Ty<'tcx>) -> Option<Vec<u8>> {
    let tcx = self.tcx;
    let ty::Ref(_, inner, _) = t.kind() else { return None };
    let ty::Array(el, n) = inner.kind() else { return None };
    if *el != tcx.types.u8 {
      return None;
    }
    let n = n.try_to_target_usize(tcx)? as usize;
    let ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = val else { return None };
    let (prov, off) = p.into_raw_parts();
    let mem = match tcx.global_alloc(prov.alloc_id()) {
      mir::interpret::GlobalAlloc::Memory(m) => m,
      _ => return None,
    };
    let o = off.bytes() as usize;
    Some(mem.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n).to_vec())
  }

  fn const_value(&self, val: ConstValue, t: Ty<'tcx>) -> Option<String> {
    let tcx = self.tcx;
    match val {
      ConstValue::ZeroSized => Some("{\"zst\":true}".into()),
      ConstValue::Scalar(s) => {
        if let Ok(i) = s.try_to_scalar_int() {
          if let ty::Adt(..) | ty::Tuple(..) = t.kind() {
            // handled by destructuring below
          } else {
            return Some(self.scalar(i, t));
          }
        }
        self.destructure(val, t)
      }
      ConstValue::Slice { .. } => {
        let b = val.try_get_slice_bytes_for_diagnostics(tcx)?;
        match t.kind() {
          ty::Ref(_, i, _) if i.is_str() => Some(format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(b)))),
          _ => Some(format!("{{\"bytes\":{}}}", esc(&String::from_utf8_lossy(b)))),
        }
      }
      ConstValue::Indirect { .. } => self.destructure(val, t),
    }
  }

  fn destructure(&self, val: ConstValue, t: Ty<'tcx>) -> Option<String> {
    let tcx = self.tcx;
    match t.kind() {
      ty::Adt(def, _) if !def.is_union() => {
        let d = tcx.try_destructure_mir_constant_for_user_output(val, t)?;
        let v = d.variant?;
        let vd = def.variant(v);
        let mut fs = vec![];
        for (fd, (fv, ft)) in vd.fields.iter().zip(d.fields.iter()) {
          fs.push(format!("[{},{}]", esc(fd.name.as_str()), self.const_value(*fv, *ft)?));
        }
        Some(format!(
          "{{\"adt\":{},\"variant\":{},\"fields\":{}}}",
          esc(&tcx.def_path_str(def.did())),
          esc(vd.name.as_str()),
          arr(fs)
        ))
      }
      ty::Tuple(..) | ty::Array(..) => {
        let d = tcx.try_destructure_mir_constant_for_user_output(val, t)?;
        let mut fs = vec![];
        for (fv, ft) in d.fields.iter() {
          fs.push(self.const_value(*fv, *ft)?);
        }
        Some(format!(
          "{{\"{}\":{}}}",
          if matches!(t.kind(), ty::Tuple(..)) { "tuple" } else { "array" },
          arr(fs)
        ))
      }
      _ => None,
    }
  }

  fn operand(&self, body: &Body<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
    match o {
      Operand::Copy(p) => format!("{{\"copy\":{}}}", self.place(body, p)),
      Operand::Move(p) => format!("{{\"move\":{}}}", self.place(body, p)),
      Operand::Constant(c) => format!("{{\"const\":{}}}", self.constant(env, c)),
      Operand::RuntimeChecks(_) => {
        "{\"const\":{\"ty\":{\"k\":\"prim\",\"s\":\"bool\"},\"v\":{\"bool\":true}}}".into()
      }
    }
  }

  fn rvalue(&self, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
    let tcx = self.tcx;
    let op = |o: &Operand<'tcx>| self.operand(body, env, o);
    match r {
      Rvalue::Use(o, _) => format!("{{\"k\":\"use\",\"o\":{}}}", op(o)),
      Rvalue::Repeat(o, n) => format!("{{\"k\":\"repeat\",\"o\":{},\"n\":{}}}", op(o), esc(&format!("{n}"))),
      Rvalue::Ref(_, bk, p) => format!(
        "{{\"k\":\"ref\",\"mut\":{},\"place\":{}}}",
        matches!(bk, BorrowKind::Mut { .. }),
        self.place(body, p)
      ),
      Rvalue::ThreadLocalRef(d) => format!("{{\"k\":\"tls\",\"id\":{}}}", esc(&self.id(*d))),
      Rvalue::RawPtr(_, p) => format!("{{\"k\":\"rawptr\",\"place\":{}}}", self.place(body, p)),
      Rvalue::Cast(k, o, t) => format!(
        "{{\"k\":\"cast\",\"kind\":{},\"o\":{},\"ty\":{},\"from\":{}}}",
        esc(&format!("{k:?}")),
        op(o),
        self.tyj(*t),
        self.tyj(o.ty(body, tcx))
      ),
      Rvalue::BinaryOp(b, ab) => format!(
        "{{\"k\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{},\"ty\":{}}}",
        b,
        op(&ab.0),
        op(&ab.1),
        self.tyj(ab.0.ty(body, tcx))
      ),
      Rvalue::UnaryOp(u, a) => format!("{{\"k\":\"un\",\"op\":{},\"a\":{}}}", esc(&format!("{u:?}")), op(a)),
      Rvalue::Discriminant(p) => format!(
        "{{\"k\":\"discr\",\"place\":{},\"ty\":{}}}",
        self.place(body, p),
        self.tyj(p.ty(body, tcx).ty)
      ),
      Rvalue::Aggregate(k, ops) => {
        let ops_s = arr(ops.iter().map(|o| op(o)).collect());
        match &**k {
          AggregateKind::Array(_) => format!("{{\"k\":\"agg\",\"a\":\"array\",\"ops\":{ops_s}}}"),
          AggregateKind::Tuple => format!("{{\"k\":\"agg\",\"a\":\"tuple\",\"ops\":{ops_s}}}"),
          AggregateKind::Adt(d, v, _, _, _) => {
            let def = tcx.adt_def(*d);
            let vd = def.variant(*v);
            format!(
              "{{\"k\":\"agg\",\"a\":\"adt\",\"id\":{},\"variant\":{},\"fields\":{},\"ops\":{ops_s}}}",
              esc(&tcx.def_path_str(*d)),
              esc(vd.name.as_str()),
              arr(vd.fields.iter().map(|f| esc(f.name.as_str())).collect())
            )
          }
          AggregateKind::Closure(d, _) => {
            format!("{{\"k\":\"agg\",\"a\":\"closure\",\"id\":{},\"ops\":{ops_s}}}", esc(&self.id(*d)))
          }
          AggregateKind::RawPtr(..) => format!("{{\"k\":\"agg\",\"a\":\"rawptr\",\"ops\":{ops_s}}}"),
          _ => format!("{{\"k\":\"agg\",\"a\":\"other\",\"ops\":{ops_s}}}"),
        }
      }
      Rvalue::CopyForDeref(p) => format!("{{\"k\":\"use\",\"o\":{{\"copy\":{}}}}}", self.place(body, p)),
      _ => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{r:?}"))),
    }
  }

  fn body(&self, body: &Body<'tcx>) -> String {
    let tcx = self.tcx;
    let env = TypingEnv::post_analysis(tcx, body.source.def_id());
    let mut names = vec![None; body.local_decls.len()];
    let mut upvars = vec![];
    for v in &body.var_debug_info {
      if let VarDebugInfoContents::Place(p) = v.value {
        if p.projection.is_empty() {
          names[p.local.as_usize()] = Some(v.name.to_string());
        } else {
          upvars.push(format!("[{},{}]", esc(v.name.as_str()), self.place(body, &p)));
        }
      }
    }
    let locals = arr(
      body
        .local_decls
        .iter_enumerated()
        .map(|(l, d)| {
          format!(
            "{{\"ty\":{},\"name\":{}}}",
            self.tyj(d.ty),
            names[l.as_usize()].as_ref().map(|n| esc(n)).unwrap_or("null".into())
          )
        })
        .collect(),
    );
    let mut blocks = vec![];
    for (_, bb) in body.basic_blocks.iter_enumerated() {
      let mut st = vec![];
      for s in &bb.statements {
        match &s.kind {
          StatementKind::Assign(b) => st.push(format!(
            "{{\"k\":\"assign\",\"to\":{},\"rv\":{},\"at\":{}}}",
            self.place(body, &b.0),
            self.rvalue(body, env, &b.1),
            esc(&self.span(s.source_info.span))
          )),
          StatementKind::SetDiscriminant { place, variant_index } => {
            let t = place.ty(body, tcx).ty;
            let n = match t.kind() {
              ty::Adt(d, _) => d.variant(*variant_index).name.to_string(),
              _ => variant_index.as_usize().to_string(),
            };
            st.push(format!("{{\"k\":\"setdiscr\",\"to\":{},\"variant\":{}}}", self.place(body, place), esc(&n)))
          }
          StatementKind::Intrinsic(i) => st.push(format!("{{\"k\":\"intrinsic\",\"s\":{}}}", esc(&format!("{i:?}")))),
          _ => {}
        }
      }
      let t = bb.terminator();
      let at = esc(&self.span(t.source_info.span));
      let exp = t.source_info.span.from_expansion();
      let tj = match &t.kind {
        TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", target.as_usize()),
        TerminatorKind::SwitchInt { discr, targets } => {
          let mut v = vec![];
          for (val, tg) in targets.iter() {
            v.push(format!("[\"{}\",{}]", val, tg.as_usize()));
          }
          format!(
            "{{\"k\":\"switch\",\"d\":{},\"ty\":{},\"targets\":{},\"otherwise\":{}}}",
            self.operand(body, env, discr),
            self.tyj(discr.ty(body, tcx)),
            arr(v),
            targets.otherwise().as_usize()
          )
        }
        TerminatorKind::Return => "{\"k\":\"return\"}".into(),
        TerminatorKind::Unreachable => "{\"k\":\"unreachable\"}".into(),
        TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "{\"k\":\"unwind\"}".into(),
        TerminatorKind::Drop { target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", target.as_usize()),
        TerminatorKind::Call { func, args, destination, target, .. } => {
          let f = match func.ty(body, tcx).kind() {
            ty::FnDef(d, ga) => self.callee(env, *d, ga.no_bound_vars().unwrap_or_else(|| ga.skip_binder())),
            _ => format!("{{\"indirect\":{}}}", self.operand(body, env, func)),
          };
          format!(
            "{{\"k\":\"call\",\"f\":{},\"args\":{},\"dest\":{},\"dty\":{},\"t\":{}}}",
            f,
            arr(args.iter().map(|a| self.operand(body, env, &a.node)).collect()),
            self.place(body, destination),
            self.tyj(destination.ty(body, tcx).ty),
            target.map(|t| t.as_usize().to_string()).unwrap_or("null".into())
          )
        }
        TerminatorKind::Assert { cond, expected, msg, target, .. } => format!(
          "{{\"k\":\"assert\",\"c\":{},\"exp\":{},\"msg\":{},\"t\":{}}}",
          self.operand(body, env, cond),
          expected,
          esc(&format!("{msg:?}")),
          target.as_usize()
        ),
        TerminatorKind::FalseEdge { real_target, .. } => {
          format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize())
        }
        TerminatorKind::FalseUnwind { real_target, .. } => {
          format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize())
        }
        k => format!("{{\"k\":\"other\",\"s\":{}}}", esc(&format!("{k:?}"))),
      };
      blocks.push(format!(
        "{{\"s\":{},\"t\":{},\"at\":{},\"exp\":{},\"cleanup\":{}}}",
        arr(st),
        tj,
        at,
        exp,
        bb.is_cleanup
      ));
    }
    format!(
      "{{\"argc\":{},\"locals\":{},\"upvars\":{},\"blocks\":{}}}",
      body.arg_count,
      locals,
      arr(upvars),
      arr(blocks)
    )
  }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
  fn config(&mut self, config: &mut rustc_interface::interface::Config) {
    config.opts.unstable_opts.mir_opt_level = Some(0);
    for p in ["CheckAlignment", "CheckNull", "CheckEnums"] {
      config.opts.unstable_opts.mir_enable_passes.push((p.to_string(), false));
    }
  }

  fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
    let out = match std::env::var("MIRDUMP_OUT") {
      Ok(o) => o,
      Err(_) => return Compilation::Continue,
    };
    if tcx.crate_name(LOCAL_CRATE).as_str() != "dbml_rs" {
      return Compilation::Continue;
    }
    let cx = Cx { tcx };
    let mut fns = vec![];
    let mut adts: Vec<String> = vec![];
    let mut statics = vec![];
    for ldid in tcx.hir_crate_items(()).definitions() {
      let d = ldid.to_def_id();
      match tcx.def_kind(d) {
        DefKind::Struct | DefKind::Enum => {
          let def = tcx.adt_def(d);
          let vs = arr(
            def
              .variants()
              .iter_enumerated()
              .map(|(vi, v)| {
                format!(
                  "{{\"name\":{},\"discr\":\"{}\",\"fields\":{}}}",
                  esc(v.name.as_str()),
                  if def.is_enum() { def.discriminant_for_variant(tcx, vi).val } else { 0 },
                  arr(
                    v.fields
                      .iter()
                      .map(|f| format!(
                        "[{},{}]",
                        esc(f.name.as_str()),
                        cx.tyj(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())
                      ))
                      .collect()
                  )
                )
              })
              .collect(),
          );
          adts.push(format!(
            "{}:{{\"enum\":{},\"variants\":{},\"at\":{}}}",
            esc(&tcx.def_path_str(d)),
            def.is_enum(),
            vs,
            esc(&cx.span(tcx.def_span(d)))
          ));
        }
        DefKind::Static { mutability, .. } => {
          let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
          statics.push(format!(
            "{{\"id\":{},\"mut\":{},\"freeze\":{},\"ty\":{},\"at\":{}}}",
            esc(&cx.id(d)),
            mutability.is_mut(),
            t.is_freeze(tcx, TypingEnv::post_analysis(tcx, d)),
            esc(&cx.ty(t)),
            esc(&cx.span(tcx.def_span(d)))
          ));
        }
        _ => {}
      }
    }
    // well-known enums of core
    for ldid in tcx.mir_keys(()) {
      let d = ldid.to_def_id();
      let kind = tcx.def_kind(d);
      let (b, k): (&Body, &str) = match kind {
        DefKind::Fn | DefKind::AssocFn => (tcx.optimized_mir(d), "fn"),
        DefKind::Closure => (tcx.optimized_mir(d), "closure"),
        DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
          (tcx.mir_for_ctfe(d), "const")
        }
        _ => continue,
      };
      let promoted = arr(tcx.promoted_mir(d).iter().map(|p| cx.body(p)).collect());
      let vis = match kind {
        DefKind::Fn | DefKind::AssocFn => tcx.visibility(d).is_public() && tcx.effective_visibilities(()).is_reachable(*ldid),
        _ => false,
      };
      let implof = tcx
        .impl_of_assoc(d)
        .map(|i| {
          let tr = tcx.impl_opt_trait_ref(i).map(|t| {
            let t = t.instantiate_identity().skip_norm_wip();
            rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string())
          });
          format!(
            "{{\"self\":{},\"trait\":{}}}",
            cx.tyj(tcx.type_of(i).instantiate_identity().skip_norm_wip()),
            tr.map(|s| esc(&s)).unwrap_or("null".into())
          )
        })
        .unwrap_or("null".into());
      fns.push(format!(
        "{}:{{\"path\":{},\"kind\":\"{}\",\"at\":{},\"derived\":{},\"pub\":{},\"impl\":{},\"fromexp\":{},\"body\":{},\"promoted\":{}}}",
        esc(&cx.id(d)),
        esc(&tcx.def_path_str(d)),
        k,
        esc(&cx.span(tcx.def_span(d))),
        cx.derived(d),
        vis,
        implof,
        tcx.def_span(d).from_expansion(),
        cx.body(b),
        promoted
      ));
    }
    let mut uns = vec![];
    for owner in tcx.hir_body_owners() {
      struct V<'a, 'tcx> {
        cx: &'a Cx<'tcx>,
        out: &'a mut Vec<String>,
      }
      impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'a, 'tcx> {
        fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
          if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let ext = b.span.ctxt().outer_expn_data().macro_def_id.map(|d| !d.is_local()).unwrap_or(false);
            if !ext {
              self.out.push(esc(&self.cx.span(b.span)));
            }
          }
          rustc_hir::intravisit::walk_block(self, b);
        }
      }
      if let Some(body) = tcx.hir_maybe_body_owned_by(owner) {
        rustc_hir::intravisit::Visitor::visit_body(&mut V { cx: &cx, out: &mut uns }, body);
      }
    }
    let direct: Vec<String> = tcx
      .crates(())
      .iter()
      .filter(|c| tcx.extern_crate(**c).map(|e| e.dependency_of == LOCAL_CRATE).unwrap_or(false))
      .map(|c| esc(tcx.crate_name(*c).as_str()))
      .collect();
    let crates: Vec<String> = tcx.crates(()).iter().map(|c| esc(tcx.crate_name(*c).as_str())).collect();
    let s = format!("{{\"unsafe\":{},\"direct\":{},\"crates\":{},\"fns\":{{{}}},\"adts\":{{{}}},\"statics\":{}}}", arr(uns), arr(direct), arr(crates), fns.join(",\n"), adts.join(",\n"), arr(statics));
    std::fs::write(&out, s).expect("write dump");
    Compilation::Continue
  }
}

fn main() -> std::process::ExitCode {
  let mut args: Vec<String> = std::env::args().collect();
  // as RUSTC_WORKSPACE_WRAPPER the second argument is the path of rustc
  if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
    args.remove(1);
  }
  rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Cb))
}

use crate::json::{arr, esc, obj};
use rustc_abi::{FieldIdx, Size, TagEncoding, VariantIdx, Variants};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{AllocId, Allocation, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::io::Write;

pub struct D<'tcx> {
  tcx: TyCtxt<'tcx>,
  out: std::io::BufWriter<std::fs::File>,
  tys: HashMap<Ty<'tcx>, usize>,
  adts: HashSet<DefId>,
  adt_queue: Vec<DefId>,
  ty_lines: Vec<String>,
  ext: HashSet<DefId>,
  ext_queue: Vec<DefId>,
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, path: &str) {
  let tmp = format!("{path}.tmp");
  let f = std::fs::File::create(&tmp).expect("create dump");
  let mut d = D {
    tcx,
    out: std::io::BufWriter::with_capacity(1 << 20, f),
    tys: HashMap::new(),
    adts: HashSet::new(),
    adt_queue: Vec::new(),
    ty_lines: Vec::new(),
    ext: HashSet::new(),
    ext_queue: Vec::new(),
  };
  d.run();
  d.out.flush().unwrap();
  drop(d);
  std::fs::rename(&tmp, path).expect("rename dump");
}

impl<'tcx> D<'tcx> {
  fn line(&mut self, s: &str) {
    self.out.write_all(s.as_bytes()).unwrap();
    self.out.write_all(b"\n").unwrap();
  }

  fn path(&self, d: DefId) -> String {
    with_no_trimmed_paths!(self.tcx.def_path_str(d))
  }

  /// Unique, stable key of a definition.
  fn key(&self, d: DefId) -> String {
    format!(
      "{}{}",
      self.tcx.crate_name(d.krate),
      self.tcx.def_path(d).to_string_no_crate_verbose()
    )
  }

  fn loc(&self, sp: Span) -> (String, usize) {
    let sp = sp.source_callsite();
    let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
    (format!("{}", l.file.name.prefer_local_unconditionally()), l.line)
  }
  fn lno(&self, sp: Span) -> usize {
    let sp = sp.source_callsite();
    self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line
  }

  fn adt(&mut self, d: DefId) {
    if self.adts.insert(d) {
      self.adt_queue.push(d);
    }
  }

  fn targs(&mut self, args: GenericArgsRef<'tcx>) -> String {
    let mut v = Vec::new();
    for a in args.iter() {
      if let Some(t) = a.as_type() {
        v.push(format!("{}", self.ty(t)));
      } else if let Some(c) = a.as_const() {
        v.push(match c.try_to_target_usize(self.tcx) {
          Some(n) => format!("{{\"n\":{n}}}"),
          None => format!("{{\"c\":{}}}", esc(&format!("{c}"))),
        });
      }
    }
    arr(v)
  }

  fn ty(&mut self, t: Ty<'tcx>) -> usize {
    if let Some(&i) = self.tys.get(&t) {
      return i;
    }
    let i = self.tys.len();
    self.tys.insert(t, i);
    let s = with_no_trimmed_paths!(format!("{t}"));
    let mut kv: Vec<(&str, String)> =
      vec![("t", i.to_string()), ("s", esc(&s))];
    match *t.kind() {
      ty::Bool => kv.push(("k", esc("bool"))),
      ty::Char => kv.push(("k", esc("char"))),
      ty::Int(x) => {
        kv.push(("k", esc("int")));
        kv.push(("w", x.bit_width().unwrap_or(64).to_string()));
      }
      ty::Uint(x) => {
        kv.push(("k", esc("uint")));
        kv.push(("w", x.bit_width().unwrap_or(64).to_string()));
      }
      ty::Float(x) => {
        kv.push(("k", esc("float")));
        kv.push(("w", x.bit_width().to_string()));
      }
      ty::Adt(def, args) => {
        self.adt(def.did());
        kv.push(("k", esc("adt")));
        kv.push(("p", esc(&self.path(def.did()))));
        let a = self.targs(args);
        kv.push(("a", a));
      }
      ty::Str => kv.push(("k", esc("str"))),
      ty::Array(e, n) => {
        kv.push(("k", esc("array")));
        let e = self.ty(e);
        kv.push(("e", e.to_string()));
        if let Some(n) = n.try_to_target_usize(self.tcx) {
          kv.push(("n", n.to_string()));
        }
      }
      ty::Slice(e) => {
        kv.push(("k", esc("slice")));
        let e = self.ty(e);
        kv.push(("e", e.to_string()));
      }
      ty::RawPtr(e, m) => {
        kv.push(("k", esc("ptr")));
        let e = self.ty(e);
        kv.push(("e", e.to_string()));
        kv.push(("m", (m.is_mut() as u8).to_string()));
      }
      ty::Ref(_, e, m) => {
        kv.push(("k", esc("ref")));
        let e = self.ty(e);
        kv.push(("e", e.to_string()));
        kv.push(("m", (m.is_mut() as u8).to_string()));
      }
      ty::FnDef(d, args) => {
        kv.push(("k", esc("fndef")));
        kv.push(("p", esc(&self.path(d))));
        kv.push(("key", esc(&self.key(d))));
        let a = self.targs(args.skip_binder());
        kv.push(("a", a));
      }
      ty::FnPtr(..) => kv.push(("k", esc("fnptr"))),
      ty::Dynamic(preds, _) => {
        kv.push(("k", esc("dyn")));
        if let Some(p) = preds.principal() {
          kv.push(("p", esc(&self.path(p.def_id()))));
        }
      }
      ty::Closure(d, _) => {
        kv.push(("k", esc("closure")));
        kv.push(("p", esc(&self.path(d))));
        kv.push(("key", esc(&self.key(d))));
      }
      ty::Never => kv.push(("k", esc("never"))),
      ty::Tuple(ts) => {
        kv.push(("k", esc("tuple")));
        let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
        kv.push(("a", arr(v)));
      }
      ty::Param(p) => {
        kv.push(("k", esc("param")));
        kv.push(("p", esc(p.name.as_str())));
      }
      ty::Alias(..) => kv.push(("k", esc("alias"))),
      _ => kv.push(("k", esc("other"))),
    }
    self.ty_lines.push(obj(&kv));
    i
  }

  // ---------- constants ----------
  fn scalar(&mut self, s: Scalar, t: Ty<'tcx>) -> Option<String> {
    match s {
      Scalar::Int(i) => {
        let bits = i.to_bits(i.size());
        Some(self.bits(bits, i.size(), t))
      }
      Scalar::Ptr(p, _) => {
        let (prov, off) = p.into_raw_parts();
        self.ptr(prov.alloc_id(), off, None, t, 0)
      }
    }
  }

  fn bits(&mut self, bits: u128, sz: Size, t: Ty<'tcx>) -> String {
    match t.kind() {
      ty::Bool => (if bits != 0 { "true" } else { "false" }).into(),
      ty::Char => match char::from_u32(bits as u32) {
        Some(c) => obj(&[("ch", esc(&c.to_string()))]),
        None => bits.to_string(),
      },
      ty::Int(_) => sz.sign_extend(bits).to_string(),
      ty::Float(f) => {
        if f.bit_width() == 32 {
          obj(&[("f", esc(&format!("{:?}", f32::from_bits(bits as u32))))])
        } else {
          obj(&[("f", esc(&format!("{:?}", f64::from_bits(bits as u64))))])
        }
      }
      _ => bits.to_string(),
    }
  }

  /// A pointer of type t (ref / raw / fnptr) to (alloc, off).
  fn ptr(
    &mut self, id: AllocId, off: Size, meta: Option<u64>, t: Ty<'tcx>,
    depth: usize,
  ) -> Option<String> {
    match self.tcx.global_alloc(id) {
      GlobalAlloc::Function { instance } => {
        let d = instance.def_id();
        let link = self.link_name(d);
        Some(obj(&[
          ("fn", esc(&self.path(d))),
          ("key", esc(&self.key(d))),
          ("link", link.map(|s| esc(&s)).unwrap_or("null".into())),
        ]))
      }
      GlobalAlloc::Static(d) => Some(obj(&[
        ("static", esc(&self.path(d))),
        ("off", off.bytes().to_string()),
      ])),
      GlobalAlloc::VTable(t, _) => Some(obj(&[("vtable", esc(&format!("{t}")))])),
      GlobalAlloc::TypeId { .. } => None,
      GlobalAlloc::Memory(m) => {
        if depth > 12 {
          return None;
        }
        let pt = t.builtin_deref(true)?;
        let a = m.inner();
        let v = match *pt.kind() {
          ty::Slice(e) => {
            let n = meta?;
            self.seq(a, off, e, n, depth)?
          }
          ty::Str => {
            let n = meta? as usize;
            let o = off.bytes() as usize;
            if o + n > a.len() {
              return None;
            }
            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
            obj(&[("str", esc(&String::from_utf8_lossy(b)))])
          }
          _ => self.val(a, off, pt, depth + 1)?,
        };
        Some(obj(&[("ref", v)]))
      }
    }
  }

  fn seq(
    &mut self, a: &Allocation, off: Size, e: Ty<'tcx>, n: u64, depth: usize,
  ) -> Option<String> {
    let env = TypingEnv::fully_monomorphized();
    let l = self.tcx.layout_of(env.as_query_input(e)).ok()?;
    let st = l.size;
    let mut s = String::from("[");
    for i in 0..n {
      if i > 0 {
        s.push(',');
      }
      let v = self.val(a, off + st * i, e, depth + 1)?;
      s.push_str(&v);
    }
    s.push(']');
    Some(s)
  }

  fn rd(&self, a: &Allocation, off: Size, sz: Size) -> Option<u128> {
    let o = off.bytes() as usize;
    let n = sz.bytes() as usize;
    if n > 16 || o + n > a.len() {
      return None;
    }
    if a
      .init_mask()
      .is_range_initialized(rustc_middle::mir::interpret::AllocRange {
        start: off,
        size: sz,
      })
      .is_err()
    {
      return None;
    }
    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
    let mut v = 0u128;
    for i in (0..n).rev() {
      v = (v << 8) | b[i] as u128;
    }
    Some(v)
  }

  fn val(
    &mut self, a: &Allocation, off: Size, t: Ty<'tcx>, depth: usize,
  ) -> Option<String> {
    let env = TypingEnv::fully_monomorphized();
    let l = self.tcx.layout_of(env.as_query_input(t)).ok()?;
    match *t.kind() {
      ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
        let b = self.rd(a, off, l.size)?;
        Some(self.bits(b, l.size, t))
      }
      ty::Array(e, n) => {
        let n = n.try_to_target_usize(self.tcx)?;
        self.seq(a, off, e, n, depth)
      }
      ty::Tuple(ts) => {
        let mut v = Vec::new();
        for (i, ft) in ts.iter().enumerate() {
          v.push(self.val(a, off + l.fields.offset(i), ft, depth + 1)?);
        }
        Some(obj(&[("tup", arr(v))]))
      }
      ty::Pat(base, _) => self.val(a, off, base, depth),
      ty::FnDef(d, _) => Some(obj(&[
        ("fn", esc(&self.path(d))),
        ("key", esc(&self.key(d))),
      ])),
      ty::Ref(..) | ty::RawPtr(..) | ty::FnPtr(..) => {
        let p = self.rd(a, off, Size::from_bytes(8))?;
        let prov = a.provenance().get_ptr(off);
        match prov {
          None => Some(p.to_string()),
          Some(pr) => {
            let meta = if l.size.bytes() == 16 {
              self
                .rd(a, off + Size::from_bytes(8), Size::from_bytes(8))
                .map(|x| x as u64)
            } else {
              None
            };
            self.ptr(pr.alloc_id(), Size::from_bytes(p as u64), meta, t, depth + 1)
          }
        }
      }
      ty::Adt(def, args) => {
        if def.is_union() {
          return Some(obj(&[("union", esc(&self.path(def.did())))]));
        }
        let vi: VariantIdx = if def.is_enum() {
          match &l.variants {
            Variants::Empty => return None,
            Variants::Single { index } => *index,
            Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
              let toff = off + l.fields.offset(tag_field.as_usize());
              let tsz = tag.size(&self.tcx);
              match tag_encoding {
                TagEncoding::Direct => {
                  let tv = self.rd(a, toff, tsz)?;
                  let mut r = None;
                  for (i, d) in def.discriminants(self.tcx) {
                    if tsz.truncate(d.val) == tv {
                      r = Some(i);
                    }
                  }
                  r?
                }
                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                  if a.provenance().get_ptr(toff).is_some() {
                    *untagged_variant
                  } else {
                    let tv = self.rd(a, toff, tsz)?;
                    let rel = tsz.truncate(tv.wrapping_sub(*niche_start));
                    let s = niche_variants.start.as_u32() as u128;
                    let e = niche_variants.last.as_u32() as u128;
                    if rel <= e - s {
                      VariantIdx::from_u32((s + rel) as u32)
                    } else {
                      *untagged_variant
                    }
                  }
                }
              }
            }
          }
        } else {
          VariantIdx::from_u32(0)
        };
        self.adt(def.did());
        let cx = ty::layout::LayoutCx::new(self.tcx, env);
        let vl = l.for_variant(&cx, vi);
        let vd = def.variant(vi);
        let mut kv = Vec::new();
        for (i, f) in vd.fields.iter().enumerate() {
          let ft = f.ty(self.tcx, args);
          let ft = self.tcx.normalize_erasing_regions(env, ft);
          let o = off + vl.fields.offset(i);
          let v = self.val(a, o, ft, depth + 1)?;
          kv.push((f.name.to_string(), v));
        }
        let kvr: Vec<(&str, String)> =
          kv.iter().map(|(k, v)| (k.as_str(), v.clone())).collect();
        let mut top = vec![("adt", esc(&self.path(def.did())))];
        if def.is_enum() {
          top.push(("v", esc(vd.name.as_str())));
          let dv = def.discriminant_for_variant(self.tcx, vi);
          let dsz = self.tcx.layout_of(env.as_query_input(dv.ty)).ok()?.size;
          top.push(("d", self.bits(dv.val, dsz, dv.ty)));
        }
        top.push(("f", obj(&kvr)));
        Some(obj(&top))
      }
      _ => None,
    }
  }

  fn cval(&mut self, v: ConstValue, t: Ty<'tcx>) -> Option<String> {
    let env = TypingEnv::fully_monomorphized();
    match v {
      ConstValue::Scalar(s) => {
        // scalar-abi ADTs: go through a temporary alloc
        match t.kind() {
          ty::Adt(def, args) => {
            if let Scalar::Int(i) = s {
              let l = self.tcx.layout_of(env.as_query_input(t)).ok()?;
              let bits = i.to_bits(i.size());
              let bytes: Vec<u8> = (0..l.size.bytes())
                .map(|k| (bits >> (8 * k)) as u8)
                .collect();
              let a = Allocation::from_bytes_byte_aligned_immutable(bytes, ());
              let _ = (def, args);
              return self.val(&a, Size::ZERO, t, 0);
            }
            None
          }
          ty::Tuple(_) | ty::Array(..) => {
            if let Scalar::Int(i) = s {
              let l = self.tcx.layout_of(env.as_query_input(t)).ok()?;
              let bits = i.to_bits(i.size());
              let bytes: Vec<u8> = (0..l.size.bytes())
                .map(|k| (bits >> (8 * k)) as u8)
                .collect();
              let a = Allocation::from_bytes_byte_aligned_immutable(bytes, ());
              return self.val(&a, Size::ZERO, t, 0);
            }
            None
          }
          _ => self.scalar(s, t),
        }
      }
      ConstValue::ZeroSized => {
        let a = Allocation::from_bytes_byte_aligned_immutable(Vec::<u8>::new(), ());
        match t.kind() {
          ty::FnDef(..) | ty::Closure(..) => Some("null".into()),
          _ => self.val(&a, Size::ZERO, t, 0),
        }
      }
      ConstValue::Slice { alloc_id, meta } => {
        self.ptr(alloc_id, Size::ZERO, Some(meta), t, 0)
      }
      ConstValue::Indirect { alloc_id, offset } => {
        match self.tcx.global_alloc(alloc_id) {
          GlobalAlloc::Memory(m) => self.val(m.inner(), offset, t, 0),
          _ => None,
        }
      }
    }
  }

  fn link_name(&self, d: DefId) -> Option<String> {
    if self.tcx.is_foreign_item(d) {
      let at = self.tcx.codegen_fn_attrs(d);
      Some(
        at.symbol_name
          .map(|s| s.to_string())
          .unwrap_or_else(|| self.tcx.item_name(d).to_string()),
      )
    } else {
      None
    }
  }

  // ---------- MIR ----------
  fn place(&mut self, b: &Body<'tcx>, p: Place<'tcx>) -> String {
    if p.projection.is_empty() {
      return format!("[{}]", p.local.as_u32());
    }
    let mut s = format!("[{}", p.local.as_u32());
    let mut pty = PlaceTy::from_ty(b.local_decls[p.local].ty);
    for e in p.projection.iter() {
      s.push(',');
      match e {
        ProjectionElem::Deref => s.push_str("\"*\""),
        ProjectionElem::Field(f, _) => {
          let n = self.field_name(pty, f);
          s.push_str(&esc(&format!(".{n}")));
        }
        ProjectionElem::Index(l) => {
          let _ = write!(s, "[\"i\",{}]", l.as_u32());
        }
        ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
          let _ =
            write!(s, "[\"c\",{},{},{}]", offset, min_length, from_end as u8);
        }
        ProjectionElem::Subslice { from, to, from_end } => {
          let _ = write!(s, "[\"s\",{},{},{}]", from, to, from_end as u8);
        }
        ProjectionElem::Downcast(n, vi) => {
          let nm = n
            .map(|x| x.to_string())
            .or_else(|| match pty.ty.kind() {
              ty::Adt(d, _) => Some(d.variant(vi).name.to_string()),
              _ => None,
            })
            .unwrap_or_default();
          s.push_str(&esc(&format!("@{nm}")));
        }
        _ => s.push_str("\"?\""),
      }
      pty = pty.projection_ty(self.tcx, e);
    }
    s.push(']');
    s
  }

  fn field_name(&self, pty: PlaceTy<'tcx>, f: FieldIdx) -> String {
    match pty.ty.kind() {
      ty::Adt(def, _) => {
        let v = match pty.variant_index {
          Some(v) => v,
          None => VariantIdx::from_u32(0),
        };
        if def.is_enum() && pty.variant_index.is_none() {
          return f.as_u32().to_string();
        }
        def.variant(v).fields[f].name.to_string()
      }
      _ => f.as_u32().to_string(),
    }
  }

  fn fnref(
    &mut self, owner: DefId, d: DefId, args: GenericArgsRef<'tcx>,
  ) -> String {
    let tcx = self.tcx;
    let env = TypingEnv::post_analysis(tcx, owner);
    let mut kv = vec![
      ("p", esc(&self.path(d))),
      ("key", esc(&self.key(d))),
    ];
    let ta = self.targs(args);
    kv.push(("a", ta));
    let args_e = tcx.erase_and_anonymize_regions(args);
    if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args_e) {
      let rd = inst.def_id();
      if rd != d {
        kv.push(("rp", esc(&self.path(rd))));
        kv.push(("rkey", esc(&self.key(rd))));
      }
      self.want_ext(rd);
      let kind = match inst.def {
        ty::InstanceKind::Virtual(..) => "virtual",
        ty::InstanceKind::Intrinsic(..) => "intrinsic",
        ty::InstanceKind::Item(..) => "item",
        _ => "shim",
      };
      kv.push(("ik", esc(kind)));
      if rd != d {
        let ra = self.targs(inst.args);
        kv.push(("ra", ra));
      }
    } else {
      kv.push(("ik", esc("unresolved")));
    }
    if let Some(tr) = tcx.trait_of_assoc(d) {
      kv.push(("tr", esc(&self.path(tr))));
    }
    if let Some(l) = self.link_name(d) {
      kv.push(("link", esc(&l)));
    }
    obj(&kv)
  }

  /// Queue an external body (small std combinators) for dumping.
  fn want_ext(&mut self, d: DefId) {
    if d.is_local() || self.ext.contains(&d) {
      return;
    }
    let k = self.key(d);
    const P: [&str; 8] = [
      "core::option::",
      "core::result::",
      "core::ops::control_flow::",
      "core::ops::try_trait::",
      "core::mem::take",
      "core::mem::replace",
      "core::bool::",
      "core::convert::",
    ];
    if !P.iter().any(|p| k.starts_with(p)) {
      return;
    }
    let ok = matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure)
      && self.tcx.is_mir_available(d)
      && self.tcx.intrinsic(d).is_none();
    if ok {
      self.ext.insert(d);
      self.ext_queue.push(d);
    }
  }

  fn konst(&mut self, owner: DefId, c: Const<'tcx>, span: Span) -> String {
    let tcx = self.tcx;
    let t = c.ty();
    if let ty::FnDef(d, args) = *t.kind() {
      let r = self.fnref(owner, d, args.skip_binder());
      return arr(["\"fn\"".to_string(), r]);
    }
    let tid = self.ty(t).to_string();
    let env = TypingEnv::post_analysis(tcx, owner);
    let mut named: Option<String> = None;
    let mut promo: Option<Vec<String>> = None;
    let mut pbody: Vec<String> = Vec::new();
    if let Const::Unevaluated(u, _) = c {
      match u.promoted {
        None => {
          named = Some(self.path(u.def));
        }
        Some(p) => {
          let mut v = Vec::new();
          let pm = tcx.promoted_mir(u.def);
          let body = &pm[p];
          for bb in body.basic_blocks.iter() {
            for st in &bb.statements {
              if let StatementKind::Assign(b) = &st.kind {
                for co in rv_consts(&b.1) {
                  match co {
                    Const::Unevaluated(u2, _) if u2.promoted.is_none() => {
                      v.push(esc(&self.path(u2.def)));
                    }
                    Const::Val(ConstValue::Scalar(Scalar::Ptr(p, _)), _) => {
                      let id = p.into_raw_parts().0.alloc_id();
                      if let GlobalAlloc::Static(d) = tcx.global_alloc(id) {
                        v.push(esc(&self.path(d)));
                      }
                    }
                    _ => {}
                  }
                }
              }
            }
          }
          promo = Some(v);
          use rustc_middle::ty::TypeVisitableExt;
          if u.args.has_non_region_param() {
            for bb in body.basic_blocks.iter() {
              for st in &bb.statements {
                if let StatementKind::Assign(bx) = &st.kind {
                  let pl = self.place(body, bx.0);
                  let r = self.rv(u.def, body, &bx.1);
                  pbody.push(arr([pl, r]));
                }
              }
            }
          }
        }
      }
    } else if let Const::Ty(_, ct) = c {
      if ct.try_to_target_usize(tcx).is_none() {
        let s = format!("{ct}");
        if let ty::ConstKind::Param(_) = ct.kind() {
          return arr(["\"ku\"".into(), tid, esc(&s)]);
        }
      }
    }
    let mut val: Option<String> = None;
    let generic = match c {
      Const::Unevaluated(u, _) => {
        use rustc_middle::ty::TypeVisitableExt;
        u.args.has_non_region_param()
      }
      Const::Ty(_, ct) => {
        use rustc_middle::ty::TypeVisitableExt;
        ct.has_non_region_param()
      }
      _ => false,
    };
    if !generic {
      let r = c.eval(tcx, env, span);
      if let Ok(cv) = r {
        use rustc_middle::ty::TypeVisitableExt;
        if !t.has_non_region_param() {
          let t2 = tcx.erase_and_anonymize_regions(t);
          val = self.cval(cv, t2);
        } else if let ConstValue::Scalar(s) = cv {
          val = self.scalar(s, t);
        }
      }
    }
    let big = val.as_ref().map_or(false, |v| v.len() > 2000);
    let vs = match (&val, big) {
      (Some(v), false) => v.clone(),
      _ => "null".into(),
    };
    if let Some(n) = named {
      return arr(["\"kd\"".into(), tid, vs, esc(&n)]);
    }
    if let Some(p) = promo {
      return arr(["\"pr\"".into(), tid, vs, arr(p), arr(pbody)]);
    }
    match val {
      Some(_) => arr(["\"k\"".into(), tid, vs]),
      None => arr([
        "\"ku\"".into(),
        tid,
        esc(&with_no_trimmed_paths!(format!("{c}"))),
      ]),
    }
  }

  fn op(&mut self, owner: DefId, b: &Body<'tcx>, o: &Operand<'tcx>) -> String {
    match o {
      Operand::Copy(p) => format!("[\"p\",{}]", self.place(b, *p)),
      Operand::Move(p) => format!("[\"m\",{}]", self.place(b, *p)),
      Operand::Constant(c) => self.konst(owner, c.const_, c.span),
      #[allow(unreachable_patterns)]
      _ => "[\"rc\"]".into(),
    }
  }

  fn rv(&mut self, owner: DefId, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
    match r {
      Rvalue::Use(o, ..) => arr(["\"use\"".into(), self.op(owner, b, o)]),
      Rvalue::Repeat(o, n) => {
        let o = self.op(owner, b, o);
        let n = n
          .try_to_target_usize(self.tcx)
          .map(|x| x.to_string())
          .unwrap_or_else(|| esc(&format!("{n}")));
        arr(["\"rep\"".into(), o, n])
      }
      Rvalue::Ref(_, k, p) => arr([
        "\"ref\"".into(),
        (matches!(k, BorrowKind::Mut { .. }) as u8).to_string(),
        self.place(b, *p),
      ]),
      Rvalue::RawPtr(k, p) => arr([
        "\"raw\"".into(),
        (matches!(k, RawPtrKind::Mut) as u8).to_string(),
        self.place(b, *p),
      ]),
      Rvalue::ThreadLocalRef(d) => {
        arr(["\"tls\"".into(), esc(&self.path(*d))])
      }
      Rvalue::Cast(k, o, t) => {
        let ks = match k {
          CastKind::PointerCoercion(c, _) => format!("{c:?}"),
          k => format!("{k:?}"),
        };
        let st = o.ty(&b.local_decls, self.tcx);
        let st = self.ty(st);
        let o = self.op(owner, b, o);
        let t = self.ty(*t);
        arr(["\"cast\"".into(), esc(&ks), o, t.to_string(), st.to_string()])
      }
      Rvalue::BinaryOp(op, ab) => {
        let t = ab.0.ty(&b.local_decls, self.tcx);
        let t = self.ty(t);
        let x = self.op(owner, b, &ab.0);
        let y = self.op(owner, b, &ab.1);
        arr(["\"bin\"".into(), esc(&format!("{op:?}")), x, y, t.to_string()])
      }
      Rvalue::UnaryOp(op, a) => {
        let t = a.ty(&b.local_decls, self.tcx);
        let t = self.ty(t);
        let x = self.op(owner, b, a);
        arr(["\"un\"".into(), esc(&format!("{op:?}")), x, t.to_string()])
      }
      Rvalue::Discriminant(p) => {
        let t = p.ty(&b.local_decls, self.tcx).ty;
        let t = self.ty(t);
        arr(["\"discr\"".into(), self.place(b, *p), t.to_string()])
      }
      Rvalue::Aggregate(k, ops) => {
        let os: Vec<String> =
          ops.iter().map(|o| self.op(owner, b, o)).collect();
        let os = arr(os);
        match &**k {
          AggregateKind::Array(_) => arr(["\"agg\"".into(), esc("array"), "null".into(), os]),
          AggregateKind::Tuple => arr(["\"agg\"".into(), esc("tuple"), "null".into(), os]),
          AggregateKind::Adt(d, vi, _, _, _) => {
            self.adt(*d);
            let def = self.tcx.adt_def(*d);
            let v = def.variant(*vi);
            let names: Vec<String> =
              v.fields.iter().map(|f| esc(f.name.as_str())).collect();
            arr([
              "\"agg\"".into(),
              esc("adt"),
              arr([
                esc(&self.path(*d)),
                if def.is_enum() { esc(v.name.as_str()) } else { "null".into() },
                arr(names),
              ]),
              os,
            ])
          }
          AggregateKind::Closure(d, _) => arr([
            "\"agg\"".into(),
            esc("closure"),
            esc(&self.key(*d)),
            os,
          ]),
          AggregateKind::RawPtr(..) => arr(["\"agg\"".into(), esc("rawptr"), "null".into(), os]),
          _ => arr(["\"agg\"".into(), esc("other"), "null".into(), os]),
        }
      }
      Rvalue::CopyForDeref(p) => arr([
        "\"use\"".into(),
        format!("[\"p\",{}]", self.place(b, *p)),
      ]),
      Rvalue::Reborrow(_, m, p) => arr([
        "\"ref\"".into(),
        (m.is_mut() as u8).to_string(),
        self.place(b, *p),
      ]),
      Rvalue::WrapUnsafeBinder(o, _) => {
        arr(["\"use\"".into(), self.op(owner, b, o)])
      }
    }
  }

  fn body(&mut self, did: DefId) {
    let tcx = self.tcx;
    let kind = tcx.def_kind(did);
    let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
    if !is_fn {
      return;
    }
    if kind == DefKind::Closure && tcx.is_coroutine(did) {
      return;
    }
    let b: &Body<'tcx> = tcx.optimized_mir(did);
    let mut kv: Vec<(&str, String)> = Vec::new();
    kv.push(("fn", esc(&self.key(did))));
    kv.push(("name", esc(&self.path(did))));
    let (f, l) = if did.is_local() { self.loc(tcx.def_span(did)) } else { ("std".to_string(), 0) };
    kv.push(("file", esc(&f)));
    kv.push(("line", l.to_string()));
    let local = did.as_local();
    if let Some(ld) = local {
      let full = tcx.hir_span_with_body(tcx.local_def_id_to_hir_id(ld)).source_callsite();
      let l2 = tcx.sess.source_map().lookup_char_pos(full.hi()).line;
      kv.push(("end", l2.to_string()));
    } else {
      kv.push(("ext", "true".into()));
    }
    kv.push(("kind", esc(match kind {
      DefKind::Fn => "fn",
      DefKind::AssocFn => "assoc",
      _ => "closure",
    })));
    if kind != DefKind::Closure {
      let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
      kv.push(("unsafe", (!sig.safety().is_safe()).to_string()));
      kv.push(("abi", esc(&format!("{}", sig.abi()))));
      kv.push(("vis", esc(&format!("{:?}", tcx.visibility(did)))));
      if let Some(ld) = local {
        let ev = tcx.effective_visibilities(());
        kv.push(("reach", ev.is_reachable(ld).to_string()));
      }
      let at = tcx.codegen_fn_attrs(did);
      let nm = at.flags.contains(
        rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE,
      );
      kv.push(("no_mangle", nm.to_string()));
      let mut tf = Vec::new();
      for x in &at.target_features {
        tf.push(esc(x.name.as_str()));
      }
      kv.push(("tf", arr(tf)));
      if let Some(ai) = tcx.opt_associated_item(did) {
        if let Some(td) = ai.trait_item_def_id() {
          kv.push(("titem", esc(&self.path(td))));
        }
        if let Some(imp) = tcx.impl_of_assoc(did) {
          let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
          let st = self.ty(st);
          kv.push(("self", st.to_string()));
        }
      }
    } else {
      let parent = tcx.typeck_root_def_id(did);
      kv.push(("root", esc(&self.key(parent))));
      kv.push(("parent", esc(&self.key(tcx.parent(did)))));
      if let Some(ld) = local {
        let caps: Vec<String> = tcx
          .closure_captures(ld)
          .iter()
          .map(|c| esc(&c.to_string(tcx)))
          .collect();
        kv.push(("caps", arr(caps)));
      }
    }
    let mut gs = Vec::new();
    {
      let g = tcx.generics_of(tcx.typeck_root_def_id(did));
      for i in 0..g.count() {
        let p = g.param_at(i, tcx);
        if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
          gs.push(esc(p.name.as_str()));
        }
      }
    }
    kv.push(("g", arr(gs)));
    kv.push(("nargs", b.arg_count.to_string()));
    let locs: Vec<String> = b
      .local_decls
      .iter()
      .map(|d| d.ty)
      .collect::<Vec<_>>()
      .into_iter()
      .map(|t| self.ty(t).to_string())
      .collect();
    kv.push(("locals", arr(locs)));
    let mut dbg = Vec::new();
    for v in &b.var_debug_info {
      if let VarDebugInfoContents::Place(p) = v.value {
        let pl = self.place(b, p);
        dbg.push(arr([esc(v.name.as_str()), pl]));
      }
    }
    kv.push(("dbg", arr(dbg)));
    let mut borrowed = std::collections::HashSet::new();
    for bb in b.basic_blocks.iter() {
      for st in &bb.statements {
        if let StatementKind::Assign(x) = &st.kind {
          match &x.1 {
            Rvalue::Ref(_, _, p) => {
              borrowed.insert(p.local);
            }
            Rvalue::RawPtr(_, p) => {
              borrowed.insert(p.local);
            }
            _ => {}
          }
        }
      }
    }
    let mut blocks = String::from("[");
    for (bi, bb) in b.basic_blocks.iter_enumerated() {
      if bi.as_u32() > 0 {
        blocks.push(',');
      }
      if bb.is_cleanup {
        blocks.push_str("null");
        continue;
      }
      blocks.push_str("[[");
      let mut first = true;
      for st in &bb.statements {
        let s = match &st.kind {
          StatementKind::Assign(x) => {
            let ln = self.lno(st.source_info.span);
            let dt = x.0.ty(&b.local_decls, tcx).ty;
            let dt = self.ty(dt);
            let pl = self.place(b, x.0);
            let rv = self.rv(did, b, &x.1);
            arr(["\"=\"".into(), pl, rv, ln.to_string(), dt.to_string()])
          }
          StatementKind::StorageDead(l) => {
            if !borrowed.contains(l) {
              continue;
            }
            arr(["\"dead\"".into(), l.as_u32().to_string()])
          }
          StatementKind::SetDiscriminant { place, variant_index } => {
            let ln = self.lno(st.source_info.span);
            let t = place.ty(&b.local_decls, tcx).ty;
            let vn = match t.kind() {
              ty::Adt(d, _) => d.variant(*variant_index).name.to_string(),
              _ => String::new(),
            };
            let pl = self.place(b, **place);
            arr(["\"sd\"".into(), pl, esc(&vn), ln.to_string()])
          }
          StatementKind::Intrinsic(i) => match &**i {
            NonDivergingIntrinsic::CopyNonOverlapping(c) => {
              let a = self.op(did, b, &c.src);
              let d = self.op(did, b, &c.dst);
              let n = self.op(did, b, &c.count);
              arr(["\"cpy\"".into(), a, d, n])
            }
            NonDivergingIntrinsic::Assume(o) => {
              let o = self.op(did, b, o);
              arr(["\"assume\"".into(), o])
            }
          },
          _ => continue,
        };
        if !first {
          blocks.push(',');
        }
        first = false;
        blocks.push_str(&s);
      }
      blocks.push_str("],");
      let t = bb.terminator();
      let ln = self.lno(t.source_info.span).to_string();
      let n = |x: BasicBlock| x.as_u32().to_string();
      let ts = match &t.kind {
        TerminatorKind::Goto { target, .. } => arr(["\"goto\"".into(), n(*target)]),
        TerminatorKind::SwitchInt { discr, targets } => {
          let dt = discr.ty(&b.local_decls, tcx);
          let sz = tcx
            .layout_of(TypingEnv::fully_monomorphized().as_query_input(dt))
            .ok()
            .map(|l| l.size);
          let mut v = Vec::new();
          for (val, tb) in targets.iter() {
            let vs = match (dt.kind(), sz) {
              (ty::Int(_), Some(sz)) => sz.sign_extend(val).to_string(),
              _ => val.to_string(),
            };
            v.push(arr([vs, n(tb)]));
          }
          let o = self.op(did, b, discr);
          let dt = self.ty(dt);
          arr([
            "\"switch\"".into(),
            o,
            arr(v),
            n(targets.otherwise()),
            dt.to_string(),
            ln,
          ])
        }
        TerminatorKind::Return => arr(["\"ret\"".into()]),
        TerminatorKind::Unreachable => arr(["\"unreachable\"".into()]),
        TerminatorKind::Drop { place, target, .. } => {
          let dt = place.ty(&b.local_decls, tcx).ty;
          let dt = self.ty(dt);
          arr([
            "\"drop\"".into(),
            self.place(b, *place),
            n(*target),
            dt.to_string(),
            ln,
          ])
        }
        TerminatorKind::Call { func, args, destination, target, .. } => {
          let f = match func {
            Operand::Constant(c) => self.konst(did, c.const_, c.span),
            o => self.op(did, b, o),
          };
          let av: Vec<String> =
            args.iter().map(|a| self.op(did, b, &a.node)).collect();
          let av = arr(av);
          let dt = destination.ty(&b.local_decls, tcx).ty;
          let dt = self.ty(dt);
          let dp = self.place(b, *destination);
          arr([
            "\"call\"".into(),
            f,
            av,
            dp,
            target.map(n).unwrap_or("-1".into()),
            ln,
            dt.to_string(),
          ])
        }
        TerminatorKind::Assert { cond, expected, msg, target, .. } => {
          let (k, ops): (&str, Vec<String>) = match &**msg {
            AssertKind::BoundsCheck { len, index } => (
              "bounds",
              vec![self.op(did, b, len), self.op(did, b, index)],
            ),
            AssertKind::Overflow(..) => ("overflow", vec![]),
            AssertKind::OverflowNeg(_) => ("overflowneg", vec![]),
            AssertKind::DivisionByZero(o) => {
              ("div0", vec![self.op(did, b, o)])
            }
            AssertKind::RemainderByZero(o) => {
              ("rem0", vec![self.op(did, b, o)])
            }
            _ => ("other", vec![]),
          };
          let c = self.op(did, b, cond);
          arr([
            "\"assert\"".into(),
            c,
            expected.to_string(),
            esc(k),
            n(*target),
            ln,
            arr(ops),
          ])
        }
        TerminatorKind::UnwindResume => arr(["\"resume\"".into()]),
        TerminatorKind::FalseEdge { real_target, .. } => {
          arr(["\"goto\"".into(), n(*real_target)])
        }
        TerminatorKind::FalseUnwind { real_target, .. } => {
          arr(["\"goto\"".into(), n(*real_target)])
        }
        TerminatorKind::InlineAsm { targets, .. } => arr([
          "\"asm\"".into(),
          arr(targets.iter().map(|x| n(*x))),
          ln,
        ]),
        k => arr(["\"other\"".into(), esc(&format!("{:?}", k.name()))]),
      };
      blocks.push_str(&ts);
      blocks.push(']');
    }
    blocks.push(']');
    kv.push(("bb", blocks));
    let s = obj(&kv);
    self.line(&s);
  }

  fn run(&mut self) {
    let tcx = self.tcx;
    let cn = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let hdr = obj(&[
      ("crate", esc(&cn)),
      (
        "ovf",
        tcx.sess.overflow_checks().to_string(),
      ),
      ("dbgassert", tcx.sess.opts.debug_assertions.to_string()),
    ]);
    self.line(&hdr);
    let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|d| d.local_def_index);
    for k in keys {
      self.body(k.to_def_id());
    }
    let mut xi = 0;
    while xi < self.ext_queue.len() && xi < 2000 {
      let d = self.ext_queue[xi];
      xi += 1;
      self.body(d);
    }
    // consts / statics / impls / foreign
    let defs: Vec<LocalDefId> = tcx.hir_crate_items(()).definitions().collect();
    for ld in defs {
      let did = ld.to_def_id();
      let dk = tcx.def_kind(did);
      match dk {
        DefKind::Const { .. } | DefKind::AssocConst { .. } => {
          let g = tcx.generics_of(did);
          if g.requires_monomorphization(tcx) {
            continue;
          }
          if matches!(dk, DefKind::AssocConst { .. }) {
            if let Some(ai) = tcx.opt_associated_item(did) {
              if matches!(ai.container, ty::AssocContainer::Trait) {
                continue;
              }
            }
          }
          let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
          let t = tcx.erase_and_anonymize_regions(t);
          let t = tcx.normalize_erasing_regions(TypingEnv::fully_monomorphized(), ty::Unnormalized::new_wip(t));
          let v = tcx.const_eval_poly(did).ok().and_then(|v| self.cval(v, t));
          let (f, l) = self.loc(tcx.def_span(did));
          let tid = self.ty(t);
          let s = obj(&[
            ("const", esc(&self.path(did))),
            ("key", esc(&self.key(did))),
            ("ty", tid.to_string()),
            ("file", esc(&f)),
            ("line", l.to_string()),
            ("val", v.unwrap_or("null".into())),
          ]);
          self.line(&s);
        }
        DefKind::Static { .. } => {
          let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
          let t = tcx.erase_and_anonymize_regions(t);
          let t = tcx.normalize_erasing_regions(TypingEnv::fully_monomorphized(), ty::Unnormalized::new_wip(t));
          let (f, l) = self.loc(tcx.def_span(did));
          let tid = self.ty(t);
          let foreign = tcx.is_foreign_item(did);
          let v = if foreign {
            None
          } else {
            match tcx.eval_static_initializer(did) {
              Ok(a) => self.val(a.inner(), Size::ZERO, t, 0),
              Err(_) => None,
            }
          };
          let freeze = t.is_freeze(tcx, TypingEnv::fully_monomorphized());
          let s = obj(&[
            ("static", esc(&self.path(did))),
            ("key", esc(&self.key(did))),
            ("ty", tid.to_string()),
            ("file", esc(&f)),
            ("line", l.to_string()),
            ("mut", tcx.is_mutable_static(did).to_string()),
            ("freeze", freeze.to_string()),
            ("foreign", foreign.to_string()),
            ("tls", tcx.is_thread_local_static(did).to_string()),
            ("val", v.unwrap_or("null".into())),
          ]);
          self.line(&s);
        }
        DefKind::Impl { of_trait } => {
          let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
          let sid = self.ty(st);
          let (f, l) = self.loc(tcx.def_span(did));
          let mut kv = vec![
            ("impl", esc(&self.key(did))),
            ("self", sid.to_string()),
            ("file", esc(&f)),
            ("line", l.to_string()),
          ];
          if of_trait {
            let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
            kv.push(("trait", esc(&self.path(tr.def_id))));
            let h = tcx.impl_trait_header(did);
            kv.push(("unsafe", (!h.safety.is_safe()).to_string()));
            kv.push(("neg", (tcx.impl_polarity(did) == ty::ImplPolarity::Negative).to_string()));
          }
          let mut items = Vec::new();
          for it in tcx.associated_items(did).in_definition_order() {
            let tn = it.trait_item_def_id().map(|d| esc(&self.path(d))).unwrap_or("null".into());
            items.push(arr([
              esc(it.opt_name().map(|s| s.to_string()).unwrap_or_default().as_str()),
              esc(&self.key(it.def_id)),
              tn,
            ]));
          }
          kv.push(("items", arr(items)));
          let s = obj(&kv);
          self.line(&s);
        }
        DefKind::Struct | DefKind::Enum | DefKind::Union => self.adt(did),
        DefKind::Fn if tcx.is_foreign_item(did) => {
          let link = self.link_name(did).unwrap_or_default();
          let (f, l) = self.loc(tcx.def_span(did));
          let s = obj(&[
            ("foreign", esc(&self.path(did))),
            ("link", esc(&link)),
            ("file", esc(&f)),
            ("line", l.to_string()),
          ]);
          self.line(&s);
        }
        _ => {}
      }
    }
    // adts (may enqueue more types/adts)
    let mut i = 0;
    while i < self.adt_queue.len() {
      let did = self.adt_queue[i];
      i += 1;
      if i > 20000 {
        break;
      }
      let def = tcx.adt_def(did);
      let mut vs = Vec::new();
      let discr: Vec<(VariantIdx, String)> = if def.is_enum() {
        def
          .discriminants(tcx)
          .map(|(i, d)| {
            let sz = tcx
              .layout_of(TypingEnv::fully_monomorphized().as_query_input(d.ty))
              .map(|l| l.size)
              .unwrap_or(Size::from_bytes(8));
            (i, self.bits(d.val, sz, d.ty))
          })
          .collect()
      } else {
        vec![]
      };
      for (vi, v) in def.variants().iter_enumerated() {
        let mut fs = Vec::new();
        for f in &v.fields {
          let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
          let tid = if did.is_local() || self.adts.len() < 3000 {
            self.ty(ft).to_string()
          } else {
            "-1".into()
          };
          fs.push(arr([
            esc(f.name.as_str()),
            tid,
            esc(if f.vis.is_public() { "pub" } else { "priv" }),
          ]));
        }
        let d = discr
          .iter()
          .find(|(i, _)| *i == vi)
          .map(|x| x.1.clone())
          .unwrap_or("null".into());
        vs.push(arr([esc(v.name.as_str()), d, arr(fs)]));
      }
      let (f, l) =
        if did.is_local() { self.loc(tcx.def_span(did)) } else { (String::new(), 0) };
      let gp: Vec<String> = tcx
        .generics_of(did)
        .own_params
        .iter()
        .filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))
        .map(|p| esc(p.name.as_str()))
        .collect();
      let mut offs = Vec::new();
      if did.is_local() && def.is_struct() && tcx.generics_of(did).count() == 0 {
        let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
        if let Ok(l) =
          tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t))
        {
          offs.push(l.size.bytes().to_string());
          for i in 0..l.fields.count() {
            let cx = ty::layout::LayoutCx::new(
              tcx,
              TypingEnv::fully_monomorphized(),
            );
            let ft = l.field(&cx, i).ty;
            offs.push(arr([
              l.fields.offset(i).bytes().to_string(),
              self.ty(ft).to_string(),
            ]));
          }
        }
      }
      let s = obj(&[
        ("adt", esc(&self.path(did))),
        ("layout", arr(offs)),
        ("k", esc(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
        ("repr", esc(&format!("{:?}", def.repr().int))),
        ("g", arr(gp)),
        ("variants", arr(vs)),
        ("file", esc(&f)),
        ("line", l.to_string()),
      ]);
      self.line(&s);
    }
    let tl = std::mem::take(&mut self.ty_lines);
    for l in tl {
      self.line(&l);
    }
    self.line("{\"end\":true}");
  }
}

fn rv_consts<'tcx>(r: &Rvalue<'tcx>) -> Vec<Const<'tcx>> {
  let mut v = Vec::new();
  let mut o = |o: &Operand<'tcx>| {
    if let Operand::Constant(c) = o {
      v.push(c.const_)
    }
  };
  match r {
    Rvalue::Use(a, ..) | Rvalue::Repeat(a, _) | Rvalue::Cast(_, a, _) | Rvalue::UnaryOp(_, a) => o(a),
    Rvalue::BinaryOp(_, ab) => {
      o(&ab.0);
      o(&ab.1)
    }
    Rvalue::Aggregate(_, ops) => ops.iter().for_each(o),
    _ => {}
  }
  v
}

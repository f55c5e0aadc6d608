//! The reference model: an independent encoder (value -> element tree) and decoder
//! (element tree -> value) derived from the documented meaning of the annotations.
use crate::choice::Src;
use crate::val::*;
use crate::xml::*;

fn is_absent(v: &Val) -> bool {
  matches!(v, Val::Opt(None)) || matches!(v, Val::Vec(xs) if xs.is_empty())
}
pub struct Schema {
  pub types: Vec<TypeDef>,
}

pub fn sc_text(v: &Val, s: Sc) -> String {
  match (v, s) {
    (Val::Int(i), Sc::Hex(bits, _)) => {
      let _ = bits;
      format!("{:02X}", i)
    }
    (Val::Str(t), _) => t.clone(),
    (Val::Bool(b), _) => b.to_string(),
    (Val::Int(i), _) => i.to_string(),
    (Val::F32(x), _) => x.to_string(),
    (Val::F64(x), _) => x.to_string(),
    _ => panic!("not a scalar: {v:?}"),
  }
}
fn int_range(s: Sc) -> Option<(i128, i128)> {
  Some(match s {
    Sc::I8 => (i8::MIN as i128, i8::MAX as i128),
    Sc::U8 => (0, u8::MAX as i128),
    Sc::I16 => (i16::MIN as i128, i16::MAX as i128),
    Sc::U16 => (0, u16::MAX as i128),
    Sc::I32 => (i32::MIN as i128, i32::MAX as i128),
    Sc::U32 => (0, u32::MAX as i128),
    Sc::I64 => (i64::MIN as i128, i64::MAX as i128),
    Sc::U64 => (0, u64::MAX as i128),
    Sc::Isize => (isize::MIN as i128, isize::MAX as i128),
    Sc::Usize => (0, usize::MAX as i128),
    _ => return None,
  })
}
/// text of an element or attribute -> value, as the scalar's own parser does
pub fn sc_parse(t: &str, s: Sc) -> Option<Val> {
  Some(match s {
    Sc::Str => Val::Str(t.to_string()),
    Sc::Bool => Val::Bool(match t {
      "true" | "1" => true,
      "false" | "0" => false,
      _ => return None,
    }),
    Sc::F32 => Val::F32(t.parse().ok()?),
    Sc::F64 => Val::F64(t.parse().ok()?),
    Sc::Hex(bits, mask) => {
      let x = u128::from_str_radix(t, 16).ok()?;
      if x >> bits != 0 || x & !(mask as u128) != 0 {
        return None;
      }
      Val::Int(x as i128)
    }
    Sc::I8 => Val::Int(t.parse::<i8>().ok()? as i128),
    Sc::U8 => Val::Int(t.parse::<u8>().ok()? as i128),
    Sc::I16 => Val::Int(t.parse::<i16>().ok()? as i128),
    Sc::U16 => Val::Int(t.parse::<u16>().ok()? as i128),
    Sc::I32 => Val::Int(t.parse::<i32>().ok()? as i128),
    Sc::U32 => Val::Int(t.parse::<u32>().ok()? as i128),
    Sc::I64 => Val::Int(t.parse::<i64>().ok()? as i128),
    Sc::U64 => Val::Int(t.parse::<u64>().ok()? as i128),
    Sc::Isize => Val::Int(t.parse::<isize>().ok()? as i128),
    Sc::Usize => Val::Int(t.parse::<usize>().ok()? as i128),
    Sc::Char => Val::Str(t.parse::<char>().ok()?.to_string()),
  })
}
/// text of a payload of an enum variant: booleans have no 1/0 form there
impl Schema {
  pub fn ty(&self, i: usize) -> &TypeDef {
    &self.types[i]
  }
  // ------------------------------------------------------------ encode
  pub fn encode(&self, t: usize, v: &Val) -> Vec<Elem> {
    let td = self.ty(t);
    if td.flatten {
      let mut e = Elem::new("", "");
      self.body(t, v, &mut e, &mut false);
      return e.kids.into_iter().map(|k| if let Node::E(x) = k { x } else { panic!("text at root") }).collect();
    }
    let mut e = Elem::new(td.root_ns, td.root);
    self.fill(t, v, &mut e);
    vec![e]
  }
  /// attributes and content of an element that carries a value of type t
  fn fill(&self, t: usize, v: &Val, e: &mut Elem) {
    self.attrs(t, v, e);
    self.body(t, v, e, &mut false);
  }
  fn attrs(&self, t: usize, v: &Val, e: &mut Elem) {
    match &self.ty(t).kind {
      Kind::Struct(fs) => {
        // own attributes first, then those of flattened parts
        for (f, x) in fs.iter().zip(v.fields()) {
          if f.role == Role::Attr && self.written(f, x) {
            if let Some(s) = self.attr_text(&f.ty, x) {
              e.attr(f.ns, f.name, s);
              e.attrs.last_mut().unwrap().list = matches!(f.ty, Ty::Vec(_));
            }
          }
        }
        for (f, x) in fs.iter().zip(v.fields()) {
          if f.role == Role::Flatten && self.written(f, x) {
            match (&f.ty, x) {
              (Ty::Ref(r), x) => self.attrs(*r, x, e),
              (Ty::Opt(o), Val::Opt(Some(x))) => {
                if let Ty::Ref(r) = **o {
                  self.attrs(r, x, e)
                }
              }
              _ => {}
            }
          }
        }
      }
      Kind::Enum { variants, tag: Some(tag), .. } => {
        e.attr("", tag, variants[v.en().0].label.to_string());
      }
      _ => {}
    }
  }
  fn written(&self, f: &FieldDef, x: &Val) -> bool {
    !f.skip && f.default.as_ref() != Some(x) && !f.skip_if.map_or(false, |p| p(x))
  }
  fn attr_text(&self, ty: &Ty, v: &Val) -> Option<String> {
    match (ty, v) {
      (Ty::Sc(s), v) => Some(sc_text(v, *s)),
      (Ty::Opt(t), Val::Opt(o)) => o.as_ref().and_then(|x| self.attr_text(t, x)),
      (Ty::Vec(t), Val::Vec(xs)) => {
        if xs.is_empty() {
          return None;
        }
        let v: Vec<String> = xs.iter().map(|x| self.attr_text(t, x).unwrap()).collect();
        Some(v.join(" "))
      }
      (Ty::Ref(r), v) => {
        let mut e = Elem::new("", "");
        self.body(*r, v, &mut e, &mut false);
        Some(e.text_content())
      }
      _ => panic!("attr {ty:?} {v:?}"),
    }
  }
  fn body(&self, t: usize, v: &Val, e: &mut Elem, _x: &mut bool) {
    match &self.ty(t).kind {
      Kind::Prim(s) => e.kids.push(Node::T(sc_text(v, *s))),
      Kind::Custom => panic!("custom"),
      Kind::Struct(fs) => {
        for (f, x) in fs.iter().zip(v.fields()) {
          match f.role {
            Role::Attr => {}
            Role::Text if !self.written(f, x) => {}
            Role::Text => e.kids.push(Node::T(match x {
              Val::Opt(None) => String::new(),
              Val::Opt(Some(x)) => sc_text(x, Sc::Str),
              x => sc_text(x, Sc::Str),
            })),
            Role::Elem => {
              if self.written(f, x) {
                self.child(f.ns, f.name, &f.ty, x, f.cdata, e)
              }
            }
            Role::Flatten => {
              if self.written(f, x) {
                match (&f.ty, x) {
                  (Ty::Ref(r), x) => self.body(*r, x, e, &mut false),
                  (Ty::Opt(o), Val::Opt(x)) => {
                    if let (Ty::Ref(r), Some(x)) = (&**o, x) {
                      self.body(*r, x, e, &mut false)
                    }
                  }
                  (Ty::Vec(o), Val::Vec(xs)) => {
                    if let Ty::Ref(r) = **o {
                      for x in xs {
                        self.body(r, x, e, &mut false)
                      }
                    }
                  }
                  _ => panic!("flatten"),
                }
              }
            }
          }
        }
      }
      Kind::Enum { variants, tag, .. } => {
        let (i, p) = v.en();
        let vd = &variants[i];
        match &vd.payload {
          Payload::Unit => {
            if tag.is_none() {
              e.kids.push(Node::T(vd.label.to_string()))
            }
          }
          Payload::New(ty) if vd.flatten => {
            // the payload writes its own element
            if let Ty::Ref(r) = ty {
              let td = self.ty(*r);
              let mut c = Elem::new(td.root_ns, td.root);
              self.fill(*r, &p[0], &mut c);
              e.kids.push(Node::E(c));
            }
          }
          Payload::New(ty) => self.child(vd.ns, vd.label, ty, &p[0], false, e),
          Payload::Named(fs) => {
            for (f, x) in fs.iter().zip(p) {
              if !f.skip {
                self.child(f.ns, f.name, &f.ty, x, false, e)
              }
            }
          }
        }
      }
    }
  }
  fn child(&self, ns: &str, name: &str, ty: &Ty, v: &Val, cdata: bool, e: &mut Elem) {
    match (ty, v) {
      (Ty::Sc(s), v) => {
        let mut c = Elem::new(ns, name);
        let t = sc_text(v, *s);
        c.kids.push(if cdata { Node::C(t) } else { Node::T(t) });
        e.kids.push(Node::E(c));
      }
      (Ty::Opt(t), Val::Opt(o)) => {
        if let Some(x) = o {
          self.child(ns, name, t, x, cdata, e)
        }
      }
      (Ty::Vec(t), Val::Vec(xs)) => {
        for x in xs {
          self.child(ns, name, t, x, cdata, e)
        }
      }
      (Ty::Ref(r), v) => {
        let mut c = Elem::new(ns, name);
        self.fill(*r, v, &mut c);
        e.kids.push(Node::E(c));
      }
      _ => panic!("child {ty:?} {v:?}"),
    }
  }
  // ------------------------------------------------------------ decode
  pub fn decode(&self, t: usize, roots: &[Elem]) -> Result<Val, String> {
    let td = self.ty(t);
    if td.flatten {
      let mut e = Elem::new("", "");
      e.kids = roots.iter().cloned().map(Node::E).collect();
      return self.dec(t, &e);
    }
    self.dec(t, &roots[0])
  }
  fn trim(s: &str) -> &str {
    s.trim_matches(|c: char| c == ' ' || c == '\n' || c == '\t' || c == '\r')
  }
  fn dec(&self, t: usize, e: &Elem) -> Result<Val, String> {
    let td = self.ty(t);
    match &td.kind {
      Kind::Custom => panic!("custom"),
      // no 1/0 spelling of booleans in a newtype, which is parsed by its own parser
      Kind::Prim(Sc::Bool) if matches!(Self::trim(&e.text_content()), "1" | "0") => Err("bool".into()),
      Kind::Prim(s) => sc_parse(Self::trim(&e.text_content()), *s).ok_or_else(|| format!("bad text for {}", td.name)),
      Kind::Enum { variants, tag, default } => {
        if let Some(tag) = tag {
          let a = e.attrs.iter().find(|a| a.local == *tag).ok_or("no tag")?;
          return Ok(match variants.iter().position(|v| v.label == a.value) {
            Some(i) => Val::Enum(i, vec![]),
            None => default.clone(),
          });
        }
        let text = e.text_content();
        let text = Self::trim(&text);
        if let Some(i) = variants.iter().position(|v| matches!(v.payload, Payload::Unit) && v.label == text) {
          return Ok(Val::Enum(i, vec![]));
        }
        let mut cur: Option<Val> = None;
        for c in e.elems() {
          let Some(i) = variants.iter().position(|v| v.label == c.local) else { continue };
          let Payload::New(ty) = &variants[i].payload else { return Err("element form of a unit variant".into()) };
          let one = |ty: &Ty| -> Result<Val, String> {
            match ty {
              Ty::Sc(s) => {
                // no 1/0 spelling of booleans for variant payloads
                let t = c.text_content();
                let t = Self::trim(&t);
                if *s == Sc::Bool && (t == "1" || t == "0") {
                  return Err("bool".into());
                }
                sc_parse(t, *s).ok_or_else(|| "bad payload".to_string())
              }
              Ty::Ref(r) => self.dec(*r, c),
              _ => Err("nested".into()),
            }
          };
          match ty {
            Ty::Opt(t) => cur = Some(Val::Enum(i, vec![Val::Opt(Some(Box::new(one(t)?)))])),
            Ty::Vec(t) => {
              let x = one(t)?;
              match &mut cur {
                None => cur = Some(Val::Enum(i, vec![Val::Vec(vec![x])])),
                Some(Val::Enum(j, p)) if *j == i => match &mut p[0] {
                  Val::Vec(v) => v.push(x),
                  _ => unreachable!(),
                },
                _ => return Err("sequence of different types".into()),
              }
            }
            t => cur = Some(Val::Enum(i, vec![one(t)?])),
          }
        }
        Ok(cur.unwrap_or_else(|| default.clone()))
      }
      Kind::Struct(fs) => {
        let mut cur: Vec<Option<Val>> = vec![None; fs.len()];
        for (k, f) in fs.iter().enumerate() {
          if f.role == Role::Attr {
            for a in e.attrs.iter().filter(|a| a.local == f.name) {
              cur[k] = Some(self.dec_attr(&f.ty, &a.value, cur[k].take())?);
            }
          }
        }
        let mut unused = Elem::new(&e.ns, &e.local);
        unused.attrs = e.attrs.clone();
        let mut text = String::new();
        let mut texts = vec![];
        for n in &e.kids {
          let c = match n {
            Node::T(t) | Node::C(t) => {
              text.push_str(t);
              continue;
            }
            Node::E(c) => c,
          };
          if !Self::trim(&text).is_empty() {
            texts.push(Self::trim(&text).to_string());
          }
          text.clear();
          match fs.iter().position(|f| f.role == Role::Elem && f.name == c.local && f.ns == c.ns) {
            None => unused.kids.push(Node::E(c.clone())),
            Some(k) => {
              let prev = cur[k].take();
              cur[k] = self.dec_child(&fs[k].ty, c, prev)?;
            }
          }
        }
        if !Self::trim(&text).is_empty() {
          texts.push(Self::trim(&text).to_string());
        }
        for t in &texts {
          unused.kids.push(Node::T(t.clone()));
        }
        let mut out = vec![];
        for (k, f) in fs.iter().enumerate() {
          let v = match f.role {
            Role::Flatten => match &f.ty {
              Ty::Ref(r) => Some(self.dec(*r, &unused)?),
              Ty::Opt(o) => match &**o {
                Ty::Ref(r) => Some(Val::Opt(self.dec(*r, &unused).ok().map(Box::new))),
                _ => panic!(),
              },
              _ => panic!(),
            },
            Role::Text => match (&f.ty, texts.last()) {
              (Ty::Opt(_), None) => None,
              (Ty::Opt(_), Some(t)) => Some(Val::Opt(Some(Box::new(Val::Str(t.clone()))))),
              (_, Some(t)) => Some(Val::Str(t.clone())),
              (_, None) => f.default.clone().or(Some(Val::Str(String::new()))),
            },
            _ => cur[k].take(),
          };
          // an absent part, or a list without elements, is the default
          let v = v.filter(|v| !is_absent(v) || f.default.is_none());
          let v = match (v, &f.default, &f.ty) {
            (Some(v), _, _) => v,
            (None, Some(d), _) => d.clone(),
            (None, None, Ty::Opt(_)) => Val::Opt(None),
            (None, None, Ty::Vec(_)) => Val::Vec(vec![]),
            (None, None, _) => return Err(format!("{} is required", f.name)),
          };
          out.push(v);
        }
        Ok(Val::Struct(out))
      }
    }
  }
  fn dec_attr(&self, ty: &Ty, s: &str, prev: Option<Val>) -> Result<Val, String> {
    match ty {
      Ty::Sc(k) => sc_parse(s, *k).ok_or_else(|| "bad attribute".to_string()),
      Ty::Opt(t) => Ok(Val::Opt(Some(Box::new(self.dec_attr(t, s, None)?)))),
      Ty::Vec(t) => {
        let mut v = match prev {
          Some(Val::Vec(v)) => v,
          _ => vec![],
        };
        for w in s.split_whitespace() {
          v.push(self.dec_attr(t, w, None)?);
        }
        Ok(Val::Vec(v))
      }
      Ty::Ref(r) => {
        let mut e = Elem::new("", "");
        e.kids.push(Node::T(s.to_string()));
        self.dec(*r, &e)
      }
    }
  }
  /// folds one more occurrence of a child element into the field's current value
  fn dec_child(&self, ty: &Ty, c: &Elem, prev: Option<Val>) -> Result<Option<Val>, String> {
    match ty {
      Ty::Sc(s) => Ok(sc_parse(Self::trim(&c.text_content()), *s).or(prev)),
      Ty::Ref(r) => Ok(Some(self.dec(*r, c)?)),
      Ty::Opt(t) => Ok(self.dec_child(t, c, None)?.map(|v| Val::Opt(Some(Box::new(v)))).or(prev)),
      Ty::Vec(t) => {
        let mut v = match prev {
          Some(Val::Vec(v)) => v,
          _ => vec![],
        };
        if let Some(x) = self.dec_child(t, c, None)? {
          v.push(x);
        }
        Ok(Some(Val::Vec(v)))
      }
    }
  }
  /// Whether a decode must reach the end of the root element before it can return.
  pub fn complete_at_end(&self, t: usize) -> bool {
    match &self.ty(t).kind {
      Kind::Struct(_) => true,
      Kind::Enum { variants, tag, .. } => tag.is_none() && variants.iter().all(|v| !matches!(v.payload, Payload::Unit)),
      _ => false,
    }
  }

  // ------------------------------------------------------------ values
  pub fn gen(&self, s: &mut Src, t: usize, g: &mut Gen) -> Val {
    let v = self.gen_t(s, t, g, 0);
    self.settle(t, v)
  }
  /// a value of a writer, whose skipped fields hold anything
  pub fn gen_held(&self, s: &mut Src, t: usize, g: &mut Gen) -> Val {
    self.gen_t(s, t, g, 0)
  }
  /// what a reload of the value gives: skipped fields hold their default
  pub fn settle(&self, t: usize, v: Val) -> Val {
    match (&self.ty(t).kind, v) {
      (Kind::Struct(fs), Val::Struct(xs)) => Val::Struct(
        fs.iter()
          .zip(xs)
          .map(|(f, x)| {
            if f.skip {
              match (&f.default, &f.ty) {
                (Some(d), _) => d.clone(),
                (None, Ty::Opt(_)) => Val::Opt(None),
                (None, Ty::Vec(_)) => Val::Vec(vec![]),
                _ => panic!("skip without default"),
              }
            } else {
              self.settle_ty(&f.ty, x)
            }
          })
          .collect(),
      ),
      (Kind::Enum { variants, .. }, Val::Enum(i, p)) => {
        let p = match &variants[i].payload {
          Payload::New(ty) => p.into_iter().map(|x| self.settle_ty(ty, x)).collect(),
          Payload::Named(fs) => fs.iter().zip(p).map(|(f, x)| self.settle_ty(&f.ty, x)).collect(),
          Payload::Unit => p,
        };
        Val::Enum(i, p)
      }
      (_, v) => v,
    }
  }
  fn settle_ty(&self, ty: &Ty, v: Val) -> Val {
    match (ty, v) {
      (Ty::Ref(r), v) => self.settle(*r, v),
      (Ty::Opt(t), Val::Opt(Some(x))) => Val::Opt(Some(Box::new(self.settle_ty(t, *x)))),
      (Ty::Vec(t), Val::Vec(xs)) => Val::Vec(xs.into_iter().map(|x| self.settle_ty(t, x)).collect()),
      (_, v) => v,
    }
  }
  fn gen_t(&self, s: &mut Src, t: usize, g: &mut Gen, depth: usize) -> Val {
    match &self.ty(t).kind {
      Kind::Prim(k) => self.gen_sc(s, *k, g, Place::Text),
      Kind::Custom => panic!(),
      Kind::Struct(fs) => Val::Struct(fs.iter().map(|f| self.gen_field(s, f, g, depth)).collect()),
      Kind::Enum { variants, .. } => {
        let i = s.below(variants.len());
        match &variants[i].payload {
          Payload::Unit => Val::Enum(i, vec![]),
          // an empty list or an absent payload has no document form of its own
          Payload::New(Ty::Vec(ty)) => {
            let n = 1 + g.len(s, 6);
            Val::Enum(i, vec![Val::Vec((0..n).map(|_| self.gen_ty(s, ty, g, depth + 1, Place::Payload)).collect())])
          }
          Payload::New(Ty::Opt(ty)) => {
            Val::Enum(i, vec![Val::Opt(Some(Box::new(self.gen_ty(s, ty, g, depth + 1, Place::Payload))))])
          }
          Payload::New(ty) => Val::Enum(i, vec![self.gen_ty(s, ty, g, depth + 1, Place::Payload)]),
          Payload::Named(fs) => Val::Enum(i, fs.iter().map(|f| self.gen_field(s, f, g, depth)).collect()),
        }
      }
    }
  }
  fn gen_field(&self, s: &mut Src, f: &FieldDef, g: &mut Gen, depth: usize) -> Val {
    if let Some(d) = &f.default {
      if s.chance(1, 3) {
        return d.clone();
      }
    }
    let place = match f.role {
      Role::Attr => Place::Attr,
      Role::Text => Place::Text,
      _ if f.cdata => Place::Cdata,
      _ => Place::Elem,
    };
    let v = match &f.ty {
      // a fully absent flattened optional part cannot be told from nothing; keep it as generated
      ty => self.gen_ty(s, ty, g, depth + 1, place),
    };
    let v = match v {
      // an empty optional text reads back as absent
      Val::Opt(Some(b)) if f.role == Role::Text && matches!(&*b, Val::Str(t) if t.is_empty()) => Val::Opt(None),
      v => v,
    };
    // what has no document form reads back as the default
    if let Some(d) = &f.default {
      if is_absent(&v) || f.role == Role::Text && matches!(&v, Val::Str(t) if t.is_empty()) {
        return d.clone();
      }
    }
    // a value that the annotations leave out reads back as the default
    if let Some(p) = f.skip_if {
      if p(&v) {
        return match (&f.default, &f.ty) {
          (Some(d), _) => d.clone(),
          (None, Ty::Opt(_)) => Val::Opt(None),
          (None, Ty::Vec(_)) => Val::Vec(vec![]),
          _ => panic!("skip_if without default: {}", f.name),
        };
      }
    }
    v
  }
  fn recursive(&self, t: &Ty) -> bool {
    matches!(t, Ty::Ref(r) if self.ty(*r).tags == "rec")
  }
  fn gen_ty(&self, s: &mut Src, ty: &Ty, g: &mut Gen, depth: usize, place: Place) -> Val {
    match ty {
      Ty::Sc(k) => self.gen_sc(s, *k, g, place),
      Ty::Opt(t) => {
        let deeper = depth > 6 && depth < g.deep && self.recursive(t);
        if deeper || depth < 40 && s.chance(if depth > 6 { 1 } else { 3 }, 5) {
          Val::Opt(Some(Box::new(self.gen_ty(s, t, g, depth, place))))
        } else {
          Val::Opt(None)
        }
      }
      Ty::Vec(t) => {
        let n = if depth > 5 && depth < g.deep && self.recursive(t) {
          1
        } else if depth > 12 { s.below(8) / 7 } else if depth > 5 { s.below(2) } else { g.len(s, if matches!(**t, Ty::Sc(_)) { 8 } else { 4 }) };
        let place = if place == Place::Attr { Place::AttrList } else { place };
        if n > 400 {
          let some: Vec<Val> = (0..7).map(|_| self.gen_ty(s, t, g, depth + 1, place)).collect();
          let n = n.min(160_000 / (1 + some.iter().map(parts).max().unwrap_or(0)));
          return Val::Vec((0..n).map(|i| some[i % 7].clone()).collect());
        }
        Val::Vec((0..n).map(|_| self.gen_ty(s, t, g, depth + 1, place)).collect())
      }
      Ty::Ref(r) => {
        if matches!(place, Place::Attr | Place::AttrList | Place::AttrRef | Place::AttrListRef) {
          // text-only types used as attributes: see known finding attr-markup
          let place = if matches!(place, Place::Attr | Place::AttrRef) { Place::AttrRef } else { Place::AttrListRef };
          return match &self.ty(*r).kind {
            Kind::Struct(fs) => Val::Struct(fs.iter().map(|f| self.gen_ty(s, &f.ty, g, depth, place)).collect()),
            Kind::Prim(k) => self.gen_sc(s, *k, g, place),
            _ => self.gen_t(s, *r, g, depth),
          };
        }
        self.gen_t(s, *r, g, depth)
      }
    }
  }
  pub fn gen_sc(&self, s: &mut Src, k: Sc, g: &mut Gen, place: Place) -> Val {
    match k {
      Sc::Str => Val::Str(g.string(s, place)),
      Sc::Bool => Val::Bool(s.chance(1, 2)),
      Sc::Char => {
        // an attribute of this type is written like one of a named type
        let t = g.string(s, if place == Place::Attr { Place::AttrRef } else { place });
        Val::Str(t.chars().last().unwrap_or('-').to_string())
      }
      Sc::F32 => Val::F32(match s.below(8) {
        0 => 0.0,
        1 => 1.5,
        2 => -1.0,
        3 => f32::MAX,
        4 => f32::MIN_POSITIVE,
        5 => s.draw(1000) as f32 / 7.0,
        6 => *s.pick(&[f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::EPSILON, 16777217.0, 1e-45]),
        _ => {
          let x = f32::from_bits(s.draw(1 << 32) as u32);
          if x.is_nan() {
            0.25
          } else {
            x
          }
        }
      }),
      Sc::F64 => Val::F64(match s.below(8) {
        0 => 0.0,
        1 => 1.5,
        2 => -1.0,
        3 => f64::MAX,
        4 => f64::MIN_POSITIVE,
        5 => s.draw(1000) as f64 / 7.0,
        6 => *s.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::EPSILON, 9007199254740993.0, 5e-324]),
        _ => {
          let x = f64::from_bits(s.bits());
          if x.is_nan() {
            0.25
          } else {
            x
          }
        }
      }),
      Sc::Hex(_, mask) => Val::Int((s.bits() & mask) as i128),
      k => {
        let (lo, hi) = int_range(k).unwrap();
        let x = match s.below(8) {
          0 => 0,
          1 => 1,
          2 => hi,
          3 => lo,
          4 => -1,
          5 => s.draw(256) as i128,
          6 => hi - s.draw(10) as i128,
          _ => s.bits() as i128 + lo,
        };
        Val::Int(x.clamp(lo, hi))
      }
    }
  }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Place {
  Elem,
  Text,
  Attr,
  AttrList,
  AttrRef,
  AttrListRef,
  Cdata,
  Payload,
}
/// how many values a value consists of, long strings counting as several
fn parts(v: &Val) -> usize {
  match v {
    Val::Str(s) => 1 + s.len() / 64,
    Val::Opt(x) => 1 + x.as_ref().map_or(0, |x| parts(x)),
    Val::Vec(x) | Val::Struct(x) | Val::Enum(_, x) => 1 + x.iter().map(parts).sum::<usize>(),
    _ => 1,
  }
}
/// Size and content knobs of the value generator, varied per run.
#[derive(Clone, Debug)]
pub struct Gen {
  pub long: u64,
  pub big_vec: u64,
  pub unicode: u64,
  pub markup: u64,
  pub empty: u64,
  pub budget: usize,
  /// one list of this length, once
  pub huge: usize,
  /// one string of this length, once
  pub huge_text: usize,
  /// recursive types are nested this far
  pub deep: usize,
}
pub const LENS: [usize; 14] = [17, 63, 64, 127, 128, 255, 256, 511, 1023, 1024, 4095, 4096, 8191, 8192];
impl Gen {
  pub fn small() -> Gen {
    Gen { long: 0, big_vec: 0, unicode: 1, markup: 1, empty: 1, budget: 3000, huge: 0, huge_text: 0, deep: 0 }
  }
  pub fn swarm(s: &mut Src) -> Gen {
    let big = s.chance(1, 12);
    // rarely, beyond the sizes at which counters and buffers usually end
    let giant = if s.chance(1, 4_000) { 1 + s.below(4) } else { 0 };
    Gen {
      long: if big { s.draw(3) } else { 0 },
      big_vec: if big { s.draw(3) } else { 0 },
      unicode: s.draw(4),
      markup: s.draw(4),
      empty: s.draw(3),
      budget: if big { *s.pick(&[20_000, 70_000, 200_000]) } else { 6000 },
      huge: if giant == 1 || giant == 2 { *s.pick(&[1025, 4097, 32_769, 65_537, 70_001, 70_002]) } else { 0 },
      huge_text: if giant == 3 { *s.pick(&[65_537, 200_000, 1_048_577, 1_300_000]) } else { 0 },
      deep: if giant == 4 { *s.pick(&[130, 260, 520]) } else { 0 },
    }
  }
  pub fn len(&mut self, s: &mut Src, usual: usize) -> usize {
    if self.huge > 0 {
      return std::mem::take(&mut self.huge);
    }
    let n = if self.big_vec > 0 && s.chance(self.big_vec, 8) {
      *s.pick(&[16usize, 32, 33, 64, 65, 100, 128, 255, 256, 257, 300])
    } else {
      s.below(usual)
    };
    let n = n.min(self.budget / 8);
    self.budget = self.budget.saturating_sub(n * 8);
    n
  }
  pub fn string(&mut self, s: &mut Src, place: Place) -> String {
    const WORDS: [&str; 12] =
      ["x", "abc", "hello world", "42", "true", "none", "a-b_c.d", "Value", "0", "yaserde", "end", "A  B"];
    const UNI: [&str; 10] = ["\u{e9}", "\u{fc}n\u{ef}", "\u{65e5}\u{672c}\u{8a9e}", "\u{1F600}", "\u{10FFFF}", "\u{7ff}\u{800}", "\u{a9}", "\u{fffd}", "\u{1d11e}x", "\u{3b1}\u{3b2}"];
    const MARK: [&str; 12] = ["<", ">", "&", "\"", "'", "<a>", "&amp;", "]]>", "<!--", "x=\"y\"", "</a>", "&#65;"];
    if self.empty > 0 && s.chance(self.empty, 24) {
      return if place == Place::AttrList || place == Place::AttrListRef { "e".into() } else { String::new() };
    }
    let mut o = String::new();
    if self.huge_text > 0 && !matches!(place, Place::AttrList | Place::AttrListRef) {
      let u = *s.pick(&["a", "\u{e9}", "0123456789", "b c<"]);
      let n = std::mem::take(&mut self.huge_text);
      while o.len() < n {
        o.push_str(u);
      }
    } else if self.long > 0 && s.chance(self.long, 8) && self.budget > 100 {
      let n = (*s.pick(&LENS) + s.below(3)).min(self.budget);
      self.budget = self.budget.saturating_sub(n);
      let u = *s.pick(&["a", "\u{e9}", "\u{20ac}", "<", "b c", "\u{1F600}", "0123456789"]);
      while o.len() < n {
        o.push_str(u);
      }
    } else {
      for _ in 0..1 + s.below(3) {
        match s.weighted(&[6, self.unicode, self.markup, 1]) {
          0 => o.push_str(s.pick(&WORDS)),
          1 => o.push_str(s.pick(&UNI)),
          2 => o.push_str(s.pick(&MARK)),
          _ => o.push_str(s.pick(&["\n", "\t", "  ", " ", "\u{a0}", "\u{85}", "\u{2028}"])),
        }
      }
    }
    if place == Place::AttrRef || place == Place::AttrListRef {
      o = o.replace(['<', '>', '&'], "~");
    }
    if place == Place::AttrList || place == Place::AttrListRef {
      o = o.chars().filter(|c| !c.is_whitespace()).collect();
      if o.is_empty() {
        o.push('w');
      }
      return o;
    }
    // leading and trailing white space of element text is trimmed by the reader
    let t = o.trim().to_string();
    if t.is_empty() {
      "t".into()
    } else {
      t
    }
  }
}

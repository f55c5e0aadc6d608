//! Dynamic values and type descriptions shared by the generators and the reference model.
use std::fmt;

#[derive(Clone)]
pub enum Val {
  Str(String),
  Bool(bool),
  Int(i128),
  F32(f32),
  F64(f64),
  Opt(Option<Box<Val>>),
  Vec(Vec<Val>),
  Struct(Vec<Val>),
  Enum(usize, Vec<Val>),
}
impl PartialEq for Val {
  fn eq(&self, o: &Val) -> bool {
    match (self, o) {
      (Val::Str(a), Val::Str(b)) => a == b,
      (Val::Bool(a), Val::Bool(b)) => a == b,
      (Val::Int(a), Val::Int(b)) => a == b,
      (Val::F32(a), Val::F32(b)) => a == b || (a.is_nan() && b.is_nan()),
      (Val::F64(a), Val::F64(b)) => a == b || (a.is_nan() && b.is_nan()),
      (Val::Opt(a), Val::Opt(b)) => a == b,
      (Val::Vec(a), Val::Vec(b)) => a == b,
      (Val::Struct(a), Val::Struct(b)) => a == b,
      (Val::Enum(a, x), Val::Enum(b, y)) => a == b && x == y,
      _ => false,
    }
  }
}
impl fmt::Debug for Val {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    match self {
      Val::Str(s) => write!(f, "{s:?}"),
      Val::Bool(b) => write!(f, "{b}"),
      Val::Int(i) => write!(f, "{i}"),
      Val::F32(x) => write!(f, "{x:?}f32"),
      Val::F64(x) => write!(f, "{x:?}"),
      Val::Opt(None) => write!(f, "None"),
      Val::Opt(Some(x)) => write!(f, "Some({x:?})"),
      Val::Vec(v) => f.debug_list().entries(v).finish(),
      Val::Struct(v) => {
        write!(f, "{{")?;
        for (i, x) in v.iter().enumerate() {
          if i > 0 {
            write!(f, ", ")?;
          }
          write!(f, "{x:?}")?;
        }
        write!(f, "}}")
      }
      Val::Enum(i, v) => {
        write!(f, "#{i}")?;
        if !v.is_empty() {
          write!(f, "({:?})", v[0])?;
          for x in &v[1..] {
            write!(f, ",{x:?}")?;
          }
        }
        Ok(())
      }
    }
  }
}
impl Val {
  pub fn fields(&self) -> &[Val] {
    match self {
      Val::Struct(v) => v,
      _ => panic!("not a struct: {self:?}"),
    }
  }
  pub fn en(&self) -> (usize, &[Val]) {
    match self {
      Val::Enum(i, v) => (*i, v),
      _ => panic!("not an enum: {self:?}"),
    }
  }
}

/// Conversion between a Rust value under test and a `Val`.
pub trait Glue: Sized {
  fn to_val(&self) -> Val;
  fn from_val(v: &Val) -> Self;
}
macro_rules! glue_int {
  ($($t:ty),*) => {$(
    impl Glue for $t {
      fn to_val(&self) -> Val { Val::Int(*self as i128) }
      fn from_val(v: &Val) -> Self { match v { Val::Int(i) => *i as $t, _ => panic!("int") } }
    })*};
}
glue_int!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);
impl Glue for char {
  fn to_val(&self) -> Val {
    Val::Str(self.to_string())
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Str(s) => s.chars().next().unwrap_or('-'),
      _ => panic!("char"),
    }
  }
}
impl Glue for String {
  fn to_val(&self) -> Val {
    Val::Str(self.clone())
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Str(s) => s.clone(),
      _ => panic!("str"),
    }
  }
}
impl Glue for bool {
  fn to_val(&self) -> Val {
    Val::Bool(*self)
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Bool(s) => *s,
      _ => panic!("bool"),
    }
  }
}
impl Glue for f32 {
  fn to_val(&self) -> Val {
    Val::F32(*self)
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::F32(s) => *s,
      _ => panic!("f32"),
    }
  }
}
impl Glue for f64 {
  fn to_val(&self) -> Val {
    Val::F64(*self)
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::F64(s) => *s,
      _ => panic!("f64"),
    }
  }
}
impl<T: Glue> Glue for Option<T> {
  fn to_val(&self) -> Val {
    Val::Opt(self.as_ref().map(|x| Box::new(x.to_val())))
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Opt(s) => s.as_ref().map(|x| T::from_val(x)),
      _ => panic!("opt"),
    }
  }
}
impl<T: Glue> Glue for Vec<T> {
  fn to_val(&self) -> Val {
    Val::Vec(self.iter().map(|x| x.to_val()).collect())
  }
  fn from_val(v: &Val) -> Self {
    match v {
      Val::Vec(s) => s.iter().map(|x| T::from_val(x)).collect(),
      _ => panic!("vec"),
    }
  }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sc {
  Str,
  Bool,
  I8,
  U8,
  I16,
  U16,
  I32,
  U32,
  I64,
  U64,
  Isize,
  Usize,
  Char,
  F32,
  F64,
  /// upper-case hexadecimal digits of an unsigned integer of so many bits, restricted to a mask
  Hex(u32, u64),
}
#[derive(Clone, Debug)]
pub enum Ty {
  Sc(Sc),
  Opt(Box<Ty>),
  Vec(Box<Ty>),
  Ref(usize),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Role {
  Elem,
  Attr,
  Text,
  Flatten,
}
#[derive(Clone, Debug)]
pub struct FieldDef {
  pub name: &'static str,
  pub ns: &'static str,
  pub ty: Ty,
  pub role: Role,
  pub cdata: bool,
  pub default: Option<Val>,
  pub skip: bool,
  /// value for which the element is left out (skip_serializing_if), as a predicate on the value
  pub skip_if: Option<fn(&Val) -> bool>,
}
#[derive(Clone, Debug)]
pub enum Payload {
  Unit,
  New(Ty),
  Named(Vec<FieldDef>),
}
#[derive(Clone, Debug)]
pub struct VariantDef {
  pub label: &'static str,
  pub ns: &'static str,
  pub payload: Payload,
  pub flatten: bool,
}
#[derive(Clone, Debug)]
pub enum Kind {
  Struct(Vec<FieldDef>),
  Enum { variants: Vec<VariantDef>, tag: Option<&'static str>, default: Val },
  Prim(Sc),
  /// a generic instance / custom type that is described by another struct type of the schema
  Custom,
}
#[derive(Clone, Debug)]
pub struct TypeDef {
  pub name: &'static str,
  pub root: &'static str,
  pub root_ns: &'static str,
  pub kind: Kind,
  pub flatten: bool,
  /// the encoder supports the type in every value
  pub enc: bool,
  /// the decoder supports the type
  pub dec: bool,
  pub tags: &'static str,
}
pub fn sc(s: Sc) -> Ty {
  Ty::Sc(s)
}
pub fn opt(t: Ty) -> Ty {
  Ty::Opt(Box::new(t))
}
pub fn vec_(t: Ty) -> Ty {
  Ty::Vec(Box::new(t))
}
pub fn rf(i: usize) -> Ty {
  Ty::Ref(i)
}
pub fn fd(name: &'static str, ns: &'static str, ty: Ty, role: Role) -> FieldDef {
  FieldDef { name, ns, ty, role, cdata: false, default: None, skip: false, skip_if: None }
}
impl FieldDef {
  pub fn cdata(mut self) -> Self {
    self.cdata = true;
    self
  }
  pub fn default(mut self, v: Val) -> Self {
    self.default = Some(v);
    self
  }
  pub fn skip(mut self) -> Self {
    self.skip = true;
    self
  }
  pub fn skip_if(mut self, f: fn(&Val) -> bool) -> Self {
    self.skip_if = Some(f);
    self
  }
}
pub fn val_empty(v: &Val) -> bool {
  match v {
    Val::Str(s) => s.is_empty(),
    Val::Vec(s) => s.is_empty(),
    Val::Opt(o) => o.is_none(),
    Val::Int(i) => *i == 0,
    Val::Bool(b) => !*b,
    _ => false,
  }
}

// @generated by gen.py - do not edit
#![allow(dead_code, non_snake_case, unused_imports, clippy::all)]
use crate::val::*; use crate::ops::{Ops, full, enc_only, dec_only};
use yaserde::{YaDeserialize, YaSerialize};
use yaserde_derive_shim::*;
/// seed and number of random types of this corpus
pub const CORPUS: [u64; 2] = [7, 45];
mod yaserde_derive_shim { pub use yaserde::{HexBinaryYaSerde, PrimitiveYaSerde, DefaultYaSerde}; }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "GenBox")]
pub struct GenBox<T> where T: YaSerialize + YaDeserialize {
  #[yaserde(attribute = true)] pub gid: u32,
  pub inside: T,
  pub gopt: Option<T>,
  pub gvec: Vec<T>,
  pub glast: Option<u8>,
}
impl<T: Glue + YaSerialize + YaDeserialize> Glue for GenBox<T> {
  fn to_val(&self) -> Val { Val::Struct(vec![self.gid.to_val(), self.inside.to_val(), self.gopt.to_val(), self.gvec.to_val(), self.glast.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); GenBox { gid: Glue::from_val(&_f[0]), inside: Glue::from_val(&_f[1]), gopt: Glue::from_val(&_f[2]), gvec: Glue::from_val(&_f[3]), glast: Glue::from_val(&_f[4]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct Scalars {
  pub s_string: String,
  pub s_bool: bool,
  pub s_i8: i8,
  pub s_u8: u8,
  pub s_i16: i16,
  pub s_u16: u16,
  pub s_i32: i32,
  pub s_u32: u32,
  pub s_i64: i64,
  pub s_u64: u64,
  pub s_f32: f32,
  pub s_f64: f64,
}
impl Glue for Scalars {
  fn to_val(&self) -> Val { Val::Struct(vec![self.s_string.to_val(), self.s_bool.to_val(), self.s_i8.to_val(), self.s_u8.to_val(), self.s_i16.to_val(), self.s_u16.to_val(), self.s_i32.to_val(), self.s_u32.to_val(), self.s_i64.to_val(), self.s_u64.to_val(), self.s_f32.to_val(), self.s_f64.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); Scalars { s_string: Glue::from_val(&_f[0]), s_bool: Glue::from_val(&_f[1]), s_i8: Glue::from_val(&_f[2]), s_u8: Glue::from_val(&_f[3]), s_i16: Glue::from_val(&_f[4]), s_u16: Glue::from_val(&_f[5]), s_i32: Glue::from_val(&_f[6]), s_u32: Glue::from_val(&_f[7]), s_i64: Glue::from_val(&_f[8]), s_u64: Glue::from_val(&_f[9]), s_f32: Glue::from_val(&_f[10]), s_f64: Glue::from_val(&_f[11]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct OptScalars {
  pub o_string: Option<String>,
  pub o_bool: Option<bool>,
  pub o_i8: Option<i8>,
  pub o_u8: Option<u8>,
  pub o_i16: Option<i16>,
  pub o_u16: Option<u16>,
  pub o_i32: Option<i32>,
  pub o_u32: Option<u32>,
  pub o_i64: Option<i64>,
  pub o_u64: Option<u64>,
  pub o_f32: Option<f32>,
  pub o_f64: Option<f64>,
}
impl Glue for OptScalars {
  fn to_val(&self) -> Val { Val::Struct(vec![self.o_string.to_val(), self.o_bool.to_val(), self.o_i8.to_val(), self.o_u8.to_val(), self.o_i16.to_val(), self.o_u16.to_val(), self.o_i32.to_val(), self.o_u32.to_val(), self.o_i64.to_val(), self.o_u64.to_val(), self.o_f32.to_val(), self.o_f64.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); OptScalars { o_string: Glue::from_val(&_f[0]), o_bool: Glue::from_val(&_f[1]), o_i8: Glue::from_val(&_f[2]), o_u8: Glue::from_val(&_f[3]), o_i16: Glue::from_val(&_f[4]), o_u16: Glue::from_val(&_f[5]), o_i32: Glue::from_val(&_f[6]), o_u32: Glue::from_val(&_f[7]), o_i64: Glue::from_val(&_f[8]), o_u64: Glue::from_val(&_f[9]), o_f32: Glue::from_val(&_f[10]), o_f64: Glue::from_val(&_f[11]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct VecScalars {
  pub v_string: Vec<String>,
  pub v_bool: Vec<bool>,
  pub v_i8: Vec<i8>,
  pub v_u8: Vec<u8>,
  pub v_i16: Vec<i16>,
  pub v_u16: Vec<u16>,
  pub v_i32: Vec<i32>,
  pub v_u32: Vec<u32>,
  pub v_i64: Vec<i64>,
  pub v_u64: Vec<u64>,
  pub v_f32: Vec<f32>,
  pub v_f64: Vec<f64>,
}
impl Glue for VecScalars {
  fn to_val(&self) -> Val { Val::Struct(vec![self.v_string.to_val(), self.v_bool.to_val(), self.v_i8.to_val(), self.v_u8.to_val(), self.v_i16.to_val(), self.v_u16.to_val(), self.v_i32.to_val(), self.v_u32.to_val(), self.v_i64.to_val(), self.v_u64.to_val(), self.v_f32.to_val(), self.v_f64.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); VecScalars { v_string: Glue::from_val(&_f[0]), v_bool: Glue::from_val(&_f[1]), v_i8: Glue::from_val(&_f[2]), v_u8: Glue::from_val(&_f[3]), v_i16: Glue::from_val(&_f[4]), v_u16: Glue::from_val(&_f[5]), v_i32: Glue::from_val(&_f[6]), v_u32: Glue::from_val(&_f[7]), v_i64: Glue::from_val(&_f[8]), v_u64: Glue::from_val(&_f[9]), v_f32: Glue::from_val(&_f[10]), v_f64: Glue::from_val(&_f[11]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct AttrScalars {
  #[yaserde(attribute = true)] pub a_string: String,
  #[yaserde(attribute = true)] pub a_bool: bool,
  #[yaserde(attribute = true)] pub a_i8: i8,
  #[yaserde(attribute = true)] pub a_u8: u8,
  #[yaserde(attribute = true)] pub a_i16: i16,
  #[yaserde(attribute = true)] pub a_u16: u16,
  #[yaserde(attribute = true)] pub a_i32: i32,
  #[yaserde(attribute = true)] pub a_u32: u32,
  #[yaserde(attribute = true)] pub a_i64: i64,
  #[yaserde(attribute = true)] pub a_u64: u64,
  #[yaserde(attribute = true)] pub a_f32: f32,
  #[yaserde(attribute = true)] pub a_f64: f64,
}
impl Glue for AttrScalars {
  fn to_val(&self) -> Val { Val::Struct(vec![self.a_string.to_val(), self.a_bool.to_val(), self.a_i8.to_val(), self.a_u8.to_val(), self.a_i16.to_val(), self.a_u16.to_val(), self.a_i32.to_val(), self.a_u32.to_val(), self.a_i64.to_val(), self.a_u64.to_val(), self.a_f32.to_val(), self.a_f64.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); AttrScalars { a_string: Glue::from_val(&_f[0]), a_bool: Glue::from_val(&_f[1]), a_i8: Glue::from_val(&_f[2]), a_u8: Glue::from_val(&_f[3]), a_i16: Glue::from_val(&_f[4]), a_u16: Glue::from_val(&_f[5]), a_i32: Glue::from_val(&_f[6]), a_u32: Glue::from_val(&_f[7]), a_i64: Glue::from_val(&_f[8]), a_u64: Glue::from_val(&_f[9]), a_f32: Glue::from_val(&_f[10]), a_f64: Glue::from_val(&_f[11]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct AttrOptScalars {
  #[yaserde(attribute = true)] pub b_string: Option<String>,
  #[yaserde(attribute = true)] pub b_bool: Option<bool>,
  #[yaserde(attribute = true)] pub b_i8: Option<i8>,
  #[yaserde(attribute = true)] pub b_u8: Option<u8>,
  #[yaserde(attribute = true)] pub b_i16: Option<i16>,
  #[yaserde(attribute = true)] pub b_u16: Option<u16>,
  #[yaserde(attribute = true)] pub b_i32: Option<i32>,
  #[yaserde(attribute = true)] pub b_u32: Option<u32>,
  #[yaserde(attribute = true)] pub b_i64: Option<i64>,
  #[yaserde(attribute = true)] pub b_u64: Option<u64>,
  #[yaserde(attribute = true)] pub b_f32: Option<f32>,
  #[yaserde(attribute = true)] pub b_f64: Option<f64>,
}
impl Glue for AttrOptScalars {
  fn to_val(&self) -> Val { Val::Struct(vec![self.b_string.to_val(), self.b_bool.to_val(), self.b_i8.to_val(), self.b_u8.to_val(), self.b_i16.to_val(), self.b_u16.to_val(), self.b_i32.to_val(), self.b_u32.to_val(), self.b_i64.to_val(), self.b_u64.to_val(), self.b_f32.to_val(), self.b_f64.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); AttrOptScalars { b_string: Glue::from_val(&_f[0]), b_bool: Glue::from_val(&_f[1]), b_i8: Glue::from_val(&_f[2]), b_u8: Glue::from_val(&_f[3]), b_i16: Glue::from_val(&_f[4]), b_u16: Glue::from_val(&_f[5]), b_i32: Glue::from_val(&_f[6]), b_u32: Glue::from_val(&_f[7]), b_i64: Glue::from_val(&_f[8]), b_u64: Glue::from_val(&_f[9]), b_f32: Glue::from_val(&_f[10]), b_f64: Glue::from_val(&_f[11]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct AttrVecs {
  #[yaserde(attribute = true)] pub id: u32,
  #[yaserde(attribute = true)] pub l_string: Vec<String>,
  #[yaserde(attribute = true)] pub l_bool: Vec<bool>,
  #[yaserde(attribute = true)] pub l_i8: Vec<i8>,
  #[yaserde(attribute = true)] pub l_u8: Vec<u8>,
  #[yaserde(attribute = true)] pub l_i16: Vec<i16>,
  #[yaserde(attribute = true)] pub l_u16: Vec<u16>,
  #[yaserde(attribute = true)] pub l_i32: Vec<i32>,
  #[yaserde(attribute = true)] pub l_u32: Vec<u32>,
  #[yaserde(attribute = true)] pub l_i64: Vec<i64>,
  #[yaserde(attribute = true)] pub l_u64: Vec<u64>,
  #[yaserde(attribute = true)] pub l_f32: Vec<f32>,
  #[yaserde(attribute = true)] pub l_f64: Vec<f64>,
  pub body: Option<String>,
}
impl Glue for AttrVecs {
  fn to_val(&self) -> Val { Val::Struct(vec![self.id.to_val(), self.l_string.to_val(), self.l_bool.to_val(), self.l_i8.to_val(), self.l_u8.to_val(), self.l_i16.to_val(), self.l_u16.to_val(), self.l_i32.to_val(), self.l_u32.to_val(), self.l_i64.to_val(), self.l_u64.to_val(), self.l_f32.to_val(), self.l_f64.to_val(), self.body.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); AttrVecs { id: Glue::from_val(&_f[0]), l_string: Glue::from_val(&_f[1]), l_bool: Glue::from_val(&_f[2]), l_i8: Glue::from_val(&_f[3]), l_u8: Glue::from_val(&_f[4]), l_i16: Glue::from_val(&_f[5]), l_u16: Glue::from_val(&_f[6]), l_i32: Glue::from_val(&_f[7]), l_u32: Glue::from_val(&_f[8]), l_i64: Glue::from_val(&_f[9]), l_u64: Glue::from_val(&_f[10]), l_f32: Glue::from_val(&_f[11]), l_f64: Glue::from_val(&_f[12]), body: Glue::from_val(&_f[13]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct OneStr {
  pub item: String,
}
impl Glue for OneStr {
  fn to_val(&self) -> Val { Val::Struct(vec![self.item.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); OneStr { item: Glue::from_val(&_f[0]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct OneInt {
  pub count: i32,
}
impl Glue for OneInt {
  fn to_val(&self) -> Val { Val::Struct(vec![self.count.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); OneInt { count: Glue::from_val(&_f[0]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct OneVec {
  pub line: Vec<String>,
}
impl Glue for OneVec {
  fn to_val(&self) -> Val { Val::Struct(vec![self.line.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); OneVec { line: Glue::from_val(&_f[0]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "bytes")]
pub struct OneVecU8 {
  pub byte: Vec<u8>,
}
impl Glue for OneVecU8 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.byte.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); OneVecU8 { byte: Glue::from_val(&_f[0]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct EmptyStruct {
}
impl Glue for EmptyStruct {
  fn to_val(&self) -> Val { Val::Struct(vec![]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); EmptyStruct {  } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root-elem")]
pub struct Renamed {
  #[yaserde(rename = "first-name")] pub a_field: String,
  #[yaserde(rename = "maj.min.bug")] pub b_field: u16,
  #[yaserde(rename = "type")] pub type_: Option<String>,
  #[yaserde(attribute = true, rename = "the-attr")] pub attr_one: String,
  #[yaserde(attribute = true, rename = "x.y")] pub attr_two: Option<bool>,
}
impl Glue for Renamed {
  fn to_val(&self) -> Val { Val::Struct(vec![self.a_field.to_val(), self.b_field.to_val(), self.type_.to_val(), self.attr_one.to_val(), self.attr_two.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); Renamed { a_field: Glue::from_val(&_f[0]), b_field: Glue::from_val(&_f[1]), type_: Glue::from_val(&_f[2]), attr_one: Glue::from_val(&_f[3]), attr_two: Glue::from_val(&_f[4]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "raw")]
pub struct Raw {
  pub r#type: String,
  pub r#mod: Option<i32>,
}
impl Glue for Raw {
  fn to_val(&self) -> Val { Val::Struct(vec![self.r#type.to_val(), self.r#mod.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); Raw { r#type: Glue::from_val(&_f[0]), r#mod: Glue::from_val(&_f[1]) } }
}
fn dflt_DefScalars_d_string() -> String { "dflt".to_string() }
fn dflt_DefScalars_d_bool() -> bool { true }
fn dflt_DefScalars_d_i8() -> i8 { -7i8 }
fn dflt_DefScalars_d_u8() -> u8 { 200u8 }
fn dflt_DefScalars_d_i16() -> i16 { -300i16 }
fn dflt_DefScalars_d_u16() -> u16 { 40000u16 }
fn dflt_DefScalars_d_i32() -> i32 { -70000i32 }
fn dflt_DefScalars_d_u32() -> u32 { 3000000000u32 }
fn dflt_DefScalars_d_i64() -> i64 { -5000000000i64 }
fn dflt_DefScalars_d_u64() -> u64 { 10000000000000000000u64 }
fn dflt_DefScalars_d_f32() -> f32 { 1.25f32 }
fn dflt_DefScalars_d_f64() -> f64 { -2.5f64 }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct DefScalars {
  #[yaserde(default = "dflt_DefScalars_d_string")] pub d_string: String,
  #[yaserde(default = "dflt_DefScalars_d_bool")] pub d_bool: bool,
  #[yaserde(default = "dflt_DefScalars_d_i8")] pub d_i8: i8,
  #[yaserde(default = "dflt_DefScalars_d_u8")] pub d_u8: u8,
  #[yaserde(default = "dflt_DefScalars_d_i16")] pub d_i16: i16,
  #[yaserde(default = "dflt_DefScalars_d_u16")] pub d_u16: u16,
  #[yaserde(default = "dflt_DefScalars_d_i32")] pub d_i32: i32,
  #[yaserde(default = "dflt_DefScalars_d_u32")] pub d_u32: u32,
  #[yaserde(default = "dflt_DefScalars_d_i64")] pub d_i64: i64,
  #[yaserde(default = "dflt_DefScalars_d_u64")] pub d_u64: u64,
  #[yaserde(default = "dflt_DefScalars_d_f32")] pub d_f32: f32,
  #[yaserde(default = "dflt_DefScalars_d_f64")] pub d_f64: f64,
}
impl Glue for DefScalars {
  fn to_val(&self) -> Val { Val::Struct(vec![self.d_string.to_val(), self.d_bool.to_val(), self.d_i8.to_val(), self.d_u8.to_val(), self.d_i16.to_val(), self.d_u16.to_val(), self.d_i32.to_val(), self.d_u32.to_val(), self.d_i64.to_val(), self.d_u64.to_val(), self.d_f32.to_val(), self.d_f64.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); DefScalars { d_string: Glue::from_val(&_f[0]), d_bool: Glue::from_val(&_f[1]), d_i8: Glue::from_val(&_f[2]), d_u8: Glue::from_val(&_f[3]), d_i16: Glue::from_val(&_f[4]), d_u16: Glue::from_val(&_f[5]), d_i32: Glue::from_val(&_f[6]), d_u32: Glue::from_val(&_f[7]), d_i64: Glue::from_val(&_f[8]), d_u64: Glue::from_val(&_f[9]), d_f32: Glue::from_val(&_f[10]), d_f64: Glue::from_val(&_f[11]) } }
}
fn dflt_DefAttrs_e_string() -> String { "dflt".to_string() }
fn dflt_DefAttrs_e_bool() -> bool { true }
fn dflt_DefAttrs_e_i8() -> i8 { -7i8 }
fn dflt_DefAttrs_e_u8() -> u8 { 200u8 }
fn dflt_DefAttrs_e_i16() -> i16 { -300i16 }
fn dflt_DefAttrs_e_u16() -> u16 { 40000u16 }
fn dflt_DefAttrs_e_i32() -> i32 { -70000i32 }
fn dflt_DefAttrs_e_u32() -> u32 { 3000000000u32 }
fn dflt_DefAttrs_e_i64() -> i64 { -5000000000i64 }
fn dflt_DefAttrs_e_u64() -> u64 { 10000000000000000000u64 }
fn dflt_DefAttrs_e_f32() -> f32 { 1.25f32 }
fn dflt_DefAttrs_e_f64() -> f64 { -2.5f64 }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct DefAttrs {
  #[yaserde(attribute = true, default = "dflt_DefAttrs_e_string")] pub e_string: String,
  #[yaserde(attribute = true, default = "dflt_DefAttrs_e_bool")] pub e_bool: bool,
  #[yaserde(attribute = true, default = "dflt_DefAttrs_e_i8")] pub e_i8: i8,
  #[yaserde(attribute = true, default = "dflt_DefAttrs_e_u8")] pub e_u8: u8,
  #[yaserde(attribute = true, default = "dflt_DefAttrs_e_i16")] pub e_i16: i16,
  #[yaserde(attribute = true, default = "dflt_DefAttrs_e_u16")] pub e_u16: u16,
  #[yaserde(attribute = true, default = "dflt_DefAttrs_e_i32")] pub e_i32: i32,
  #[yaserde(attribute = true, default = "dflt_DefAttrs_e_u32")] pub e_u32: u32,
  #[yaserde(attribute = true, default = "dflt_DefAttrs_e_i64")] pub e_i64: i64,
  #[yaserde(attribute = true, default = "dflt_DefAttrs_e_u64")] pub e_u64: u64,
  #[yaserde(attribute = true, default = "dflt_DefAttrs_e_f32")] pub e_f32: f32,
  #[yaserde(attribute = true, default = "dflt_DefAttrs_e_f64")] pub e_f64: f64,
}
impl Glue for DefAttrs {
  fn to_val(&self) -> Val { Val::Struct(vec![self.e_string.to_val(), self.e_bool.to_val(), self.e_i8.to_val(), self.e_u8.to_val(), self.e_i16.to_val(), self.e_u16.to_val(), self.e_i32.to_val(), self.e_u32.to_val(), self.e_i64.to_val(), self.e_u64.to_val(), self.e_f32.to_val(), self.e_f64.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); DefAttrs { e_string: Glue::from_val(&_f[0]), e_bool: Glue::from_val(&_f[1]), e_i8: Glue::from_val(&_f[2]), e_u8: Glue::from_val(&_f[3]), e_i16: Glue::from_val(&_f[4]), e_u16: Glue::from_val(&_f[5]), e_i32: Glue::from_val(&_f[6]), e_u32: Glue::from_val(&_f[7]), e_i64: Glue::from_val(&_f[8]), e_u64: Glue::from_val(&_f[9]), e_f32: Glue::from_val(&_f[10]), e_f64: Glue::from_val(&_f[11]) } }
}
fn dflt_SkipIf_z() -> i32 { 0i32 }
fn dflt_SkipIf_s() -> String { "none".to_string() }
fn dflt_SkipIf_at() -> String { "dd".to_string() }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct SkipIf {
  #[yaserde(skip_serializing_if = "skip_n")] pub n: Option<String>,
  #[yaserde(skip_serializing_if = "skip_w")] pub w: Vec<u32>,
  #[yaserde(default = "dflt_SkipIf_z", skip_serializing_if = "skip_z")] pub z: i32,
  #[yaserde(default = "dflt_SkipIf_s", skip_serializing_if = "skip_s")] pub s: String,
  #[yaserde(attribute = true, skip_serializing_if = "skip_q")] pub q: Option<u8>,
  pub keep: bool,
  #[yaserde(attribute = true, default = "dflt_SkipIf_at", skip_serializing_if = "skip_at")] pub at: String,
}
impl SkipIf {
  fn skip_n(&self, v: &Option<String>) -> bool { v.is_none() }
  fn skip_w(&self, v: &Vec<u32>) -> bool { v.is_empty() }
  fn skip_z(&self, v: &i32) -> bool { *v == dflt_SkipIf_z() }
  fn skip_s(&self, v: &String) -> bool { *v == dflt_SkipIf_s() }
  fn skip_q(&self, v: &Option<u8>) -> bool { v.is_none() }
  fn skip_at(&self, v: &String) -> bool { *v == dflt_SkipIf_at() }
}
impl Glue for SkipIf {
  fn to_val(&self) -> Val { Val::Struct(vec![self.n.to_val(), self.w.to_val(), self.z.to_val(), self.s.to_val(), self.q.to_val(), self.keep.to_val(), self.at.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); SkipIf { n: Glue::from_val(&_f[0]), w: Glue::from_val(&_f[1]), z: Glue::from_val(&_f[2]), s: Glue::from_val(&_f[3]), q: Glue::from_val(&_f[4]), keep: Glue::from_val(&_f[5]), at: Glue::from_val(&_f[6]) } }
}
fn dflt_Skip_hidd() -> u32 { 9u32 }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct Skip {
  pub visible: String,
  #[yaserde(skip_serializing = true)] pub hid: Option<String>,
  #[yaserde(skip_serializing = true)] pub hidv: Vec<u8>,
  #[yaserde(default = "dflt_Skip_hidd", skip_serializing = true)] pub hidd: u32,
  pub after: Option<i64>,
}
impl Glue for Skip {
  fn to_val(&self) -> Val { Val::Struct(vec![self.visible.to_val(), self.hid.to_val(), self.hidv.to_val(), self.hidd.to_val(), self.after.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); Skip { visible: Glue::from_val(&_f[0]), hid: Glue::from_val(&_f[1]), hidv: Glue::from_val(&_f[2]), hidd: Glue::from_val(&_f[3]), after: Glue::from_val(&_f[4]) } }
}
fn dflt_SkipAttr_hidb() -> u32 { 5u32 }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct SkipAttr {
  #[yaserde(attribute = true)] pub shown: String,
  #[yaserde(attribute = true, skip_serializing = true)] pub hida: Option<String>,
  #[yaserde(attribute = true, default = "dflt_SkipAttr_hidb", skip_serializing = true)] pub hidb: u32,
  pub tail: String,
}
impl Glue for SkipAttr {
  fn to_val(&self) -> Val { Val::Struct(vec![self.shown.to_val(), self.hida.to_val(), self.hidb.to_val(), self.tail.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); SkipAttr { shown: Glue::from_val(&_f[0]), hida: Glue::from_val(&_f[1]), hidb: Glue::from_val(&_f[2]), tail: Glue::from_val(&_f[3]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct TextOnly {
  #[yaserde(text = true)] pub value: String,
}
impl Glue for TextOnly {
  fn to_val(&self) -> Val { Val::Struct(vec![self.value.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); TextOnly { value: Glue::from_val(&_f[0]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct TextAttr {
  #[yaserde(attribute = true)] pub lang: String,
  #[yaserde(attribute = true)] pub n: Option<u32>,
  #[yaserde(text = true)] pub value: String,
}
impl Glue for TextAttr {
  fn to_val(&self) -> Val { Val::Struct(vec![self.lang.to_val(), self.n.to_val(), self.value.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); TextAttr { lang: Glue::from_val(&_f[0]), n: Glue::from_val(&_f[1]), value: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct TextOpt {
  #[yaserde(attribute = true)] pub k: Option<String>,
  #[yaserde(text = true)] pub value: Option<String>,
}
impl Glue for TextOpt {
  fn to_val(&self) -> Val { Val::Struct(vec![self.k.to_val(), self.value.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); TextOpt { k: Glue::from_val(&_f[0]), value: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct CData {
  pub plain: String,
  #[yaserde(cdata = true)] pub data: String,
  pub tail: Option<String>,
}
impl Glue for CData {
  fn to_val(&self) -> Val { Val::Struct(vec![self.plain.to_val(), self.data.to_val(), self.tail.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); CData { plain: Glue::from_val(&_f[0]), data: Glue::from_val(&_f[1]), tail: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct CDataMany {
  #[yaserde(cdata = true)] pub d1: String,
  #[yaserde(cdata = true, rename = "second")] pub d2: String,
  pub num: u8,
}
impl Glue for CDataMany {
  fn to_val(&self) -> Val { Val::Struct(vec![self.d1.to_val(), self.d2.to_val(), self.num.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); CDataMany { d1: Glue::from_val(&_f[0]), d2: Glue::from_val(&_f[1]), num: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub enum Color {
  Red,
  Green,
  Blue,
}
impl Default for Color { fn default() -> Self { Glue::from_val(&Val::Enum(0, vec![])) } }
impl Glue for Color {
  fn to_val(&self) -> Val { match self { Color::Red => Val::Enum(0, vec![]), Color::Green => Val::Enum(1, vec![]), Color::Blue => Val::Enum(2, vec![]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => Color::Red, 1 => Color::Green, 2 => Color::Blue, _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "lvl")]
pub enum Level {
  #[yaserde(rename = "low")] Low,
  #[yaserde(rename = "mid-range")] MidRange,
  #[yaserde(rename = "HIGH 9")] High,
}
impl Default for Level { fn default() -> Self { Glue::from_val(&Val::Enum(1, vec![])) } }
impl Glue for Level {
  fn to_val(&self) -> Val { match self { Level::Low => Val::Enum(0, vec![]), Level::MidRange => Val::Enum(1, vec![]), Level::High => Val::Enum(2, vec![]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => Level::Low, 1 => Level::MidRange, 2 => Level::High, _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub enum OneUnit {
  Only,
}
impl Default for OneUnit { fn default() -> Self { Glue::from_val(&Val::Enum(0, vec![])) } }
impl Glue for OneUnit {
  fn to_val(&self) -> Val { match self { OneUnit::Only => Val::Enum(0, vec![]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => OneUnit::Only, _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(tag = "kind")]
pub enum Tagged {
  #[yaserde(rename = "alpha")] Alpha,
  Beta,
  #[yaserde(rename = "g g")] Gamma,
}
impl Default for Tagged { fn default() -> Self { Glue::from_val(&Val::Enum(0, vec![])) } }
impl Glue for Tagged {
  fn to_val(&self) -> Val { match self { Tagged::Alpha => Val::Enum(0, vec![]), Tagged::Beta => Val::Enum(1, vec![]), Tagged::Gamma => Val::Enum(2, vec![]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => Tagged::Alpha, 1 => Tagged::Beta, 2 => Tagged::Gamma, _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub enum NewScalars {
  NString(String),
  NBool(bool),
  NI8(i8),
  NU8(u8),
  NI16(i16),
  NU16(u16),
  NI32(i32),
  NU32(u32),
  NI64(i64),
  NU64(u64),
  NF32(f32),
  NF64(f64),
}
impl Default for NewScalars { fn default() -> Self { Glue::from_val(&Val::Enum(0, vec![Val::Str(String::new())])) } }
impl Glue for NewScalars {
  fn to_val(&self) -> Val { match self { NewScalars::NString(x) => Val::Enum(0, vec![x.to_val()]), NewScalars::NBool(x) => Val::Enum(1, vec![x.to_val()]), NewScalars::NI8(x) => Val::Enum(2, vec![x.to_val()]), NewScalars::NU8(x) => Val::Enum(3, vec![x.to_val()]), NewScalars::NI16(x) => Val::Enum(4, vec![x.to_val()]), NewScalars::NU16(x) => Val::Enum(5, vec![x.to_val()]), NewScalars::NI32(x) => Val::Enum(6, vec![x.to_val()]), NewScalars::NU32(x) => Val::Enum(7, vec![x.to_val()]), NewScalars::NI64(x) => Val::Enum(8, vec![x.to_val()]), NewScalars::NU64(x) => Val::Enum(9, vec![x.to_val()]), NewScalars::NF32(x) => Val::Enum(10, vec![x.to_val()]), NewScalars::NF64(x) => Val::Enum(11, vec![x.to_val()]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => NewScalars::NString(Glue::from_val(&_p[0])), 1 => NewScalars::NBool(Glue::from_val(&_p[0])), 2 => NewScalars::NI8(Glue::from_val(&_p[0])), 3 => NewScalars::NU8(Glue::from_val(&_p[0])), 4 => NewScalars::NI16(Glue::from_val(&_p[0])), 5 => NewScalars::NU16(Glue::from_val(&_p[0])), 6 => NewScalars::NI32(Glue::from_val(&_p[0])), 7 => NewScalars::NU32(Glue::from_val(&_p[0])), 8 => NewScalars::NI64(Glue::from_val(&_p[0])), 9 => NewScalars::NU64(Glue::from_val(&_p[0])), 10 => NewScalars::NF32(Glue::from_val(&_p[0])), 11 => NewScalars::NF64(Glue::from_val(&_p[0])), _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, PrimitiveYaSerde)]
pub struct Meters(pub u32);
impl Glue for Meters { fn to_val(&self) -> Val { self.0.to_val() } fn from_val(v: &Val) -> Self { Meters(Glue::from_val(v)) } }
#[derive(Debug, Clone, PartialEq, PrimitiveYaSerde)]
pub struct Name(pub String);
impl Glue for Name { fn to_val(&self) -> Val { self.0.to_val() } fn from_val(v: &Val) -> Self { Name(Glue::from_val(v)) } }
#[derive(Debug, Clone, PartialEq, PrimitiveYaSerde)]
pub struct Ratio(pub f64);
impl Glue for Ratio { fn to_val(&self) -> Val { self.0.to_val() } fn from_val(v: &Val) -> Self { Ratio(Glue::from_val(v)) } }
#[derive(Debug, Clone, PartialEq, PrimitiveYaSerde)]
pub struct Flag(pub bool);
impl Glue for Flag { fn to_val(&self) -> Val { self.0.to_val() } fn from_val(v: &Val) -> Self { Flag(Glue::from_val(v)) } }
#[derive(Debug, Clone, PartialEq, PrimitiveYaSerde)]
pub struct Signed(pub i64);
impl Glue for Signed { fn to_val(&self) -> Val { self.0.to_val() } fn from_val(v: &Val) -> Self { Signed(Glue::from_val(v)) } }
#[derive(Debug, Clone, PartialEq, PrimitiveYaSerde)]
pub struct Small(pub i8);
impl Glue for Small { fn to_val(&self) -> Val { self.0.to_val() } fn from_val(v: &Val) -> Self { Small(Glue::from_val(v)) } }
#[derive(Debug, Clone, PartialEq, DefaultYaSerde)]
pub struct DisplayMeters(pub u16);
impl std::fmt::Display for DisplayMeters { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl std::str::FromStr for DisplayMeters { type Err = String; fn from_str(s: &str) -> Result<Self, String> { s.parse().map(DisplayMeters).map_err(|_| "bad".to_string()) } }
impl Glue for DisplayMeters { fn to_val(&self) -> Val { self.0.to_val() } fn from_val(v: &Val) -> Self { DisplayMeters(Glue::from_val(v)) } }
#[derive(Debug, Clone, PartialEq, HexBinaryYaSerde)]
pub struct HexFlags(pub u16);
impl HexFlags { pub fn from_bits(b: u16) -> Option<Self> { if b & !4095u16 == 0 { Some(HexFlags(b)) } else { None } } }
impl Glue for HexFlags { fn to_val(&self) -> Val { self.0.to_val() } fn from_val(v: &Val) -> Self { HexFlags(Glue::from_val(v)) } }
#[derive(Debug, Clone, PartialEq, HexBinaryYaSerde)]
pub struct HexWide(pub u64);
impl HexWide { pub fn from_bits(b: u64) -> Option<Self> { if b & !18446744073709551615u64 == 0 { Some(HexWide(b)) } else { None } } }
impl Glue for HexWide { fn to_val(&self) -> Val { self.0.to_val() } fn from_val(v: &Val) -> Self { HexWide(Glue::from_val(v)) } }
#[derive(Debug, Clone, PartialEq, HexBinaryYaSerde)]
pub struct HexByte(pub u8);
impl HexByte { pub fn from_bits(b: u8) -> Option<Self> { if b & !255u8 == 0 { Some(HexByte(b)) } else { None } } }
impl Glue for HexByte { fn to_val(&self) -> Val { self.0.to_val() } fn from_val(v: &Val) -> Self { HexByte(Glue::from_val(v)) } }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct Inner {
  pub left: String,
  pub right: i32,
}
impl Glue for Inner {
  fn to_val(&self) -> Val { Val::Struct(vec![self.left.to_val(), self.right.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); Inner { left: Glue::from_val(&_f[0]), right: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct InnerAttr {
  #[yaserde(attribute = true)] pub key: String,
  pub val: String,
}
impl Glue for InnerAttr {
  fn to_val(&self) -> Val { Val::Struct(vec![self.key.to_val(), self.val.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); InnerAttr { key: Glue::from_val(&_f[0]), val: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct Nested {
  pub one: Inner,
  pub two: InnerAttr,
  pub name: String,
}
impl Glue for Nested {
  fn to_val(&self) -> Val { Val::Struct(vec![self.one.to_val(), self.two.to_val(), self.name.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); Nested { one: Glue::from_val(&_f[0]), two: Glue::from_val(&_f[1]), name: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct NestedOpt {
  pub one: Option<Inner>,
  pub two: Option<InnerAttr>,
  pub last: Option<String>,
}
impl Glue for NestedOpt {
  fn to_val(&self) -> Val { Val::Struct(vec![self.one.to_val(), self.two.to_val(), self.last.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); NestedOpt { one: Glue::from_val(&_f[0]), two: Glue::from_val(&_f[1]), last: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct NestedVec {
  pub row: Vec<Inner>,
  pub col: Vec<InnerAttr>,
  pub sum: u32,
}
impl Glue for NestedVec {
  fn to_val(&self) -> Val { Val::Struct(vec![self.row.to_val(), self.col.to_val(), self.sum.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); NestedVec { row: Glue::from_val(&_f[0]), col: Glue::from_val(&_f[1]), sum: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct Deep1 {
  pub l1: Inner,
}
impl Glue for Deep1 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.l1.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); Deep1 { l1: Glue::from_val(&_f[0]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct Deep2 {
  pub l2: Deep1,
}
impl Glue for Deep2 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.l2.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); Deep2 { l2: Glue::from_val(&_f[0]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct Deep3 {
  pub l3: Vec<Deep2>,
}
impl Glue for Deep3 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.l3.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); Deep3 { l3: Glue::from_val(&_f[0]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct Deep4 {
  pub l4: Deep3,
  pub l4b: Option<Deep2>,
}
impl Glue for Deep4 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.l4.to_val(), self.l4b.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); Deep4 { l4: Glue::from_val(&_f[0]), l4b: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct Deep5 {
  pub l5: Vec<Deep4>,
  #[yaserde(attribute = true)] pub tag5: String,
}
impl Glue for Deep5 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.l5.to_val(), self.tag5.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); Deep5 { l5: Glue::from_val(&_f[0]), tag5: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct TextKids {
  pub t1: TextOnly,
  pub t2: Vec<TextAttr>,
  pub t3: Option<TextOpt>,
}
impl Glue for TextKids {
  fn to_val(&self) -> Val { Val::Struct(vec![self.t1.to_val(), self.t2.to_val(), self.t3.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); TextKids { t1: Glue::from_val(&_f[0]), t2: Glue::from_val(&_f[1]), t3: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct EnumKids {
  pub color: Color,
  pub lv: Option<Level>,
  pub many: Vec<Color>,
  pub tail: String,
}
impl Glue for EnumKids {
  fn to_val(&self) -> Val { Val::Struct(vec![self.color.to_val(), self.lv.to_val(), self.many.to_val(), self.tail.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); EnumKids { color: Glue::from_val(&_f[0]), lv: Glue::from_val(&_f[1]), many: Glue::from_val(&_f[2]), tail: Glue::from_val(&_f[3]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct TaggedKids {
  pub t: Tagged,
  pub ot: Option<Tagged>,
  pub vt: Vec<Tagged>,
  pub x: u8,
}
impl Glue for TaggedKids {
  fn to_val(&self) -> Val { Val::Struct(vec![self.t.to_val(), self.ot.to_val(), self.vt.to_val(), self.x.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); TaggedKids { t: Glue::from_val(&_f[0]), ot: Glue::from_val(&_f[1]), vt: Glue::from_val(&_f[2]), x: Glue::from_val(&_f[3]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct PrimKids {
  pub len: Meters,
  pub nm: Option<Name>,
  pub rs: Vec<Ratio>,
  pub fl: Flag,
  pub sg: Option<Signed>,
  pub end: Option<u8>,
}
impl Glue for PrimKids {
  fn to_val(&self) -> Val { Val::Struct(vec![self.len.to_val(), self.nm.to_val(), self.rs.to_val(), self.fl.to_val(), self.sg.to_val(), self.end.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); PrimKids { len: Glue::from_val(&_f[0]), nm: Glue::from_val(&_f[1]), rs: Glue::from_val(&_f[2]), fl: Glue::from_val(&_f[3]), sg: Glue::from_val(&_f[4]), end: Glue::from_val(&_f[5]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct HexKids {
  pub hx: HexFlags,
  pub hs: Vec<HexByte>,
  pub hw: Option<HexWide>,
}
impl Glue for HexKids {
  fn to_val(&self) -> Val { Val::Struct(vec![self.hx.to_val(), self.hs.to_val(), self.hw.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); HexKids { hx: Glue::from_val(&_f[0]), hs: Glue::from_val(&_f[1]), hw: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct AttrKinds {
  #[yaserde(attribute = true)] pub ts: TextOnly,
  #[yaserde(attribute = true)] pub col: Color,
  #[yaserde(attribute = true)] pub ocol: Option<Level>,
  #[yaserde(attribute = true)] pub mt: Meters,
  #[yaserde(attribute = true)] pub onm: Option<Name>,
  #[yaserde(attribute = true)] pub sm: Option<Small>,
  #[yaserde(attribute = true)] pub ots: Option<TextOnly>,
}
impl Glue for AttrKinds {
  fn to_val(&self) -> Val { Val::Struct(vec![self.ts.to_val(), self.col.to_val(), self.ocol.to_val(), self.mt.to_val(), self.onm.to_val(), self.sm.to_val(), self.ots.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); AttrKinds { ts: Glue::from_val(&_f[0]), col: Glue::from_val(&_f[1]), ocol: Glue::from_val(&_f[2]), mt: Glue::from_val(&_f[3]), onm: Glue::from_val(&_f[4]), sm: Glue::from_val(&_f[5]), ots: Glue::from_val(&_f[6]) } }
}
fn dflt_AttrDefault_mode() -> String { "auto".to_string() }
fn dflt_AttrDefault_w() -> u32 { 1u32 }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct AttrDefault {
  #[yaserde(attribute = true, default = "dflt_AttrDefault_mode")] pub mode: String,
  #[yaserde(attribute = true, default = "dflt_AttrDefault_w")] pub w: u32,
  pub body: Option<Inner>,
}
impl Glue for AttrDefault {
  fn to_val(&self) -> Val { Val::Struct(vec![self.mode.to_val(), self.w.to_val(), self.body.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); AttrDefault { mode: Glue::from_val(&_f[0]), w: Glue::from_val(&_f[1]), body: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct AttrVecKinds {
  #[yaserde(attribute = true)] pub cols: Vec<Color>,
  #[yaserde(attribute = true)] pub lens: Vec<Meters>,
  #[yaserde(attribute = true)] pub names: Vec<Name>,
  #[yaserde(attribute = true)] pub words: Vec<TextOnly>,
  #[yaserde(attribute = true, skip_serializing_if = "skip_wl")] pub wl: Vec<u16>,
  pub tail: Option<Inner>,
}
impl AttrVecKinds {
  fn skip_wl(&self, v: &Vec<u16>) -> bool { v.is_empty() }
}
impl Glue for AttrVecKinds {
  fn to_val(&self) -> Val { Val::Struct(vec![self.cols.to_val(), self.lens.to_val(), self.names.to_val(), self.words.to_val(), self.wl.to_val(), self.tail.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); AttrVecKinds { cols: Glue::from_val(&_f[0]), lens: Glue::from_val(&_f[1]), names: Glue::from_val(&_f[2]), words: Glue::from_val(&_f[3]), wl: Glue::from_val(&_f[4]), tail: Glue::from_val(&_f[5]) } }
}
#[derive(Debug, Clone, PartialEq)]
pub struct Stamp(pub u32);
impl YaSerialize for Stamp {
  fn serialize<W: std::io::Write>(&self, writer: &mut yaserde::ser::Serializer<W>) -> Result<(), String> {
    let label = writer.get_start_event_name().unwrap_or_else(|| "Stamp".to_string());
    let skip = writer.skip_start_end();
    if !skip {
      writer.write(yaserde::__xml::writer::XmlEvent::start_element(label.as_str())).map_err(|e| e.to_string())?;
    }
    writer.write(yaserde::__xml::writer::XmlEvent::characters(&self.0.to_string())).map_err(|e| e.to_string())?;
    if !skip {
      writer.write(yaserde::__xml::writer::XmlEvent::end_element()).map_err(|e| e.to_string())?;
    }
    Ok(())
  }
  fn serialize_attributes(&self, a: Vec<yaserde::__xml::attribute::OwnedAttribute>, n: yaserde::__xml::namespace::Namespace)
    -> Result<(Vec<yaserde::__xml::attribute::OwnedAttribute>, yaserde::__xml::namespace::Namespace), String> { Ok((a, n)) }
}
impl YaDeserialize for Stamp {
  fn deserialize<R: std::io::Read>(reader: &mut yaserde::de::Deserializer<R>) -> Result<Self, String> {
    match reader.next_event()? {
      yaserde::__xml::reader::XmlEvent::StartElement { .. } => {}
      e => return Err(format!("unexpected {e:?}")),
    }
    let text = match reader.peek()? {
      yaserde::__xml::reader::XmlEvent::Characters(s) => Some(s.clone()),
      _ => None,
    };
    if text.is_some() {  }
    text.unwrap_or_default().parse().map(Stamp).map_err(|_| "bad text".to_string())
  }
}
impl Glue for Stamp { fn to_val(&self) -> Val { self.0.to_val() } fn from_val(v: &Val) -> Self { Stamp(Glue::from_val(v)) } }
#[derive(Debug, Clone, PartialEq)]
pub struct Token(pub String);
impl YaSerialize for Token {
  fn serialize<W: std::io::Write>(&self, writer: &mut yaserde::ser::Serializer<W>) -> Result<(), String> {
    let label = writer.get_start_event_name().unwrap_or_else(|| "Token".to_string());
    let skip = writer.skip_start_end();
    if !skip {
      writer.write(yaserde::__xml::writer::XmlEvent::start_element(label.as_str())).map_err(|e| e.to_string())?;
    }
    writer.write(yaserde::__xml::writer::XmlEvent::characters(&self.0.to_string())).map_err(|e| e.to_string())?;
    if !skip {
      writer.write(yaserde::__xml::writer::XmlEvent::end_element()).map_err(|e| e.to_string())?;
    }
    Ok(())
  }
  fn serialize_attributes(&self, a: Vec<yaserde::__xml::attribute::OwnedAttribute>, n: yaserde::__xml::namespace::Namespace)
    -> Result<(Vec<yaserde::__xml::attribute::OwnedAttribute>, yaserde::__xml::namespace::Namespace), String> { Ok((a, n)) }
}
impl YaDeserialize for Token {
  fn deserialize<R: std::io::Read>(reader: &mut yaserde::de::Deserializer<R>) -> Result<Self, String> {
    match reader.next_event()? {
      yaserde::__xml::reader::XmlEvent::StartElement { .. } => {}
      e => return Err(format!("unexpected {e:?}")),
    }
    let text = match reader.peek()? {
      yaserde::__xml::reader::XmlEvent::Characters(s) => Some(s.clone()),
      _ => None,
    };
    if text.is_some() { reader.next_event()?; }
    text.unwrap_or_default().parse().map(Token).map_err(|_| "bad text".to_string())
  }
}
impl Glue for Token { fn to_val(&self) -> Val { self.0.to_val() } fn from_val(v: &Val) -> Self { Token(Glue::from_val(v)) } }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct CustomKids {
  pub st: Stamp,
  pub tk: Option<Token>,
  pub sts: Vec<Stamp>,
  pub mid: u8,
  pub tks: Vec<Token>,
  pub end: Option<String>,
}
impl Glue for CustomKids {
  fn to_val(&self) -> Val { Val::Struct(vec![self.st.to_val(), self.tk.to_val(), self.sts.to_val(), self.mid.to_val(), self.tks.to_val(), self.end.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); CustomKids { st: Glue::from_val(&_f[0]), tk: Glue::from_val(&_f[1]), sts: Glue::from_val(&_f[2]), mid: Glue::from_val(&_f[3]), tks: Glue::from_val(&_f[4]), end: Glue::from_val(&_f[5]) } }
}
pub type GenBoxInner = GenBox<Inner>;
pub type GenBoxTextAttr = GenBox<TextAttr>;
pub type GenBoxMeters = GenBox<Meters>;
pub type GenBoxColor = GenBox<Color>;
pub type GenBoxOneStr = GenBox<OneStr>;
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct GenKids {
  pub gb: GenBoxInner,
  pub gbs: Vec<GenBoxTextAttr>,
  pub gbo: Option<GenBoxMeters>,
  pub z: u8,
}
impl Glue for GenKids {
  fn to_val(&self) -> Val { Val::Struct(vec![self.gb.to_val(), self.gbs.to_val(), self.gbo.to_val(), self.z.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); GenKids { gb: Glue::from_val(&_f[0]), gbs: Glue::from_val(&_f[1]), gbo: Glue::from_val(&_f[2]), z: Glue::from_val(&_f[3]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub enum NewKinds {
  Text(String),
  Inn(Inner),
  OptI(Option<i32>),
  List(Vec<String>),
  Rows(Vec<Inner>),
  OptIn(Option<Inner>),
  Nums(Vec<u16>),
  OptS(Option<String>),
}
impl Default for NewKinds { fn default() -> Self { Glue::from_val(&Val::Enum(0, vec![Val::Str(String::new())])) } }
impl Glue for NewKinds {
  fn to_val(&self) -> Val { match self { NewKinds::Text(x) => Val::Enum(0, vec![x.to_val()]), NewKinds::Inn(x) => Val::Enum(1, vec![x.to_val()]), NewKinds::OptI(x) => Val::Enum(2, vec![x.to_val()]), NewKinds::List(x) => Val::Enum(3, vec![x.to_val()]), NewKinds::Rows(x) => Val::Enum(4, vec![x.to_val()]), NewKinds::OptIn(x) => Val::Enum(5, vec![x.to_val()]), NewKinds::Nums(x) => Val::Enum(6, vec![x.to_val()]), NewKinds::OptS(x) => Val::Enum(7, vec![x.to_val()]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => NewKinds::Text(Glue::from_val(&_p[0])), 1 => NewKinds::Inn(Glue::from_val(&_p[0])), 2 => NewKinds::OptI(Glue::from_val(&_p[0])), 3 => NewKinds::List(Glue::from_val(&_p[0])), 4 => NewKinds::Rows(Glue::from_val(&_p[0])), 5 => NewKinds::OptIn(Glue::from_val(&_p[0])), 6 => NewKinds::Nums(Glue::from_val(&_p[0])), 7 => NewKinds::OptS(Glue::from_val(&_p[0])), _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub enum Shape {
  #[yaserde(rename = "circle")] Circle(Inner),
  #[yaserde(rename = "square-1")] Square(u32),
}
impl Default for Shape { fn default() -> Self { Glue::from_val(&Val::Enum(1, vec![Val::Int(0)])) } }
impl Glue for Shape {
  fn to_val(&self) -> Val { match self { Shape::Circle(x) => Val::Enum(0, vec![x.to_val()]), Shape::Square(x) => Val::Enum(1, vec![x.to_val()]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => Shape::Circle(Glue::from_val(&_p[0])), 1 => Shape::Square(Glue::from_val(&_p[0])), _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub enum Mixed {
  Empty,
  Full(Inner),
  #[yaserde(rename = "val")] Val(String),
}
impl Default for Mixed { fn default() -> Self { Glue::from_val(&Val::Enum(0, vec![])) } }
impl Glue for Mixed {
  fn to_val(&self) -> Val { match self { Mixed::Empty => Val::Enum(0, vec![]), Mixed::Full(x) => Val::Enum(1, vec![x.to_val()]), Mixed::Val(x) => Val::Enum(2, vec![x.to_val()]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => Mixed::Empty, 1 => Mixed::Full(Glue::from_val(&_p[0])), 2 => Mixed::Val(Glue::from_val(&_p[0])), _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub enum VecEnum {
  #[yaserde(rename = "it")] Items(Vec<Inner>),
}
impl Default for VecEnum { fn default() -> Self { Glue::from_val(&Val::Enum(0, vec![Val::Vec(vec![])])) } }
impl Glue for VecEnum {
  fn to_val(&self) -> Val { match self { VecEnum::Items(x) => Val::Enum(0, vec![x.to_val()]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => VecEnum::Items(Glue::from_val(&_p[0])), _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub enum PrimEnum {
  Pm(Meters),
  Pn(Vec<Name>),
  Pt(TextOnly),
}
impl Default for PrimEnum { fn default() -> Self { Glue::from_val(&Val::Enum(0, vec![Val::Int(0)])) } }
impl Glue for PrimEnum {
  fn to_val(&self) -> Val { match self { PrimEnum::Pm(x) => Val::Enum(0, vec![x.to_val()]), PrimEnum::Pn(x) => Val::Enum(1, vec![x.to_val()]), PrimEnum::Pt(x) => Val::Enum(2, vec![x.to_val()]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => PrimEnum::Pm(Glue::from_val(&_p[0])), 1 => PrimEnum::Pn(Glue::from_val(&_p[0])), 2 => PrimEnum::Pt(Glue::from_val(&_p[0])), _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct EnumStruct {
  pub shape: Shape,
  pub oshape: Option<Shape>,
  pub shapes: Vec<Shape>,
  pub note: Option<String>,
}
impl Glue for EnumStruct {
  fn to_val(&self) -> Val { Val::Struct(vec![self.shape.to_val(), self.oshape.to_val(), self.shapes.to_val(), self.note.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); EnumStruct { shape: Glue::from_val(&_f[0]), oshape: Glue::from_val(&_f[1]), shapes: Glue::from_val(&_f[2]), note: Glue::from_val(&_f[3]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct EnumStruct2 {
  pub nk: NewKinds,
  pub nks: Vec<NewKinds>,
  #[yaserde(attribute = true)] pub id: u32,
}
impl Glue for EnumStruct2 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.nk.to_val(), self.nks.to_val(), self.id.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); EnumStruct2 { nk: Glue::from_val(&_f[0]), nks: Glue::from_val(&_f[1]), id: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct EnumStruct3 {
  pub m: Mixed,
  pub ms: Vec<Mixed>,
  pub v: VecEnum,
  pub pe: Option<PrimEnum>,
}
impl Glue for EnumStruct3 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.m.to_val(), self.ms.to_val(), self.v.to_val(), self.pe.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); EnumStruct3 { m: Glue::from_val(&_f[0]), ms: Glue::from_val(&_f[1]), v: Glue::from_val(&_f[2]), pe: Glue::from_val(&_f[3]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub enum EnumOfEnum {
  Sh(Shape),
  Co(Color),
  Tg(Tagged),
  VSh(Vec<Shape>),
  OCo(Option<Color>),
}
impl Default for EnumOfEnum { fn default() -> Self { Glue::from_val(&Val::Enum(1, vec![Val::Enum(0, vec![])])) } }
impl Glue for EnumOfEnum {
  fn to_val(&self) -> Val { match self { EnumOfEnum::Sh(x) => Val::Enum(0, vec![x.to_val()]), EnumOfEnum::Co(x) => Val::Enum(1, vec![x.to_val()]), EnumOfEnum::Tg(x) => Val::Enum(2, vec![x.to_val()]), EnumOfEnum::VSh(x) => Val::Enum(3, vec![x.to_val()]), EnumOfEnum::OCo(x) => Val::Enum(4, vec![x.to_val()]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => EnumOfEnum::Sh(Glue::from_val(&_p[0])), 1 => EnumOfEnum::Co(Glue::from_val(&_p[0])), 2 => EnumOfEnum::Tg(Glue::from_val(&_p[0])), 3 => EnumOfEnum::VSh(Glue::from_val(&_p[0])), 4 => EnumOfEnum::OCo(Glue::from_val(&_p[0])), _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub enum EnumAttrPay {
  Ia(InnerAttr),
  Ta(TextAttr),
  Oa(Option<TextAttr>),
  #[yaserde(rename = "l.a")] La(Vec<InnerAttr>),
  Ak(AttrKinds),
}
impl Default for EnumAttrPay { fn default() -> Self { Glue::from_val(&Val::Enum(0, vec![Val::Struct(vec![Val::Str(String::new()), Val::Str(String::new())])])) } }
impl Glue for EnumAttrPay {
  fn to_val(&self) -> Val { match self { EnumAttrPay::Ia(x) => Val::Enum(0, vec![x.to_val()]), EnumAttrPay::Ta(x) => Val::Enum(1, vec![x.to_val()]), EnumAttrPay::Oa(x) => Val::Enum(2, vec![x.to_val()]), EnumAttrPay::La(x) => Val::Enum(3, vec![x.to_val()]), EnumAttrPay::Ak(x) => Val::Enum(4, vec![x.to_val()]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => EnumAttrPay::Ia(Glue::from_val(&_p[0])), 1 => EnumAttrPay::Ta(Glue::from_val(&_p[0])), 2 => EnumAttrPay::Oa(Glue::from_val(&_p[0])), 3 => EnumAttrPay::La(Glue::from_val(&_p[0])), 4 => EnumAttrPay::Ak(Glue::from_val(&_p[0])), _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct EnumStruct4 {
  pub ee: EnumOfEnum,
  pub eo: Option<EnumOfEnum>,
  pub ea: Vec<EnumAttrPay>,
  pub last: Option<Inner>,
}
impl Glue for EnumStruct4 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.ee.to_val(), self.eo.to_val(), self.ea.to_val(), self.last.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); EnumStruct4 { ee: Glue::from_val(&_f[0]), eo: Glue::from_val(&_f[1]), ea: Glue::from_val(&_f[2]), last: Glue::from_val(&_f[3]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "tree")]
pub struct Tree {
  #[yaserde(attribute = true)] pub name: String,
  pub weight: Option<i32>,
  pub kid: Vec<Tree>,
}
impl Glue for Tree {
  fn to_val(&self) -> Val { Val::Struct(vec![self.name.to_val(), self.weight.to_val(), self.kid.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); Tree { name: Glue::from_val(&_f[0]), weight: Glue::from_val(&_f[1]), kid: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "chain")]
pub struct Chain {
  pub v: u8,
  pub chain: Vec<Chain>,
  pub z: Option<String>,
}
impl Glue for Chain {
  fn to_val(&self) -> Val { Val::Struct(vec![self.v.to_val(), self.chain.to_val(), self.z.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); Chain { v: Glue::from_val(&_f[0]), chain: Glue::from_val(&_f[1]), z: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub enum Expr {
  #[yaserde(rename = "num")] Num(i32),
  #[yaserde(rename = "group")] Group(Group),
  Sym(String),
}
impl Default for Expr { fn default() -> Self { Glue::from_val(&Val::Enum(0, vec![Val::Int(0)])) } }
impl Glue for Expr {
  fn to_val(&self) -> Val { match self { Expr::Num(x) => Val::Enum(0, vec![x.to_val()]), Expr::Group(x) => Val::Enum(1, vec![x.to_val()]), Expr::Sym(x) => Val::Enum(2, vec![x.to_val()]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => Expr::Num(Glue::from_val(&_p[0])), 1 => Expr::Group(Glue::from_val(&_p[0])), 2 => Expr::Sym(Glue::from_val(&_p[0])), _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct Group {
  #[yaserde(attribute = true)] pub op: String,
  pub arg: Vec<Expr>,
  pub note: Option<String>,
}
impl Glue for Group {
  fn to_val(&self) -> Val { Val::Struct(vec![self.op.to_val(), self.arg.to_val(), self.note.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); Group { op: Glue::from_val(&_f[0]), arg: Glue::from_val(&_f[1]), note: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct Forest {
  pub tree: Vec<Tree>,
  pub ex: Option<Expr>,
  pub cc: Option<Chain>,
}
impl Glue for Forest {
  fn to_val(&self) -> Val { Val::Struct(vec![self.tree.to_val(), self.ex.to_val(), self.cc.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); Forest { tree: Glue::from_val(&_f[0]), ex: Glue::from_val(&_f[1]), cc: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct FlatInner {
  pub year: i32,
  pub month: i32,
}
impl Glue for FlatInner {
  fn to_val(&self) -> Val { Val::Struct(vec![self.year.to_val(), self.month.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); FlatInner { year: Glue::from_val(&_f[0]), month: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct FlatOpt {
  pub lunar: i32,
  pub phase: Option<String>,
}
impl Glue for FlatOpt {
  fn to_val(&self) -> Val { Val::Struct(vec![self.lunar.to_val(), self.phase.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); FlatOpt { lunar: Glue::from_val(&_f[0]), phase: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct FlatAttr {
  #[yaserde(attribute = true)] pub bold: bool,
  #[yaserde(attribute = true)] pub size: Option<u32>,
}
impl Glue for FlatAttr {
  fn to_val(&self) -> Val { Val::Struct(vec![self.bold.to_val(), self.size.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); FlatAttr { bold: Glue::from_val(&_f[0]), size: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct FlatVec {
  pub tagv: Vec<String>,
  pub opt: Option<u8>,
}
impl Glue for FlatVec {
  fn to_val(&self) -> Val { Val::Struct(vec![self.tagv.to_val(), self.opt.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); FlatVec { tagv: Glue::from_val(&_f[0]), opt: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct FlatStruct {
  pub sub: Inner,
  pub subs: Vec<InnerAttr>,
}
impl Glue for FlatStruct {
  fn to_val(&self) -> Val { Val::Struct(vec![self.sub.to_val(), self.subs.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); FlatStruct { sub: Glue::from_val(&_f[0]), subs: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub enum FlatKind {
  #[yaserde(rename = "holidays")] Holidays(Vec<String>),
  #[yaserde(rename = "working")] Working(String),
  #[yaserde(rename = "off")] Off(Inner),
}
impl Default for FlatKind { fn default() -> Self { Glue::from_val(&Val::Enum(1, vec![Val::Str(String::new())])) } }
impl Glue for FlatKind {
  fn to_val(&self) -> Val { match self { FlatKind::Holidays(x) => Val::Enum(0, vec![x.to_val()]), FlatKind::Working(x) => Val::Enum(1, vec![x.to_val()]), FlatKind::Off(x) => Val::Enum(2, vec![x.to_val()]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => FlatKind::Holidays(Glue::from_val(&_p[0])), 1 => FlatKind::Working(Glue::from_val(&_p[0])), 2 => FlatKind::Off(Glue::from_val(&_p[0])), _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct Flat1 {
  #[yaserde(flatten = true)] pub d: FlatInner,
  pub time: String,
}
impl Glue for Flat1 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.d.to_val(), self.time.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); Flat1 { d: Glue::from_val(&_f[0]), time: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct Flat2 {
  pub time: String,
  #[yaserde(flatten = true)] pub d: FlatInner,
  #[yaserde(flatten = true)] pub o: Option<FlatOpt>,
  pub last: Option<bool>,
}
impl Glue for Flat2 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.time.to_val(), self.d.to_val(), self.o.to_val(), self.last.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); Flat2 { time: Glue::from_val(&_f[0]), d: Glue::from_val(&_f[1]), o: Glue::from_val(&_f[2]), last: Glue::from_val(&_f[3]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct Flat3 {
  #[yaserde(flatten = true)] pub base: FlatAttr,
  #[yaserde(attribute = true)] pub id: String,
  pub value: TextOnly,
}
impl Glue for Flat3 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.base.to_val(), self.id.to_val(), self.value.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); Flat3 { base: Glue::from_val(&_f[0]), id: Glue::from_val(&_f[1]), value: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct Flat4 {
  #[yaserde(flatten = true)] pub fv: FlatVec,
  #[yaserde(flatten = true)] pub fs: FlatStruct,
  pub mid: Vec<u32>,
}
impl Glue for Flat4 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.fv.to_val(), self.fs.to_val(), self.mid.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); Flat4 { fv: Glue::from_val(&_f[0]), fs: Glue::from_val(&_f[1]), mid: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct Flat5 {
  #[yaserde(flatten = true)] pub k: FlatKind,
  pub hour: u8,
}
impl Glue for Flat5 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.k.to_val(), self.hour.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); Flat5 { k: Glue::from_val(&_f[0]), hour: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct FlatNest1 {
  pub week: i32,
  #[yaserde(flatten = true)] pub extra: FlatInner,
}
impl Glue for FlatNest1 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.week.to_val(), self.extra.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); FlatNest1 { week: Glue::from_val(&_f[0]), extra: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct FlatNest2 {
  #[yaserde(flatten = true)] pub fn1: FlatNest1,
  #[yaserde(flatten = true)] pub k: FlatKind,
  pub when: String,
  #[yaserde(flatten = true)] pub oo: Option<FlatOpt>,
}
impl Glue for FlatNest2 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.fn1.to_val(), self.k.to_val(), self.when.to_val(), self.oo.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); FlatNest2 { fn1: Glue::from_val(&_f[0]), k: Glue::from_val(&_f[1]), when: Glue::from_val(&_f[2]), oo: Glue::from_val(&_f[3]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct FlatSib {
  pub col: Color,
  #[yaserde(flatten = true)] pub d: FlatInner,
  pub mm: Meters,
  pub tg: Option<Tagged>,
  pub es: Vec<Shape>,
}
impl Glue for FlatSib {
  fn to_val(&self) -> Val { Val::Struct(vec![self.col.to_val(), self.d.to_val(), self.mm.to_val(), self.tg.to_val(), self.es.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); FlatSib { col: Glue::from_val(&_f[0]), d: Glue::from_val(&_f[1]), mm: Glue::from_val(&_f[2]), tg: Glue::from_val(&_f[3]), es: Glue::from_val(&_f[4]) } }
}
fn dflt_FlatDefault_dd() -> u8 { 4u8 }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct FlatDefault {
  #[yaserde(default = "dflt_FlatDefault_dd")] pub dd: u8,
  #[yaserde(flatten = true)] pub fa: FlatAttr,
  #[yaserde(flatten = true)] pub fi: FlatInner,
}
impl Glue for FlatDefault {
  fn to_val(&self) -> Val { Val::Struct(vec![self.dd.to_val(), self.fa.to_val(), self.fi.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); FlatDefault { dd: Glue::from_val(&_f[0]), fa: Glue::from_val(&_f[1]), fi: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct FlatInside {
  pub flat: Flat2,
  pub flats: Vec<Flat1>,
  pub endf: Option<String>,
}
impl Glue for FlatInside {
  fn to_val(&self) -> Val { Val::Struct(vec![self.flat.to_val(), self.flats.to_val(), self.endf.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); FlatInside { flat: Glue::from_val(&_f[0]), flats: Glue::from_val(&_f[1]), endf: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(flatten = true)]
pub struct RootFlat {
  pub binary_data: String,
  pub string_data: String,
  pub maybe_data: Option<u32>,
  pub many_data: Vec<i16>,
}
impl Glue for RootFlat {
  fn to_val(&self) -> Val { Val::Struct(vec![self.binary_data.to_val(), self.string_data.to_val(), self.maybe_data.to_val(), self.many_data.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); RootFlat { binary_data: Glue::from_val(&_f[0]), string_data: Glue::from_val(&_f[1]), maybe_data: Glue::from_val(&_f[2]), many_data: Glue::from_val(&_f[3]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(flatten = true)]
pub struct RootFlat2 {
  pub one: Inner,
  pub onev: Vec<InnerAttr>,
  pub s: Option<String>,
}
impl Glue for RootFlat2 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.one.to_val(), self.onev.to_val(), self.s.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); RootFlat2 { one: Glue::from_val(&_f[0]), onev: Glue::from_val(&_f[1]), s: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(flatten = true)]
pub struct RootFlat3 {
  pub none: Option<Inner>,
  pub shape: Shape,
  pub txt: Vec<TextAttr>,
  pub z: Color,
}
impl Glue for RootFlat3 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.none.to_val(), self.shape.to_val(), self.txt.to_val(), self.z.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); RootFlat3 { none: Glue::from_val(&_f[0]), shape: Glue::from_val(&_f[1]), txt: Glue::from_val(&_f[2]), z: Glue::from_val(&_f[3]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(flatten = true)]
pub struct RootFlat4 {
  pub kids: Vec<Inner>,
  pub tx: TextOnly,
  pub m: Meters,
}
impl Glue for RootFlat4 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.kids.to_val(), self.tx.to_val(), self.m.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); RootFlat4 { kids: Glue::from_val(&_f[0]), tx: Glue::from_val(&_f[1]), m: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(flatten = true)]
pub struct FlatMarked {
  pub host: Option<Inner>,
  pub more: Vec<TextOnly>,
  pub zz: u8,
}
impl Glue for FlatMarked {
  fn to_val(&self) -> Val { Val::Struct(vec![self.host.to_val(), self.more.to_val(), self.zz.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); FlatMarked { host: Glue::from_val(&_f[0]), more: Glue::from_val(&_f[1]), zz: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "host")]
pub struct FlatMarkHost {
  #[yaserde(flatten = true)] pub fm: FlatMarked,
  pub y: Option<u8>,
}
impl Glue for FlatMarkHost {
  fn to_val(&self) -> Val { Val::Struct(vec![self.fm.to_val(), self.y.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); FlatMarkHost { fm: Glue::from_val(&_f[0]), y: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct FlatPlain {
  pub host2: Option<Inner>,
  pub q: u8,
}
impl Glue for FlatPlain {
  fn to_val(&self) -> Val { Val::Struct(vec![self.host2.to_val(), self.q.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); FlatPlain { host2: Glue::from_val(&_f[0]), q: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "host2")]
pub struct FlatPlainHost {
  #[yaserde(flatten = true)] pub fp: FlatPlain,
  pub l: Vec<u8>,
}
impl Glue for FlatPlainHost {
  fn to_val(&self) -> Val { Val::Struct(vec![self.fp.to_val(), self.l.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); FlatPlainHost { fp: Glue::from_val(&_f[0]), l: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(flatten = true)]
pub enum RootFlatEnum {
  Bin(Inner),
  Dat(String),
  Lst(Vec<u8>),
}
impl Default for RootFlatEnum { fn default() -> Self { Glue::from_val(&Val::Enum(1, vec![Val::Str(String::new())])) } }
impl Glue for RootFlatEnum {
  fn to_val(&self) -> Val { match self { RootFlatEnum::Bin(x) => Val::Enum(0, vec![x.to_val()]), RootFlatEnum::Dat(x) => Val::Enum(1, vec![x.to_val()]), RootFlatEnum::Lst(x) => Val::Enum(2, vec![x.to_val()]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => RootFlatEnum::Bin(Glue::from_val(&_p[0])), 1 => RootFlatEnum::Dat(Glue::from_val(&_p[0])), 2 => RootFlatEnum::Lst(Glue::from_val(&_p[0])), _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(flatten = true)]
pub enum FlatEnumAttr {
  #[yaserde(rename = "fe")] Fe(Inner),
  Fg(u64),
}
impl Default for FlatEnumAttr { fn default() -> Self { Glue::from_val(&Val::Enum(1, vec![Val::Int(0)])) } }
impl Glue for FlatEnumAttr {
  fn to_val(&self) -> Val { match self { FlatEnumAttr::Fe(x) => Val::Enum(0, vec![x.to_val()]), FlatEnumAttr::Fg(x) => Val::Enum(1, vec![x.to_val()]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => FlatEnumAttr::Fe(Glue::from_val(&_p[0])), 1 => FlatEnumAttr::Fg(Glue::from_val(&_p[0])), _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct FlatEnumHolder {
  #[yaserde(flatten = true)] pub cont: FlatEnumAttr,
  pub z: Option<String>,
}
impl Glue for FlatEnumHolder {
  fn to_val(&self) -> Val { Val::Struct(vec![self.cont.to_val(), self.z.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); FlatEnumHolder { cont: Glue::from_val(&_f[0]), z: Glue::from_val(&_f[1]) } }
}
fn dflt_DefKinds_ko() -> Option<String> { Some("dflt".to_string()) }
fn dflt_DefKinds_ki() -> Option<u32> { Some(7u32) }
fn dflt_DefKinds_kb() -> Option<bool> { Some(true) }
fn dflt_DefKinds_kn() -> Option<i8> { None }
fn dflt_DefKinds_kv() -> Vec<u16> { vec![1u16, 2u16] }
fn dflt_DefKinds_ks() -> Vec<String> { vec!["a".to_string(), "b c".to_string()] }
fn dflt_DefKinds_ke() -> Vec<u8> { vec![] }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct DefKinds {
  #[yaserde(default = "dflt_DefKinds_ko")] pub ko: Option<String>,
  #[yaserde(default = "dflt_DefKinds_ki")] pub ki: Option<u32>,
  #[yaserde(default = "dflt_DefKinds_kb")] pub kb: Option<bool>,
  #[yaserde(default = "dflt_DefKinds_kn")] pub kn: Option<i8>,
  #[yaserde(default = "dflt_DefKinds_kv")] pub kv: Vec<u16>,
  #[yaserde(default = "dflt_DefKinds_ks")] pub ks: Vec<String>,
  #[yaserde(default = "dflt_DefKinds_ke")] pub ke: Vec<u8>,
}
impl Glue for DefKinds {
  fn to_val(&self) -> Val { Val::Struct(vec![self.ko.to_val(), self.ki.to_val(), self.kb.to_val(), self.kn.to_val(), self.kv.to_val(), self.ks.to_val(), self.ke.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); DefKinds { ko: Glue::from_val(&_f[0]), ki: Glue::from_val(&_f[1]), kb: Glue::from_val(&_f[2]), kn: Glue::from_val(&_f[3]), kv: Glue::from_val(&_f[4]), ks: Glue::from_val(&_f[5]), ke: Glue::from_val(&_f[6]) } }
}
fn dflt_DefAttrKinds_ao() -> Option<String> { Some("dflt".to_string()) }
fn dflt_DefAttrKinds_ai() -> Option<i64> { Some(-7i64) }
fn dflt_DefAttrKinds_an() -> Option<bool> { None }
fn dflt_DefAttrKinds_av() -> Vec<u16> { vec![1u16, 2u16] }
fn dflt_DefAttrKinds_aw() -> Vec<String> { vec!["on".to_string()] }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct DefAttrKinds {
  #[yaserde(attribute = true, default = "dflt_DefAttrKinds_ao")] pub ao: Option<String>,
  #[yaserde(attribute = true, default = "dflt_DefAttrKinds_ai")] pub ai: Option<i64>,
  #[yaserde(attribute = true, default = "dflt_DefAttrKinds_an")] pub an: Option<bool>,
  #[yaserde(attribute = true, default = "dflt_DefAttrKinds_av")] pub av: Vec<u16>,
  #[yaserde(attribute = true, default = "dflt_DefAttrKinds_aw")] pub aw: Vec<String>,
  pub tail: Option<u8>,
}
impl Glue for DefAttrKinds {
  fn to_val(&self) -> Val { Val::Struct(vec![self.ao.to_val(), self.ai.to_val(), self.an.to_val(), self.av.to_val(), self.aw.to_val(), self.tail.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); DefAttrKinds { ao: Glue::from_val(&_f[0]), ai: Glue::from_val(&_f[1]), an: Glue::from_val(&_f[2]), av: Glue::from_val(&_f[3]), aw: Glue::from_val(&_f[4]), tail: Glue::from_val(&_f[5]) } }
}
fn dflt_DefStructs_ds() -> Inner { Inner { left: "l".to_string(), right: 3 } }
fn dflt_DefStructs_dc() -> Color { Color::Blue }
fn dflt_DefStructs_dm() -> Meters { Meters(12) }
fn dflt_DefStructs_dh() -> Shape { Shape::Square(4) }
fn dflt_DefStructs_dl() -> Vec<Inner> { vec![Inner { left: "x".to_string(), right: 1 }] }
fn dflt_DefStructs_dq() -> Option<Inner> { Some(Inner { left: "y".to_string(), right: 2 }) }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct DefStructs {
  #[yaserde(default = "dflt_DefStructs_ds")] pub ds: Inner,
  #[yaserde(default = "dflt_DefStructs_dc")] pub dc: Color,
  #[yaserde(default = "dflt_DefStructs_dm")] pub dm: Meters,
  #[yaserde(default = "dflt_DefStructs_dh")] pub dh: Shape,
  #[yaserde(default = "dflt_DefStructs_dl")] pub dl: Vec<Inner>,
  #[yaserde(default = "dflt_DefStructs_dq")] pub dq: Option<Inner>,
  pub after: u8,
}
impl Glue for DefStructs {
  fn to_val(&self) -> Val { Val::Struct(vec![self.ds.to_val(), self.dc.to_val(), self.dm.to_val(), self.dh.to_val(), self.dl.to_val(), self.dq.to_val(), self.after.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); DefStructs { ds: Glue::from_val(&_f[0]), dc: Glue::from_val(&_f[1]), dm: Glue::from_val(&_f[2]), dh: Glue::from_val(&_f[3]), dl: Glue::from_val(&_f[4]), dq: Glue::from_val(&_f[5]), after: Glue::from_val(&_f[6]) } }
}
fn dflt_DefAttrStructs_dc() -> Color { Color::Blue }
fn dflt_DefAttrStructs_dm() -> Option<Meters> { Some(Meters(12)) }
fn dflt_DefAttrStructs_dn() -> Name { Name("n m".to_string()) }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct DefAttrStructs {
  #[yaserde(attribute = true, default = "dflt_DefAttrStructs_dc")] pub dc: Color,
  #[yaserde(attribute = true, default = "dflt_DefAttrStructs_dm")] pub dm: Option<Meters>,
  #[yaserde(attribute = true, default = "dflt_DefAttrStructs_dn")] pub dn: Name,
  pub z: Option<u8>,
}
impl Glue for DefAttrStructs {
  fn to_val(&self) -> Val { Val::Struct(vec![self.dc.to_val(), self.dm.to_val(), self.dn.to_val(), self.z.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); DefAttrStructs { dc: Glue::from_val(&_f[0]), dm: Glue::from_val(&_f[1]), dn: Glue::from_val(&_f[2]), z: Glue::from_val(&_f[3]) } }
}
fn dflt_DefOptSkip_so() -> Option<u32> { Some(3u32) }
fn dflt_DefOptSkip_sv() -> Vec<u8> { vec![9u8] }
fn dflt_DefOptSkip_si() -> Option<String> { Some("q".to_string()) }
fn dflt_DefOptSkip_sw() -> Vec<i32> { vec![-1i32] }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct DefOptSkip {
  #[yaserde(default = "dflt_DefOptSkip_so", skip_serializing = true)] pub so: Option<u32>,
  #[yaserde(default = "dflt_DefOptSkip_sv", skip_serializing = true)] pub sv: Vec<u8>,
  #[yaserde(default = "dflt_DefOptSkip_si", skip_serializing_if = "skip_si")] pub si: Option<String>,
  #[yaserde(default = "dflt_DefOptSkip_sw", skip_serializing_if = "skip_sw")] pub sw: Vec<i32>,
  pub end: u8,
}
impl DefOptSkip {
  fn skip_si(&self, v: &Option<String>) -> bool { v.is_none() }
  fn skip_sw(&self, v: &Vec<i32>) -> bool { v.is_empty() }
}
impl Glue for DefOptSkip {
  fn to_val(&self) -> Val { Val::Struct(vec![self.so.to_val(), self.sv.to_val(), self.si.to_val(), self.sw.to_val(), self.end.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); DefOptSkip { so: Glue::from_val(&_f[0]), sv: Glue::from_val(&_f[1]), si: Glue::from_val(&_f[2]), sw: Glue::from_val(&_f[3]), end: Glue::from_val(&_f[4]) } }
}
fn dflt_TextDefault_value() -> String { "dflt".to_string() }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct TextDefault {
  #[yaserde(attribute = true)] pub id: Option<u32>,
  #[yaserde(text = true, default = "dflt_TextDefault_value")] pub value: String,
}
impl Glue for TextDefault {
  fn to_val(&self) -> Val { Val::Struct(vec![self.id.to_val(), self.value.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); TextDefault { id: Glue::from_val(&_f[0]), value: Glue::from_val(&_f[1]) } }
}
fn dflt_TextOptDefault_value() -> Option<String> { Some("dflt".to_string()) }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct TextOptDefault {
  #[yaserde(attribute = true)] pub id: Option<u32>,
  #[yaserde(text = true, default = "dflt_TextOptDefault_value")] pub value: Option<String>,
}
impl Glue for TextOptDefault {
  fn to_val(&self) -> Val { Val::Struct(vec![self.id.to_val(), self.value.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); TextOptDefault { id: Glue::from_val(&_f[0]), value: Glue::from_val(&_f[1]) } }
}
fn dflt_TextSkip_value() -> String { "fixed".to_string() }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct TextSkip {
  #[yaserde(attribute = true)] pub id: Option<u32>,
  #[yaserde(text = true, default = "dflt_TextSkip_value", skip_serializing = true)] pub value: String,
}
impl Glue for TextSkip {
  fn to_val(&self) -> Val { Val::Struct(vec![self.id.to_val(), self.value.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); TextSkip { id: Glue::from_val(&_f[0]), value: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct TextSkipIf {
  #[yaserde(attribute = true)] pub id: Option<u32>,
  #[yaserde(text = true, skip_serializing_if = "skip_value")] pub value: Option<String>,
}
impl TextSkipIf {
  fn skip_value(&self, v: &Option<String>) -> bool { v.is_none() }
}
impl Glue for TextSkipIf {
  fn to_val(&self) -> Val { Val::Struct(vec![self.id.to_val(), self.value.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); TextSkipIf { id: Glue::from_val(&_f[0]), value: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct TextDefKids {
  pub a: TextDefault,
  pub b: Vec<TextSkip>,
  pub c: Option<TextOptDefault>,
  pub d: Vec<TextSkipIf>,
  pub e: Vec<TextOptDefault>,
}
impl Glue for TextDefKids {
  fn to_val(&self) -> Val { Val::Struct(vec![self.a.to_val(), self.b.to_val(), self.c.to_val(), self.d.to_val(), self.e.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); TextDefKids { a: Glue::from_val(&_f[0]), b: Glue::from_val(&_f[1]), c: Glue::from_val(&_f[2]), d: Glue::from_val(&_f[3]), e: Glue::from_val(&_f[4]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct FlatReqAttr {
  #[yaserde(attribute = true)] pub reqat: u32,
  #[yaserde(attribute = true)] pub optat: Option<String>,
  pub fel: Option<bool>,
}
impl Glue for FlatReqAttr {
  fn to_val(&self) -> Val { Val::Struct(vec![self.reqat.to_val(), self.optat.to_val(), self.fel.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); FlatReqAttr { reqat: Glue::from_val(&_f[0]), optat: Glue::from_val(&_f[1]), fel: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct FlatOptAttr {
  #[yaserde(flatten = true)] pub part: Option<FlatReqAttr>,
  #[yaserde(attribute = true)] pub own: String,
  pub item: Vec<u8>,
}
impl Glue for FlatOptAttr {
  fn to_val(&self) -> Val { Val::Struct(vec![self.part.to_val(), self.own.to_val(), self.item.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); FlatOptAttr { part: Glue::from_val(&_f[0]), own: Glue::from_val(&_f[1]), item: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "f.o.a")]
pub struct FlatOptAttr2 {
  pub name: Option<String>,
  #[yaserde(flatten = true)] pub part: Option<FlatReqAttr>,
  #[yaserde(flatten = true)] pub part2: Option<FlatInner>,
}
impl Glue for FlatOptAttr2 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.name.to_val(), self.part.to_val(), self.part2.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); FlatOptAttr2 { name: Glue::from_val(&_f[0]), part: Glue::from_val(&_f[1]), part2: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct FlatSkipPart {
  pub body: u8,
  #[yaserde(flatten = true, skip_serializing_if = "skip_part")] pub part: Option<FlatReqAttr>,
  #[yaserde(flatten = true, skip_serializing = true)] pub hidden: Option<FlatInner>,
}
impl FlatSkipPart {
  fn skip_part(&self, v: &Option<FlatReqAttr>) -> bool { v.is_none() }
}
impl Glue for FlatSkipPart {
  fn to_val(&self) -> Val { Val::Struct(vec![self.body.to_val(), self.part.to_val(), self.hidden.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); FlatSkipPart { body: Glue::from_val(&_f[0]), part: Glue::from_val(&_f[1]), hidden: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct FlatTextIn {
  #[yaserde(attribute = true)] pub lang: String,
  #[yaserde(attribute = true)] pub opt: Option<u8>,
  #[yaserde(text = true)] pub value: String,
}
impl Glue for FlatTextIn {
  fn to_val(&self) -> Val { Val::Struct(vec![self.lang.to_val(), self.opt.to_val(), self.value.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); FlatTextIn { lang: Glue::from_val(&_f[0]), opt: Glue::from_val(&_f[1]), value: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct FlatTextHost {
  #[yaserde(attribute = true)] pub id: u32,
  #[yaserde(flatten = true)] pub part: FlatTextIn,
}
impl Glue for FlatTextHost {
  fn to_val(&self) -> Val { Val::Struct(vec![self.id.to_val(), self.part.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); FlatTextHost { id: Glue::from_val(&_f[0]), part: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct FlatTag {
  #[yaserde(flatten = true)] pub part: Tagged,
  pub n: u8,
}
impl Glue for FlatTag {
  fn to_val(&self) -> Val { Val::Struct(vec![self.part.to_val(), self.n.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); FlatTag { part: Glue::from_val(&_f[0]), n: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct FlatTagOpt {
  #[yaserde(flatten = true)] pub part: Option<Tagged>,
  pub n: u8,
}
impl Glue for FlatTagOpt {
  fn to_val(&self) -> Val { Val::Struct(vec![self.part.to_val(), self.n.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); FlatTagOpt { part: Glue::from_val(&_f[0]), n: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct FlatDeepAttr1 {
  #[yaserde(flatten = true)] pub mid: FlatReqAttr,
  #[yaserde(attribute = true)] pub da: bool,
  pub de: String,
}
impl Glue for FlatDeepAttr1 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.mid.to_val(), self.da.to_val(), self.de.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); FlatDeepAttr1 { mid: Glue::from_val(&_f[0]), da: Glue::from_val(&_f[1]), de: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct FlatDeepAttr {
  #[yaserde(flatten = true)] pub top: FlatDeepAttr1,
  #[yaserde(attribute = true)] pub ta: Option<String>,
  pub te: Vec<Inner>,
}
impl Glue for FlatDeepAttr {
  fn to_val(&self) -> Val { Val::Struct(vec![self.top.to_val(), self.ta.to_val(), self.te.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); FlatDeepAttr { top: Glue::from_val(&_f[0]), ta: Glue::from_val(&_f[1]), te: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct FlatKids {
  pub x: FlatOptAttr,
  pub ys: Vec<FlatTextHost>,
  pub z: Option<FlatTag>,
  pub w: Vec<FlatTagOpt>,
  pub v: FlatDeepAttr,
}
impl Glue for FlatKids {
  fn to_val(&self) -> Val { Val::Struct(vec![self.x.to_val(), self.ys.to_val(), self.z.to_val(), self.w.to_val(), self.v.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); FlatKids { x: Glue::from_val(&_f[0]), ys: Glue::from_val(&_f[1]), z: Glue::from_val(&_f[2]), w: Glue::from_val(&_f[3]), v: Glue::from_val(&_f[4]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct Paths {
  pub ps: ::std::string::String,
  pub po: ::std::option::Option<u32>,
  pub pv: std::vec::Vec<std::string::String>,
  pub pi: self::Inner,
  pub pc: Option<crate::corpus::Color>,
  pub pl: ::std::vec::Vec<self::InnerAttr>,
  pub pn: ::core::primitive::i64,
}
impl Glue for Paths {
  fn to_val(&self) -> Val { Val::Struct(vec![self.ps.to_val(), self.po.to_val(), self.pv.to_val(), self.pi.to_val(), self.pc.to_val(), self.pl.to_val(), self.pn.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); Paths { ps: Glue::from_val(&_f[0]), po: Glue::from_val(&_f[1]), pv: Glue::from_val(&_f[2]), pi: Glue::from_val(&_f[3]), pc: Glue::from_val(&_f[4]), pl: Glue::from_val(&_f[5]), pn: Glue::from_val(&_f[6]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct PathAttrs {
  #[yaserde(attribute = true)] pub ps: std::string::String,
  #[yaserde(attribute = true)] pub po: std::option::Option<u8>,
  #[yaserde(attribute = true)] pub pc: crate::corpus::Color,
  #[yaserde(attribute = true)] pub pt: Option<self::TextOnly>,
  #[yaserde(attribute = true)] pub pm: Vec<self::Meters>,
  pub z: Option<String>,
}
impl Glue for PathAttrs {
  fn to_val(&self) -> Val { Val::Struct(vec![self.ps.to_val(), self.po.to_val(), self.pc.to_val(), self.pt.to_val(), self.pm.to_val(), self.z.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); PathAttrs { ps: Glue::from_val(&_f[0]), po: Glue::from_val(&_f[1]), pc: Glue::from_val(&_f[2]), pt: Glue::from_val(&_f[3]), pm: Glue::from_val(&_f[4]), z: Glue::from_val(&_f[5]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub enum PathEnum {
  Pa(self::Inner),
  Pb(std::option::Option<std::string::String>),
  Pc(::std::vec::Vec<crate::corpus::InnerAttr>),
}
impl Default for PathEnum { fn default() -> Self { Glue::from_val(&Val::Enum(0, vec![Val::Struct(vec![Val::Str(String::new()), Val::Int(0)])])) } }
impl Glue for PathEnum {
  fn to_val(&self) -> Val { match self { PathEnum::Pa(x) => Val::Enum(0, vec![x.to_val()]), PathEnum::Pb(x) => Val::Enum(1, vec![x.to_val()]), PathEnum::Pc(x) => Val::Enum(2, vec![x.to_val()]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => PathEnum::Pa(Glue::from_val(&_p[0])), 1 => PathEnum::Pb(Glue::from_val(&_p[0])), 2 => PathEnum::Pc(Glue::from_val(&_p[0])), _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct PathKids {
  pub pe: self::PathEnum,
  pub pp: Option<self::Paths>,
}
impl Glue for PathKids {
  fn to_val(&self) -> Val { Val::Struct(vec![self.pe.to_val(), self.pp.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); PathKids { pe: Glue::from_val(&_f[0]), pp: Glue::from_val(&_f[1]) } }
}
macro_rules! mac_MacroTypes { ($t0:ty, $t1:ty, $t2:ty, $t3:ty, $t4:ty) => {
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct MacroTypes {
  pub m1: $t0,
  pub m2: $t1,
  pub m3: Option<$t1>,
  pub m4: Vec<$t0>,
  pub m5: $t2,
  pub m6: Vec<$t2>,
  pub m7: Option<$t2>,
  pub m8: $t3,
  pub m9: $t4,
}
} }
mac_MacroTypes!(String, u32, Inner, Option<u8>, Vec<i16>);
impl Glue for MacroTypes {
  fn to_val(&self) -> Val { Val::Struct(vec![self.m1.to_val(), self.m2.to_val(), self.m3.to_val(), self.m4.to_val(), self.m5.to_val(), self.m6.to_val(), self.m7.to_val(), self.m8.to_val(), self.m9.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); MacroTypes { m1: Glue::from_val(&_f[0]), m2: Glue::from_val(&_f[1]), m3: Glue::from_val(&_f[2]), m4: Glue::from_val(&_f[3]), m5: Glue::from_val(&_f[4]), m6: Glue::from_val(&_f[5]), m7: Glue::from_val(&_f[6]), m8: Glue::from_val(&_f[7]), m9: Glue::from_val(&_f[8]) } }
}
macro_rules! mac_MacroAttrs { ($t0:ty, $t1:ty, $t2:ty, $t3:ty) => {
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct MacroAttrs {
  #[yaserde(attribute = true)] pub m1: $t0,
  #[yaserde(attribute = true)] pub m2: $t1,
  #[yaserde(attribute = true)] pub m3: Option<$t1>,
  #[yaserde(attribute = true)] pub m5: $t2,
  #[yaserde(attribute = true)] pub m8: $t3,
  #[yaserde(attribute = true)] pub mz: Option<$t2>,
  #[yaserde(attribute = true)] pub mv: Vec<$t1>,
}
} }
mac_MacroAttrs!(String, u32, Color, Option<u8>);
impl Glue for MacroAttrs {
  fn to_val(&self) -> Val { Val::Struct(vec![self.m1.to_val(), self.m2.to_val(), self.m3.to_val(), self.m5.to_val(), self.m8.to_val(), self.mz.to_val(), self.mv.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); MacroAttrs { m1: Glue::from_val(&_f[0]), m2: Glue::from_val(&_f[1]), m3: Glue::from_val(&_f[2]), m5: Glue::from_val(&_f[3]), m8: Glue::from_val(&_f[4]), mz: Glue::from_val(&_f[5]), mv: Glue::from_val(&_f[6]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize)]
pub struct OptVecs {
  pub ov_string: Option<Vec<String>>,
  pub ov_bool: Option<Vec<bool>>,
  pub ov_i8: Option<Vec<i8>>,
  pub ov_u8: Option<Vec<u8>>,
  pub ov_i16: Option<Vec<i16>>,
  pub ov_u16: Option<Vec<u16>>,
  pub ov_i32: Option<Vec<i32>>,
  pub ov_u32: Option<Vec<u32>>,
  pub ov_i64: Option<Vec<i64>>,
  pub ov_u64: Option<Vec<u64>>,
  pub ov_f32: Option<Vec<f32>>,
  pub ov_f64: Option<Vec<f64>>,
  pub last: u8,
}
impl Glue for OptVecs {
  fn to_val(&self) -> Val { Val::Struct(vec![self.ov_string.to_val(), self.ov_bool.to_val(), self.ov_i8.to_val(), self.ov_u8.to_val(), self.ov_i16.to_val(), self.ov_u16.to_val(), self.ov_i32.to_val(), self.ov_u32.to_val(), self.ov_i64.to_val(), self.ov_u64.to_val(), self.ov_f32.to_val(), self.ov_f64.to_val(), self.last.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); OptVecs { ov_string: Glue::from_val(&_f[0]), ov_bool: Glue::from_val(&_f[1]), ov_i8: Glue::from_val(&_f[2]), ov_u8: Glue::from_val(&_f[3]), ov_i16: Glue::from_val(&_f[4]), ov_u16: Glue::from_val(&_f[5]), ov_i32: Glue::from_val(&_f[6]), ov_u32: Glue::from_val(&_f[7]), ov_i64: Glue::from_val(&_f[8]), ov_u64: Glue::from_val(&_f[9]), ov_f32: Glue::from_val(&_f[10]), ov_f64: Glue::from_val(&_f[11]), last: Glue::from_val(&_f[12]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize)]
pub struct FlatVecPart {
  pub n: u8,
  #[yaserde(flatten = true)] pub parts: Vec<FlatInner>,
  pub z: Option<String>,
}
impl Glue for FlatVecPart {
  fn to_val(&self) -> Val { Val::Struct(vec![self.n.to_val(), self.parts.to_val(), self.z.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); FlatVecPart { n: Glue::from_val(&_f[0]), parts: Glue::from_val(&_f[1]), z: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize)]
pub enum NamedVariants {
  Va { na: u32, nb: String, nc: bool },
  Vb { nd: Inner, ne: Vec<InnerAttr>, nf: f64 },
  Vc { #[yaserde(rename = "g-g")] ng: i64 },
}
impl Default for NamedVariants { fn default() -> Self { Glue::from_val(&Val::Enum(0, vec![Val::Int(0), Val::Str(String::new()), Val::Bool(false)])) } }
impl Glue for NamedVariants {
  fn to_val(&self) -> Val { match self { NamedVariants::Va { na, nb, nc } => Val::Enum(0, vec![na.to_val(), nb.to_val(), nc.to_val()]), NamedVariants::Vb { nd, ne, nf } => Val::Enum(1, vec![nd.to_val(), ne.to_val(), nf.to_val()]), NamedVariants::Vc { ng } => Val::Enum(2, vec![ng.to_val()]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => NamedVariants::Va { na: Glue::from_val(&_p[0]), nb: Glue::from_val(&_p[1]), nc: Glue::from_val(&_p[2]) }, 1 => NamedVariants::Vb { nd: Glue::from_val(&_p[0]), ne: Glue::from_val(&_p[1]), nf: Glue::from_val(&_p[2]) }, 2 => NamedVariants::Vc { ng: Glue::from_val(&_p[0]) }, _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize)]
#[yaserde(flatten = true)]
pub enum FlatVariant {
  #[yaserde(flatten = true)] BinV(Inner),
  #[yaserde(flatten = true)] DatV(InnerAttr),
}
impl Default for FlatVariant { fn default() -> Self { Glue::from_val(&Val::Enum(0, vec![Val::Struct(vec![Val::Str(String::new()), Val::Int(0)])])) } }
impl Glue for FlatVariant {
  fn to_val(&self) -> Val { match self { FlatVariant::BinV(x) => Val::Enum(0, vec![x.to_val()]), FlatVariant::DatV(x) => Val::Enum(1, vec![x.to_val()]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => FlatVariant::BinV(Glue::from_val(&_p[0])), 1 => FlatVariant::DatV(Glue::from_val(&_p[0])), _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize)]
pub struct NamedHolder {
  pub nv: NamedVariants,
  pub nvs: Vec<NamedVariants>,
  pub on: Option<NamedVariants>,
}
impl Glue for NamedHolder {
  fn to_val(&self) -> Val { Val::Struct(vec![self.nv.to_val(), self.nvs.to_val(), self.on.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); NamedHolder { nv: Glue::from_val(&_f[0]), nvs: Glue::from_val(&_f[1]), on: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize)]
pub struct EncScalars {
  pub s_usize: usize,
  pub s_isize: isize,
  pub s_char: char,
  pub o_usize: Option<usize>,
  pub o_isize: Option<isize>,
  pub o_char: Option<char>,
  pub v_usize: Vec<usize>,
  pub v_isize: Vec<isize>,
  pub v_char: Vec<char>,
}
impl Glue for EncScalars {
  fn to_val(&self) -> Val { Val::Struct(vec![self.s_usize.to_val(), self.s_isize.to_val(), self.s_char.to_val(), self.o_usize.to_val(), self.o_isize.to_val(), self.o_char.to_val(), self.v_usize.to_val(), self.v_isize.to_val(), self.v_char.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); EncScalars { s_usize: Glue::from_val(&_f[0]), s_isize: Glue::from_val(&_f[1]), s_char: Glue::from_val(&_f[2]), o_usize: Glue::from_val(&_f[3]), o_isize: Glue::from_val(&_f[4]), o_char: Glue::from_val(&_f[5]), v_usize: Glue::from_val(&_f[6]), v_isize: Glue::from_val(&_f[7]), v_char: Glue::from_val(&_f[8]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize)]
pub struct EncAttrs {
  #[yaserde(attribute = true)] pub a_usize: usize,
  #[yaserde(attribute = true)] pub a_isize: isize,
  #[yaserde(attribute = true)] pub a_char: char,
  #[yaserde(attribute = true)] pub b_usize: Option<usize>,
  #[yaserde(attribute = true)] pub b_isize: Option<isize>,
  #[yaserde(attribute = true)] pub b_char: Option<char>,
  pub body: usize,
}
impl Glue for EncAttrs {
  fn to_val(&self) -> Val { Val::Struct(vec![self.a_usize.to_val(), self.a_isize.to_val(), self.a_char.to_val(), self.b_usize.to_val(), self.b_isize.to_val(), self.b_char.to_val(), self.body.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); EncAttrs { a_usize: Glue::from_val(&_f[0]), a_isize: Glue::from_val(&_f[1]), a_char: Glue::from_val(&_f[2]), b_usize: Glue::from_val(&_f[3]), b_isize: Glue::from_val(&_f[4]), b_char: Glue::from_val(&_f[5]), body: Glue::from_val(&_f[6]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize)]
#[yaserde(prefix = "p", namespaces = { "p" = "http://example.com/p", "q" = "urn:example:q" })]
pub struct EncNs {
  #[yaserde(prefix = "p")] pub u: usize,
  #[yaserde(rename = "c.h", prefix = "q")] pub c: Vec<char>,
  #[yaserde(prefix = "q", skip_serializing_if = "skip_i")] pub i: Option<isize>,
  #[yaserde(attribute = true, prefix = "p")] pub at: usize,
}
impl EncNs {
  fn skip_i(&self, v: &Option<isize>) -> bool { v.is_none() }
}
impl Glue for EncNs {
  fn to_val(&self) -> Val { Val::Struct(vec![self.u.to_val(), self.c.to_val(), self.i.to_val(), self.at.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); EncNs { u: Glue::from_val(&_f[0]), c: Glue::from_val(&_f[1]), i: Glue::from_val(&_f[2]), at: Glue::from_val(&_f[3]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize)]
pub enum EncPayloads {
  Pu(usize),
  Pc(Vec<char>),
  Pi(Option<isize>),
  #[yaserde(rename = "p-s")] Ps(EncScalars),
}
impl Default for EncPayloads { fn default() -> Self { Glue::from_val(&Val::Enum(0, vec![Val::Int(0)])) } }
impl Glue for EncPayloads {
  fn to_val(&self) -> Val { match self { EncPayloads::Pu(x) => Val::Enum(0, vec![x.to_val()]), EncPayloads::Pc(x) => Val::Enum(1, vec![x.to_val()]), EncPayloads::Pi(x) => Val::Enum(2, vec![x.to_val()]), EncPayloads::Ps(x) => Val::Enum(3, vec![x.to_val()]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => EncPayloads::Pu(Glue::from_val(&_p[0])), 1 => EncPayloads::Pc(Glue::from_val(&_p[0])), 2 => EncPayloads::Pi(Glue::from_val(&_p[0])), 3 => EncPayloads::Ps(Glue::from_val(&_p[0])), _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize)]
pub enum NamedLists {
  Va { la: Vec<u32>, lc: Vec<bool>, ld: Vec<char> },
  Vb { #[yaserde(rename = "l.e")] le: usize, lf: char, lg: Inner, #[yaserde(rename = "l-h")] lh: Vec<Inner>, li: Vec<f32> },
  Vu,
  Vn(u8),
}
impl Default for NamedLists { fn default() -> Self { Glue::from_val(&Val::Enum(2, vec![])) } }
impl Glue for NamedLists {
  fn to_val(&self) -> Val { match self { NamedLists::Va { la, lc, ld } => Val::Enum(0, vec![la.to_val(), lc.to_val(), ld.to_val()]), NamedLists::Vb { le, lf, lg, lh, li } => Val::Enum(1, vec![le.to_val(), lf.to_val(), lg.to_val(), lh.to_val(), li.to_val()]), NamedLists::Vu => Val::Enum(2, vec![]), NamedLists::Vn(x) => Val::Enum(3, vec![x.to_val()]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => NamedLists::Va { la: Glue::from_val(&_p[0]), lc: Glue::from_val(&_p[1]), ld: Glue::from_val(&_p[2]) }, 1 => NamedLists::Vb { le: Glue::from_val(&_p[0]), lf: Glue::from_val(&_p[1]), lg: Glue::from_val(&_p[2]), lh: Glue::from_val(&_p[3]), li: Glue::from_val(&_p[4]) }, 2 => NamedLists::Vu, 3 => NamedLists::Vn(Glue::from_val(&_p[0])), _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize)]
#[yaserde(flatten = true)]
pub enum NamedFlat {
  Fa { fb: Inner, fc: usize, fd: Vec<i8> },
  Fe { fg: String, fh: Vec<InnerAttr> },
}
impl Default for NamedFlat { fn default() -> Self { Glue::from_val(&Val::Enum(0, vec![Val::Struct(vec![Val::Str(String::new()), Val::Int(0)]), Val::Int(0), Val::Vec(vec![])])) } }
impl Glue for NamedFlat {
  fn to_val(&self) -> Val { match self { NamedFlat::Fa { fb, fc, fd } => Val::Enum(0, vec![fb.to_val(), fc.to_val(), fd.to_val()]), NamedFlat::Fe { fg, fh } => Val::Enum(1, vec![fg.to_val(), fh.to_val()]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => NamedFlat::Fa { fb: Glue::from_val(&_p[0]), fc: Glue::from_val(&_p[1]), fd: Glue::from_val(&_p[2]) }, 1 => NamedFlat::Fe { fg: Glue::from_val(&_p[0]), fh: Glue::from_val(&_p[1]) }, _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize)]
pub struct NamedFlatHost {
  #[yaserde(flatten = true)] pub kind: NamedFlat,
  pub z: Option<u8>,
}
impl Glue for NamedFlatHost {
  fn to_val(&self) -> Val { Val::Struct(vec![self.kind.to_val(), self.z.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); NamedFlatHost { kind: Glue::from_val(&_f[0]), z: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize)]
pub struct EncKids {
  pub es: Vec<EncScalars>,
  pub ea: Option<EncAttrs>,
  pub en: EncNs,
  pub ep: EncPayloads,
  pub eps: Vec<EncPayloads>,
  pub nl: NamedLists,
  pub nls: Vec<NamedLists>,
  pub nf: Option<NamedFlatHost>,
}
impl Glue for EncKids {
  fn to_val(&self) -> Val { Val::Struct(vec![self.es.to_val(), self.ea.to_val(), self.en.to_val(), self.ep.to_val(), self.eps.to_val(), self.nl.to_val(), self.nls.to_val(), self.nf.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); EncKids { es: Glue::from_val(&_f[0]), ea: Glue::from_val(&_f[1]), en: Glue::from_val(&_f[2]), ep: Glue::from_val(&_f[3]), eps: Glue::from_val(&_f[4]), nl: Glue::from_val(&_f[5]), nls: Glue::from_val(&_f[6]), nf: Glue::from_val(&_f[7]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(prefix = "p", namespaces = { "p" = "http://example.com/p", "q" = "urn:example:q" })]
pub struct NsRoot {
  #[yaserde(prefix = "p")] pub item: String,
  #[yaserde(prefix = "q")] pub other: Option<i32>,
  pub plain: Vec<String>,
}
impl Glue for NsRoot {
  fn to_val(&self) -> Val { Val::Struct(vec![self.item.to_val(), self.other.to_val(), self.plain.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); NsRoot { item: Glue::from_val(&_f[0]), other: Glue::from_val(&_f[1]), plain: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "p" = "http://example.com/p", "q" = "urn:example:q" })]
pub struct NsAttr {
  #[yaserde(attribute = true, prefix = "p")] pub at: String,
  #[yaserde(attribute = true, prefix = "q")] pub bt: Option<u32>,
  #[yaserde(attribute = true)] pub ct: bool,
  pub v: String,
}
impl Glue for NsAttr {
  fn to_val(&self) -> Val { Val::Struct(vec![self.at.to_val(), self.bt.to_val(), self.ct.to_val(), self.v.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); NsAttr { at: Glue::from_val(&_f[0]), bt: Glue::from_val(&_f[1]), ct: Glue::from_val(&_f[2]), v: Glue::from_val(&_f[3]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "q" = "urn:example:q" })]
pub struct NsInner {
  #[yaserde(prefix = "q")] pub in1: String,
  pub in2: Vec<u8>,
}
impl Glue for NsInner {
  fn to_val(&self) -> Val { Val::Struct(vec![self.in1.to_val(), self.in2.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); NsInner { in1: Glue::from_val(&_f[0]), in2: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(prefix = "q", namespaces = { "p" = "http://example.com/p", "q" = "urn:example:q" })]
pub struct NsNest {
  #[yaserde(prefix = "p")] pub child: NsInner,
  pub kids: Vec<NsInner>,
  #[yaserde(prefix = "q")] pub okid: Option<NsInner>,
}
impl Glue for NsNest {
  fn to_val(&self) -> Val { Val::Struct(vec![self.child.to_val(), self.kids.to_val(), self.okid.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); NsNest { child: Glue::from_val(&_f[0]), kids: Glue::from_val(&_f[1]), okid: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(prefix = "d", default_namespace = "d", namespaces = { "d" = "http://example.com/d" })]
pub struct NsDefInner {
  #[yaserde(prefix = "d")] pub di: String,
  #[yaserde(prefix = "d")] pub dv: Vec<u16>,
}
impl Glue for NsDefInner {
  fn to_val(&self) -> Val { Val::Struct(vec![self.di.to_val(), self.dv.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); NsDefInner { di: Glue::from_val(&_f[0]), dv: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(prefix = "d", default_namespace = "d", namespaces = { "d" = "http://example.com/d" })]
pub struct NsDef {
  #[yaserde(prefix = "d")] pub x: i32,
  #[yaserde(prefix = "d")] pub n: NsDefInner,
  #[yaserde(prefix = "d")] pub ns_: Vec<NsDefInner>,
  #[yaserde(attribute = true)] pub at: String,
}
impl Glue for NsDef {
  fn to_val(&self) -> Val { Val::Struct(vec![self.x.to_val(), self.n.to_val(), self.ns_.to_val(), self.at.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); NsDef { x: Glue::from_val(&_f[0]), n: Glue::from_val(&_f[1]), ns_: Glue::from_val(&_f[2]), at: Glue::from_val(&_f[3]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "nsdef-two", prefix = "d", default_namespace = "d", namespaces = { "d" = "http://example.com/d", "e" = "http://example.com/e" })]
pub struct NsDef2 {
  #[yaserde(prefix = "d")] pub x: i32,
  #[yaserde(prefix = "e")] pub y: Option<String>,
  #[yaserde(prefix = "d")] pub n: Option<NsDefInner>,
}
impl Glue for NsDef2 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.x.to_val(), self.y.to_val(), self.n.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); NsDef2 { x: Glue::from_val(&_f[0]), y: Glue::from_val(&_f[1]), n: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(prefix = "p", namespaces = { "p" = "http://example.com/p", "q" = "urn:example:q" })]
pub struct SameLocal {
  #[yaserde(rename = "same", prefix = "p")] pub a1: String,
  #[yaserde(rename = "same", prefix = "q")] pub a2: Option<u32>,
  #[yaserde(rename = "same")] pub a3: Vec<bool>,
}
impl Glue for SameLocal {
  fn to_val(&self) -> Val { Val::Struct(vec![self.a1.to_val(), self.a2.to_val(), self.a3.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); SameLocal { a1: Glue::from_val(&_f[0]), a2: Glue::from_val(&_f[1]), a3: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(prefix = "p", namespaces = { "p" = "http://example.com/p", "q" = "urn:example:q" })]
pub enum NsEnum {
  #[yaserde(prefix = "p")] Alt(String),
  #[yaserde(rename = "b.lt", prefix = "q")] Blt(Inner),
}
impl Default for NsEnum { fn default() -> Self { Glue::from_val(&Val::Enum(0, vec![Val::Str(String::new())])) } }
impl Glue for NsEnum {
  fn to_val(&self) -> Val { match self { NsEnum::Alt(x) => Val::Enum(0, vec![x.to_val()]), NsEnum::Blt(x) => Val::Enum(1, vec![x.to_val()]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => NsEnum::Alt(Glue::from_val(&_p[0])), 1 => NsEnum::Blt(Glue::from_val(&_p[0])), _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub enum NsPayEnum {
  Np(NsInner),
  Na(NsAttr),
  Nr(Option<NsRoot>),
  Nv(Vec<NsInner>),
  Ns(u8),
}
impl Default for NsPayEnum { fn default() -> Self { Glue::from_val(&Val::Enum(4, vec![Val::Int(0)])) } }
impl Glue for NsPayEnum {
  fn to_val(&self) -> Val { match self { NsPayEnum::Np(x) => Val::Enum(0, vec![x.to_val()]), NsPayEnum::Na(x) => Val::Enum(1, vec![x.to_val()]), NsPayEnum::Nr(x) => Val::Enum(2, vec![x.to_val()]), NsPayEnum::Nv(x) => Val::Enum(3, vec![x.to_val()]), NsPayEnum::Ns(x) => Val::Enum(4, vec![x.to_val()]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => NsPayEnum::Np(Glue::from_val(&_p[0])), 1 => NsPayEnum::Na(Glue::from_val(&_p[0])), 2 => NsPayEnum::Nr(Glue::from_val(&_p[0])), 3 => NsPayEnum::Nv(Glue::from_val(&_p[0])), 4 => NsPayEnum::Ns(Glue::from_val(&_p[0])), _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "p" = "http://example.com/p", "q" = "urn:example:q" })]
pub struct NsPayHolder {
  pub np: NsPayEnum,
  #[yaserde(prefix = "q")] pub nps: Vec<NsPayEnum>,
}
impl Glue for NsPayHolder {
  fn to_val(&self) -> Val { Val::Struct(vec![self.np.to_val(), self.nps.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); NsPayHolder { np: Glue::from_val(&_f[0]), nps: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "p" = "http://example.com/p", "q" = "urn:example:q" })]
pub struct NsEnumHolder {
  pub ne: NsEnum,
  #[yaserde(prefix = "p")] pub nes: Vec<NsEnum>,
}
impl Glue for NsEnumHolder {
  fn to_val(&self) -> Val { Val::Struct(vec![self.ne.to_val(), self.nes.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); NsEnumHolder { ne: Glue::from_val(&_f[0]), nes: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "ns" = "http://www.sample.com/ns/domain" })]
pub struct NsFlatAttr {
  #[yaserde(attribute = true, prefix = "ns")] pub fsz: u32,
}
impl Glue for NsFlatAttr {
  fn to_val(&self) -> Val { Val::Struct(vec![self.fsz.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); NsFlatAttr { fsz: Glue::from_val(&_f[0]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct NsFlat {
  #[yaserde(flatten = true)] pub fa: NsFlatAttr,
  #[yaserde(attribute = true)] pub dsp: String,
  pub v: Option<String>,
}
impl Glue for NsFlat {
  fn to_val(&self) -> Val { Val::Struct(vec![self.fa.to_val(), self.dsp.to_val(), self.v.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); NsFlat { fa: Glue::from_val(&_f[0]), dsp: Glue::from_val(&_f[1]), v: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "p" = "http://example.com/p", "q" = "urn:example:q" })]
pub struct NsFlatElem {
  #[yaserde(prefix = "p")] pub fe: String,
  pub ff: Option<u8>,
}
impl Glue for NsFlatElem {
  fn to_val(&self) -> Val { Val::Struct(vec![self.fe.to_val(), self.ff.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); NsFlatElem { fe: Glue::from_val(&_f[0]), ff: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(namespaces = { "p" = "http://example.com/p", "q" = "urn:example:q" })]
pub struct NsFlat2 {
  #[yaserde(flatten = true)] pub b: NsFlatElem,
  #[yaserde(prefix = "p")] pub c: u8,
}
impl Glue for NsFlat2 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.b.to_val(), self.c.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); NsFlat2 { b: Glue::from_val(&_f[0]), c: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct NsFlat3 {
  #[yaserde(flatten = true)] pub b: NsFlatElem,
  pub c: u8,
}
impl Glue for NsFlat3 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.b.to_val(), self.c.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); NsFlat3 { b: Glue::from_val(&_f[0]), c: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct NsFlat4 {
  pub c: u8,
  #[yaserde(flatten = true)] pub b: Option<NsFlatElem>,
  #[yaserde(flatten = true)] pub d: NsFlatAttr,
}
impl Glue for NsFlat4 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.c.to_val(), self.b.to_val(), self.d.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); NsFlat4 { c: Glue::from_val(&_f[0]), b: Glue::from_val(&_f[1]), d: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct NsFlat5 {
  pub k: u8,
  #[yaserde(flatten = true)] pub m: NsFlat3,
}
impl Glue for NsFlat5 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.k.to_val(), self.m.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); NsFlat5 { k: Glue::from_val(&_f[0]), m: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct NsFlatKids {
  pub f3: NsFlat3,
  pub f4: Option<NsFlat4>,
  pub f5: Vec<NsFlat5>,
}
impl Glue for NsFlatKids {
  fn to_val(&self) -> Val { Val::Struct(vec![self.f3.to_val(), self.f4.to_val(), self.f5.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); NsFlatKids { f3: Glue::from_val(&_f[0]), f4: Glue::from_val(&_f[1]), f5: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(prefix = "p", namespaces = { "p" = "http://example.com/p", "q" = "urn:example:q" })]
pub struct NsEnumAttrs {
  #[yaserde(prefix = "p")] pub ce: Color,
  #[yaserde(prefix = "q")] pub te: Tagged,
  #[yaserde(prefix = "p")] pub pm: Meters,
}
impl Glue for NsEnumAttrs {
  fn to_val(&self) -> Val { Val::Struct(vec![self.ce.to_val(), self.te.to_val(), self.pm.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); NsEnumAttrs { ce: Glue::from_val(&_f[0]), te: Glue::from_val(&_f[1]), pm: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "subsub")]
pub struct SubSub {
  #[yaserde(attribute = true)] pub leaf: String,
}
impl Glue for SubSub {
  fn to_val(&self) -> Val { Val::Struct(vec![self.leaf.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); SubSub { leaf: Glue::from_val(&_f[0]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "sub")]
pub struct Sub {
  pub sub: Option<SubSub>,
  #[yaserde(attribute = true)] pub subitem: String,
}
impl Glue for Sub {
  fn to_val(&self) -> Val { Val::Struct(vec![self.sub.to_val(), self.subitem.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); Sub { sub: Glue::from_val(&_f[0]), subitem: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "base")]
pub struct SameName {
  pub sub: Sub,
}
impl Glue for SameName {
  fn to_val(&self) -> Val { Val::Struct(vec![self.sub.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); SameName { sub: Glue::from_val(&_f[0]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct SelfName {
  pub before: String,
  pub selfname: Inner,
  pub after: Option<u8>,
}
impl Glue for SelfName {
  fn to_val(&self) -> Val { Val::Struct(vec![self.before.to_val(), self.selfname.to_val(), self.after.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); SelfName { before: Glue::from_val(&_f[0]), selfname: Glue::from_val(&_f[1]), after: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct SelfName2 {
  pub a1: Option<u8>,
  pub item: String,
  pub z1: Vec<String>,
}
impl Glue for SelfName2 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.a1.to_val(), self.item.to_val(), self.z1.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); SelfName2 { a1: Glue::from_val(&_f[0]), item: Glue::from_val(&_f[1]), z1: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct SelfName3 {
  pub lead: Inner,
  pub kid: Vec<InnerAttr>,
}
impl Glue for SelfName3 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.lead.to_val(), self.kid.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); SelfName3 { lead: Glue::from_val(&_f[0]), kid: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct SelfHolder {
  pub selfname: SelfName,
  pub item: Vec<SelfName2>,
  pub kid: Option<SelfName3>,
}
impl Glue for SelfHolder {
  fn to_val(&self) -> Val { Val::Struct(vec![self.selfname.to_val(), self.item.to_val(), self.kid.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); SelfHolder { selfname: Glue::from_val(&_f[0]), item: Glue::from_val(&_f[1]), kid: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct SelfRoot {
  pub lead: Option<String>,
  pub SelfRoot: Vec<Inner>,
  pub tail: Option<SelfName2>,
}
impl Glue for SelfRoot {
  fn to_val(&self) -> Val { Val::Struct(vec![self.lead.to_val(), self.SelfRoot.to_val(), self.tail.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); SelfRoot { lead: Glue::from_val(&_f[0]), SelfRoot: Glue::from_val(&_f[1]), tail: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct AttrSame {
  #[yaserde(attribute = true, rename = "content")] pub attribute: Option<String>,
  pub content: Option<String>,
}
impl Glue for AttrSame {
  fn to_val(&self) -> Val { Val::Struct(vec![self.attribute.to_val(), self.content.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); AttrSame { attribute: Glue::from_val(&_f[0]), content: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct Book {
  #[yaserde(attribute = true)] pub isbn: String,
  pub title: String,
  pub author: Vec<String>,
  pub price: f32,
  pub stock: Option<u64>,
  pub genre: Color,
  pub series: Option<Inner>,
}
impl Glue for Book {
  fn to_val(&self) -> Val { Val::Struct(vec![self.isbn.to_val(), self.title.to_val(), self.author.to_val(), self.price.to_val(), self.stock.to_val(), self.genre.to_val(), self.series.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); Book { isbn: Glue::from_val(&_f[0]), title: Glue::from_val(&_f[1]), author: Glue::from_val(&_f[2]), price: Glue::from_val(&_f[3]), stock: Glue::from_val(&_f[4]), genre: Glue::from_val(&_f[5]), series: Glue::from_val(&_f[6]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct Library {
  #[yaserde(attribute = true)] pub name: String,
  pub book: Vec<Book>,
  pub curator: Option<NestedOpt>,
  pub motto: TextAttr,
}
impl Glue for Library {
  fn to_val(&self) -> Val { Val::Struct(vec![self.name.to_val(), self.book.to_val(), self.curator.to_val(), self.motto.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); Library { name: Glue::from_val(&_f[0]), book: Glue::from_val(&_f[1]), curator: Glue::from_val(&_f[2]), motto: Glue::from_val(&_f[3]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct Wide {
  pub w0: Option<String>,
  pub w1: Option<u32>,
  pub w2: Option<String>,
  pub w3: Option<u32>,
  pub w4: Option<String>,
  pub w5: Option<u32>,
  pub w6: Option<String>,
  pub w7: Option<u32>,
  pub w8: Option<String>,
  pub w9: Option<u32>,
  pub w10: Option<String>,
  pub w11: Option<u32>,
  pub w12: Option<String>,
  pub w13: Option<u32>,
  pub w14: Option<String>,
  pub w15: Option<u32>,
  pub w16: Option<String>,
  pub w17: Option<u32>,
  pub w18: Option<String>,
  pub w19: Option<u32>,
  pub w20: Option<String>,
  pub w21: Option<u32>,
  pub w22: Option<String>,
  pub w23: Option<u32>,
  pub w24: Option<String>,
  pub w25: Option<u32>,
  pub w26: Option<String>,
  pub w27: Option<u32>,
  pub w28: Option<String>,
  pub w29: Option<u32>,
  pub w30: Option<String>,
  pub w31: Option<u32>,
  pub w32: Option<String>,
  pub w33: Option<u32>,
  pub w34: Option<String>,
  pub w35: Option<u32>,
  pub w36: Option<String>,
  pub w37: Option<u32>,
  pub w38: Option<String>,
  pub w39: Option<u32>,
}
impl Glue for Wide {
  fn to_val(&self) -> Val { Val::Struct(vec![self.w0.to_val(), self.w1.to_val(), self.w2.to_val(), self.w3.to_val(), self.w4.to_val(), self.w5.to_val(), self.w6.to_val(), self.w7.to_val(), self.w8.to_val(), self.w9.to_val(), self.w10.to_val(), self.w11.to_val(), self.w12.to_val(), self.w13.to_val(), self.w14.to_val(), self.w15.to_val(), self.w16.to_val(), self.w17.to_val(), self.w18.to_val(), self.w19.to_val(), self.w20.to_val(), self.w21.to_val(), self.w22.to_val(), self.w23.to_val(), self.w24.to_val(), self.w25.to_val(), self.w26.to_val(), self.w27.to_val(), self.w28.to_val(), self.w29.to_val(), self.w30.to_val(), self.w31.to_val(), self.w32.to_val(), self.w33.to_val(), self.w34.to_val(), self.w35.to_val(), self.w36.to_val(), self.w37.to_val(), self.w38.to_val(), self.w39.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); Wide { w0: Glue::from_val(&_f[0]), w1: Glue::from_val(&_f[1]), w2: Glue::from_val(&_f[2]), w3: Glue::from_val(&_f[3]), w4: Glue::from_val(&_f[4]), w5: Glue::from_val(&_f[5]), w6: Glue::from_val(&_f[6]), w7: Glue::from_val(&_f[7]), w8: Glue::from_val(&_f[8]), w9: Glue::from_val(&_f[9]), w10: Glue::from_val(&_f[10]), w11: Glue::from_val(&_f[11]), w12: Glue::from_val(&_f[12]), w13: Glue::from_val(&_f[13]), w14: Glue::from_val(&_f[14]), w15: Glue::from_val(&_f[15]), w16: Glue::from_val(&_f[16]), w17: Glue::from_val(&_f[17]), w18: Glue::from_val(&_f[18]), w19: Glue::from_val(&_f[19]), w20: Glue::from_val(&_f[20]), w21: Glue::from_val(&_f[21]), w22: Glue::from_val(&_f[22]), w23: Glue::from_val(&_f[23]), w24: Glue::from_val(&_f[24]), w25: Glue::from_val(&_f[25]), w26: Glue::from_val(&_f[26]), w27: Glue::from_val(&_f[27]), w28: Glue::from_val(&_f[28]), w29: Glue::from_val(&_f[29]), w30: Glue::from_val(&_f[30]), w31: Glue::from_val(&_f[31]), w32: Glue::from_val(&_f[32]), w33: Glue::from_val(&_f[33]), w34: Glue::from_val(&_f[34]), w35: Glue::from_val(&_f[35]), w36: Glue::from_val(&_f[36]), w37: Glue::from_val(&_f[37]), w38: Glue::from_val(&_f[38]), w39: Glue::from_val(&_f[39]) } }
}
fn dflt_VerA_mode() -> i32 { 3i32 }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "Ver")]
pub struct VerA {
  #[yaserde(attribute = true)] pub id: u32,
  pub name: String,
  pub old: Option<String>,
  pub tags: Vec<String>,
  #[yaserde(default = "dflt_VerA_mode")] pub mode: i32,
  pub sub: Option<Inner>,
}
impl Glue for VerA {
  fn to_val(&self) -> Val { Val::Struct(vec![self.id.to_val(), self.name.to_val(), self.old.to_val(), self.tags.to_val(), self.mode.to_val(), self.sub.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); VerA { id: Glue::from_val(&_f[0]), name: Glue::from_val(&_f[1]), old: Glue::from_val(&_f[2]), tags: Glue::from_val(&_f[3]), mode: Glue::from_val(&_f[4]), sub: Glue::from_val(&_f[5]) } }
}
fn dflt_VerB_mode() -> i32 { 3i32 }
fn dflt_VerB_speed() -> f64 { 0.5f64 }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "Ver")]
pub struct VerB {
  #[yaserde(attribute = true)] pub id: u32,
  #[yaserde(attribute = true)] pub rev: Option<u8>,
  pub name: String,
  pub tags: Vec<String>,
  #[yaserde(default = "dflt_VerB_mode")] pub mode: i32,
  pub extra: Option<InnerAttr>,
  pub more: Vec<Inner>,
  #[yaserde(default = "dflt_VerB_speed")] pub speed: f64,
  pub sub: Option<Inner>,
}
impl Glue for VerB {
  fn to_val(&self) -> Val { Val::Struct(vec![self.id.to_val(), self.rev.to_val(), self.name.to_val(), self.tags.to_val(), self.mode.to_val(), self.extra.to_val(), self.more.to_val(), self.speed.to_val(), self.sub.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); VerB { id: Glue::from_val(&_f[0]), rev: Glue::from_val(&_f[1]), name: Glue::from_val(&_f[2]), tags: Glue::from_val(&_f[3]), mode: Glue::from_val(&_f[4]), extra: Glue::from_val(&_f[5]), more: Glue::from_val(&_f[6]), speed: Glue::from_val(&_f[7]), sub: Glue::from_val(&_f[8]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "Ver")]
pub struct VerC {
  #[yaserde(attribute = true)] pub rev: Option<u8>,
  #[yaserde(attribute = true)] pub id: u32,
  pub more: Vec<Inner>,
  pub name: String,
  #[yaserde(flatten = true)] pub flat: FlatVec,
  pub sub: Option<Inner>,
}
impl Glue for VerC {
  fn to_val(&self) -> Val { Val::Struct(vec![self.rev.to_val(), self.id.to_val(), self.more.to_val(), self.name.to_val(), self.flat.to_val(), self.sub.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); VerC { rev: Glue::from_val(&_f[0]), id: Glue::from_val(&_f[1]), more: Glue::from_val(&_f[2]), name: Glue::from_val(&_f[3]), flat: Glue::from_val(&_f[4]), sub: Glue::from_val(&_f[5]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "VerKid")]
pub struct VerKidA {
  pub kid: Vec<VerA>,
  pub n: Option<u8>,
}
impl Glue for VerKidA {
  fn to_val(&self) -> Val { Val::Struct(vec![self.kid.to_val(), self.n.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); VerKidA { kid: Glue::from_val(&_f[0]), n: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "VerKid")]
pub struct VerKidB {
  pub kid: Vec<VerB>,
  pub m: Option<String>,
  pub n: Option<u8>,
}
impl Glue for VerKidB {
  fn to_val(&self) -> Val { Val::Struct(vec![self.kid.to_val(), self.m.to_val(), self.n.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); VerKidB { kid: Glue::from_val(&_f[0]), m: Glue::from_val(&_f[1]), n: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "niveau")]
pub enum IntlLevel {
  #[yaserde(rename = "низкий")] Low,
  #[yaserde(rename = "中")] Mid,
  #[yaserde(rename = "haut-élevé")] High,
}
impl Default for IntlLevel { fn default() -> Self { Glue::from_val(&Val::Enum(1, vec![])) } }
impl Glue for IntlLevel {
  fn to_val(&self) -> Val { match self { IntlLevel::Low => Val::Enum(0, vec![]), IntlLevel::Mid => Val::Enum(1, vec![]), IntlLevel::High => Val::Enum(2, vec![]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => IntlLevel::Low, 1 => IntlLevel::Mid, 2 => IntlLevel::High, _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub enum IntlPay {
  #[yaserde(rename = "文字")] Txt(String),
  #[yaserde(rename = "числo")] Num(i32),
  #[yaserde(rename = "Örtchen")] Kid(Inner),
  #[yaserde(rename = "ø")] Nil,
}
impl Default for IntlPay { fn default() -> Self { Glue::from_val(&Val::Enum(3, vec![])) } }
impl Glue for IntlPay {
  fn to_val(&self) -> Val { match self { IntlPay::Txt(x) => Val::Enum(0, vec![x.to_val()]), IntlPay::Num(x) => Val::Enum(1, vec![x.to_val()]), IntlPay::Kid(x) => Val::Enum(2, vec![x.to_val()]), IntlPay::Nil => Val::Enum(3, vec![]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => IntlPay::Txt(Glue::from_val(&_p[0])), 1 => IntlPay::Num(Glue::from_val(&_p[0])), 2 => IntlPay::Kid(Glue::from_val(&_p[0])), 3 => IntlPay::Nil, _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize)]
pub enum NamedOpts {
  Oa { oa: Option<u32>, ob: Option<String>, oc: Option<Inner>, od: u8 },
  Ob { #[yaserde(rename = "o-e")] oe: Option<Vec<i16>>, of: Option<Vec<InnerAttr>>, og: Option<Color>, oh: Option<Meters>, oi: Option<f32>, #[yaserde(skip_serializing = true)] om: u16, #[yaserde(skip_serializing = true)] on: Option<Inner>, oj: Option<Vec<String>> },
  Oc { ok: Option<bool> },
  Od { ol: Option<NamedLists> },
  Ou,
}
impl Default for NamedOpts { fn default() -> Self { Glue::from_val(&Val::Enum(4, vec![])) } }
impl Glue for NamedOpts {
  fn to_val(&self) -> Val { match self { NamedOpts::Oa { oa, ob, oc, od } => Val::Enum(0, vec![oa.to_val(), ob.to_val(), oc.to_val(), od.to_val()]), NamedOpts::Ob { oe, of, og, oh, oi, om, on, oj } => Val::Enum(1, vec![oe.to_val(), of.to_val(), og.to_val(), oh.to_val(), oi.to_val(), om.to_val(), on.to_val(), oj.to_val()]), NamedOpts::Oc { ok } => Val::Enum(2, vec![ok.to_val()]), NamedOpts::Od { ol } => Val::Enum(3, vec![ol.to_val()]), NamedOpts::Ou => Val::Enum(4, vec![]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => NamedOpts::Oa { oa: Glue::from_val(&_p[0]), ob: Glue::from_val(&_p[1]), oc: Glue::from_val(&_p[2]), od: Glue::from_val(&_p[3]) }, 1 => NamedOpts::Ob { oe: Glue::from_val(&_p[0]), of: Glue::from_val(&_p[1]), og: Glue::from_val(&_p[2]), oh: Glue::from_val(&_p[3]), oi: Glue::from_val(&_p[4]), om: Glue::from_val(&_p[5]), on: Glue::from_val(&_p[6]), oj: Glue::from_val(&_p[7]) }, 2 => NamedOpts::Oc { ok: Glue::from_val(&_p[0]) }, 3 => NamedOpts::Od { ol: Glue::from_val(&_p[0]) }, 4 => NamedOpts::Ou, _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize)]
pub struct NamedOptsHost {
  pub x1: NamedOpts,
  pub x2: Option<NamedOpts>,
  pub x3: Vec<NamedOpts>,
}
impl Glue for NamedOptsHost {
  fn to_val(&self) -> Val { Val::Struct(vec![self.x1.to_val(), self.x2.to_val(), self.x3.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); NamedOptsHost { x1: Glue::from_val(&_f[0]), x2: Glue::from_val(&_f[1]), x3: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize)]
pub enum IntlNamed {
  #[yaserde(rename = "Örtchen")] Rec { #[yaserde(rename = "größe")] a1: Option<u8>, #[yaserde(rename = "GRÖSSE")] b1: String },
  #[yaserde(rename = "ø")] Nil,
}
impl Default for IntlNamed { fn default() -> Self { Glue::from_val(&Val::Enum(1, vec![])) } }
impl Glue for IntlNamed {
  fn to_val(&self) -> Val { match self { IntlNamed::Rec { a1, b1 } => Val::Enum(0, vec![a1.to_val(), b1.to_val()]), IntlNamed::Nil => Val::Enum(1, vec![]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => IntlNamed::Rec { a1: Glue::from_val(&_p[0]), b1: Glue::from_val(&_p[1]) }, 1 => IntlNamed::Nil, _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "страна")]
pub struct Intl {
  #[yaserde(rename = "größe")] pub groesse: u16,
  #[yaserde(rename = "名前")] pub name_: Option<String>,
  #[yaserde(attribute = true, rename = "élan")] pub elan: String,
  #[yaserde(attribute = true, rename = "ėlan")] pub e2: Option<bool>,
  #[yaserde(rename = "Örtchen")] pub ort: Vec<Inner>,
  #[yaserde(rename = "stufe")] pub stufe: IntlLevel,
  #[yaserde(rename = "文")] pub pay: Vec<IntlPay>,
}
impl Glue for Intl {
  fn to_val(&self) -> Val { Val::Struct(vec![self.groesse.to_val(), self.name_.to_val(), self.elan.to_val(), self.e2.to_val(), self.ort.to_val(), self.stufe.to_val(), self.pay.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); Intl { groesse: Glue::from_val(&_f[0]), name_: Glue::from_val(&_f[1]), elan: Glue::from_val(&_f[2]), e2: Glue::from_val(&_f[3]), ort: Glue::from_val(&_f[4]), stufe: Glue::from_val(&_f[5]), pay: Glue::from_val(&_f[6]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "größe", prefix = "p", namespaces = { "p" = "http://example.com/größe" })]
pub struct IntlNs {
  #[yaserde(rename = "名前", prefix = "p")] pub a1: String,
  #[yaserde(attribute = true, rename = "é", prefix = "p")] pub b1: Option<i64>,
  pub c1: Option<Intl>,
}
impl Glue for IntlNs {
  fn to_val(&self) -> Val { Val::Struct(vec![self.a1.to_val(), self.b1.to_val(), self.c1.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); IntlNs { a1: Glue::from_val(&_f[0]), b1: Glue::from_val(&_f[1]), c1: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "cases")]
pub struct Cases {
  #[yaserde(rename = "item")] pub item_a: Option<u8>,
  #[yaserde(rename = "Item")] pub item_b: Option<Inner>,
  #[yaserde(rename = "ITEM")] pub item_c: Vec<InnerAttr>,
  #[yaserde(rename = "item_")] pub item_d: Option<Color>,
  #[yaserde(rename = "_item")] pub item_e: Option<TextAttr>,
  #[yaserde(attribute = true, rename = "id")] pub id_a: Option<u8>,
  #[yaserde(attribute = true, rename = "ID")] pub id_b: Option<Color>,
  #[yaserde(attribute = true, rename = "Id")] pub id_c: Option<Level>,
}
impl Glue for Cases {
  fn to_val(&self) -> Val { Val::Struct(vec![self.item_a.to_val(), self.item_b.to_val(), self.item_c.to_val(), self.item_d.to_val(), self.item_e.to_val(), self.id_a.to_val(), self.id_b.to_val(), self.id_c.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); Cases { item_a: Glue::from_val(&_f[0]), item_b: Glue::from_val(&_f[1]), item_c: Glue::from_val(&_f[2]), item_d: Glue::from_val(&_f[3]), item_e: Glue::from_val(&_f[4]), id_a: Glue::from_val(&_f[5]), id_b: Glue::from_val(&_f[6]), id_c: Glue::from_val(&_f[7]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.kid")]
pub struct LongKid {
  #[yaserde(attribute = true, rename = "a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.v")] pub v1: Option<u8>,
  #[yaserde(attribute = true, rename = "a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.w")] pub v2: Option<u8>,
  #[yaserde(rename = "a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.k")] pub w1: String,
}
impl Glue for LongKid {
  fn to_val(&self) -> Val { Val::Struct(vec![self.v1.to_val(), self.v2.to_val(), self.w1.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); LongKid { v1: Glue::from_val(&_f[0]), v2: Glue::from_val(&_f[1]), w1: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub enum LongPay {
  #[yaserde(rename = "a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.1")] One(String),
  #[yaserde(rename = "a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.2")] Two(u32),
  #[yaserde(rename = "a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.0")] Nil,
}
impl Default for LongPay { fn default() -> Self { Glue::from_val(&Val::Enum(2, vec![])) } }
impl Glue for LongPay {
  fn to_val(&self) -> Val { match self { LongPay::One(x) => Val::Enum(0, vec![x.to_val()]), LongPay::Two(x) => Val::Enum(1, vec![x.to_val()]), LongPay::Nil => Val::Enum(2, vec![]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => LongPay::One(Glue::from_val(&_p[0])), 1 => LongPay::Two(Glue::from_val(&_p[0])), 2 => LongPay::Nil, _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.x")]
pub struct LongNames {
  #[yaserde(rename = "a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.x")] pub f1: u32,
  #[yaserde(rename = "a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.y")] pub f2: Option<String>,
  #[yaserde(rename = "a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.z")] pub f3: Vec<LongKid>,
  #[yaserde(rename = "a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.xx")] pub f4: Vec<u8>,
  #[yaserde(rename = "a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.")] pub f5: Option<LongPay>,
  #[yaserde(attribute = true, rename = "a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.x")] pub f6: Option<bool>,
}
impl Glue for LongNames {
  fn to_val(&self) -> Val { Val::Struct(vec![self.f1.to_val(), self.f2.to_val(), self.f3.to_val(), self.f4.to_val(), self.f5.to_val(), self.f6.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); LongNames { f1: Glue::from_val(&_f[0]), f2: Glue::from_val(&_f[1]), f3: Glue::from_val(&_f[2]), f4: Glue::from_val(&_f[3]), f5: Glue::from_val(&_f[4]), f6: Glue::from_val(&_f[5]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "rv-0")]
pub struct RV0v0 {
  pub beta7: Vec<Inner>,
  pub zone4: Option<i32>,
  pub omega1: Color,
  pub info5: Option<i64>,
  pub size10: Option<Inner>,
  pub beta2: String,
  #[yaserde(attribute = true)] pub delta3: Option<String>,
  pub info6: Option<u8>,
  pub info9: Option<u64>,
}
impl Glue for RV0v0 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.beta7.to_val(), self.zone4.to_val(), self.omega1.to_val(), self.info5.to_val(), self.size10.to_val(), self.beta2.to_val(), self.delta3.to_val(), self.info6.to_val(), self.info9.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); RV0v0 { beta7: Glue::from_val(&_f[0]), zone4: Glue::from_val(&_f[1]), omega1: Glue::from_val(&_f[2]), info5: Glue::from_val(&_f[3]), size10: Glue::from_val(&_f[4]), beta2: Glue::from_val(&_f[5]), delta3: Glue::from_val(&_f[6]), info6: Glue::from_val(&_f[7]), info9: Glue::from_val(&_f[8]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "rv-0")]
pub struct RV0v1 {
  pub info9: Option<u64>,
  #[yaserde(attribute = true)] pub delta3: Option<String>,
  pub omega1: Color,
  pub part8: Option<i16>,
  pub info6: Option<u8>,
  pub beta2: String,
}
impl Glue for RV0v1 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.info9.to_val(), self.delta3.to_val(), self.omega1.to_val(), self.part8.to_val(), self.info6.to_val(), self.beta2.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); RV0v1 { info9: Glue::from_val(&_f[0]), delta3: Glue::from_val(&_f[1]), omega1: Glue::from_val(&_f[2]), part8: Glue::from_val(&_f[3]), info6: Glue::from_val(&_f[4]), beta2: Glue::from_val(&_f[5]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "rv-1")]
pub struct RV1v0 {
  pub kind11: Inner,
  pub gamma13: Vec<Tagged>,
  #[yaserde(attribute = true)] pub slot15: Option<i32>,
  pub gamma14: Vec<f32>,
  pub unit12: Color,
  pub data16: Vec<u16>,
}
impl Glue for RV1v0 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.kind11.to_val(), self.gamma13.to_val(), self.slot15.to_val(), self.gamma14.to_val(), self.unit12.to_val(), self.data16.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); RV1v0 { kind11: Glue::from_val(&_f[0]), gamma13: Glue::from_val(&_f[1]), slot15: Glue::from_val(&_f[2]), gamma14: Glue::from_val(&_f[3]), unit12: Glue::from_val(&_f[4]), data16: Glue::from_val(&_f[5]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "rv-1")]
pub struct RV1v1 {
  pub kind11: Inner,
  pub unit12: Color,
  #[yaserde(attribute = true)] pub slot15: Option<i32>,
  pub gamma13: Vec<Tagged>,
  pub gamma14: Vec<f32>,
}
impl Glue for RV1v1 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.kind11.to_val(), self.unit12.to_val(), self.slot15.to_val(), self.gamma13.to_val(), self.gamma14.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); RV1v1 { kind11: Glue::from_val(&_f[0]), unit12: Glue::from_val(&_f[1]), slot15: Glue::from_val(&_f[2]), gamma13: Glue::from_val(&_f[3]), gamma14: Glue::from_val(&_f[4]) } }
}
fn dflt_RV2v0_unit20() -> i8 { 1i8 }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "rv-2")]
pub struct RV2v0 {
  #[yaserde(attribute = true)] pub area23: Option<i32>,
  #[yaserde(attribute = true)] pub omega21: Option<u16>,
  #[yaserde(default = "dflt_RV2v0_unit20")] pub unit20: i8,
  pub kind22: Option<Color>,
  pub omega19: Option<String>,
  pub meta17: u32,
  pub omega18: String,
}
impl Glue for RV2v0 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.area23.to_val(), self.omega21.to_val(), self.unit20.to_val(), self.kind22.to_val(), self.omega19.to_val(), self.meta17.to_val(), self.omega18.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); RV2v0 { area23: Glue::from_val(&_f[0]), omega21: Glue::from_val(&_f[1]), unit20: Glue::from_val(&_f[2]), kind22: Glue::from_val(&_f[3]), omega19: Glue::from_val(&_f[4]), meta17: Glue::from_val(&_f[5]), omega18: Glue::from_val(&_f[6]) } }
}
fn dflt_RV2v1_unit20() -> i8 { 1i8 }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "rv-2")]
pub struct RV2v1 {
  pub omega19: Option<String>,
  #[yaserde(attribute = true)] pub area23: Option<i32>,
  pub meta17: u32,
  #[yaserde(default = "dflt_RV2v1_unit20")] pub unit20: i8,
  pub kind22: Option<Color>,
  pub omega18: String,
}
impl Glue for RV2v1 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.omega19.to_val(), self.area23.to_val(), self.meta17.to_val(), self.unit20.to_val(), self.kind22.to_val(), self.omega18.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); RV2v1 { omega19: Glue::from_val(&_f[0]), area23: Glue::from_val(&_f[1]), meta17: Glue::from_val(&_f[2]), unit20: Glue::from_val(&_f[3]), kind22: Glue::from_val(&_f[4]), omega18: Glue::from_val(&_f[5]) } }
}
fn dflt_RV2v2_unit20() -> i8 { 1i8 }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "rv-2")]
pub struct RV2v2 {
  #[yaserde(default = "dflt_RV2v2_unit20")] pub unit20: i8,
  pub meta17: u32,
  pub omega18: String,
  pub kind22: Option<Color>,
  #[yaserde(attribute = true)] pub area23: Option<i32>,
  #[yaserde(attribute = true)] pub omega21: Option<u16>,
}
impl Glue for RV2v2 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.unit20.to_val(), self.meta17.to_val(), self.omega18.to_val(), self.kind22.to_val(), self.area23.to_val(), self.omega21.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); RV2v2 { unit20: Glue::from_val(&_f[0]), meta17: Glue::from_val(&_f[1]), omega18: Glue::from_val(&_f[2]), kind22: Glue::from_val(&_f[3]), area23: Glue::from_val(&_f[4]), omega21: Glue::from_val(&_f[5]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "rv-3")]
pub struct RV3v0 {
  pub data29: Vec<Shape>,
  pub gamma28: Vec<NestedOpt>,
  pub area30: Vec<InnerAttr>,
  pub delta24: Inner,
}
impl Glue for RV3v0 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.data29.to_val(), self.gamma28.to_val(), self.area30.to_val(), self.delta24.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); RV3v0 { data29: Glue::from_val(&_f[0]), gamma28: Glue::from_val(&_f[1]), area30: Glue::from_val(&_f[2]), delta24: Glue::from_val(&_f[3]) } }
}
fn dflt_RV3v1_unit25() -> i8 { 27i8 }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "rv-3")]
pub struct RV3v1 {
  #[yaserde(default = "dflt_RV3v1_unit25")] pub unit25: i8,
  pub area27: Vec<Tagged>,
  pub delta24: Inner,
  pub gamma28: Vec<NestedOpt>,
  #[yaserde(attribute = true)] pub zone26: Option<f64>,
}
impl Glue for RV3v1 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.unit25.to_val(), self.area27.to_val(), self.delta24.to_val(), self.gamma28.to_val(), self.zone26.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); RV3v1 { unit25: Glue::from_val(&_f[0]), area27: Glue::from_val(&_f[1]), delta24: Glue::from_val(&_f[2]), gamma28: Glue::from_val(&_f[3]), zone26: Glue::from_val(&_f[4]) } }
}
fn dflt_RV4v0_data33() -> bool { false }
fn dflt_RV4v0_meta36() -> bool { true }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "rv-4")]
pub struct RV4v0 {
  pub part31: Color,
  pub kind32: Option<u32>,
  #[yaserde(default = "dflt_RV4v0_data33")] pub data33: bool,
  pub list34: Option<OneStr>,
  #[yaserde(default = "dflt_RV4v0_meta36")] pub meta36: bool,
}
impl Glue for RV4v0 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.part31.to_val(), self.kind32.to_val(), self.data33.to_val(), self.list34.to_val(), self.meta36.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); RV4v0 { part31: Glue::from_val(&_f[0]), kind32: Glue::from_val(&_f[1]), data33: Glue::from_val(&_f[2]), list34: Glue::from_val(&_f[3]), meta36: Glue::from_val(&_f[4]) } }
}
fn dflt_RV4v1_data33() -> bool { false }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "rv-4")]
pub struct RV4v1 {
  pub kind32: Option<u32>,
  pub list34: Option<OneStr>,
  #[yaserde(default = "dflt_RV4v1_data33")] pub data33: bool,
  pub part31: Color,
}
impl Glue for RV4v1 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.kind32.to_val(), self.list34.to_val(), self.data33.to_val(), self.part31.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); RV4v1 { kind32: Glue::from_val(&_f[0]), list34: Glue::from_val(&_f[1]), data33: Glue::from_val(&_f[2]), part31: Glue::from_val(&_f[3]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct RF0 {
  pub ref44: String,
  pub zone45: i64,
  pub zone46: Vec<u8>,
  pub area47: u8,
  #[yaserde(attribute = true)] pub slot48: Option<u16>,
}
impl Glue for RF0 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.ref44.to_val(), self.zone45.to_val(), self.zone46.to_val(), self.area47.to_val(), self.slot48.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); RF0 { ref44: Glue::from_val(&_f[0]), zone45: Glue::from_val(&_f[1]), zone46: Glue::from_val(&_f[2]), area47: Glue::from_val(&_f[3]), slot48: Glue::from_val(&_f[4]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct R0 {
  pub list37: Vec<u8>,
  #[yaserde(attribute = true)] pub area38: Option<u32>,
  #[yaserde(attribute = true)] pub zone39: OneUnit,
  #[yaserde(rename = "Slot40-x")] pub slot40: Option<Color>,
  pub delta41: GenBoxInner,
  #[yaserde(flatten = true)] pub gamma49: Option<RF0>,
  #[yaserde(rename = "Delta42")] pub delta42: Option<Meters>,
  #[yaserde(attribute = true)] pub delta43: u32,
}
impl Glue for R0 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.list37.to_val(), self.area38.to_val(), self.zone39.to_val(), self.slot40.to_val(), self.delta41.to_val(), self.gamma49.to_val(), self.delta42.to_val(), self.delta43.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R0 { list37: Glue::from_val(&_f[0]), area38: Glue::from_val(&_f[1]), zone39: Glue::from_val(&_f[2]), slot40: Glue::from_val(&_f[3]), delta41: Glue::from_val(&_f[4]), gamma49: Glue::from_val(&_f[5]), delta42: Glue::from_val(&_f[6]), delta43: Glue::from_val(&_f[7]) } }
}
fn dflt_R1_node55() -> f32 { 78.5f32 }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "r-1", prefix = "q", namespaces = { "p" = "http://example.com/p", "q" = "urn:example:q", "r" = "urn:r?x=1-y" })]
pub struct R1 {
  #[yaserde(prefix = "r")] pub omega50: Flag,
  #[yaserde(rename = "Part51-x", prefix = "q")] pub part51: i32,
  #[yaserde(attribute = true, prefix = "p")] pub alpha52: i32,
  #[yaserde(rename = "Delta53")] pub delta53: i16,
  #[yaserde(attribute = true)] pub ref54: Option<f64>,
  #[yaserde(attribute = true, rename = "Node55", prefix = "q", default = "dflt_R1_node55")] pub node55: f32,
  #[yaserde(attribute = true, prefix = "p")] pub area56: Color,
}
impl Glue for R1 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.omega50.to_val(), self.part51.to_val(), self.alpha52.to_val(), self.delta53.to_val(), self.ref54.to_val(), self.node55.to_val(), self.area56.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R1 { omega50: Glue::from_val(&_f[0]), part51: Glue::from_val(&_f[1]), alpha52: Glue::from_val(&_f[2]), delta53: Glue::from_val(&_f[3]), ref54: Glue::from_val(&_f[4]), node55: Glue::from_val(&_f[5]), area56: Glue::from_val(&_f[6]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(prefix = "r", namespaces = { "q" = "urn:example:q", "r" = "urn:r?x=1-y" })]
pub struct R2 {
  #[yaserde(attribute = true, prefix = "q")] pub size57: Option<u16>,
}
impl Glue for R2 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.size57.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R2 { size57: Glue::from_val(&_f[0]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub enum RE3 {
  #[yaserde(rename = "v-3-0")] Vr3x0(Vec<DefScalars>),
  Vr3x1(Vec<FlatTextHost>),
  Vr3x2(Vec<FlatInside>),
  Vr3x3(GenBoxColor),
  Vr3x4(FlatOpt),
}
impl Default for RE3 { fn default() -> Self { Glue::from_val(&Val::Enum(0, vec![Val::Vec(vec![])])) } }
impl Glue for RE3 {
  fn to_val(&self) -> Val { match self { RE3::Vr3x0(x) => Val::Enum(0, vec![x.to_val()]), RE3::Vr3x1(x) => Val::Enum(1, vec![x.to_val()]), RE3::Vr3x2(x) => Val::Enum(2, vec![x.to_val()]), RE3::Vr3x3(x) => Val::Enum(3, vec![x.to_val()]), RE3::Vr3x4(x) => Val::Enum(4, vec![x.to_val()]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => RE3::Vr3x0(Glue::from_val(&_p[0])), 1 => RE3::Vr3x1(Glue::from_val(&_p[0])), 2 => RE3::Vr3x2(Glue::from_val(&_p[0])), 3 => RE3::Vr3x3(Glue::from_val(&_p[0])), 4 => RE3::Vr3x4(Glue::from_val(&_p[0])), _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct R4 {
  #[yaserde(attribute = true)] pub ref58: Option<i64>,
  #[yaserde(text = true)] pub part59: Option<String>,
}
impl Glue for R4 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.ref58.to_val(), self.part59.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R4 { ref58: Glue::from_val(&_f[0]), part59: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(prefix = "p", namespaces = { "p" = "http://example.com/p", "q" = "urn:example:q" })]
pub struct R5 {
  pub kind60: Vec<HexWide>,
  #[yaserde(rename = "Size61-x", prefix = "p")] pub size61: i8,
  #[yaserde(attribute = true, prefix = "q")] pub part62: Option<bool>,
  pub size63: Option<EmptyStruct>,
  pub meta64: Option<IntlLevel>,
  #[yaserde(prefix = "p")] pub omega65: f64,
  #[yaserde(prefix = "p")] pub part66: Option<String>,
  #[yaserde(prefix = "p")] pub alpha67: Option<FlatTagOpt>,
}
impl Glue for R5 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.kind60.to_val(), self.size61.to_val(), self.part62.to_val(), self.size63.to_val(), self.meta64.to_val(), self.omega65.to_val(), self.part66.to_val(), self.alpha67.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R5 { kind60: Glue::from_val(&_f[0]), size61: Glue::from_val(&_f[1]), part62: Glue::from_val(&_f[2]), size63: Glue::from_val(&_f[3]), meta64: Glue::from_val(&_f[4]), omega65: Glue::from_val(&_f[5]), part66: Glue::from_val(&_f[6]), alpha67: Glue::from_val(&_f[7]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "r-6", prefix = "q", namespaces = { "p" = "http://example.com/p", "q" = "urn:example:q", "r" = "urn:r?x=1-y" })]
pub struct R6 {
  #[yaserde(prefix = "r")] pub list68: f32,
  #[yaserde(prefix = "r")] pub size69: Shape,
  #[yaserde(prefix = "r")] pub size70: SkipAttr,
  #[yaserde(prefix = "q")] pub delta71: FlatTag,
  #[yaserde(attribute = true, rename = "Slot72-x", prefix = "r")] pub slot72: i16,
  pub slot73: Option<DisplayMeters>,
  #[yaserde(prefix = "r")] pub gamma74: Vec<TextOnly>,
  #[yaserde(prefix = "p")] pub zone75: Vec<bool>,
  #[yaserde(prefix = "q")] pub unit76: Vec<FlatInner>,
}
impl Glue for R6 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.list68.to_val(), self.size69.to_val(), self.size70.to_val(), self.delta71.to_val(), self.slot72.to_val(), self.slot73.to_val(), self.gamma74.to_val(), self.zone75.to_val(), self.unit76.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R6 { list68: Glue::from_val(&_f[0]), size69: Glue::from_val(&_f[1]), size70: Glue::from_val(&_f[2]), delta71: Glue::from_val(&_f[3]), slot72: Glue::from_val(&_f[4]), slot73: Glue::from_val(&_f[5]), gamma74: Glue::from_val(&_f[6]), zone75: Glue::from_val(&_f[7]), unit76: Glue::from_val(&_f[8]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "r-7")]
pub struct R7 {
  #[yaserde(text = true)] pub ref79: String,
}
impl Glue for R7 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.ref79.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R7 { ref79: Glue::from_val(&_f[0]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub enum RE8 {
  Vr8x0(Option<f32>),
}
impl Default for RE8 { fn default() -> Self { Glue::from_val(&Val::Enum(0, vec![Val::Opt(None)])) } }
impl Glue for RE8 {
  fn to_val(&self) -> Val { match self { RE8::Vr8x0(x) => Val::Enum(0, vec![x.to_val()]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => RE8::Vr8x0(Glue::from_val(&_p[0])), _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct RF9 {
  pub unit84: String,
  pub kind85: Vec<i16>,
  pub ref86: Vec<f64>,
  pub meta87: Option<f32>,
}
impl Glue for RF9 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.unit84.to_val(), self.kind85.to_val(), self.ref86.to_val(), self.meta87.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); RF9 { unit84: Glue::from_val(&_f[0]), kind85: Glue::from_val(&_f[1]), ref86: Glue::from_val(&_f[2]), meta87: Glue::from_val(&_f[3]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct R9 {
  pub kind80: u16,
  pub meta81: Option<HexWide>,
  pub beta82: DisplayMeters,
  #[yaserde(flatten = true)] pub delta88: Option<RF9>,
  #[yaserde(rename = "Omega83.y")] pub omega83: HexKids,
}
impl Glue for R9 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.kind80.to_val(), self.meta81.to_val(), self.beta82.to_val(), self.delta88.to_val(), self.omega83.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R9 { kind80: Glue::from_val(&_f[0]), meta81: Glue::from_val(&_f[1]), beta82: Glue::from_val(&_f[2]), delta88: Glue::from_val(&_f[3]), omega83: Glue::from_val(&_f[4]) } }
}
fn dflt_R10_slot89() -> bool { true }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(prefix = "q", namespaces = { "p" = "http://example.com/p", "q" = "urn:example:q", "r" = "urn:r?x=1-y" })]
pub struct R10 {
  #[yaserde(attribute = true, default = "dflt_R10_slot89")] pub slot89: bool,
  #[yaserde(prefix = "q")] pub list90: DisplayMeters,
  #[yaserde(attribute = true, rename = "Ref91.y", prefix = "p")] pub ref91: Option<u64>,
}
impl Glue for R10 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.slot89.to_val(), self.list90.to_val(), self.ref91.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R10 { slot89: Glue::from_val(&_f[0]), list90: Glue::from_val(&_f[1]), ref91: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct R11 {
  #[yaserde(attribute = true)] pub slot92: Vec<Small>,
  pub zone93: Option<NsPayEnum>,
  pub part94: i64,
  #[yaserde(cdata = true)] pub slot95: String,
  pub size96: Vec<Stamp>,
}
impl Glue for R11 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.slot92.to_val(), self.zone93.to_val(), self.part94.to_val(), self.slot95.to_val(), self.size96.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R11 { slot92: Glue::from_val(&_f[0]), zone93: Glue::from_val(&_f[1]), part94: Glue::from_val(&_f[2]), slot95: Glue::from_val(&_f[3]), size96: Glue::from_val(&_f[4]) } }
}
fn dflt_R12_alpha97() -> i16 { 61i16 }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root.12", prefix = "q", namespaces = { "p" = "http://example.com/p", "q" = "urn:example:q", "r" = "urn:r?x=1-y" })]
pub struct R12 {
  #[yaserde(prefix = "q", default = "dflt_R12_alpha97")] pub alpha97: i16,
  #[yaserde(prefix = "p")] pub size98: u8,
}
impl Glue for R12 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.alpha97.to_val(), self.size98.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R12 { alpha97: Glue::from_val(&_f[0]), size98: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub enum RE13 {
  Vr13x0(f64),
  Vr13x1(Option<FlatDeepAttr1>),
  #[yaserde(rename = "v-13-2")] Vr13x2(Option<f64>),
}
impl Default for RE13 { fn default() -> Self { Glue::from_val(&Val::Enum(0, vec![Val::F64(0.0)])) } }
impl Glue for RE13 {
  fn to_val(&self) -> Val { match self { RE13::Vr13x0(x) => Val::Enum(0, vec![x.to_val()]), RE13::Vr13x1(x) => Val::Enum(1, vec![x.to_val()]), RE13::Vr13x2(x) => Val::Enum(2, vec![x.to_val()]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => RE13::Vr13x0(Glue::from_val(&_p[0])), 1 => RE13::Vr13x1(Glue::from_val(&_p[0])), 2 => RE13::Vr13x2(Glue::from_val(&_p[0])), _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "r-14", namespaces = { "q" = "urn:example:q" })]
pub struct R14 {
  #[yaserde(prefix = "q")] pub part99: i16,
  #[yaserde(attribute = true, rename = "Unit100-x")] pub unit100: Vec<String>,
}
impl Glue for R14 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.part99.to_val(), self.unit100.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R14 { part99: Glue::from_val(&_f[0]), unit100: Glue::from_val(&_f[1]) } }
}
fn dflt_R15_kind101() -> f32 { 43.5f32 }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "r-15")]
pub struct R15 {
  #[yaserde(rename = "Kind101", default = "dflt_R15_kind101")] pub kind101: f32,
  pub ref102: i32,
}
impl Glue for R15 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.kind101.to_val(), self.ref102.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R15 { kind101: Glue::from_val(&_f[0]), ref102: Glue::from_val(&_f[1]) } }
}
fn dflt_R16_meta104() -> String { "def0".to_string() }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(prefix = "r", namespaces = { "p" = "http://example.com/p", "q" = "urn:example:q", "r" = "urn:r?x=1-y" })]
pub struct R16 {
  #[yaserde(prefix = "r")] pub data103: Flat5,
  #[yaserde(rename = "Meta104.y", prefix = "q", default = "dflt_R16_meta104", skip_serializing_if = "skip_meta104")] pub meta104: String,
  pub kind105: HexByte,
  #[yaserde(prefix = "r")] pub kind106: Signed,
  pub gamma107: u8,
  #[yaserde(rename = "Meta108-x", prefix = "r")] pub meta108: PathEnum,
  #[yaserde(prefix = "q")] pub size109: Option<NewScalars>,
}
impl R16 {
  fn skip_meta104(&self, v: &String) -> bool { *v == dflt_R16_meta104() }
}
impl Glue for R16 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.data103.to_val(), self.meta104.to_val(), self.kind105.to_val(), self.kind106.to_val(), self.gamma107.to_val(), self.meta108.to_val(), self.size109.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R16 { data103: Glue::from_val(&_f[0]), meta104: Glue::from_val(&_f[1]), kind105: Glue::from_val(&_f[2]), kind106: Glue::from_val(&_f[3]), gamma107: Glue::from_val(&_f[4]), meta108: Glue::from_val(&_f[5]), size109: Glue::from_val(&_f[6]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(prefix = "p", namespaces = { "p" = "http://example.com/p" })]
pub struct R17 {
  #[yaserde(attribute = true, prefix = "p")] pub beta110: i32,
  #[yaserde(attribute = true)] pub info111: Option<Ratio>,
  #[yaserde(text = true)] pub gamma119: String,
}
impl Glue for R17 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.beta110.to_val(), self.info111.to_val(), self.gamma119.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R17 { beta110: Glue::from_val(&_f[0]), info111: Glue::from_val(&_f[1]), gamma119: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub enum RE18 {
  Vr18x0(FlatAttr),
  #[yaserde(rename = "v-18-1")] Vr18x1(FlatOptAttr2),
  #[yaserde(rename = "v-18-2")] Vr18x2(i32),
  Vr18x3(Option<f32>),
}
impl Default for RE18 { fn default() -> Self { Glue::from_val(&Val::Enum(0, vec![Val::Struct(vec![Val::Bool(false), Val::Opt(None)])])) } }
impl Glue for RE18 {
  fn to_val(&self) -> Val { match self { RE18::Vr18x0(x) => Val::Enum(0, vec![x.to_val()]), RE18::Vr18x1(x) => Val::Enum(1, vec![x.to_val()]), RE18::Vr18x2(x) => Val::Enum(2, vec![x.to_val()]), RE18::Vr18x3(x) => Val::Enum(3, vec![x.to_val()]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => RE18::Vr18x0(Glue::from_val(&_p[0])), 1 => RE18::Vr18x1(Glue::from_val(&_p[0])), 2 => RE18::Vr18x2(Glue::from_val(&_p[0])), 3 => RE18::Vr18x3(Glue::from_val(&_p[0])), _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct R19 {
  #[yaserde(attribute = true)] pub data120: Option<f32>,
  pub list121: Option<DisplayMeters>,
  #[yaserde(attribute = true, rename = "Gamma122")] pub gamma122: Option<Color>,
  #[yaserde(skip_serializing_if = "skip_meta123")] pub meta123: Vec<u64>,
  #[yaserde(attribute = true)] pub node124: Level,
  #[yaserde(attribute = true)] pub list125: HexFlags,
  pub meta126: Option<f64>,
}
impl R19 {
  fn skip_meta123(&self, v: &Vec<u64>) -> bool { v.is_empty() }
}
impl Glue for R19 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.data120.to_val(), self.list121.to_val(), self.gamma122.to_val(), self.meta123.to_val(), self.node124.to_val(), self.list125.to_val(), self.meta126.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R19 { data120: Glue::from_val(&_f[0]), list121: Glue::from_val(&_f[1]), gamma122: Glue::from_val(&_f[2]), meta123: Glue::from_val(&_f[3]), node124: Glue::from_val(&_f[4]), list125: Glue::from_val(&_f[5]), meta126: Glue::from_val(&_f[6]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(prefix = "p", namespaces = { "p" = "http://example.com/p" })]
pub struct R20 {
  #[yaserde(attribute = true)] pub node127: f64,
  #[yaserde(prefix = "p")] pub beta128: GenBoxInner,
  #[yaserde(attribute = true, prefix = "p")] pub info129: Option<f32>,
  #[yaserde(attribute = true, prefix = "p")] pub unit130: Option<i8>,
  #[yaserde(attribute = true, rename = "Info131.y", prefix = "p")] pub info131: Meters,
  #[yaserde(rename = "Beta132")] pub beta132: Option<FlatKind>,
  #[yaserde(rename = "Delta133.y")] pub delta133: Vec<u32>,
  #[yaserde(rename = "Gamma134.y", prefix = "p")] pub gamma134: Vec<RE8>,
}
impl Glue for R20 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.node127.to_val(), self.beta128.to_val(), self.info129.to_val(), self.unit130.to_val(), self.info131.to_val(), self.beta132.to_val(), self.delta133.to_val(), self.gamma134.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R20 { node127: Glue::from_val(&_f[0]), beta128: Glue::from_val(&_f[1]), info129: Glue::from_val(&_f[2]), unit130: Glue::from_val(&_f[3]), info131: Glue::from_val(&_f[4]), beta132: Glue::from_val(&_f[5]), delta133: Glue::from_val(&_f[6]), gamma134: Glue::from_val(&_f[7]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct R21 {
  pub list135: Option<TextSkipIf>,
  pub beta136: Option<i32>,
  #[yaserde(rename = "Meta137-x")] pub meta137: i16,
  pub slot138: DefOptSkip,
  pub area139: Vec<EnumStruct4>,
}
impl Glue for R21 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.list135.to_val(), self.beta136.to_val(), self.meta137.to_val(), self.slot138.to_val(), self.area139.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R21 { list135: Glue::from_val(&_f[0]), beta136: Glue::from_val(&_f[1]), meta137: Glue::from_val(&_f[2]), slot138: Glue::from_val(&_f[3]), area139: Glue::from_val(&_f[4]) } }
}
fn dflt_R22_omega142() -> String { "def9".to_string() }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct R22 {
  #[yaserde(attribute = true, default = "dflt_R22_omega142")] pub omega142: String,
  #[yaserde(attribute = true)] pub ref145: String,
  #[yaserde(text = true)] pub slot146: Option<String>,
}
impl Glue for R22 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.omega142.to_val(), self.ref145.to_val(), self.slot146.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R22 { omega142: Glue::from_val(&_f[0]), ref145: Glue::from_val(&_f[1]), slot146: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub enum RE23 {
  #[yaserde(rename = "v-23-0")] Vr23x0(Meters),
  Vr23x1(u8),
}
impl Default for RE23 { fn default() -> Self { Glue::from_val(&Val::Enum(0, vec![Val::Int(0)])) } }
impl Glue for RE23 {
  fn to_val(&self) -> Val { match self { RE23::Vr23x0(x) => Val::Enum(0, vec![x.to_val()]), RE23::Vr23x1(x) => Val::Enum(1, vec![x.to_val()]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => RE23::Vr23x0(Glue::from_val(&_p[0])), 1 => RE23::Vr23x1(Glue::from_val(&_p[0])), _ => panic!("variant") } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "r-24")]
pub struct R24 {
  #[yaserde(text = true)] pub info148: String,
}
impl Glue for R24 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.info148.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R24 { info148: Glue::from_val(&_f[0]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "r-25")]
pub struct R25 {
  #[yaserde(text = true)] pub ref151: String,
}
impl Glue for R25 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.ref151.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R25 { ref151: Glue::from_val(&_f[0]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct RF26 {
  pub delta161: String,
  pub size162: Vec<u16>,
  #[yaserde(attribute = true)] pub ref163: Option<u16>,
}
impl Glue for RF26 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.delta161.to_val(), self.size162.to_val(), self.ref163.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); RF26 { delta161: Glue::from_val(&_f[0]), size162: Glue::from_val(&_f[1]), ref163: Glue::from_val(&_f[2]) } }
}
fn dflt_R26_node156() -> String { "def2".to_string() }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "r-26")]
pub struct R26 {
  #[yaserde(rename = "Zone152.y")] pub zone152: Option<Signed>,
  pub alpha153: Option<u8>,
  #[yaserde(attribute = true)] pub meta154: Option<u32>,
  #[yaserde(attribute = true)] pub alpha155: Option<Flag>,
  #[yaserde(flatten = true)] pub beta164: RF26,
  #[yaserde(default = "dflt_R26_node156")] pub node156: String,
  pub alpha157: f64,
  pub gamma158: Option<EnumAttrPay>,
  #[yaserde(rename = "Area159")] pub area159: Name,
  pub list160: String,
}
impl Glue for R26 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.zone152.to_val(), self.alpha153.to_val(), self.meta154.to_val(), self.alpha155.to_val(), self.beta164.to_val(), self.node156.to_val(), self.alpha157.to_val(), self.gamma158.to_val(), self.area159.to_val(), self.list160.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R26 { zone152: Glue::from_val(&_f[0]), alpha153: Glue::from_val(&_f[1]), meta154: Glue::from_val(&_f[2]), alpha155: Glue::from_val(&_f[3]), beta164: Glue::from_val(&_f[4]), node156: Glue::from_val(&_f[5]), alpha157: Glue::from_val(&_f[6]), gamma158: Glue::from_val(&_f[7]), area159: Glue::from_val(&_f[8]), list160: Glue::from_val(&_f[9]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct RF27 {
  pub gamma171: String,
  pub area172: Vec<bool>,
  pub data173: bool,
  pub meta174: f64,
}
impl Glue for RF27 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.gamma171.to_val(), self.area172.to_val(), self.data173.to_val(), self.meta174.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); RF27 { gamma171: Glue::from_val(&_f[0]), area172: Glue::from_val(&_f[1]), data173: Glue::from_val(&_f[2]), meta174: Glue::from_val(&_f[3]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "r-27")]
pub struct R27 {
  pub unit165: RE8,
  #[yaserde(attribute = true)] pub alpha166: Option<HexFlags>,
  #[yaserde(flatten = true)] pub list175: RF27,
  #[yaserde(rename = "List167")] pub list167: Vec<Inner>,
  #[yaserde(cdata = true)] pub zone168: String,
  pub node169: Vec<HexByte>,
  pub zone170: Vec<i8>,
}
impl Glue for R27 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.unit165.to_val(), self.alpha166.to_val(), self.list175.to_val(), self.list167.to_val(), self.zone168.to_val(), self.node169.to_val(), self.zone170.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R27 { unit165: Glue::from_val(&_f[0]), alpha166: Glue::from_val(&_f[1]), list175: Glue::from_val(&_f[2]), list167: Glue::from_val(&_f[3]), zone168: Glue::from_val(&_f[4]), node169: Glue::from_val(&_f[5]), zone170: Glue::from_val(&_f[6]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub enum RE28 {
  #[yaserde(rename = "v-28-0")] Vr28x0(NsFlat4),
  #[yaserde(rename = "v-28-1")] Vr28x1(Vec<i8>),
  #[yaserde(rename = "v-28-2")] Vr28x2(FlatKids),
}
impl Default for RE28 { fn default() -> Self { Glue::from_val(&Val::Enum(0, vec![Val::Struct(vec![Val::Int(0), Val::Opt(None), Val::Struct(vec![Val::Int(0)])])])) } }
impl Glue for RE28 {
  fn to_val(&self) -> Val { match self { RE28::Vr28x0(x) => Val::Enum(0, vec![x.to_val()]), RE28::Vr28x1(x) => Val::Enum(1, vec![x.to_val()]), RE28::Vr28x2(x) => Val::Enum(2, vec![x.to_val()]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => RE28::Vr28x0(Glue::from_val(&_p[0])), 1 => RE28::Vr28x1(Glue::from_val(&_p[0])), 2 => RE28::Vr28x2(Glue::from_val(&_p[0])), _ => panic!("variant") } }
}
fn dflt_R29_part178() -> f64 { 78.5f64 }
fn dflt_R29_list179() -> f64 { 50.5f64 }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct R29 {
  pub slot176: Option<FlatOptAttr2>,
  pub ref177: Vec<TextKids>,
  #[yaserde(attribute = true, rename = "Part178-x", default = "dflt_R29_part178")] pub part178: f64,
  #[yaserde(rename = "List179-x", default = "dflt_R29_list179", skip_serializing_if = "skip_list179")] pub list179: f64,
  #[yaserde(attribute = true)] pub size180: Vec<Meters>,
  #[yaserde(attribute = true)] pub part181: Option<String>,
}
impl R29 {
  fn skip_list179(&self, v: &f64) -> bool { *v == dflt_R29_list179() }
}
impl Glue for R29 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.slot176.to_val(), self.ref177.to_val(), self.part178.to_val(), self.list179.to_val(), self.size180.to_val(), self.part181.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R29 { slot176: Glue::from_val(&_f[0]), ref177: Glue::from_val(&_f[1]), part178: Glue::from_val(&_f[2]), list179: Glue::from_val(&_f[3]), size180: Glue::from_val(&_f[4]), part181: Glue::from_val(&_f[5]) } }
}
fn dflt_R30_delta183() -> i32 { 33i32 }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct R30 {
  pub info182: Option<RE18>,
  #[yaserde(attribute = true, default = "dflt_R30_delta183")] pub delta183: i32,
  pub alpha184: Option<SelfName>,
  pub kind185: FlatKind,
  pub delta186: Option<i64>,
  #[yaserde(attribute = true)] pub zone187: Option<HexWide>,
  pub alpha188: Vec<MacroTypes>,
}
impl Glue for R30 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.info182.to_val(), self.delta183.to_val(), self.alpha184.to_val(), self.kind185.to_val(), self.delta186.to_val(), self.zone187.to_val(), self.alpha188.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R30 { info182: Glue::from_val(&_f[0]), delta183: Glue::from_val(&_f[1]), alpha184: Glue::from_val(&_f[2]), kind185: Glue::from_val(&_f[3]), delta186: Glue::from_val(&_f[4]), zone187: Glue::from_val(&_f[5]), alpha188: Glue::from_val(&_f[6]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct RF31 {
  pub meta192: String,
  pub list193: Option<i8>,
  pub gamma194: Option<f32>,
  pub unit195: Option<f32>,
  #[yaserde(attribute = true)] pub info196: Option<u16>,
}
impl Glue for RF31 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.meta192.to_val(), self.list193.to_val(), self.gamma194.to_val(), self.unit195.to_val(), self.info196.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); RF31 { meta192: Glue::from_val(&_f[0]), list193: Glue::from_val(&_f[1]), gamma194: Glue::from_val(&_f[2]), unit195: Glue::from_val(&_f[3]), info196: Glue::from_val(&_f[4]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct R31 {
  pub delta189: Paths,
  #[yaserde(attribute = true)] pub meta190: Option<i32>,
  pub ref191: i16,
  #[yaserde(flatten = true)] pub size197: RF31,
}
impl Glue for R31 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.delta189.to_val(), self.meta190.to_val(), self.ref191.to_val(), self.size197.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R31 { delta189: Glue::from_val(&_f[0]), meta190: Glue::from_val(&_f[1]), ref191: Glue::from_val(&_f[2]), size197: Glue::from_val(&_f[3]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct RF32 {
  pub gamma206: String,
  pub delta207: i64,
  pub ref208: Option<i32>,
  pub omega209: u32,
  #[yaserde(attribute = true)] pub omega210: Option<u16>,
}
impl Glue for RF32 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.gamma206.to_val(), self.delta207.to_val(), self.ref208.to_val(), self.omega209.to_val(), self.omega210.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); RF32 { gamma206: Glue::from_val(&_f[0]), delta207: Glue::from_val(&_f[1]), ref208: Glue::from_val(&_f[2]), omega209: Glue::from_val(&_f[3]), omega210: Glue::from_val(&_f[4]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "root.32")]
pub struct R32 {
  pub ref198: FlatDefault,
  pub unit199: Vec<f64>,
  #[yaserde(attribute = true)] pub unit200: Option<i8>,
  #[yaserde(skip_serializing_if = "skip_beta201")] pub beta201: Vec<u64>,
  pub alpha202: FlatAttr,
  #[yaserde(rename = "Ref203-x")] pub ref203: Option<HexKids>,
  pub data204: Shape,
  #[yaserde(flatten = true)] pub part211: RF32,
  #[yaserde(rename = "Node205.y")] pub node205: Vec<Inner>,
}
impl R32 {
  fn skip_beta201(&self, v: &Vec<u64>) -> bool { v.is_empty() }
}
impl Glue for R32 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.ref198.to_val(), self.unit199.to_val(), self.unit200.to_val(), self.beta201.to_val(), self.alpha202.to_val(), self.ref203.to_val(), self.data204.to_val(), self.part211.to_val(), self.node205.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R32 { ref198: Glue::from_val(&_f[0]), unit199: Glue::from_val(&_f[1]), unit200: Glue::from_val(&_f[2]), beta201: Glue::from_val(&_f[3]), alpha202: Glue::from_val(&_f[4]), ref203: Glue::from_val(&_f[5]), data204: Glue::from_val(&_f[6]), part211: Glue::from_val(&_f[7]), node205: Glue::from_val(&_f[8]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub enum RE33 {
  Vr33x0(GenBoxTextAttr),
  Vr33x1(Vec<TextOptDefault>),
}
impl Default for RE33 { fn default() -> Self { Glue::from_val(&Val::Enum(0, vec![Val::Struct(vec![Val::Int(0), Val::Struct(vec![Val::Str(String::new()), Val::Opt(None), Val::Str(String::new())]), Val::Opt(None), Val::Vec(vec![]), Val::Opt(None)])])) } }
impl Glue for RE33 {
  fn to_val(&self) -> Val { match self { RE33::Vr33x0(x) => Val::Enum(0, vec![x.to_val()]), RE33::Vr33x1(x) => Val::Enum(1, vec![x.to_val()]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => RE33::Vr33x0(Glue::from_val(&_p[0])), 1 => RE33::Vr33x1(Glue::from_val(&_p[0])), _ => panic!("variant") } }
}
fn dflt_R34_gamma212() -> u16 { 13u16 }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct R34 {
  #[yaserde(default = "dflt_R34_gamma212")] pub gamma212: u16,
  pub omega213: f64,
  #[yaserde(attribute = true)] pub data214: Signed,
  pub area215: Vec<i16>,
  pub ref216: Option<Small>,
  #[yaserde(attribute = true)] pub delta217: Option<i8>,
}
impl Glue for R34 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.gamma212.to_val(), self.omega213.to_val(), self.data214.to_val(), self.area215.to_val(), self.ref216.to_val(), self.delta217.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R34 { gamma212: Glue::from_val(&_f[0]), omega213: Glue::from_val(&_f[1]), data214: Glue::from_val(&_f[2]), area215: Glue::from_val(&_f[3]), ref216: Glue::from_val(&_f[4]), delta217: Glue::from_val(&_f[5]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct RF35 {
  pub delta225: String,
  pub meta226: u32,
  pub alpha227: f32,
  pub omega228: u32,
  #[yaserde(attribute = true)] pub unit229: Option<u16>,
}
impl Glue for RF35 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.delta225.to_val(), self.meta226.to_val(), self.alpha227.to_val(), self.omega228.to_val(), self.unit229.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); RF35 { delta225: Glue::from_val(&_f[0]), meta226: Glue::from_val(&_f[1]), alpha227: Glue::from_val(&_f[2]), omega228: Glue::from_val(&_f[3]), unit229: Glue::from_val(&_f[4]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct R35 {
  #[yaserde(rename = "Area218")] pub area218: Vec<Sub>,
  pub list219: IntlLevel,
  pub area220: AttrKinds,
  #[yaserde(flatten = true)] pub omega230: RF35,
  pub slot221: GenBoxColor,
  #[yaserde(attribute = true)] pub beta222: u16,
  #[yaserde(rename = "Ref223")] pub ref223: NewKinds,
  pub info224: DefScalars,
}
impl Glue for R35 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.area218.to_val(), self.list219.to_val(), self.area220.to_val(), self.omega230.to_val(), self.slot221.to_val(), self.beta222.to_val(), self.ref223.to_val(), self.info224.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R35 { area218: Glue::from_val(&_f[0]), list219: Glue::from_val(&_f[1]), area220: Glue::from_val(&_f[2]), omega230: Glue::from_val(&_f[3]), slot221: Glue::from_val(&_f[4]), beta222: Glue::from_val(&_f[5]), ref223: Glue::from_val(&_f[6]), info224: Glue::from_val(&_f[7]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "r-36", prefix = "p", namespaces = { "p" = "http://example.com/p", "q" = "urn:example:q", "r" = "urn:r?x=1-y" })]
pub struct R36 {
  #[yaserde(attribute = true, rename = "Omega231.y")] pub omega231: u32,
  pub omega232: Vec<CData>,
  #[yaserde(prefix = "p")] pub slot233: FlatInside,
  #[yaserde(attribute = true)] pub gamma234: u32,
  pub unit235: AttrKinds,
  #[yaserde(attribute = true, prefix = "p")] pub info236: Option<Signed>,
  pub kind237: RE28,
}
impl Glue for R36 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.omega231.to_val(), self.omega232.to_val(), self.slot233.to_val(), self.gamma234.to_val(), self.unit235.to_val(), self.info236.to_val(), self.kind237.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R36 { omega231: Glue::from_val(&_f[0]), omega232: Glue::from_val(&_f[1]), slot233: Glue::from_val(&_f[2]), gamma234: Glue::from_val(&_f[3]), unit235: Glue::from_val(&_f[4]), info236: Glue::from_val(&_f[5]), kind237: Glue::from_val(&_f[6]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct R37 {
  pub meta238: Flat4,
  #[yaserde(attribute = true)] pub alpha239: u64,
  pub size240: Option<RE3>,
  pub area241: Vec<R22>,
  pub area242: Option<NsFlat3>,
  #[yaserde(attribute = true)] pub part243: Option<u32>,
  pub alpha244: NsPayEnum,
}
impl Glue for R37 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.meta238.to_val(), self.alpha239.to_val(), self.size240.to_val(), self.area241.to_val(), self.area242.to_val(), self.part243.to_val(), self.alpha244.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R37 { meta238: Glue::from_val(&_f[0]), alpha239: Glue::from_val(&_f[1]), size240: Glue::from_val(&_f[2]), area241: Glue::from_val(&_f[3]), area242: Glue::from_val(&_f[4]), part243: Glue::from_val(&_f[5]), alpha244: Glue::from_val(&_f[6]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub enum RE38 {
  Vr38x0(Option<i64>),
  Vr38x1(EnumStruct3),
}
impl Default for RE38 { fn default() -> Self { Glue::from_val(&Val::Enum(0, vec![Val::Opt(None)])) } }
impl Glue for RE38 {
  fn to_val(&self) -> Val { match self { RE38::Vr38x0(x) => Val::Enum(0, vec![x.to_val()]), RE38::Vr38x1(x) => Val::Enum(1, vec![x.to_val()]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => RE38::Vr38x0(Glue::from_val(&_p[0])), 1 => RE38::Vr38x1(Glue::from_val(&_p[0])), _ => panic!("variant") } }
}
fn dflt_R39_alpha246() -> bool { false }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(prefix = "r", namespaces = { "p" = "http://example.com/p", "q" = "urn:example:q", "r" = "urn:r?x=1-y" })]
pub struct R39 {
  #[yaserde(prefix = "q")] pub omega245: Vec<u32>,
  #[yaserde(attribute = true, default = "dflt_R39_alpha246")] pub alpha246: bool,
  #[yaserde(attribute = true)] pub ref247: Level,
  pub meta248: String,
}
impl Glue for R39 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.omega245.to_val(), self.alpha246.to_val(), self.ref247.to_val(), self.meta248.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R39 { omega245: Glue::from_val(&_f[0]), alpha246: Glue::from_val(&_f[1]), ref247: Glue::from_val(&_f[2]), meta248: Glue::from_val(&_f[3]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct RF40 {
  pub alpha256: String,
  pub list257: Option<String>,
  pub part258: Vec<bool>,
  pub omega259: u32,
  #[yaserde(attribute = true)] pub alpha260: Option<u16>,
}
impl Glue for RF40 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.alpha256.to_val(), self.list257.to_val(), self.part258.to_val(), self.omega259.to_val(), self.alpha260.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); RF40 { alpha256: Glue::from_val(&_f[0]), list257: Glue::from_val(&_f[1]), part258: Glue::from_val(&_f[2]), omega259: Glue::from_val(&_f[3]), alpha260: Glue::from_val(&_f[4]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "r-40")]
pub struct R40 {
  pub gamma249: Option<u64>,
  #[yaserde(flatten = true)] pub slot261: RF40,
  pub meta250: Vec<i8>,
  pub beta251: Small,
  pub alpha252: Vec<Level>,
  pub unit253: Vec<i8>,
  pub size254: Wide,
  #[yaserde(skip_serializing_if = "skip_data255")] pub data255: Vec<bool>,
}
impl R40 {
  fn skip_data255(&self, v: &Vec<bool>) -> bool { v.is_empty() }
}
impl Glue for R40 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.gamma249.to_val(), self.slot261.to_val(), self.meta250.to_val(), self.beta251.to_val(), self.alpha252.to_val(), self.unit253.to_val(), self.size254.to_val(), self.data255.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R40 { gamma249: Glue::from_val(&_f[0]), slot261: Glue::from_val(&_f[1]), meta250: Glue::from_val(&_f[2]), beta251: Glue::from_val(&_f[3]), alpha252: Glue::from_val(&_f[4]), unit253: Glue::from_val(&_f[5]), size254: Glue::from_val(&_f[6]), data255: Glue::from_val(&_f[7]) } }
}
fn dflt_R41_data262() -> u8 { 57u8 }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct R41 {
  #[yaserde(default = "dflt_R41_data262")] pub data262: u8,
  pub info263: Vec<String>,
  #[yaserde(attribute = true)] pub ref264: Option<bool>,
  pub list265: DefAttrStructs,
  pub list266: Vec<DisplayMeters>,
  #[yaserde(rename = "Part267.y")] pub part267: i16,
}
impl Glue for R41 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.data262.to_val(), self.info263.to_val(), self.ref264.to_val(), self.list265.to_val(), self.list266.to_val(), self.part267.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R41 { data262: Glue::from_val(&_f[0]), info263: Glue::from_val(&_f[1]), ref264: Glue::from_val(&_f[2]), list265: Glue::from_val(&_f[3]), list266: Glue::from_val(&_f[4]), part267: Glue::from_val(&_f[5]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct RF42 {
  pub node269: String,
  pub node270: Option<i64>,
  #[yaserde(attribute = true)] pub gamma271: Option<u16>,
}
impl Glue for RF42 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.node269.to_val(), self.node270.to_val(), self.gamma271.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); RF42 { node269: Glue::from_val(&_f[0]), node270: Glue::from_val(&_f[1]), gamma271: Glue::from_val(&_f[2]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
#[yaserde(rename = "r-42")]
pub struct R42 {
  #[yaserde(flatten = true)] pub unit272: RF42,
  pub zone268: Vec<String>,
}
impl Glue for R42 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.unit272.to_val(), self.zone268.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R42 { unit272: Glue::from_val(&_f[0]), zone268: Glue::from_val(&_f[1]) } }
}
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub enum RE43 {
  Vr43x0(u64),
  #[yaserde(rename = "v-43-1")] Vr43x1(f64),
}
impl Default for RE43 { fn default() -> Self { Glue::from_val(&Val::Enum(0, vec![Val::Int(0)])) } }
impl Glue for RE43 {
  fn to_val(&self) -> Val { match self { RE43::Vr43x0(x) => Val::Enum(0, vec![x.to_val()]), RE43::Vr43x1(x) => Val::Enum(1, vec![x.to_val()]) } }
  fn from_val(v: &Val) -> Self { let (i, _p) = v.en(); match i { 0 => RE43::Vr43x0(Glue::from_val(&_p[0])), 1 => RE43::Vr43x1(Glue::from_val(&_p[0])), _ => panic!("variant") } }
}
fn dflt_R44_unit278() -> String { "def1".to_string() }
#[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)]
pub struct R44 {
  #[yaserde(attribute = true)] pub beta273: Option<f32>,
  #[yaserde(attribute = true, rename = "Alpha274-x")] pub alpha274: Stamp,
  pub beta275: u16,
  pub zone276: Option<u16>,
  pub meta277: Vec<SkipIf>,
  #[yaserde(attribute = true, rename = "Unit278-x", default = "dflt_R44_unit278")] pub unit278: String,
  #[yaserde(rename = "Ref279.y")] pub ref279: OneInt,
  pub list280: u64,
  #[yaserde(attribute = true)] pub delta281: String,
}
impl Glue for R44 {
  fn to_val(&self) -> Val { Val::Struct(vec![self.beta273.to_val(), self.alpha274.to_val(), self.beta275.to_val(), self.zone276.to_val(), self.meta277.to_val(), self.unit278.to_val(), self.ref279.to_val(), self.list280.to_val(), self.delta281.to_val()]) }
  fn from_val(v: &Val) -> Self { let _f = v.fields(); R44 { beta273: Glue::from_val(&_f[0]), alpha274: Glue::from_val(&_f[1]), beta275: Glue::from_val(&_f[2]), zone276: Glue::from_val(&_f[3]), meta277: Glue::from_val(&_f[4]), unit278: Glue::from_val(&_f[5]), ref279: Glue::from_val(&_f[6]), list280: Glue::from_val(&_f[7]), delta281: Glue::from_val(&_f[8]) } }
}
pub fn schema() -> Vec<TypeDef> {
  let mut v = Vec::new();
  v.push(TypeDef { name: "Scalars", root: "Scalars", root_ns: "", kind: Kind::Struct(vec![fd("s_string", "", sc(Sc::Str), Role::Elem), fd("s_bool", "", sc(Sc::Bool), Role::Elem), fd("s_i8", "", sc(Sc::I8), Role::Elem), fd("s_u8", "", sc(Sc::U8), Role::Elem), fd("s_i16", "", sc(Sc::I16), Role::Elem), fd("s_u16", "", sc(Sc::U16), Role::Elem), fd("s_i32", "", sc(Sc::I32), Role::Elem), fd("s_u32", "", sc(Sc::U32), Role::Elem), fd("s_i64", "", sc(Sc::I64), Role::Elem), fd("s_u64", "", sc(Sc::U64), Role::Elem), fd("s_f32", "", sc(Sc::F32), Role::Elem), fd("s_f64", "", sc(Sc::F64), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "OptScalars", root: "OptScalars", root_ns: "", kind: Kind::Struct(vec![fd("o_string", "", opt(sc(Sc::Str)), Role::Elem), fd("o_bool", "", opt(sc(Sc::Bool)), Role::Elem), fd("o_i8", "", opt(sc(Sc::I8)), Role::Elem), fd("o_u8", "", opt(sc(Sc::U8)), Role::Elem), fd("o_i16", "", opt(sc(Sc::I16)), Role::Elem), fd("o_u16", "", opt(sc(Sc::U16)), Role::Elem), fd("o_i32", "", opt(sc(Sc::I32)), Role::Elem), fd("o_u32", "", opt(sc(Sc::U32)), Role::Elem), fd("o_i64", "", opt(sc(Sc::I64)), Role::Elem), fd("o_u64", "", opt(sc(Sc::U64)), Role::Elem), fd("o_f32", "", opt(sc(Sc::F32)), Role::Elem), fd("o_f64", "", opt(sc(Sc::F64)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "VecScalars", root: "VecScalars", root_ns: "", kind: Kind::Struct(vec![fd("v_string", "", vec_(sc(Sc::Str)), Role::Elem), fd("v_bool", "", vec_(sc(Sc::Bool)), Role::Elem), fd("v_i8", "", vec_(sc(Sc::I8)), Role::Elem), fd("v_u8", "", vec_(sc(Sc::U8)), Role::Elem), fd("v_i16", "", vec_(sc(Sc::I16)), Role::Elem), fd("v_u16", "", vec_(sc(Sc::U16)), Role::Elem), fd("v_i32", "", vec_(sc(Sc::I32)), Role::Elem), fd("v_u32", "", vec_(sc(Sc::U32)), Role::Elem), fd("v_i64", "", vec_(sc(Sc::I64)), Role::Elem), fd("v_u64", "", vec_(sc(Sc::U64)), Role::Elem), fd("v_f32", "", vec_(sc(Sc::F32)), Role::Elem), fd("v_f64", "", vec_(sc(Sc::F64)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "AttrScalars", root: "AttrScalars", root_ns: "", kind: Kind::Struct(vec![fd("a_string", "", sc(Sc::Str), Role::Attr), fd("a_bool", "", sc(Sc::Bool), Role::Attr), fd("a_i8", "", sc(Sc::I8), Role::Attr), fd("a_u8", "", sc(Sc::U8), Role::Attr), fd("a_i16", "", sc(Sc::I16), Role::Attr), fd("a_u16", "", sc(Sc::U16), Role::Attr), fd("a_i32", "", sc(Sc::I32), Role::Attr), fd("a_u32", "", sc(Sc::U32), Role::Attr), fd("a_i64", "", sc(Sc::I64), Role::Attr), fd("a_u64", "", sc(Sc::U64), Role::Attr), fd("a_f32", "", sc(Sc::F32), Role::Attr), fd("a_f64", "", sc(Sc::F64), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "AttrOptScalars", root: "AttrOptScalars", root_ns: "", kind: Kind::Struct(vec![fd("b_string", "", opt(sc(Sc::Str)), Role::Attr), fd("b_bool", "", opt(sc(Sc::Bool)), Role::Attr), fd("b_i8", "", opt(sc(Sc::I8)), Role::Attr), fd("b_u8", "", opt(sc(Sc::U8)), Role::Attr), fd("b_i16", "", opt(sc(Sc::I16)), Role::Attr), fd("b_u16", "", opt(sc(Sc::U16)), Role::Attr), fd("b_i32", "", opt(sc(Sc::I32)), Role::Attr), fd("b_u32", "", opt(sc(Sc::U32)), Role::Attr), fd("b_i64", "", opt(sc(Sc::I64)), Role::Attr), fd("b_u64", "", opt(sc(Sc::U64)), Role::Attr), fd("b_f32", "", opt(sc(Sc::F32)), Role::Attr), fd("b_f64", "", opt(sc(Sc::F64)), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "AttrVecs", root: "AttrVecs", root_ns: "", kind: Kind::Struct(vec![fd("id", "", sc(Sc::U32), Role::Attr), fd("l_string", "", vec_(sc(Sc::Str)), Role::Attr), fd("l_bool", "", vec_(sc(Sc::Bool)), Role::Attr), fd("l_i8", "", vec_(sc(Sc::I8)), Role::Attr), fd("l_u8", "", vec_(sc(Sc::U8)), Role::Attr), fd("l_i16", "", vec_(sc(Sc::I16)), Role::Attr), fd("l_u16", "", vec_(sc(Sc::U16)), Role::Attr), fd("l_i32", "", vec_(sc(Sc::I32)), Role::Attr), fd("l_u32", "", vec_(sc(Sc::U32)), Role::Attr), fd("l_i64", "", vec_(sc(Sc::I64)), Role::Attr), fd("l_u64", "", vec_(sc(Sc::U64)), Role::Attr), fd("l_f32", "", vec_(sc(Sc::F32)), Role::Attr), fd("l_f64", "", vec_(sc(Sc::F64)), Role::Attr), fd("body", "", opt(sc(Sc::Str)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "OneStr", root: "OneStr", root_ns: "", kind: Kind::Struct(vec![fd("item", "", sc(Sc::Str), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "OneInt", root: "OneInt", root_ns: "", kind: Kind::Struct(vec![fd("count", "", sc(Sc::I32), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "OneVec", root: "OneVec", root_ns: "", kind: Kind::Struct(vec![fd("line", "", vec_(sc(Sc::Str)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "OneVecU8", root: "bytes", root_ns: "", kind: Kind::Struct(vec![fd("byte", "", vec_(sc(Sc::U8)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "EmptyStruct", root: "EmptyStruct", root_ns: "", kind: Kind::Struct(vec![]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Renamed", root: "root-elem", root_ns: "", kind: Kind::Struct(vec![fd("first-name", "", sc(Sc::Str), Role::Elem), fd("maj.min.bug", "", sc(Sc::U16), Role::Elem), fd("type", "", opt(sc(Sc::Str)), Role::Elem), fd("the-attr", "", sc(Sc::Str), Role::Attr), fd("x.y", "", opt(sc(Sc::Bool)), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Raw", root: "raw", root_ns: "", kind: Kind::Struct(vec![fd("type", "", sc(Sc::Str), Role::Elem), fd("mod", "", opt(sc(Sc::I32)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "DefScalars", root: "DefScalars", root_ns: "", kind: Kind::Struct(vec![fd("d_string", "", sc(Sc::Str), Role::Elem).default(Val::Str("dflt".to_string())), fd("d_bool", "", sc(Sc::Bool), Role::Elem).default(Val::Bool(true)), fd("d_i8", "", sc(Sc::I8), Role::Elem).default(Val::Int(-7)), fd("d_u8", "", sc(Sc::U8), Role::Elem).default(Val::Int(200)), fd("d_i16", "", sc(Sc::I16), Role::Elem).default(Val::Int(-300)), fd("d_u16", "", sc(Sc::U16), Role::Elem).default(Val::Int(40000)), fd("d_i32", "", sc(Sc::I32), Role::Elem).default(Val::Int(-70000)), fd("d_u32", "", sc(Sc::U32), Role::Elem).default(Val::Int(3000000000)), fd("d_i64", "", sc(Sc::I64), Role::Elem).default(Val::Int(-5000000000)), fd("d_u64", "", sc(Sc::U64), Role::Elem).default(Val::Int(10000000000000000000)), fd("d_f32", "", sc(Sc::F32), Role::Elem).default(Val::F32(1.25)), fd("d_f64", "", sc(Sc::F64), Role::Elem).default(Val::F64(-2.5))]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "DefAttrs", root: "DefAttrs", root_ns: "", kind: Kind::Struct(vec![fd("e_string", "", sc(Sc::Str), Role::Attr).default(Val::Str("dflt".to_string())), fd("e_bool", "", sc(Sc::Bool), Role::Attr).default(Val::Bool(true)), fd("e_i8", "", sc(Sc::I8), Role::Attr).default(Val::Int(-7)), fd("e_u8", "", sc(Sc::U8), Role::Attr).default(Val::Int(200)), fd("e_i16", "", sc(Sc::I16), Role::Attr).default(Val::Int(-300)), fd("e_u16", "", sc(Sc::U16), Role::Attr).default(Val::Int(40000)), fd("e_i32", "", sc(Sc::I32), Role::Attr).default(Val::Int(-70000)), fd("e_u32", "", sc(Sc::U32), Role::Attr).default(Val::Int(3000000000)), fd("e_i64", "", sc(Sc::I64), Role::Attr).default(Val::Int(-5000000000)), fd("e_u64", "", sc(Sc::U64), Role::Attr).default(Val::Int(10000000000000000000)), fd("e_f32", "", sc(Sc::F32), Role::Attr).default(Val::F32(1.25)), fd("e_f64", "", sc(Sc::F64), Role::Attr).default(Val::F64(-2.5))]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "SkipIf", root: "SkipIf", root_ns: "", kind: Kind::Struct(vec![fd("n", "", opt(sc(Sc::Str)), Role::Elem).skip_if(val_empty), fd("w", "", vec_(sc(Sc::U32)), Role::Elem).skip_if(val_empty), fd("z", "", sc(Sc::I32), Role::Elem).default(Val::Int(0)).skip_if(|v| *v == Val::Int(0)), fd("s", "", sc(Sc::Str), Role::Elem).default(Val::Str("none".to_string())).skip_if(|v| *v == Val::Str("none".to_string())), fd("q", "", opt(sc(Sc::U8)), Role::Attr).skip_if(val_empty), fd("keep", "", sc(Sc::Bool), Role::Elem), fd("at", "", sc(Sc::Str), Role::Attr).default(Val::Str("dd".to_string())).skip_if(|v| *v == Val::Str("dd".to_string()))]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Skip", root: "Skip", root_ns: "", kind: Kind::Struct(vec![fd("visible", "", sc(Sc::Str), Role::Elem), fd("hid", "", opt(sc(Sc::Str)), Role::Elem).skip(), fd("hidv", "", vec_(sc(Sc::U8)), Role::Elem).skip(), fd("hidd", "", sc(Sc::U32), Role::Elem).default(Val::Int(9)).skip(), fd("after", "", opt(sc(Sc::I64)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "SkipAttr", root: "SkipAttr", root_ns: "", kind: Kind::Struct(vec![fd("shown", "", sc(Sc::Str), Role::Attr), fd("hida", "", opt(sc(Sc::Str)), Role::Attr).skip(), fd("hidb", "", sc(Sc::U32), Role::Attr).default(Val::Int(5)).skip(), fd("tail", "", sc(Sc::Str), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "TextOnly", root: "TextOnly", root_ns: "", kind: Kind::Struct(vec![fd("value", "", sc(Sc::Str), Role::Text)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "TextAttr", root: "TextAttr", root_ns: "", kind: Kind::Struct(vec![fd("lang", "", sc(Sc::Str), Role::Attr), fd("n", "", opt(sc(Sc::U32)), Role::Attr), fd("value", "", sc(Sc::Str), Role::Text)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "TextOpt", root: "TextOpt", root_ns: "", kind: Kind::Struct(vec![fd("k", "", opt(sc(Sc::Str)), Role::Attr), fd("value", "", opt(sc(Sc::Str)), Role::Text)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "CData", root: "CData", root_ns: "", kind: Kind::Struct(vec![fd("plain", "", sc(Sc::Str), Role::Elem), fd("data", "", sc(Sc::Str), Role::Elem).cdata(), fd("tail", "", opt(sc(Sc::Str)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "CDataMany", root: "CDataMany", root_ns: "", kind: Kind::Struct(vec![fd("d1", "", sc(Sc::Str), Role::Elem).cdata(), fd("second", "", sc(Sc::Str), Role::Elem).cdata(), fd("num", "", sc(Sc::U8), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Color", root: "Color", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "Red", ns: "", payload: Payload::Unit, flatten: false }, VariantDef { label: "Green", ns: "", payload: Payload::Unit, flatten: false }, VariantDef { label: "Blue", ns: "", payload: Payload::Unit, flatten: false }], tag: None, default: Val::Enum(0, vec![]) }, flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Level", root: "lvl", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "low", ns: "", payload: Payload::Unit, flatten: false }, VariantDef { label: "mid-range", ns: "", payload: Payload::Unit, flatten: false }, VariantDef { label: "HIGH 9", ns: "", payload: Payload::Unit, flatten: false }], tag: None, default: Val::Enum(1, vec![]) }, flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "OneUnit", root: "OneUnit", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "Only", ns: "", payload: Payload::Unit, flatten: false }], tag: None, default: Val::Enum(0, vec![]) }, flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Tagged", root: "Tagged", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "alpha", ns: "", payload: Payload::Unit, flatten: false }, VariantDef { label: "Beta", ns: "", payload: Payload::Unit, flatten: false }, VariantDef { label: "g g", ns: "", payload: Payload::Unit, flatten: false }], tag: Some("kind"), default: Val::Enum(0, vec![]) }, flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "NewScalars", root: "NewScalars", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "NString", ns: "", payload: Payload::New(sc(Sc::Str)), flatten: false }, VariantDef { label: "NBool", ns: "", payload: Payload::New(sc(Sc::Bool)), flatten: false }, VariantDef { label: "NI8", ns: "", payload: Payload::New(sc(Sc::I8)), flatten: false }, VariantDef { label: "NU8", ns: "", payload: Payload::New(sc(Sc::U8)), flatten: false }, VariantDef { label: "NI16", ns: "", payload: Payload::New(sc(Sc::I16)), flatten: false }, VariantDef { label: "NU16", ns: "", payload: Payload::New(sc(Sc::U16)), flatten: false }, VariantDef { label: "NI32", ns: "", payload: Payload::New(sc(Sc::I32)), flatten: false }, VariantDef { label: "NU32", ns: "", payload: Payload::New(sc(Sc::U32)), flatten: false }, VariantDef { label: "NI64", ns: "", payload: Payload::New(sc(Sc::I64)), flatten: false }, VariantDef { label: "NU64", ns: "", payload: Payload::New(sc(Sc::U64)), flatten: false }, VariantDef { label: "NF32", ns: "", payload: Payload::New(sc(Sc::F32)), flatten: false }, VariantDef { label: "NF64", ns: "", payload: Payload::New(sc(Sc::F64)), flatten: false }], tag: None, default: Val::Enum(0, vec![Val::Str(String::new())]) }, flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Meters", root: "Meters", root_ns: "", kind: Kind::Prim(Sc::U32), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Name", root: "Name", root_ns: "", kind: Kind::Prim(Sc::Str), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Ratio", root: "Ratio", root_ns: "", kind: Kind::Prim(Sc::F64), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Flag", root: "Flag", root_ns: "", kind: Kind::Prim(Sc::Bool), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Signed", root: "Signed", root_ns: "", kind: Kind::Prim(Sc::I64), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Small", root: "Small", root_ns: "", kind: Kind::Prim(Sc::I8), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "DisplayMeters", root: "DisplayMeters", root_ns: "", kind: Kind::Prim(Sc::U16), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "HexFlags", root: "HexFlags", root_ns: "", kind: Kind::Prim(Sc::Hex(16, 4095)), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "HexWide", root: "HexWide", root_ns: "", kind: Kind::Prim(Sc::Hex(64, 18446744073709551615)), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "HexByte", root: "HexByte", root_ns: "", kind: Kind::Prim(Sc::Hex(8, 255)), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Inner", root: "Inner", root_ns: "", kind: Kind::Struct(vec![fd("left", "", sc(Sc::Str), Role::Elem), fd("right", "", sc(Sc::I32), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "InnerAttr", root: "InnerAttr", root_ns: "", kind: Kind::Struct(vec![fd("key", "", sc(Sc::Str), Role::Attr), fd("val", "", sc(Sc::Str), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Nested", root: "Nested", root_ns: "", kind: Kind::Struct(vec![fd("one", "", rf(38), Role::Elem), fd("two", "", rf(39), Role::Elem), fd("name", "", sc(Sc::Str), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "NestedOpt", root: "NestedOpt", root_ns: "", kind: Kind::Struct(vec![fd("one", "", opt(rf(38)), Role::Elem), fd("two", "", opt(rf(39)), Role::Elem), fd("last", "", opt(sc(Sc::Str)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "NestedVec", root: "NestedVec", root_ns: "", kind: Kind::Struct(vec![fd("row", "", vec_(rf(38)), Role::Elem), fd("col", "", vec_(rf(39)), Role::Elem), fd("sum", "", sc(Sc::U32), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Deep1", root: "Deep1", root_ns: "", kind: Kind::Struct(vec![fd("l1", "", rf(38), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Deep2", root: "Deep2", root_ns: "", kind: Kind::Struct(vec![fd("l2", "", rf(43), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Deep3", root: "Deep3", root_ns: "", kind: Kind::Struct(vec![fd("l3", "", vec_(rf(44)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Deep4", root: "Deep4", root_ns: "", kind: Kind::Struct(vec![fd("l4", "", rf(45), Role::Elem), fd("l4b", "", opt(rf(44)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Deep5", root: "Deep5", root_ns: "", kind: Kind::Struct(vec![fd("l5", "", vec_(rf(46)), Role::Elem), fd("tag5", "", sc(Sc::Str), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "TextKids", root: "TextKids", root_ns: "", kind: Kind::Struct(vec![fd("t1", "", rf(18), Role::Elem), fd("t2", "", vec_(rf(19)), Role::Elem), fd("t3", "", opt(rf(20)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "EnumKids", root: "EnumKids", root_ns: "", kind: Kind::Struct(vec![fd("color", "", rf(23), Role::Elem), fd("lv", "", opt(rf(24)), Role::Elem), fd("many", "", vec_(rf(23)), Role::Elem), fd("tail", "", sc(Sc::Str), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "TaggedKids", root: "TaggedKids", root_ns: "", kind: Kind::Struct(vec![fd("t", "", rf(26), Role::Elem), fd("ot", "", opt(rf(26)), Role::Elem), fd("vt", "", vec_(rf(26)), Role::Elem), fd("x", "", sc(Sc::U8), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "PrimKids", root: "PrimKids", root_ns: "", kind: Kind::Struct(vec![fd("len", "", rf(28), Role::Elem), fd("nm", "", opt(rf(29)), Role::Elem), fd("rs", "", vec_(rf(30)), Role::Elem), fd("fl", "", rf(31), Role::Elem), fd("sg", "", opt(rf(32)), Role::Elem), fd("end", "", opt(sc(Sc::U8)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "HexKids", root: "HexKids", root_ns: "", kind: Kind::Struct(vec![fd("hx", "", rf(35), Role::Elem), fd("hs", "", vec_(rf(37)), Role::Elem), fd("hw", "", opt(rf(36)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "AttrKinds", root: "AttrKinds", root_ns: "", kind: Kind::Struct(vec![fd("ts", "", rf(18), Role::Attr), fd("col", "", rf(23), Role::Attr), fd("ocol", "", opt(rf(24)), Role::Attr), fd("mt", "", rf(28), Role::Attr), fd("onm", "", opt(rf(29)), Role::Attr), fd("sm", "", opt(rf(33)), Role::Attr), fd("ots", "", opt(rf(18)), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "AttrDefault", root: "AttrDefault", root_ns: "", kind: Kind::Struct(vec![fd("mode", "", sc(Sc::Str), Role::Attr).default(Val::Str("auto".to_string())), fd("w", "", sc(Sc::U32), Role::Attr).default(Val::Int(1)), fd("body", "", opt(rf(38)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "AttrVecKinds", root: "AttrVecKinds", root_ns: "", kind: Kind::Struct(vec![fd("cols", "", vec_(rf(23)), Role::Attr), fd("lens", "", vec_(rf(28)), Role::Attr), fd("names", "", vec_(rf(29)), Role::Attr), fd("words", "", vec_(rf(18)), Role::Attr), fd("wl", "", vec_(sc(Sc::U16)), Role::Attr).skip_if(val_empty), fd("tail", "", opt(rf(38)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Stamp", root: "Stamp", root_ns: "", kind: Kind::Prim(Sc::U32), flatten: false, enc: true, dec: true, tags: "custom" });
  v.push(TypeDef { name: "Token", root: "Token", root_ns: "", kind: Kind::Prim(Sc::Str), flatten: false, enc: true, dec: true, tags: "custom" });
  v.push(TypeDef { name: "CustomKids", root: "CustomKids", root_ns: "", kind: Kind::Struct(vec![fd("st", "", rf(56), Role::Elem), fd("tk", "", opt(rf(57)), Role::Elem), fd("sts", "", vec_(rf(56)), Role::Elem), fd("mid", "", sc(Sc::U8), Role::Elem), fd("tks", "", vec_(rf(57)), Role::Elem), fd("end", "", opt(sc(Sc::Str)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "GenBoxInner", root: "GenBox", root_ns: "", kind: Kind::Struct(vec![fd("gid", "", sc(Sc::U32), Role::Attr), fd("inside", "", rf(38), Role::Elem), fd("gopt", "", opt(rf(38)), Role::Elem), fd("gvec", "", vec_(rf(38)), Role::Elem), fd("glast", "", opt(sc(Sc::U8)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "GenBoxTextAttr", root: "GenBox", root_ns: "", kind: Kind::Struct(vec![fd("gid", "", sc(Sc::U32), Role::Attr), fd("inside", "", rf(19), Role::Elem), fd("gopt", "", opt(rf(19)), Role::Elem), fd("gvec", "", vec_(rf(19)), Role::Elem), fd("glast", "", opt(sc(Sc::U8)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "GenBoxMeters", root: "GenBox", root_ns: "", kind: Kind::Struct(vec![fd("gid", "", sc(Sc::U32), Role::Attr), fd("inside", "", rf(28), Role::Elem), fd("gopt", "", opt(rf(28)), Role::Elem), fd("gvec", "", vec_(rf(28)), Role::Elem), fd("glast", "", opt(sc(Sc::U8)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "GenBoxColor", root: "GenBox", root_ns: "", kind: Kind::Struct(vec![fd("gid", "", sc(Sc::U32), Role::Attr), fd("inside", "", rf(23), Role::Elem), fd("gopt", "", opt(rf(23)), Role::Elem), fd("gvec", "", vec_(rf(23)), Role::Elem), fd("glast", "", opt(sc(Sc::U8)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "GenBoxOneStr", root: "GenBox", root_ns: "", kind: Kind::Struct(vec![fd("gid", "", sc(Sc::U32), Role::Attr), fd("inside", "", rf(6), Role::Elem), fd("gopt", "", opt(rf(6)), Role::Elem), fd("gvec", "", vec_(rf(6)), Role::Elem), fd("glast", "", opt(sc(Sc::U8)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "GenKids", root: "GenKids", root_ns: "", kind: Kind::Struct(vec![fd("gb", "", rf(59), Role::Elem), fd("gbs", "", vec_(rf(60)), Role::Elem), fd("gbo", "", opt(rf(61)), Role::Elem), fd("z", "", sc(Sc::U8), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "NewKinds", root: "NewKinds", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "Text", ns: "", payload: Payload::New(sc(Sc::Str)), flatten: false }, VariantDef { label: "Inn", ns: "", payload: Payload::New(rf(38)), flatten: false }, VariantDef { label: "OptI", ns: "", payload: Payload::New(opt(sc(Sc::I32))), flatten: false }, VariantDef { label: "List", ns: "", payload: Payload::New(vec_(sc(Sc::Str))), flatten: false }, VariantDef { label: "Rows", ns: "", payload: Payload::New(vec_(rf(38))), flatten: false }, VariantDef { label: "OptIn", ns: "", payload: Payload::New(opt(rf(38))), flatten: false }, VariantDef { label: "Nums", ns: "", payload: Payload::New(vec_(sc(Sc::U16))), flatten: false }, VariantDef { label: "OptS", ns: "", payload: Payload::New(opt(sc(Sc::Str))), flatten: false }], tag: None, default: Val::Enum(0, vec![Val::Str(String::new())]) }, flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Shape", root: "Shape", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "circle", ns: "", payload: Payload::New(rf(38)), flatten: false }, VariantDef { label: "square-1", ns: "", payload: Payload::New(sc(Sc::U32)), flatten: false }], tag: None, default: Val::Enum(1, vec![Val::Int(0)]) }, flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Mixed", root: "Mixed", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "Empty", ns: "", payload: Payload::Unit, flatten: false }, VariantDef { label: "Full", ns: "", payload: Payload::New(rf(38)), flatten: false }, VariantDef { label: "val", ns: "", payload: Payload::New(sc(Sc::Str)), flatten: false }], tag: None, default: Val::Enum(0, vec![]) }, flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "VecEnum", root: "VecEnum", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "it", ns: "", payload: Payload::New(vec_(rf(38))), flatten: false }], tag: None, default: Val::Enum(0, vec![Val::Vec(vec![])]) }, flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "PrimEnum", root: "PrimEnum", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "Pm", ns: "", payload: Payload::New(rf(28)), flatten: false }, VariantDef { label: "Pn", ns: "", payload: Payload::New(vec_(rf(29))), flatten: false }, VariantDef { label: "Pt", ns: "", payload: Payload::New(rf(18)), flatten: false }], tag: None, default: Val::Enum(0, vec![Val::Int(0)]) }, flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "EnumStruct", root: "EnumStruct", root_ns: "", kind: Kind::Struct(vec![fd("shape", "", rf(66), Role::Elem), fd("oshape", "", opt(rf(66)), Role::Elem), fd("shapes", "", vec_(rf(66)), Role::Elem), fd("note", "", opt(sc(Sc::Str)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "EnumStruct2", root: "EnumStruct2", root_ns: "", kind: Kind::Struct(vec![fd("nk", "", rf(65), Role::Elem), fd("nks", "", vec_(rf(65)), Role::Elem), fd("id", "", sc(Sc::U32), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "EnumStruct3", root: "EnumStruct3", root_ns: "", kind: Kind::Struct(vec![fd("m", "", rf(67), Role::Elem), fd("ms", "", vec_(rf(67)), Role::Elem), fd("v", "", rf(68), Role::Elem), fd("pe", "", opt(rf(69)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "EnumOfEnum", root: "EnumOfEnum", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "Sh", ns: "", payload: Payload::New(rf(66)), flatten: false }, VariantDef { label: "Co", ns: "", payload: Payload::New(rf(23)), flatten: false }, VariantDef { label: "Tg", ns: "", payload: Payload::New(rf(26)), flatten: false }, VariantDef { label: "VSh", ns: "", payload: Payload::New(vec_(rf(66))), flatten: false }, VariantDef { label: "OCo", ns: "", payload: Payload::New(opt(rf(23))), flatten: false }], tag: None, default: Val::Enum(1, vec![Val::Enum(0, vec![])]) }, flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "EnumAttrPay", root: "EnumAttrPay", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "Ia", ns: "", payload: Payload::New(rf(39)), flatten: false }, VariantDef { label: "Ta", ns: "", payload: Payload::New(rf(19)), flatten: false }, VariantDef { label: "Oa", ns: "", payload: Payload::New(opt(rf(19))), flatten: false }, VariantDef { label: "l.a", ns: "", payload: Payload::New(vec_(rf(39))), flatten: false }, VariantDef { label: "Ak", ns: "", payload: Payload::New(rf(53)), flatten: false }], tag: None, default: Val::Enum(0, vec![Val::Struct(vec![Val::Str(String::new()), Val::Str(String::new())])]) }, flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "EnumStruct4", root: "EnumStruct4", root_ns: "", kind: Kind::Struct(vec![fd("ee", "", rf(73), Role::Elem), fd("eo", "", opt(rf(73)), Role::Elem), fd("ea", "", vec_(rf(74)), Role::Elem), fd("last", "", opt(rf(38)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Tree", root: "tree", root_ns: "", kind: Kind::Struct(vec![fd("name", "", sc(Sc::Str), Role::Attr), fd("weight", "", opt(sc(Sc::I32)), Role::Elem), fd("kid", "", vec_(rf(76)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "rec" });
  v.push(TypeDef { name: "Chain", root: "chain", root_ns: "", kind: Kind::Struct(vec![fd("v", "", sc(Sc::U8), Role::Elem), fd("chain", "", vec_(rf(77)), Role::Elem), fd("z", "", opt(sc(Sc::Str)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "rec" });
  v.push(TypeDef { name: "Expr", root: "Expr", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "num", ns: "", payload: Payload::New(sc(Sc::I32)), flatten: false }, VariantDef { label: "group", ns: "", payload: Payload::New(rf(79)), flatten: false }, VariantDef { label: "Sym", ns: "", payload: Payload::New(sc(Sc::Str)), flatten: false }], tag: None, default: Val::Enum(0, vec![Val::Int(0)]) }, flatten: false, enc: true, dec: true, tags: "rec" });
  v.push(TypeDef { name: "Group", root: "Group", root_ns: "", kind: Kind::Struct(vec![fd("op", "", sc(Sc::Str), Role::Attr), fd("arg", "", vec_(rf(78)), Role::Elem), fd("note", "", opt(sc(Sc::Str)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "rec" });
  v.push(TypeDef { name: "Forest", root: "Forest", root_ns: "", kind: Kind::Struct(vec![fd("tree", "", vec_(rf(76)), Role::Elem), fd("ex", "", opt(rf(78)), Role::Elem), fd("cc", "", opt(rf(77)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "rec" });
  v.push(TypeDef { name: "FlatInner", root: "FlatInner", root_ns: "", kind: Kind::Struct(vec![fd("year", "", sc(Sc::I32), Role::Elem), fd("month", "", sc(Sc::I32), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "FlatOpt", root: "FlatOpt", root_ns: "", kind: Kind::Struct(vec![fd("lunar", "", sc(Sc::I32), Role::Elem), fd("phase", "", opt(sc(Sc::Str)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "FlatAttr", root: "FlatAttr", root_ns: "", kind: Kind::Struct(vec![fd("bold", "", sc(Sc::Bool), Role::Attr), fd("size", "", opt(sc(Sc::U32)), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "FlatVec", root: "FlatVec", root_ns: "", kind: Kind::Struct(vec![fd("tagv", "", vec_(sc(Sc::Str)), Role::Elem), fd("opt", "", opt(sc(Sc::U8)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "FlatStruct", root: "FlatStruct", root_ns: "", kind: Kind::Struct(vec![fd("sub", "", rf(38), Role::Elem), fd("subs", "", vec_(rf(39)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "FlatKind", root: "FlatKind", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "holidays", ns: "", payload: Payload::New(vec_(sc(Sc::Str))), flatten: false }, VariantDef { label: "working", ns: "", payload: Payload::New(sc(Sc::Str)), flatten: false }, VariantDef { label: "off", ns: "", payload: Payload::New(rf(38)), flatten: false }], tag: None, default: Val::Enum(1, vec![Val::Str(String::new())]) }, flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Flat1", root: "Flat1", root_ns: "", kind: Kind::Struct(vec![fd("d", "", rf(81), Role::Flatten), fd("time", "", sc(Sc::Str), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Flat2", root: "Flat2", root_ns: "", kind: Kind::Struct(vec![fd("time", "", sc(Sc::Str), Role::Elem), fd("d", "", rf(81), Role::Flatten), fd("o", "", opt(rf(82)), Role::Flatten), fd("last", "", opt(sc(Sc::Bool)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Flat3", root: "Flat3", root_ns: "", kind: Kind::Struct(vec![fd("base", "", rf(83), Role::Flatten), fd("id", "", sc(Sc::Str), Role::Attr), fd("value", "", rf(18), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Flat4", root: "Flat4", root_ns: "", kind: Kind::Struct(vec![fd("fv", "", rf(84), Role::Flatten), fd("fs", "", rf(85), Role::Flatten), fd("mid", "", vec_(sc(Sc::U32)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Flat5", root: "Flat5", root_ns: "", kind: Kind::Struct(vec![fd("k", "", rf(86), Role::Flatten), fd("hour", "", sc(Sc::U8), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "FlatNest1", root: "FlatNest1", root_ns: "", kind: Kind::Struct(vec![fd("week", "", sc(Sc::I32), Role::Elem), fd("extra", "", rf(81), Role::Flatten)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "FlatNest2", root: "FlatNest2", root_ns: "", kind: Kind::Struct(vec![fd("fn1", "", rf(92), Role::Flatten), fd("k", "", rf(86), Role::Flatten), fd("when", "", sc(Sc::Str), Role::Elem), fd("oo", "", opt(rf(82)), Role::Flatten)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "FlatSib", root: "FlatSib", root_ns: "", kind: Kind::Struct(vec![fd("col", "", rf(23), Role::Elem), fd("d", "", rf(81), Role::Flatten), fd("mm", "", rf(28), Role::Elem), fd("tg", "", opt(rf(26)), Role::Elem), fd("es", "", vec_(rf(66)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "FlatDefault", root: "FlatDefault", root_ns: "", kind: Kind::Struct(vec![fd("dd", "", sc(Sc::U8), Role::Elem).default(Val::Int(4)), fd("fa", "", rf(83), Role::Flatten), fd("fi", "", rf(81), Role::Flatten)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "FlatInside", root: "FlatInside", root_ns: "", kind: Kind::Struct(vec![fd("flat", "", rf(88), Role::Elem), fd("flats", "", vec_(rf(87)), Role::Elem), fd("endf", "", opt(sc(Sc::Str)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "RootFlat", root: "RootFlat", root_ns: "", kind: Kind::Struct(vec![fd("binary_data", "", sc(Sc::Str), Role::Elem), fd("string_data", "", sc(Sc::Str), Role::Elem), fd("maybe_data", "", opt(sc(Sc::U32)), Role::Elem), fd("many_data", "", vec_(sc(Sc::I16)), Role::Elem)]), flatten: true, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "RootFlat2", root: "RootFlat2", root_ns: "", kind: Kind::Struct(vec![fd("one", "", rf(38), Role::Elem), fd("onev", "", vec_(rf(39)), Role::Elem), fd("s", "", opt(sc(Sc::Str)), Role::Elem)]), flatten: true, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "RootFlat3", root: "RootFlat3", root_ns: "", kind: Kind::Struct(vec![fd("none", "", opt(rf(38)), Role::Elem), fd("shape", "", rf(66), Role::Elem), fd("txt", "", vec_(rf(19)), Role::Elem), fd("z", "", rf(23), Role::Elem)]), flatten: true, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "RootFlat4", root: "RootFlat4", root_ns: "", kind: Kind::Struct(vec![fd("kids", "", vec_(rf(38)), Role::Elem), fd("tx", "", rf(18), Role::Elem), fd("m", "", rf(28), Role::Elem)]), flatten: true, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "FlatMarked", root: "FlatMarked", root_ns: "", kind: Kind::Struct(vec![fd("host", "", opt(rf(38)), Role::Elem), fd("more", "", vec_(rf(18)), Role::Elem), fd("zz", "", sc(Sc::U8), Role::Elem)]), flatten: true, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "FlatMarkHost", root: "host", root_ns: "", kind: Kind::Struct(vec![fd("fm", "", rf(101), Role::Flatten), fd("y", "", opt(sc(Sc::U8)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "FlatPlain", root: "FlatPlain", root_ns: "", kind: Kind::Struct(vec![fd("host2", "", opt(rf(38)), Role::Elem), fd("q", "", sc(Sc::U8), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "FlatPlainHost", root: "host2", root_ns: "", kind: Kind::Struct(vec![fd("fp", "", rf(103), Role::Flatten), fd("l", "", vec_(sc(Sc::U8)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "RootFlatEnum", root: "RootFlatEnum", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "Bin", ns: "", payload: Payload::New(rf(38)), flatten: false }, VariantDef { label: "Dat", ns: "", payload: Payload::New(sc(Sc::Str)), flatten: false }, VariantDef { label: "Lst", ns: "", payload: Payload::New(vec_(sc(Sc::U8))), flatten: false }], tag: None, default: Val::Enum(1, vec![Val::Str(String::new())]) }, flatten: true, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "FlatEnumAttr", root: "FlatEnumAttr", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "fe", ns: "", payload: Payload::New(rf(38)), flatten: false }, VariantDef { label: "Fg", ns: "", payload: Payload::New(sc(Sc::U64)), flatten: false }], tag: None, default: Val::Enum(1, vec![Val::Int(0)]) }, flatten: true, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "FlatEnumHolder", root: "FlatEnumHolder", root_ns: "", kind: Kind::Struct(vec![fd("cont", "", rf(106), Role::Flatten), fd("z", "", opt(sc(Sc::Str)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "DefKinds", root: "DefKinds", root_ns: "", kind: Kind::Struct(vec![fd("ko", "", opt(sc(Sc::Str)), Role::Elem).default(Val::Opt(Some(Box::new(Val::Str("dflt".to_string()))))), fd("ki", "", opt(sc(Sc::U32)), Role::Elem).default(Val::Opt(Some(Box::new(Val::Int(7))))), fd("kb", "", opt(sc(Sc::Bool)), Role::Elem).default(Val::Opt(Some(Box::new(Val::Bool(true))))), fd("kn", "", opt(sc(Sc::I8)), Role::Elem).default(Val::Opt(None)), fd("kv", "", vec_(sc(Sc::U16)), Role::Elem).default(Val::Vec(vec![Val::Int(1), Val::Int(2)])), fd("ks", "", vec_(sc(Sc::Str)), Role::Elem).default(Val::Vec(vec![Val::Str("a".to_string()), Val::Str("b c".to_string())])), fd("ke", "", vec_(sc(Sc::U8)), Role::Elem).default(Val::Vec(vec![]))]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "DefAttrKinds", root: "DefAttrKinds", root_ns: "", kind: Kind::Struct(vec![fd("ao", "", opt(sc(Sc::Str)), Role::Attr).default(Val::Opt(Some(Box::new(Val::Str("dflt".to_string()))))), fd("ai", "", opt(sc(Sc::I64)), Role::Attr).default(Val::Opt(Some(Box::new(Val::Int(-7))))), fd("an", "", opt(sc(Sc::Bool)), Role::Attr).default(Val::Opt(None)), fd("av", "", vec_(sc(Sc::U16)), Role::Attr).default(Val::Vec(vec![Val::Int(1), Val::Int(2)])), fd("aw", "", vec_(sc(Sc::Str)), Role::Attr).default(Val::Vec(vec![Val::Str("on".to_string())])), fd("tail", "", opt(sc(Sc::U8)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "DefStructs", root: "DefStructs", root_ns: "", kind: Kind::Struct(vec![fd("ds", "", rf(38), Role::Elem).default(Val::Struct(vec![Val::Str("l".to_string()), Val::Int(3)])), fd("dc", "", rf(23), Role::Elem).default(Val::Enum(2, vec![])), fd("dm", "", rf(28), Role::Elem).default(Val::Int(12)), fd("dh", "", rf(66), Role::Elem).default(Val::Enum(1, vec![Val::Int(4)])), fd("dl", "", vec_(rf(38)), Role::Elem).default(Val::Vec(vec![Val::Struct(vec![Val::Str("x".to_string()), Val::Int(1)])])), fd("dq", "", opt(rf(38)), Role::Elem).default(Val::Opt(Some(Box::new(Val::Struct(vec![Val::Str("y".to_string()), Val::Int(2)]))))), fd("after", "", sc(Sc::U8), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "DefAttrStructs", root: "DefAttrStructs", root_ns: "", kind: Kind::Struct(vec![fd("dc", "", rf(23), Role::Attr).default(Val::Enum(2, vec![])), fd("dm", "", opt(rf(28)), Role::Attr).default(Val::Opt(Some(Box::new(Val::Int(12))))), fd("dn", "", rf(29), Role::Attr).default(Val::Str("n m".to_string())), fd("z", "", opt(sc(Sc::U8)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "DefOptSkip", root: "DefOptSkip", root_ns: "", kind: Kind::Struct(vec![fd("so", "", opt(sc(Sc::U32)), Role::Elem).default(Val::Opt(Some(Box::new(Val::Int(3))))).skip(), fd("sv", "", vec_(sc(Sc::U8)), Role::Elem).default(Val::Vec(vec![Val::Int(9)])).skip(), fd("si", "", opt(sc(Sc::Str)), Role::Elem).default(Val::Opt(Some(Box::new(Val::Str("q".to_string()))))).skip_if(val_empty), fd("sw", "", vec_(sc(Sc::I32)), Role::Elem).default(Val::Vec(vec![Val::Int(-1)])).skip_if(val_empty), fd("end", "", sc(Sc::U8), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "TextDefault", root: "TextDefault", root_ns: "", kind: Kind::Struct(vec![fd("id", "", opt(sc(Sc::U32)), Role::Attr), fd("value", "", sc(Sc::Str), Role::Text).default(Val::Str("dflt".to_string()))]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "TextOptDefault", root: "TextOptDefault", root_ns: "", kind: Kind::Struct(vec![fd("id", "", opt(sc(Sc::U32)), Role::Attr), fd("value", "", opt(sc(Sc::Str)), Role::Text).default(Val::Opt(Some(Box::new(Val::Str("dflt".to_string())))))]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "TextSkip", root: "TextSkip", root_ns: "", kind: Kind::Struct(vec![fd("id", "", opt(sc(Sc::U32)), Role::Attr), fd("value", "", sc(Sc::Str), Role::Text).default(Val::Str("fixed".to_string())).skip()]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "TextSkipIf", root: "TextSkipIf", root_ns: "", kind: Kind::Struct(vec![fd("id", "", opt(sc(Sc::U32)), Role::Attr), fd("value", "", opt(sc(Sc::Str)), Role::Text).skip_if(val_empty)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "TextDefKids", root: "TextDefKids", root_ns: "", kind: Kind::Struct(vec![fd("a", "", rf(113), Role::Elem), fd("b", "", vec_(rf(115)), Role::Elem), fd("c", "", opt(rf(114)), Role::Elem), fd("d", "", vec_(rf(116)), Role::Elem), fd("e", "", vec_(rf(114)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "FlatReqAttr", root: "FlatReqAttr", root_ns: "", kind: Kind::Struct(vec![fd("reqat", "", sc(Sc::U32), Role::Attr), fd("optat", "", opt(sc(Sc::Str)), Role::Attr), fd("fel", "", opt(sc(Sc::Bool)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "FlatOptAttr", root: "FlatOptAttr", root_ns: "", kind: Kind::Struct(vec![fd("part", "", opt(rf(118)), Role::Flatten), fd("own", "", sc(Sc::Str), Role::Attr), fd("item", "", vec_(sc(Sc::U8)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "FlatOptAttr2", root: "f.o.a", root_ns: "", kind: Kind::Struct(vec![fd("name", "", opt(sc(Sc::Str)), Role::Elem), fd("part", "", opt(rf(118)), Role::Flatten), fd("part2", "", opt(rf(81)), Role::Flatten)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "FlatSkipPart", root: "FlatSkipPart", root_ns: "", kind: Kind::Struct(vec![fd("body", "", sc(Sc::U8), Role::Elem), fd("part", "", opt(rf(118)), Role::Flatten).skip_if(val_empty), fd("hidden", "", opt(rf(81)), Role::Flatten).skip()]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "FlatTextIn", root: "FlatTextIn", root_ns: "", kind: Kind::Struct(vec![fd("lang", "", sc(Sc::Str), Role::Attr), fd("opt", "", opt(sc(Sc::U8)), Role::Attr), fd("value", "", sc(Sc::Str), Role::Text)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "FlatTextHost", root: "FlatTextHost", root_ns: "", kind: Kind::Struct(vec![fd("id", "", sc(Sc::U32), Role::Attr), fd("part", "", rf(122), Role::Flatten)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "FlatTag", root: "FlatTag", root_ns: "", kind: Kind::Struct(vec![fd("part", "", rf(26), Role::Flatten), fd("n", "", sc(Sc::U8), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "FlatTagOpt", root: "FlatTagOpt", root_ns: "", kind: Kind::Struct(vec![fd("part", "", opt(rf(26)), Role::Flatten), fd("n", "", sc(Sc::U8), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "FlatDeepAttr1", root: "FlatDeepAttr1", root_ns: "", kind: Kind::Struct(vec![fd("mid", "", rf(118), Role::Flatten), fd("da", "", sc(Sc::Bool), Role::Attr), fd("de", "", sc(Sc::Str), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "FlatDeepAttr", root: "FlatDeepAttr", root_ns: "", kind: Kind::Struct(vec![fd("top", "", rf(126), Role::Flatten), fd("ta", "", opt(sc(Sc::Str)), Role::Attr), fd("te", "", vec_(rf(38)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "FlatKids", root: "FlatKids", root_ns: "", kind: Kind::Struct(vec![fd("x", "", rf(119), Role::Elem), fd("ys", "", vec_(rf(123)), Role::Elem), fd("z", "", opt(rf(124)), Role::Elem), fd("w", "", vec_(rf(125)), Role::Elem), fd("v", "", rf(127), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Paths", root: "Paths", root_ns: "", kind: Kind::Struct(vec![fd("ps", "", sc(Sc::Str), Role::Elem), fd("po", "", opt(sc(Sc::U32)), Role::Elem), fd("pv", "", vec_(sc(Sc::Str)), Role::Elem), fd("pi", "", rf(38), Role::Elem), fd("pc", "", opt(rf(23)), Role::Elem), fd("pl", "", vec_(rf(39)), Role::Elem), fd("pn", "", sc(Sc::I64), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "PathAttrs", root: "PathAttrs", root_ns: "", kind: Kind::Struct(vec![fd("ps", "", sc(Sc::Str), Role::Attr), fd("po", "", opt(sc(Sc::U8)), Role::Attr), fd("pc", "", rf(23), Role::Attr), fd("pt", "", opt(rf(18)), Role::Attr), fd("pm", "", vec_(rf(28)), Role::Attr), fd("z", "", opt(sc(Sc::Str)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "PathEnum", root: "PathEnum", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "Pa", ns: "", payload: Payload::New(rf(38)), flatten: false }, VariantDef { label: "Pb", ns: "", payload: Payload::New(opt(sc(Sc::Str))), flatten: false }, VariantDef { label: "Pc", ns: "", payload: Payload::New(vec_(rf(39))), flatten: false }], tag: None, default: Val::Enum(0, vec![Val::Struct(vec![Val::Str(String::new()), Val::Int(0)])]) }, flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "PathKids", root: "PathKids", root_ns: "", kind: Kind::Struct(vec![fd("pe", "", rf(131), Role::Elem), fd("pp", "", opt(rf(129)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "MacroTypes", root: "MacroTypes", root_ns: "", kind: Kind::Struct(vec![fd("m1", "", sc(Sc::Str), Role::Elem), fd("m2", "", sc(Sc::U32), Role::Elem), fd("m3", "", opt(sc(Sc::U32)), Role::Elem), fd("m4", "", vec_(sc(Sc::Str)), Role::Elem), fd("m5", "", rf(38), Role::Elem), fd("m6", "", vec_(rf(38)), Role::Elem), fd("m7", "", opt(rf(38)), Role::Elem), fd("m8", "", opt(sc(Sc::U8)), Role::Elem), fd("m9", "", vec_(sc(Sc::I16)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "MacroAttrs", root: "MacroAttrs", root_ns: "", kind: Kind::Struct(vec![fd("m1", "", sc(Sc::Str), Role::Attr), fd("m2", "", sc(Sc::U32), Role::Attr), fd("m3", "", opt(sc(Sc::U32)), Role::Attr), fd("m5", "", rf(23), Role::Attr), fd("m8", "", opt(sc(Sc::U8)), Role::Attr), fd("mz", "", opt(rf(23)), Role::Attr), fd("mv", "", vec_(sc(Sc::U32)), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "OptVecs", root: "OptVecs", root_ns: "", kind: Kind::Struct(vec![fd("ov_string", "", opt(vec_(sc(Sc::Str))), Role::Elem), fd("ov_bool", "", opt(vec_(sc(Sc::Bool))), Role::Elem), fd("ov_i8", "", opt(vec_(sc(Sc::I8))), Role::Elem), fd("ov_u8", "", opt(vec_(sc(Sc::U8))), Role::Elem), fd("ov_i16", "", opt(vec_(sc(Sc::I16))), Role::Elem), fd("ov_u16", "", opt(vec_(sc(Sc::U16))), Role::Elem), fd("ov_i32", "", opt(vec_(sc(Sc::I32))), Role::Elem), fd("ov_u32", "", opt(vec_(sc(Sc::U32))), Role::Elem), fd("ov_i64", "", opt(vec_(sc(Sc::I64))), Role::Elem), fd("ov_u64", "", opt(vec_(sc(Sc::U64))), Role::Elem), fd("ov_f32", "", opt(vec_(sc(Sc::F32))), Role::Elem), fd("ov_f64", "", opt(vec_(sc(Sc::F64))), Role::Elem), fd("last", "", sc(Sc::U8), Role::Elem)]), flatten: false, enc: true, dec: false, tags: "" });
  v.push(TypeDef { name: "FlatVecPart", root: "FlatVecPart", root_ns: "", kind: Kind::Struct(vec![fd("n", "", sc(Sc::U8), Role::Elem), fd("parts", "", vec_(rf(81)), Role::Flatten), fd("z", "", opt(sc(Sc::Str)), Role::Elem)]), flatten: false, enc: true, dec: false, tags: "" });
  v.push(TypeDef { name: "NamedVariants", root: "NamedVariants", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "Va", ns: "", payload: Payload::Named(vec![fd("na", "", sc(Sc::U32), Role::Elem), fd("nb", "", sc(Sc::Str), Role::Elem), fd("nc", "", sc(Sc::Bool), Role::Elem)]), flatten: false }, VariantDef { label: "Vb", ns: "", payload: Payload::Named(vec![fd("nd", "", rf(38), Role::Elem), fd("ne", "", vec_(rf(39)), Role::Elem), fd("nf", "", sc(Sc::F64), Role::Elem)]), flatten: false }, VariantDef { label: "Vc", ns: "", payload: Payload::Named(vec![fd("g-g", "", sc(Sc::I64), Role::Elem)]), flatten: false }], tag: None, default: Val::Enum(0, vec![Val::Int(0), Val::Str(String::new()), Val::Bool(false)]) }, flatten: false, enc: true, dec: false, tags: "" });
  v.push(TypeDef { name: "FlatVariant", root: "FlatVariant", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "BinV", ns: "", payload: Payload::New(rf(38)), flatten: true }, VariantDef { label: "DatV", ns: "", payload: Payload::New(rf(39)), flatten: true }], tag: None, default: Val::Enum(0, vec![Val::Struct(vec![Val::Str(String::new()), Val::Int(0)])]) }, flatten: true, enc: true, dec: false, tags: "" });
  v.push(TypeDef { name: "NamedHolder", root: "NamedHolder", root_ns: "", kind: Kind::Struct(vec![fd("nv", "", rf(137), Role::Elem), fd("nvs", "", vec_(rf(137)), Role::Elem), fd("on", "", opt(rf(137)), Role::Elem)]), flatten: false, enc: true, dec: false, tags: "" });
  v.push(TypeDef { name: "EncScalars", root: "EncScalars", root_ns: "", kind: Kind::Struct(vec![fd("s_usize", "", sc(Sc::Usize), Role::Elem), fd("s_isize", "", sc(Sc::Isize), Role::Elem), fd("s_char", "", sc(Sc::Char), Role::Elem), fd("o_usize", "", opt(sc(Sc::Usize)), Role::Elem), fd("o_isize", "", opt(sc(Sc::Isize)), Role::Elem), fd("o_char", "", opt(sc(Sc::Char)), Role::Elem), fd("v_usize", "", vec_(sc(Sc::Usize)), Role::Elem), fd("v_isize", "", vec_(sc(Sc::Isize)), Role::Elem), fd("v_char", "", vec_(sc(Sc::Char)), Role::Elem)]), flatten: false, enc: true, dec: false, tags: "" });
  v.push(TypeDef { name: "EncAttrs", root: "EncAttrs", root_ns: "", kind: Kind::Struct(vec![fd("a_usize", "", sc(Sc::Usize), Role::Attr), fd("a_isize", "", sc(Sc::Isize), Role::Attr), fd("a_char", "", sc(Sc::Char), Role::Attr), fd("b_usize", "", opt(sc(Sc::Usize)), Role::Attr), fd("b_isize", "", opt(sc(Sc::Isize)), Role::Attr), fd("b_char", "", opt(sc(Sc::Char)), Role::Attr), fd("body", "", sc(Sc::Usize), Role::Elem)]), flatten: false, enc: true, dec: false, tags: "" });
  v.push(TypeDef { name: "EncNs", root: "EncNs", root_ns: "http://example.com/p", kind: Kind::Struct(vec![fd("u", "http://example.com/p", sc(Sc::Usize), Role::Elem), fd("c.h", "urn:example:q", vec_(sc(Sc::Char)), Role::Elem), fd("i", "urn:example:q", opt(sc(Sc::Isize)), Role::Elem).skip_if(val_empty), fd("at", "http://example.com/p", sc(Sc::Usize), Role::Attr)]), flatten: false, enc: true, dec: false, tags: "" });
  v.push(TypeDef { name: "EncPayloads", root: "EncPayloads", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "Pu", ns: "", payload: Payload::New(sc(Sc::Usize)), flatten: false }, VariantDef { label: "Pc", ns: "", payload: Payload::New(vec_(sc(Sc::Char))), flatten: false }, VariantDef { label: "Pi", ns: "", payload: Payload::New(opt(sc(Sc::Isize))), flatten: false }, VariantDef { label: "p-s", ns: "", payload: Payload::New(rf(140)), flatten: false }], tag: None, default: Val::Enum(0, vec![Val::Int(0)]) }, flatten: false, enc: true, dec: false, tags: "" });
  v.push(TypeDef { name: "NamedLists", root: "NamedLists", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "Va", ns: "", payload: Payload::Named(vec![fd("la", "", vec_(sc(Sc::U32)), Role::Elem), fd("lc", "", vec_(sc(Sc::Bool)), Role::Elem), fd("ld", "", vec_(sc(Sc::Char)), Role::Elem)]), flatten: false }, VariantDef { label: "Vb", ns: "", payload: Payload::Named(vec![fd("l.e", "", sc(Sc::Usize), Role::Elem), fd("lf", "", sc(Sc::Char), Role::Elem), fd("lg", "", rf(38), Role::Elem), fd("l-h", "", vec_(rf(38)), Role::Elem), fd("li", "", vec_(sc(Sc::F32)), Role::Elem)]), flatten: false }, VariantDef { label: "Vu", ns: "", payload: Payload::Unit, flatten: false }, VariantDef { label: "Vn", ns: "", payload: Payload::New(sc(Sc::U8)), flatten: false }], tag: None, default: Val::Enum(2, vec![]) }, flatten: false, enc: true, dec: false, tags: "" });
  v.push(TypeDef { name: "NamedFlat", root: "NamedFlat", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "Fa", ns: "", payload: Payload::Named(vec![fd("fb", "", rf(38), Role::Elem), fd("fc", "", sc(Sc::Usize), Role::Elem), fd("fd", "", vec_(sc(Sc::I8)), Role::Elem)]), flatten: false }, VariantDef { label: "Fe", ns: "", payload: Payload::Named(vec![fd("fg", "", sc(Sc::Str), Role::Elem), fd("fh", "", vec_(rf(39)), Role::Elem)]), flatten: false }], tag: None, default: Val::Enum(0, vec![Val::Struct(vec![Val::Str(String::new()), Val::Int(0)]), Val::Int(0), Val::Vec(vec![])]) }, flatten: true, enc: true, dec: false, tags: "" });
  v.push(TypeDef { name: "NamedFlatHost", root: "NamedFlatHost", root_ns: "", kind: Kind::Struct(vec![fd("kind", "", rf(145), Role::Flatten), fd("z", "", opt(sc(Sc::U8)), Role::Elem)]), flatten: false, enc: true, dec: false, tags: "" });
  v.push(TypeDef { name: "EncKids", root: "EncKids", root_ns: "", kind: Kind::Struct(vec![fd("es", "", vec_(rf(140)), Role::Elem), fd("ea", "", opt(rf(141)), Role::Elem), fd("en", "", rf(142), Role::Elem), fd("ep", "", rf(143), Role::Elem), fd("eps", "", vec_(rf(143)), Role::Elem), fd("nl", "", rf(144), Role::Elem), fd("nls", "", vec_(rf(144)), Role::Elem), fd("nf", "", opt(rf(146)), Role::Elem)]), flatten: false, enc: true, dec: false, tags: "" });
  v.push(TypeDef { name: "NsRoot", root: "NsRoot", root_ns: "http://example.com/p", kind: Kind::Struct(vec![fd("item", "http://example.com/p", sc(Sc::Str), Role::Elem), fd("other", "urn:example:q", opt(sc(Sc::I32)), Role::Elem), fd("plain", "", vec_(sc(Sc::Str)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "NsAttr", root: "NsAttr", root_ns: "", kind: Kind::Struct(vec![fd("at", "http://example.com/p", sc(Sc::Str), Role::Attr), fd("bt", "urn:example:q", opt(sc(Sc::U32)), Role::Attr), fd("ct", "", sc(Sc::Bool), Role::Attr), fd("v", "", sc(Sc::Str), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "NsInner", root: "NsInner", root_ns: "", kind: Kind::Struct(vec![fd("in1", "urn:example:q", sc(Sc::Str), Role::Elem), fd("in2", "", vec_(sc(Sc::U8)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "NsNest", root: "NsNest", root_ns: "urn:example:q", kind: Kind::Struct(vec![fd("child", "http://example.com/p", rf(150), Role::Elem), fd("kids", "", vec_(rf(150)), Role::Elem), fd("okid", "urn:example:q", opt(rf(150)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "NsDefInner", root: "NsDefInner", root_ns: "http://example.com/d", kind: Kind::Struct(vec![fd("di", "http://example.com/d", sc(Sc::Str), Role::Elem), fd("dv", "http://example.com/d", vec_(sc(Sc::U16)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "NsDef", root: "NsDef", root_ns: "http://example.com/d", kind: Kind::Struct(vec![fd("x", "http://example.com/d", sc(Sc::I32), Role::Elem), fd("n", "http://example.com/d", rf(152), Role::Elem), fd("ns_", "http://example.com/d", vec_(rf(152)), Role::Elem), fd("at", "", sc(Sc::Str), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "NsDef2", root: "nsdef-two", root_ns: "http://example.com/d", kind: Kind::Struct(vec![fd("x", "http://example.com/d", sc(Sc::I32), Role::Elem), fd("y", "http://example.com/e", opt(sc(Sc::Str)), Role::Elem), fd("n", "http://example.com/d", opt(rf(152)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "SameLocal", root: "SameLocal", root_ns: "http://example.com/p", kind: Kind::Struct(vec![fd("same", "http://example.com/p", sc(Sc::Str), Role::Elem), fd("same", "urn:example:q", opt(sc(Sc::U32)), Role::Elem), fd("same", "", vec_(sc(Sc::Bool)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "NsEnum", root: "NsEnum", root_ns: "http://example.com/p", kind: Kind::Enum { variants: vec![VariantDef { label: "Alt", ns: "http://example.com/p", payload: Payload::New(sc(Sc::Str)), flatten: false }, VariantDef { label: "b.lt", ns: "urn:example:q", payload: Payload::New(rf(38)), flatten: false }], tag: None, default: Val::Enum(0, vec![Val::Str(String::new())]) }, flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "NsPayEnum", root: "NsPayEnum", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "Np", ns: "", payload: Payload::New(rf(150)), flatten: false }, VariantDef { label: "Na", ns: "", payload: Payload::New(rf(149)), flatten: false }, VariantDef { label: "Nr", ns: "", payload: Payload::New(opt(rf(148))), flatten: false }, VariantDef { label: "Nv", ns: "", payload: Payload::New(vec_(rf(150))), flatten: false }, VariantDef { label: "Ns", ns: "", payload: Payload::New(sc(Sc::U8)), flatten: false }], tag: None, default: Val::Enum(4, vec![Val::Int(0)]) }, flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "NsPayHolder", root: "NsPayHolder", root_ns: "", kind: Kind::Struct(vec![fd("np", "", rf(157), Role::Elem), fd("nps", "urn:example:q", vec_(rf(157)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "NsEnumHolder", root: "NsEnumHolder", root_ns: "", kind: Kind::Struct(vec![fd("ne", "", rf(156), Role::Elem), fd("nes", "http://example.com/p", vec_(rf(156)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "NsFlatAttr", root: "NsFlatAttr", root_ns: "", kind: Kind::Struct(vec![fd("fsz", "http://www.sample.com/ns/domain", sc(Sc::U32), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "NsFlat", root: "NsFlat", root_ns: "", kind: Kind::Struct(vec![fd("fa", "", rf(160), Role::Flatten), fd("dsp", "", sc(Sc::Str), Role::Attr), fd("v", "", opt(sc(Sc::Str)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "NsFlatElem", root: "NsFlatElem", root_ns: "", kind: Kind::Struct(vec![fd("fe", "http://example.com/p", sc(Sc::Str), Role::Elem), fd("ff", "", opt(sc(Sc::U8)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "NsFlat2", root: "NsFlat2", root_ns: "", kind: Kind::Struct(vec![fd("b", "", rf(162), Role::Flatten), fd("c", "http://example.com/p", sc(Sc::U8), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "NsFlat3", root: "NsFlat3", root_ns: "", kind: Kind::Struct(vec![fd("b", "", rf(162), Role::Flatten), fd("c", "", sc(Sc::U8), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "NsFlat4", root: "NsFlat4", root_ns: "", kind: Kind::Struct(vec![fd("c", "", sc(Sc::U8), Role::Elem), fd("b", "", opt(rf(162)), Role::Flatten), fd("d", "", rf(160), Role::Flatten)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "NsFlat5", root: "NsFlat5", root_ns: "", kind: Kind::Struct(vec![fd("k", "", sc(Sc::U8), Role::Elem), fd("m", "", rf(164), Role::Flatten)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "NsFlatKids", root: "NsFlatKids", root_ns: "", kind: Kind::Struct(vec![fd("f3", "", rf(164), Role::Elem), fd("f4", "", opt(rf(165)), Role::Elem), fd("f5", "", vec_(rf(166)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "NsEnumAttrs", root: "NsEnumAttrs", root_ns: "http://example.com/p", kind: Kind::Struct(vec![fd("ce", "http://example.com/p", rf(23), Role::Elem), fd("te", "urn:example:q", rf(26), Role::Elem), fd("pm", "http://example.com/p", rf(28), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "SubSub", root: "subsub", root_ns: "", kind: Kind::Struct(vec![fd("leaf", "", sc(Sc::Str), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Sub", root: "sub", root_ns: "", kind: Kind::Struct(vec![fd("sub", "", opt(rf(169)), Role::Elem), fd("subitem", "", sc(Sc::Str), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "SameName", root: "base", root_ns: "", kind: Kind::Struct(vec![fd("sub", "", rf(170), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "SelfName", root: "SelfName", root_ns: "", kind: Kind::Struct(vec![fd("before", "", sc(Sc::Str), Role::Elem), fd("selfname", "", rf(38), Role::Elem), fd("after", "", opt(sc(Sc::U8)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "SelfName2", root: "SelfName2", root_ns: "", kind: Kind::Struct(vec![fd("a1", "", opt(sc(Sc::U8)), Role::Elem), fd("item", "", sc(Sc::Str), Role::Elem), fd("z1", "", vec_(sc(Sc::Str)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "SelfName3", root: "SelfName3", root_ns: "", kind: Kind::Struct(vec![fd("lead", "", rf(38), Role::Elem), fd("kid", "", vec_(rf(39)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "SelfHolder", root: "SelfHolder", root_ns: "", kind: Kind::Struct(vec![fd("selfname", "", rf(172), Role::Elem), fd("item", "", vec_(rf(173)), Role::Elem), fd("kid", "", opt(rf(174)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "SelfRoot", root: "SelfRoot", root_ns: "", kind: Kind::Struct(vec![fd("lead", "", opt(sc(Sc::Str)), Role::Elem), fd("SelfRoot", "", vec_(rf(38)), Role::Elem), fd("tail", "", opt(rf(173)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "AttrSame", root: "AttrSame", root_ns: "", kind: Kind::Struct(vec![fd("content", "", opt(sc(Sc::Str)), Role::Attr), fd("content", "", opt(sc(Sc::Str)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Book", root: "Book", root_ns: "", kind: Kind::Struct(vec![fd("isbn", "", sc(Sc::Str), Role::Attr), fd("title", "", sc(Sc::Str), Role::Elem), fd("author", "", vec_(sc(Sc::Str)), Role::Elem), fd("price", "", sc(Sc::F32), Role::Elem), fd("stock", "", opt(sc(Sc::U64)), Role::Elem), fd("genre", "", rf(23), Role::Elem), fd("series", "", opt(rf(38)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Library", root: "Library", root_ns: "", kind: Kind::Struct(vec![fd("name", "", sc(Sc::Str), Role::Attr), fd("book", "", vec_(rf(178)), Role::Elem), fd("curator", "", opt(rf(41)), Role::Elem), fd("motto", "", rf(19), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Wide", root: "Wide", root_ns: "", kind: Kind::Struct(vec![fd("w0", "", opt(sc(Sc::Str)), Role::Elem), fd("w1", "", opt(sc(Sc::U32)), Role::Elem), fd("w2", "", opt(sc(Sc::Str)), Role::Elem), fd("w3", "", opt(sc(Sc::U32)), Role::Elem), fd("w4", "", opt(sc(Sc::Str)), Role::Elem), fd("w5", "", opt(sc(Sc::U32)), Role::Elem), fd("w6", "", opt(sc(Sc::Str)), Role::Elem), fd("w7", "", opt(sc(Sc::U32)), Role::Elem), fd("w8", "", opt(sc(Sc::Str)), Role::Elem), fd("w9", "", opt(sc(Sc::U32)), Role::Elem), fd("w10", "", opt(sc(Sc::Str)), Role::Elem), fd("w11", "", opt(sc(Sc::U32)), Role::Elem), fd("w12", "", opt(sc(Sc::Str)), Role::Elem), fd("w13", "", opt(sc(Sc::U32)), Role::Elem), fd("w14", "", opt(sc(Sc::Str)), Role::Elem), fd("w15", "", opt(sc(Sc::U32)), Role::Elem), fd("w16", "", opt(sc(Sc::Str)), Role::Elem), fd("w17", "", opt(sc(Sc::U32)), Role::Elem), fd("w18", "", opt(sc(Sc::Str)), Role::Elem), fd("w19", "", opt(sc(Sc::U32)), Role::Elem), fd("w20", "", opt(sc(Sc::Str)), Role::Elem), fd("w21", "", opt(sc(Sc::U32)), Role::Elem), fd("w22", "", opt(sc(Sc::Str)), Role::Elem), fd("w23", "", opt(sc(Sc::U32)), Role::Elem), fd("w24", "", opt(sc(Sc::Str)), Role::Elem), fd("w25", "", opt(sc(Sc::U32)), Role::Elem), fd("w26", "", opt(sc(Sc::Str)), Role::Elem), fd("w27", "", opt(sc(Sc::U32)), Role::Elem), fd("w28", "", opt(sc(Sc::Str)), Role::Elem), fd("w29", "", opt(sc(Sc::U32)), Role::Elem), fd("w30", "", opt(sc(Sc::Str)), Role::Elem), fd("w31", "", opt(sc(Sc::U32)), Role::Elem), fd("w32", "", opt(sc(Sc::Str)), Role::Elem), fd("w33", "", opt(sc(Sc::U32)), Role::Elem), fd("w34", "", opt(sc(Sc::Str)), Role::Elem), fd("w35", "", opt(sc(Sc::U32)), Role::Elem), fd("w36", "", opt(sc(Sc::Str)), Role::Elem), fd("w37", "", opt(sc(Sc::U32)), Role::Elem), fd("w38", "", opt(sc(Sc::Str)), Role::Elem), fd("w39", "", opt(sc(Sc::U32)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "VerA", root: "Ver", root_ns: "", kind: Kind::Struct(vec![fd("id", "", sc(Sc::U32), Role::Attr), fd("name", "", sc(Sc::Str), Role::Elem), fd("old", "", opt(sc(Sc::Str)), Role::Elem), fd("tags", "", vec_(sc(Sc::Str)), Role::Elem), fd("mode", "", sc(Sc::I32), Role::Elem).default(Val::Int(3)), fd("sub", "", opt(rf(38)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "ver0" });
  v.push(TypeDef { name: "VerB", root: "Ver", root_ns: "", kind: Kind::Struct(vec![fd("id", "", sc(Sc::U32), Role::Attr), fd("rev", "", opt(sc(Sc::U8)), Role::Attr), fd("name", "", sc(Sc::Str), Role::Elem), fd("tags", "", vec_(sc(Sc::Str)), Role::Elem), fd("mode", "", sc(Sc::I32), Role::Elem).default(Val::Int(3)), fd("extra", "", opt(rf(39)), Role::Elem), fd("more", "", vec_(rf(38)), Role::Elem), fd("speed", "", sc(Sc::F64), Role::Elem).default(Val::F64(0.5)), fd("sub", "", opt(rf(38)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "ver0" });
  v.push(TypeDef { name: "VerC", root: "Ver", root_ns: "", kind: Kind::Struct(vec![fd("rev", "", opt(sc(Sc::U8)), Role::Attr), fd("id", "", sc(Sc::U32), Role::Attr), fd("more", "", vec_(rf(38)), Role::Elem), fd("name", "", sc(Sc::Str), Role::Elem), fd("flat", "", rf(84), Role::Flatten), fd("sub", "", opt(rf(38)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "ver0" });
  v.push(TypeDef { name: "VerKidA", root: "VerKid", root_ns: "", kind: Kind::Struct(vec![fd("kid", "", vec_(rf(181)), Role::Elem), fd("n", "", opt(sc(Sc::U8)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "ver1" });
  v.push(TypeDef { name: "VerKidB", root: "VerKid", root_ns: "", kind: Kind::Struct(vec![fd("kid", "", vec_(rf(182)), Role::Elem), fd("m", "", opt(sc(Sc::Str)), Role::Elem), fd("n", "", opt(sc(Sc::U8)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "ver1" });
  v.push(TypeDef { name: "IntlLevel", root: "niveau", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "низкий", ns: "", payload: Payload::Unit, flatten: false }, VariantDef { label: "中", ns: "", payload: Payload::Unit, flatten: false }, VariantDef { label: "haut-élevé", ns: "", payload: Payload::Unit, flatten: false }], tag: None, default: Val::Enum(1, vec![]) }, flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "IntlPay", root: "IntlPay", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "文字", ns: "", payload: Payload::New(sc(Sc::Str)), flatten: false }, VariantDef { label: "числo", ns: "", payload: Payload::New(sc(Sc::I32)), flatten: false }, VariantDef { label: "Örtchen", ns: "", payload: Payload::New(rf(38)), flatten: false }, VariantDef { label: "ø", ns: "", payload: Payload::Unit, flatten: false }], tag: None, default: Val::Enum(3, vec![]) }, flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "NamedOpts", root: "NamedOpts", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "Oa", ns: "", payload: Payload::Named(vec![fd("oa", "", opt(sc(Sc::U32)), Role::Elem), fd("ob", "", opt(sc(Sc::Str)), Role::Elem), fd("oc", "", opt(rf(38)), Role::Elem), fd("od", "", sc(Sc::U8), Role::Elem)]), flatten: false }, VariantDef { label: "Ob", ns: "", payload: Payload::Named(vec![fd("o-e", "", opt(vec_(sc(Sc::I16))), Role::Elem), fd("of", "", opt(vec_(rf(39))), Role::Elem), fd("og", "", opt(rf(23)), Role::Elem), fd("oh", "", opt(rf(28)), Role::Elem), fd("oi", "", opt(sc(Sc::F32)), Role::Elem), fd("om", "", sc(Sc::U16), Role::Elem).skip(), fd("on", "", opt(rf(38)), Role::Elem).skip(), fd("oj", "", opt(vec_(sc(Sc::Str))), Role::Elem)]), flatten: false }, VariantDef { label: "Oc", ns: "", payload: Payload::Named(vec![fd("ok", "", opt(sc(Sc::Bool)), Role::Elem)]), flatten: false }, VariantDef { label: "Od", ns: "", payload: Payload::Named(vec![fd("ol", "", opt(rf(144)), Role::Elem)]), flatten: false }, VariantDef { label: "Ou", ns: "", payload: Payload::Unit, flatten: false }], tag: None, default: Val::Enum(4, vec![]) }, flatten: false, enc: true, dec: false, tags: "" });
  v.push(TypeDef { name: "NamedOptsHost", root: "NamedOptsHost", root_ns: "", kind: Kind::Struct(vec![fd("x1", "", rf(188), Role::Elem), fd("x2", "", opt(rf(188)), Role::Elem), fd("x3", "", vec_(rf(188)), Role::Elem)]), flatten: false, enc: true, dec: false, tags: "" });
  v.push(TypeDef { name: "IntlNamed", root: "IntlNamed", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "Örtchen", ns: "", payload: Payload::Named(vec![fd("größe", "", opt(sc(Sc::U8)), Role::Elem), fd("GRÖSSE", "", sc(Sc::Str), Role::Elem)]), flatten: false }, VariantDef { label: "ø", ns: "", payload: Payload::Unit, flatten: false }], tag: None, default: Val::Enum(1, vec![]) }, flatten: false, enc: true, dec: false, tags: "" });
  v.push(TypeDef { name: "Intl", root: "страна", root_ns: "", kind: Kind::Struct(vec![fd("größe", "", sc(Sc::U16), Role::Elem), fd("名前", "", opt(sc(Sc::Str)), Role::Elem), fd("élan", "", sc(Sc::Str), Role::Attr), fd("ėlan", "", opt(sc(Sc::Bool)), Role::Attr), fd("Örtchen", "", vec_(rf(38)), Role::Elem), fd("stufe", "", rf(186), Role::Elem), fd("文", "", vec_(rf(187)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "IntlNs", root: "größe", root_ns: "http://example.com/größe", kind: Kind::Struct(vec![fd("名前", "http://example.com/größe", sc(Sc::Str), Role::Elem), fd("é", "http://example.com/größe", opt(sc(Sc::I64)), Role::Attr), fd("c1", "", opt(rf(191)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "Cases", root: "cases", root_ns: "", kind: Kind::Struct(vec![fd("item", "", opt(sc(Sc::U8)), Role::Elem), fd("Item", "", opt(rf(38)), Role::Elem), fd("ITEM", "", vec_(rf(39)), Role::Elem), fd("item_", "", opt(rf(23)), Role::Elem), fd("_item", "", opt(rf(19)), Role::Elem), fd("id", "", opt(sc(Sc::U8)), Role::Attr), fd("ID", "", opt(rf(23)), Role::Attr), fd("Id", "", opt(rf(24)), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "LongKid", root: "a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.kid", root_ns: "", kind: Kind::Struct(vec![fd("a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.v", "", opt(sc(Sc::U8)), Role::Attr), fd("a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.w", "", opt(sc(Sc::U8)), Role::Attr), fd("a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.k", "", sc(Sc::Str), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "LongPay", root: "LongPay", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.1", ns: "", payload: Payload::New(sc(Sc::Str)), flatten: false }, VariantDef { label: "a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.2", ns: "", payload: Payload::New(sc(Sc::U32)), flatten: false }, VariantDef { label: "a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.0", ns: "", payload: Payload::Unit, flatten: false }], tag: None, default: Val::Enum(2, vec![]) }, flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "LongNames", root: "a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.x", root_ns: "", kind: Kind::Struct(vec![fd("a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.x", "", sc(Sc::U32), Role::Elem), fd("a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.y", "", opt(sc(Sc::Str)), Role::Elem), fd("a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.z", "", vec_(rf(194)), Role::Elem), fd("a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.xx", "", vec_(sc(Sc::U8)), Role::Elem), fd("a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.", "", opt(rf(195)), Role::Elem), fd("a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.a-name-of-some-length.x", "", opt(sc(Sc::Bool)), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "RV0v0", root: "rv-0", root_ns: "", kind: Kind::Struct(vec![fd("beta7", "", vec_(rf(38)), Role::Elem), fd("zone4", "", opt(sc(Sc::I32)), Role::Elem), fd("omega1", "", rf(23), Role::Elem), fd("info5", "", opt(sc(Sc::I64)), Role::Elem), fd("size10", "", opt(rf(38)), Role::Elem), fd("beta2", "", sc(Sc::Str), Role::Elem), fd("delta3", "", opt(sc(Sc::Str)), Role::Attr), fd("info6", "", opt(sc(Sc::U8)), Role::Elem), fd("info9", "", opt(sc(Sc::U64)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "verR0" });
  v.push(TypeDef { name: "RV0v1", root: "rv-0", root_ns: "", kind: Kind::Struct(vec![fd("info9", "", opt(sc(Sc::U64)), Role::Elem), fd("delta3", "", opt(sc(Sc::Str)), Role::Attr), fd("omega1", "", rf(23), Role::Elem), fd("part8", "", opt(sc(Sc::I16)), Role::Elem), fd("info6", "", opt(sc(Sc::U8)), Role::Elem), fd("beta2", "", sc(Sc::Str), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "verR0" });
  v.push(TypeDef { name: "RV1v0", root: "rv-1", root_ns: "", kind: Kind::Struct(vec![fd("kind11", "", rf(38), Role::Elem), fd("gamma13", "", vec_(rf(26)), Role::Elem), fd("slot15", "", opt(sc(Sc::I32)), Role::Attr), fd("gamma14", "", vec_(sc(Sc::F32)), Role::Elem), fd("unit12", "", rf(23), Role::Elem), fd("data16", "", vec_(sc(Sc::U16)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "verR1" });
  v.push(TypeDef { name: "RV1v1", root: "rv-1", root_ns: "", kind: Kind::Struct(vec![fd("kind11", "", rf(38), Role::Elem), fd("unit12", "", rf(23), Role::Elem), fd("slot15", "", opt(sc(Sc::I32)), Role::Attr), fd("gamma13", "", vec_(rf(26)), Role::Elem), fd("gamma14", "", vec_(sc(Sc::F32)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "verR1" });
  v.push(TypeDef { name: "RV2v0", root: "rv-2", root_ns: "", kind: Kind::Struct(vec![fd("area23", "", opt(sc(Sc::I32)), Role::Attr), fd("omega21", "", opt(sc(Sc::U16)), Role::Attr), fd("unit20", "", sc(Sc::I8), Role::Elem).default(Val::Int(1)), fd("kind22", "", opt(rf(23)), Role::Elem), fd("omega19", "", opt(sc(Sc::Str)), Role::Elem), fd("meta17", "", sc(Sc::U32), Role::Elem), fd("omega18", "", sc(Sc::Str), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "verR2" });
  v.push(TypeDef { name: "RV2v1", root: "rv-2", root_ns: "", kind: Kind::Struct(vec![fd("omega19", "", opt(sc(Sc::Str)), Role::Elem), fd("area23", "", opt(sc(Sc::I32)), Role::Attr), fd("meta17", "", sc(Sc::U32), Role::Elem), fd("unit20", "", sc(Sc::I8), Role::Elem).default(Val::Int(1)), fd("kind22", "", opt(rf(23)), Role::Elem), fd("omega18", "", sc(Sc::Str), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "verR2" });
  v.push(TypeDef { name: "RV2v2", root: "rv-2", root_ns: "", kind: Kind::Struct(vec![fd("unit20", "", sc(Sc::I8), Role::Elem).default(Val::Int(1)), fd("meta17", "", sc(Sc::U32), Role::Elem), fd("omega18", "", sc(Sc::Str), Role::Elem), fd("kind22", "", opt(rf(23)), Role::Elem), fd("area23", "", opt(sc(Sc::I32)), Role::Attr), fd("omega21", "", opt(sc(Sc::U16)), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "verR2" });
  v.push(TypeDef { name: "RV3v0", root: "rv-3", root_ns: "", kind: Kind::Struct(vec![fd("data29", "", vec_(rf(66)), Role::Elem), fd("gamma28", "", vec_(rf(41)), Role::Elem), fd("area30", "", vec_(rf(39)), Role::Elem), fd("delta24", "", rf(38), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "verR3" });
  v.push(TypeDef { name: "RV3v1", root: "rv-3", root_ns: "", kind: Kind::Struct(vec![fd("unit25", "", sc(Sc::I8), Role::Elem).default(Val::Int(27)), fd("area27", "", vec_(rf(26)), Role::Elem), fd("delta24", "", rf(38), Role::Elem), fd("gamma28", "", vec_(rf(41)), Role::Elem), fd("zone26", "", opt(sc(Sc::F64)), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "verR3" });
  v.push(TypeDef { name: "RV4v0", root: "rv-4", root_ns: "", kind: Kind::Struct(vec![fd("part31", "", rf(23), Role::Elem), fd("kind32", "", opt(sc(Sc::U32)), Role::Elem), fd("data33", "", sc(Sc::Bool), Role::Elem).default(Val::Bool(false)), fd("list34", "", opt(rf(6)), Role::Elem), fd("meta36", "", sc(Sc::Bool), Role::Elem).default(Val::Bool(true))]), flatten: false, enc: true, dec: true, tags: "verR4" });
  v.push(TypeDef { name: "RV4v1", root: "rv-4", root_ns: "", kind: Kind::Struct(vec![fd("kind32", "", opt(sc(Sc::U32)), Role::Elem), fd("list34", "", opt(rf(6)), Role::Elem), fd("data33", "", sc(Sc::Bool), Role::Elem).default(Val::Bool(false)), fd("part31", "", rf(23), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "verR4" });
  v.push(TypeDef { name: "RF0", root: "RF0", root_ns: "", kind: Kind::Struct(vec![fd("ref44", "", sc(Sc::Str), Role::Elem), fd("zone45", "", sc(Sc::I64), Role::Elem), fd("zone46", "", vec_(sc(Sc::U8)), Role::Elem), fd("area47", "", sc(Sc::U8), Role::Elem), fd("slot48", "", opt(sc(Sc::U16)), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R0", root: "R0", root_ns: "", kind: Kind::Struct(vec![fd("list37", "", vec_(sc(Sc::U8)), Role::Elem), fd("area38", "", opt(sc(Sc::U32)), Role::Attr), fd("zone39", "", rf(25), Role::Attr), fd("Slot40-x", "", opt(rf(23)), Role::Elem), fd("delta41", "", rf(59), Role::Elem), fd("gamma49", "", opt(rf(208)), Role::Flatten), fd("Delta42", "", opt(rf(28)), Role::Elem), fd("delta43", "", sc(Sc::U32), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R1", root: "r-1", root_ns: "urn:example:q", kind: Kind::Struct(vec![fd("omega50", "urn:r?x=1-y", rf(31), Role::Elem), fd("Part51-x", "urn:example:q", sc(Sc::I32), Role::Elem), fd("alpha52", "http://example.com/p", sc(Sc::I32), Role::Attr), fd("Delta53", "", sc(Sc::I16), Role::Elem), fd("ref54", "", opt(sc(Sc::F64)), Role::Attr), fd("Node55", "urn:example:q", sc(Sc::F32), Role::Attr).default(Val::F32(78.5)), fd("area56", "http://example.com/p", rf(23), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R2", root: "R2", root_ns: "urn:r?x=1-y", kind: Kind::Struct(vec![fd("size57", "urn:example:q", opt(sc(Sc::U16)), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "RE3", root: "RE3", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "v-3-0", ns: "", payload: Payload::New(vec_(rf(13))), flatten: false }, VariantDef { label: "Vr3x1", ns: "", payload: Payload::New(vec_(rf(123))), flatten: false }, VariantDef { label: "Vr3x2", ns: "", payload: Payload::New(vec_(rf(96))), flatten: false }, VariantDef { label: "Vr3x3", ns: "", payload: Payload::New(rf(62)), flatten: false }, VariantDef { label: "Vr3x4", ns: "", payload: Payload::New(rf(82)), flatten: false }], tag: None, default: Val::Enum(0, vec![Val::Vec(vec![])]) }, flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R4", root: "R4", root_ns: "", kind: Kind::Struct(vec![fd("ref58", "", opt(sc(Sc::I64)), Role::Attr), fd("part59", "", opt(sc(Sc::Str)), Role::Text)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R5", root: "R5", root_ns: "http://example.com/p", kind: Kind::Struct(vec![fd("kind60", "", vec_(rf(36)), Role::Elem), fd("Size61-x", "http://example.com/p", sc(Sc::I8), Role::Elem), fd("part62", "urn:example:q", opt(sc(Sc::Bool)), Role::Attr), fd("size63", "", opt(rf(10)), Role::Elem), fd("meta64", "", opt(rf(186)), Role::Elem), fd("omega65", "http://example.com/p", sc(Sc::F64), Role::Elem), fd("part66", "http://example.com/p", opt(sc(Sc::Str)), Role::Elem), fd("alpha67", "http://example.com/p", opt(rf(125)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R6", root: "r-6", root_ns: "urn:example:q", kind: Kind::Struct(vec![fd("list68", "urn:r?x=1-y", sc(Sc::F32), Role::Elem), fd("size69", "urn:r?x=1-y", rf(66), Role::Elem), fd("size70", "urn:r?x=1-y", rf(17), Role::Elem), fd("delta71", "urn:example:q", rf(124), Role::Elem), fd("Slot72-x", "urn:r?x=1-y", sc(Sc::I16), Role::Attr), fd("slot73", "", opt(rf(34)), Role::Elem), fd("gamma74", "urn:r?x=1-y", vec_(rf(18)), Role::Elem), fd("zone75", "http://example.com/p", vec_(sc(Sc::Bool)), Role::Elem), fd("unit76", "urn:example:q", vec_(rf(81)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R7", root: "r-7", root_ns: "", kind: Kind::Struct(vec![fd("ref79", "", sc(Sc::Str), Role::Text)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "RE8", root: "RE8", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "Vr8x0", ns: "", payload: Payload::New(opt(sc(Sc::F32))), flatten: false }], tag: None, default: Val::Enum(0, vec![Val::Opt(None)]) }, flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "RF9", root: "RF9", root_ns: "", kind: Kind::Struct(vec![fd("unit84", "", sc(Sc::Str), Role::Elem), fd("kind85", "", vec_(sc(Sc::I16)), Role::Elem), fd("ref86", "", vec_(sc(Sc::F64)), Role::Elem), fd("meta87", "", opt(sc(Sc::F32)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R9", root: "R9", root_ns: "", kind: Kind::Struct(vec![fd("kind80", "", sc(Sc::U16), Role::Elem), fd("meta81", "", opt(rf(36)), Role::Elem), fd("beta82", "", rf(34), Role::Elem), fd("delta88", "", opt(rf(218)), Role::Flatten), fd("Omega83.y", "", rf(52), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R10", root: "R10", root_ns: "urn:example:q", kind: Kind::Struct(vec![fd("slot89", "", sc(Sc::Bool), Role::Attr).default(Val::Bool(true)), fd("list90", "urn:example:q", rf(34), Role::Elem), fd("Ref91.y", "http://example.com/p", opt(sc(Sc::U64)), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R11", root: "R11", root_ns: "", kind: Kind::Struct(vec![fd("slot92", "", vec_(rf(33)), Role::Attr), fd("zone93", "", opt(rf(157)), Role::Elem), fd("part94", "", sc(Sc::I64), Role::Elem), fd("slot95", "", sc(Sc::Str), Role::Elem).cdata(), fd("size96", "", vec_(rf(56)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R12", root: "root.12", root_ns: "urn:example:q", kind: Kind::Struct(vec![fd("alpha97", "urn:example:q", sc(Sc::I16), Role::Elem).default(Val::Int(61)), fd("size98", "http://example.com/p", sc(Sc::U8), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "RE13", root: "RE13", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "Vr13x0", ns: "", payload: Payload::New(sc(Sc::F64)), flatten: false }, VariantDef { label: "Vr13x1", ns: "", payload: Payload::New(opt(rf(126))), flatten: false }, VariantDef { label: "v-13-2", ns: "", payload: Payload::New(opt(sc(Sc::F64))), flatten: false }], tag: None, default: Val::Enum(0, vec![Val::F64(0.0)]) }, flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R14", root: "r-14", root_ns: "", kind: Kind::Struct(vec![fd("part99", "urn:example:q", sc(Sc::I16), Role::Elem), fd("Unit100-x", "", vec_(sc(Sc::Str)), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R15", root: "r-15", root_ns: "", kind: Kind::Struct(vec![fd("Kind101", "", sc(Sc::F32), Role::Elem).default(Val::F32(43.5)), fd("ref102", "", sc(Sc::I32), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R16", root: "R16", root_ns: "urn:r?x=1-y", kind: Kind::Struct(vec![fd("data103", "urn:r?x=1-y", rf(91), Role::Elem), fd("Meta104.y", "urn:example:q", sc(Sc::Str), Role::Elem).default(Val::Str("def0".to_string())).skip_if(|v| *v == Val::Str("def0".to_string())), fd("kind105", "", rf(37), Role::Elem), fd("kind106", "urn:r?x=1-y", rf(32), Role::Elem), fd("gamma107", "", sc(Sc::U8), Role::Elem), fd("Meta108-x", "urn:r?x=1-y", rf(131), Role::Elem), fd("size109", "urn:example:q", opt(rf(27)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R17", root: "R17", root_ns: "http://example.com/p", kind: Kind::Struct(vec![fd("beta110", "http://example.com/p", sc(Sc::I32), Role::Attr), fd("info111", "", opt(rf(30)), Role::Attr), fd("gamma119", "", sc(Sc::Str), Role::Text)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "RE18", root: "RE18", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "Vr18x0", ns: "", payload: Payload::New(rf(83)), flatten: false }, VariantDef { label: "v-18-1", ns: "", payload: Payload::New(rf(120)), flatten: false }, VariantDef { label: "v-18-2", ns: "", payload: Payload::New(sc(Sc::I32)), flatten: false }, VariantDef { label: "Vr18x3", ns: "", payload: Payload::New(opt(sc(Sc::F32))), flatten: false }], tag: None, default: Val::Enum(0, vec![Val::Struct(vec![Val::Bool(false), Val::Opt(None)])]) }, flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R19", root: "R19", root_ns: "", kind: Kind::Struct(vec![fd("data120", "", opt(sc(Sc::F32)), Role::Attr), fd("list121", "", opt(rf(34)), Role::Elem), fd("Gamma122", "", opt(rf(23)), Role::Attr), fd("meta123", "", vec_(sc(Sc::U64)), Role::Elem).skip_if(val_empty), fd("node124", "", rf(24), Role::Attr), fd("list125", "", rf(35), Role::Attr), fd("meta126", "", opt(sc(Sc::F64)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R20", root: "R20", root_ns: "http://example.com/p", kind: Kind::Struct(vec![fd("node127", "", sc(Sc::F64), Role::Attr), fd("beta128", "http://example.com/p", rf(59), Role::Elem), fd("info129", "http://example.com/p", opt(sc(Sc::F32)), Role::Attr), fd("unit130", "http://example.com/p", opt(sc(Sc::I8)), Role::Attr), fd("Info131.y", "http://example.com/p", rf(28), Role::Attr), fd("Beta132", "", opt(rf(86)), Role::Elem), fd("Delta133.y", "", vec_(sc(Sc::U32)), Role::Elem), fd("Gamma134.y", "http://example.com/p", vec_(rf(217)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R21", root: "R21", root_ns: "", kind: Kind::Struct(vec![fd("list135", "", opt(rf(116)), Role::Elem), fd("beta136", "", opt(sc(Sc::I32)), Role::Elem), fd("Meta137-x", "", sc(Sc::I16), Role::Elem), fd("slot138", "", rf(112), Role::Elem), fd("area139", "", vec_(rf(75)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R22", root: "R22", root_ns: "", kind: Kind::Struct(vec![fd("omega142", "", sc(Sc::Str), Role::Attr).default(Val::Str("def9".to_string())), fd("ref145", "", sc(Sc::Str), Role::Attr), fd("slot146", "", opt(sc(Sc::Str)), Role::Text)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "RE23", root: "RE23", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "v-23-0", ns: "", payload: Payload::New(rf(28)), flatten: false }, VariantDef { label: "Vr23x1", ns: "", payload: Payload::New(sc(Sc::U8)), flatten: false }], tag: None, default: Val::Enum(0, vec![Val::Int(0)]) }, flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R24", root: "r-24", root_ns: "", kind: Kind::Struct(vec![fd("info148", "", sc(Sc::Str), Role::Text)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R25", root: "r-25", root_ns: "", kind: Kind::Struct(vec![fd("ref151", "", sc(Sc::Str), Role::Text)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "RF26", root: "RF26", root_ns: "", kind: Kind::Struct(vec![fd("delta161", "", sc(Sc::Str), Role::Elem), fd("size162", "", vec_(sc(Sc::U16)), Role::Elem), fd("ref163", "", opt(sc(Sc::U16)), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R26", root: "r-26", root_ns: "", kind: Kind::Struct(vec![fd("Zone152.y", "", opt(rf(32)), Role::Elem), fd("alpha153", "", opt(sc(Sc::U8)), Role::Elem), fd("meta154", "", opt(sc(Sc::U32)), Role::Attr), fd("alpha155", "", opt(rf(31)), Role::Attr), fd("beta164", "", rf(236), Role::Flatten), fd("node156", "", sc(Sc::Str), Role::Elem).default(Val::Str("def2".to_string())), fd("alpha157", "", sc(Sc::F64), Role::Elem), fd("gamma158", "", opt(rf(74)), Role::Elem), fd("Area159", "", rf(29), Role::Elem), fd("list160", "", sc(Sc::Str), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "RF27", root: "RF27", root_ns: "", kind: Kind::Struct(vec![fd("gamma171", "", sc(Sc::Str), Role::Elem), fd("area172", "", vec_(sc(Sc::Bool)), Role::Elem), fd("data173", "", sc(Sc::Bool), Role::Elem), fd("meta174", "", sc(Sc::F64), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R27", root: "r-27", root_ns: "", kind: Kind::Struct(vec![fd("unit165", "", rf(217), Role::Elem), fd("alpha166", "", opt(rf(35)), Role::Attr), fd("list175", "", rf(238), Role::Flatten), fd("List167", "", vec_(rf(38)), Role::Elem), fd("zone168", "", sc(Sc::Str), Role::Elem).cdata(), fd("node169", "", vec_(rf(37)), Role::Elem), fd("zone170", "", vec_(sc(Sc::I8)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "RE28", root: "RE28", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "v-28-0", ns: "", payload: Payload::New(rf(165)), flatten: false }, VariantDef { label: "v-28-1", ns: "", payload: Payload::New(vec_(sc(Sc::I8))), flatten: false }, VariantDef { label: "v-28-2", ns: "", payload: Payload::New(rf(128)), flatten: false }], tag: None, default: Val::Enum(0, vec![Val::Struct(vec![Val::Int(0), Val::Opt(None), Val::Struct(vec![Val::Int(0)])])]) }, flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R29", root: "R29", root_ns: "", kind: Kind::Struct(vec![fd("slot176", "", opt(rf(120)), Role::Elem), fd("ref177", "", vec_(rf(48)), Role::Elem), fd("Part178-x", "", sc(Sc::F64), Role::Attr).default(Val::F64(78.5)), fd("List179-x", "", sc(Sc::F64), Role::Elem).default(Val::F64(50.5)).skip_if(|v| *v == Val::F64(50.5)), fd("size180", "", vec_(rf(28)), Role::Attr), fd("part181", "", opt(sc(Sc::Str)), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R30", root: "R30", root_ns: "", kind: Kind::Struct(vec![fd("info182", "", opt(rf(228)), Role::Elem), fd("delta183", "", sc(Sc::I32), Role::Attr).default(Val::Int(33)), fd("alpha184", "", opt(rf(172)), Role::Elem), fd("kind185", "", rf(86), Role::Elem), fd("delta186", "", opt(sc(Sc::I64)), Role::Elem), fd("zone187", "", opt(rf(36)), Role::Attr), fd("alpha188", "", vec_(rf(133)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "RF31", root: "RF31", root_ns: "", kind: Kind::Struct(vec![fd("meta192", "", sc(Sc::Str), Role::Elem), fd("list193", "", opt(sc(Sc::I8)), Role::Elem), fd("gamma194", "", opt(sc(Sc::F32)), Role::Elem), fd("unit195", "", opt(sc(Sc::F32)), Role::Elem), fd("info196", "", opt(sc(Sc::U16)), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R31", root: "R31", root_ns: "", kind: Kind::Struct(vec![fd("delta189", "", rf(129), Role::Elem), fd("meta190", "", opt(sc(Sc::I32)), Role::Attr), fd("ref191", "", sc(Sc::I16), Role::Elem), fd("size197", "", rf(243), Role::Flatten)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "RF32", root: "RF32", root_ns: "", kind: Kind::Struct(vec![fd("gamma206", "", sc(Sc::Str), Role::Elem), fd("delta207", "", sc(Sc::I64), Role::Elem), fd("ref208", "", opt(sc(Sc::I32)), Role::Elem), fd("omega209", "", sc(Sc::U32), Role::Elem), fd("omega210", "", opt(sc(Sc::U16)), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R32", root: "root.32", root_ns: "", kind: Kind::Struct(vec![fd("ref198", "", rf(95), Role::Elem), fd("unit199", "", vec_(sc(Sc::F64)), Role::Elem), fd("unit200", "", opt(sc(Sc::I8)), Role::Attr), fd("beta201", "", vec_(sc(Sc::U64)), Role::Elem).skip_if(val_empty), fd("alpha202", "", rf(83), Role::Elem), fd("Ref203-x", "", opt(rf(52)), Role::Elem), fd("data204", "", rf(66), Role::Elem), fd("part211", "", rf(245), Role::Flatten), fd("Node205.y", "", vec_(rf(38)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "RE33", root: "RE33", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "Vr33x0", ns: "", payload: Payload::New(rf(60)), flatten: false }, VariantDef { label: "Vr33x1", ns: "", payload: Payload::New(vec_(rf(114))), flatten: false }], tag: None, default: Val::Enum(0, vec![Val::Struct(vec![Val::Int(0), Val::Struct(vec![Val::Str(String::new()), Val::Opt(None), Val::Str(String::new())]), Val::Opt(None), Val::Vec(vec![]), Val::Opt(None)])]) }, flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R34", root: "R34", root_ns: "", kind: Kind::Struct(vec![fd("gamma212", "", sc(Sc::U16), Role::Elem).default(Val::Int(13)), fd("omega213", "", sc(Sc::F64), Role::Elem), fd("data214", "", rf(32), Role::Attr), fd("area215", "", vec_(sc(Sc::I16)), Role::Elem), fd("ref216", "", opt(rf(33)), Role::Elem), fd("delta217", "", opt(sc(Sc::I8)), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "RF35", root: "RF35", root_ns: "", kind: Kind::Struct(vec![fd("delta225", "", sc(Sc::Str), Role::Elem), fd("meta226", "", sc(Sc::U32), Role::Elem), fd("alpha227", "", sc(Sc::F32), Role::Elem), fd("omega228", "", sc(Sc::U32), Role::Elem), fd("unit229", "", opt(sc(Sc::U16)), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R35", root: "R35", root_ns: "", kind: Kind::Struct(vec![fd("Area218", "", vec_(rf(170)), Role::Elem), fd("list219", "", rf(186), Role::Elem), fd("area220", "", rf(53), Role::Elem), fd("omega230", "", rf(249), Role::Flatten), fd("slot221", "", rf(62), Role::Elem), fd("beta222", "", sc(Sc::U16), Role::Attr), fd("Ref223", "", rf(65), Role::Elem), fd("info224", "", rf(13), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R36", root: "r-36", root_ns: "http://example.com/p", kind: Kind::Struct(vec![fd("Omega231.y", "", sc(Sc::U32), Role::Attr), fd("omega232", "", vec_(rf(21)), Role::Elem), fd("slot233", "http://example.com/p", rf(96), Role::Elem), fd("gamma234", "", sc(Sc::U32), Role::Attr), fd("unit235", "", rf(53), Role::Elem), fd("info236", "http://example.com/p", opt(rf(32)), Role::Attr), fd("kind237", "", rf(240), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R37", root: "R37", root_ns: "", kind: Kind::Struct(vec![fd("meta238", "", rf(90), Role::Elem), fd("alpha239", "", sc(Sc::U64), Role::Attr), fd("size240", "", opt(rf(212)), Role::Elem), fd("area241", "", vec_(rf(232)), Role::Elem), fd("area242", "", opt(rf(164)), Role::Elem), fd("part243", "", opt(sc(Sc::U32)), Role::Attr), fd("alpha244", "", rf(157), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "RE38", root: "RE38", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "Vr38x0", ns: "", payload: Payload::New(opt(sc(Sc::I64))), flatten: false }, VariantDef { label: "Vr38x1", ns: "", payload: Payload::New(rf(72)), flatten: false }], tag: None, default: Val::Enum(0, vec![Val::Opt(None)]) }, flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R39", root: "R39", root_ns: "urn:r?x=1-y", kind: Kind::Struct(vec![fd("omega245", "urn:example:q", vec_(sc(Sc::U32)), Role::Elem), fd("alpha246", "", sc(Sc::Bool), Role::Attr).default(Val::Bool(false)), fd("ref247", "", rf(24), Role::Attr), fd("meta248", "", sc(Sc::Str), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "RF40", root: "RF40", root_ns: "", kind: Kind::Struct(vec![fd("alpha256", "", sc(Sc::Str), Role::Elem), fd("list257", "", opt(sc(Sc::Str)), Role::Elem), fd("part258", "", vec_(sc(Sc::Bool)), Role::Elem), fd("omega259", "", sc(Sc::U32), Role::Elem), fd("alpha260", "", opt(sc(Sc::U16)), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R40", root: "r-40", root_ns: "", kind: Kind::Struct(vec![fd("gamma249", "", opt(sc(Sc::U64)), Role::Elem), fd("slot261", "", rf(255), Role::Flatten), fd("meta250", "", vec_(sc(Sc::I8)), Role::Elem), fd("beta251", "", rf(33), Role::Elem), fd("alpha252", "", vec_(rf(24)), Role::Elem), fd("unit253", "", vec_(sc(Sc::I8)), Role::Elem), fd("size254", "", rf(180), Role::Elem), fd("data255", "", vec_(sc(Sc::Bool)), Role::Elem).skip_if(val_empty)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R41", root: "R41", root_ns: "", kind: Kind::Struct(vec![fd("data262", "", sc(Sc::U8), Role::Elem).default(Val::Int(57)), fd("info263", "", vec_(sc(Sc::Str)), Role::Elem), fd("ref264", "", opt(sc(Sc::Bool)), Role::Attr), fd("list265", "", rf(111), Role::Elem), fd("list266", "", vec_(rf(34)), Role::Elem), fd("Part267.y", "", sc(Sc::I16), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "RF42", root: "RF42", root_ns: "", kind: Kind::Struct(vec![fd("node269", "", sc(Sc::Str), Role::Elem), fd("node270", "", opt(sc(Sc::I64)), Role::Elem), fd("gamma271", "", opt(sc(Sc::U16)), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R42", root: "r-42", root_ns: "", kind: Kind::Struct(vec![fd("unit272", "", rf(258), Role::Flatten), fd("zone268", "", vec_(sc(Sc::Str)), Role::Elem)]), flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "RE43", root: "RE43", root_ns: "", kind: Kind::Enum { variants: vec![VariantDef { label: "Vr43x0", ns: "", payload: Payload::New(sc(Sc::U64)), flatten: false }, VariantDef { label: "v-43-1", ns: "", payload: Payload::New(sc(Sc::F64)), flatten: false }], tag: None, default: Val::Enum(0, vec![Val::Int(0)]) }, flatten: false, enc: true, dec: true, tags: "" });
  v.push(TypeDef { name: "R44", root: "R44", root_ns: "", kind: Kind::Struct(vec![fd("beta273", "", opt(sc(Sc::F32)), Role::Attr), fd("Alpha274-x", "", rf(56), Role::Attr), fd("beta275", "", sc(Sc::U16), Role::Elem), fd("zone276", "", opt(sc(Sc::U16)), Role::Elem), fd("meta277", "", vec_(rf(15)), Role::Elem), fd("Unit278-x", "", sc(Sc::Str), Role::Attr).default(Val::Str("def1".to_string())), fd("Ref279.y", "", rf(7), Role::Elem), fd("list280", "", sc(Sc::U64), Role::Elem), fd("delta281", "", sc(Sc::Str), Role::Attr)]), flatten: false, enc: true, dec: true, tags: "" });
  v
}
pub fn ops() -> Vec<Ops> {
  vec![
    full::<Scalars>(),
    full::<OptScalars>(),
    full::<VecScalars>(),
    full::<AttrScalars>(),
    full::<AttrOptScalars>(),
    full::<AttrVecs>(),
    full::<OneStr>(),
    full::<OneInt>(),
    full::<OneVec>(),
    full::<OneVecU8>(),
    full::<EmptyStruct>(),
    full::<Renamed>(),
    full::<Raw>(),
    full::<DefScalars>(),
    full::<DefAttrs>(),
    full::<SkipIf>(),
    full::<Skip>(),
    full::<SkipAttr>(),
    full::<TextOnly>(),
    full::<TextAttr>(),
    full::<TextOpt>(),
    full::<CData>(),
    full::<CDataMany>(),
    full::<Color>(),
    full::<Level>(),
    full::<OneUnit>(),
    full::<Tagged>(),
    full::<NewScalars>(),
    full::<Meters>(),
    full::<Name>(),
    full::<Ratio>(),
    full::<Flag>(),
    full::<Signed>(),
    full::<Small>(),
    full::<DisplayMeters>(),
    full::<HexFlags>(),
    full::<HexWide>(),
    full::<HexByte>(),
    full::<Inner>(),
    full::<InnerAttr>(),
    full::<Nested>(),
    full::<NestedOpt>(),
    full::<NestedVec>(),
    full::<Deep1>(),
    full::<Deep2>(),
    full::<Deep3>(),
    full::<Deep4>(),
    full::<Deep5>(),
    full::<TextKids>(),
    full::<EnumKids>(),
    full::<TaggedKids>(),
    full::<PrimKids>(),
    full::<HexKids>(),
    full::<AttrKinds>(),
    full::<AttrDefault>(),
    full::<AttrVecKinds>(),
    full::<Stamp>(),
    full::<Token>(),
    full::<CustomKids>(),
    full::<GenBoxInner>(),
    full::<GenBoxTextAttr>(),
    full::<GenBoxMeters>(),
    full::<GenBoxColor>(),
    full::<GenBoxOneStr>(),
    full::<GenKids>(),
    full::<NewKinds>(),
    full::<Shape>(),
    full::<Mixed>(),
    full::<VecEnum>(),
    full::<PrimEnum>(),
    full::<EnumStruct>(),
    full::<EnumStruct2>(),
    full::<EnumStruct3>(),
    full::<EnumOfEnum>(),
    full::<EnumAttrPay>(),
    full::<EnumStruct4>(),
    full::<Tree>(),
    full::<Chain>(),
    full::<Expr>(),
    full::<Group>(),
    full::<Forest>(),
    full::<FlatInner>(),
    full::<FlatOpt>(),
    full::<FlatAttr>(),
    full::<FlatVec>(),
    full::<FlatStruct>(),
    full::<FlatKind>(),
    full::<Flat1>(),
    full::<Flat2>(),
    full::<Flat3>(),
    full::<Flat4>(),
    full::<Flat5>(),
    full::<FlatNest1>(),
    full::<FlatNest2>(),
    full::<FlatSib>(),
    full::<FlatDefault>(),
    full::<FlatInside>(),
    full::<RootFlat>(),
    full::<RootFlat2>(),
    full::<RootFlat3>(),
    full::<RootFlat4>(),
    full::<FlatMarked>(),
    full::<FlatMarkHost>(),
    full::<FlatPlain>(),
    full::<FlatPlainHost>(),
    full::<RootFlatEnum>(),
    full::<FlatEnumAttr>(),
    full::<FlatEnumHolder>(),
    full::<DefKinds>(),
    full::<DefAttrKinds>(),
    full::<DefStructs>(),
    full::<DefAttrStructs>(),
    full::<DefOptSkip>(),
    full::<TextDefault>(),
    full::<TextOptDefault>(),
    full::<TextSkip>(),
    full::<TextSkipIf>(),
    full::<TextDefKids>(),
    full::<FlatReqAttr>(),
    full::<FlatOptAttr>(),
    full::<FlatOptAttr2>(),
    full::<FlatSkipPart>(),
    full::<FlatTextIn>(),
    full::<FlatTextHost>(),
    full::<FlatTag>(),
    full::<FlatTagOpt>(),
    full::<FlatDeepAttr1>(),
    full::<FlatDeepAttr>(),
    full::<FlatKids>(),
    full::<Paths>(),
    full::<PathAttrs>(),
    full::<PathEnum>(),
    full::<PathKids>(),
    full::<MacroTypes>(),
    full::<MacroAttrs>(),
    enc_only::<OptVecs>(),
    enc_only::<FlatVecPart>(),
    enc_only::<NamedVariants>(),
    enc_only::<FlatVariant>(),
    enc_only::<NamedHolder>(),
    enc_only::<EncScalars>(),
    enc_only::<EncAttrs>(),
    enc_only::<EncNs>(),
    enc_only::<EncPayloads>(),
    enc_only::<NamedLists>(),
    enc_only::<NamedFlat>(),
    enc_only::<NamedFlatHost>(),
    enc_only::<EncKids>(),
    full::<NsRoot>(),
    full::<NsAttr>(),
    full::<NsInner>(),
    full::<NsNest>(),
    full::<NsDefInner>(),
    full::<NsDef>(),
    full::<NsDef2>(),
    full::<SameLocal>(),
    full::<NsEnum>(),
    full::<NsPayEnum>(),
    full::<NsPayHolder>(),
    full::<NsEnumHolder>(),
    full::<NsFlatAttr>(),
    full::<NsFlat>(),
    full::<NsFlatElem>(),
    full::<NsFlat2>(),
    full::<NsFlat3>(),
    full::<NsFlat4>(),
    full::<NsFlat5>(),
    full::<NsFlatKids>(),
    full::<NsEnumAttrs>(),
    full::<SubSub>(),
    full::<Sub>(),
    full::<SameName>(),
    full::<SelfName>(),
    full::<SelfName2>(),
    full::<SelfName3>(),
    full::<SelfHolder>(),
    full::<SelfRoot>(),
    full::<AttrSame>(),
    full::<Book>(),
    full::<Library>(),
    full::<Wide>(),
    full::<VerA>(),
    full::<VerB>(),
    full::<VerC>(),
    full::<VerKidA>(),
    full::<VerKidB>(),
    full::<IntlLevel>(),
    full::<IntlPay>(),
    enc_only::<NamedOpts>(),
    enc_only::<NamedOptsHost>(),
    enc_only::<IntlNamed>(),
    full::<Intl>(),
    full::<IntlNs>(),
    full::<Cases>(),
    full::<LongKid>(),
    full::<LongPay>(),
    full::<LongNames>(),
    full::<RV0v0>(),
    full::<RV0v1>(),
    full::<RV1v0>(),
    full::<RV1v1>(),
    full::<RV2v0>(),
    full::<RV2v1>(),
    full::<RV2v2>(),
    full::<RV3v0>(),
    full::<RV3v1>(),
    full::<RV4v0>(),
    full::<RV4v1>(),
    full::<RF0>(),
    full::<R0>(),
    full::<R1>(),
    full::<R2>(),
    full::<RE3>(),
    full::<R4>(),
    full::<R5>(),
    full::<R6>(),
    full::<R7>(),
    full::<RE8>(),
    full::<RF9>(),
    full::<R9>(),
    full::<R10>(),
    full::<R11>(),
    full::<R12>(),
    full::<RE13>(),
    full::<R14>(),
    full::<R15>(),
    full::<R16>(),
    full::<R17>(),
    full::<RE18>(),
    full::<R19>(),
    full::<R20>(),
    full::<R21>(),
    full::<R22>(),
    full::<RE23>(),
    full::<R24>(),
    full::<R25>(),
    full::<RF26>(),
    full::<R26>(),
    full::<RF27>(),
    full::<R27>(),
    full::<RE28>(),
    full::<R29>(),
    full::<R30>(),
    full::<RF31>(),
    full::<R31>(),
    full::<RF32>(),
    full::<R32>(),
    full::<RE33>(),
    full::<R34>(),
    full::<RF35>(),
    full::<R35>(),
    full::<R36>(),
    full::<R37>(),
    full::<RE38>(),
    full::<R39>(),
    full::<RF40>(),
    full::<R40>(),
    full::<R41>(),
    full::<RF42>(),
    full::<R42>(),
    full::<RE43>(),
    full::<R44>(),
  ]
}

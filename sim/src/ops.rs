//! Type-erased entry points of the code under test.
use crate::io::{DynR, DynW, SimIo};
use crate::val::{Glue, Val};
use yaserde::{ser::Config, YaDeserialize, YaSerialize};

#[derive(Clone, Copy)]
pub struct Ops {
  pub decode: fn(DynR) -> Result<Val, String>,
  pub decode_str: fn(&str) -> Result<Val, String>,
  pub encode: fn(&Val, SimIo, &Config) -> Result<SimIo, String>,
  pub encode_dyn: fn(&Val, DynW, &Config) -> Result<(), String>,
  pub encode_content: fn(&Val, SimIo) -> Result<SimIo, String>,
  pub to_string: fn(&Val) -> Result<String, String>,
  pub to_string_config: fn(&Val, &Config) -> Result<String, String>,
  pub to_string_content: fn(&Val) -> Result<String, String>,
  /// runs the two directions without going through `Val` on the way (for memory accounting)
  pub decode_drop: fn(DynR) -> Result<(), String>,
  /// one element of a longer document, at the cursor's place
  pub decode_at: fn(&mut yaserde::de::Deserializer<DynR>) -> Result<Val, String>,
  pub encode_at: fn(&Val, &mut yaserde::ser::Serializer<SimIo>) -> Result<(), String>,
}
fn decode_at<T: YaDeserialize + Glue>(d: &mut yaserde::de::Deserializer<DynR>) -> Result<Val, String> {
  T::deserialize(d).map(|x| x.to_val())
}
fn encode_at<T: YaSerialize + Glue>(v: &Val, w: &mut yaserde::ser::Serializer<SimIo>) -> Result<(), String> {
  T::from_val(v).serialize(w)
}
fn no<T>() -> Result<T, String> {
  panic!("harness: operation not available for this type")
}
fn decode<T: YaDeserialize + Glue>(r: DynR) -> Result<Val, String> {
  yaserde::de::from_reader::<DynR, T>(r).map(|x| x.to_val())
}
fn decode_drop<T: YaDeserialize + Glue>(r: DynR) -> Result<(), String> {
  yaserde::de::from_reader::<DynR, T>(r).map(|_| ())
}
fn decode_str<T: YaDeserialize + Glue>(s: &str) -> Result<Val, String> {
  yaserde::de::from_str::<T>(s).map(|x| x.to_val())
}
fn encode<T: YaSerialize + Glue>(v: &Val, w: SimIo, c: &Config) -> Result<SimIo, String> {
  yaserde::ser::serialize_with_writer(&T::from_val(v), w, c)
}
fn encode_dyn<T: YaSerialize + Glue>(v: &Val, w: DynW, c: &Config) -> Result<(), String> {
  yaserde::ser::serialize_with_writer(&T::from_val(v), w, c).map(|_| ())
}
fn encode_content<T: YaSerialize + Glue>(v: &Val, w: SimIo) -> Result<SimIo, String> {
  yaserde::ser::serialize_with_writer_content(&T::from_val(v), w)
}
fn to_string<T: YaSerialize + Glue>(v: &Val) -> Result<String, String> {
  yaserde::ser::to_string(&T::from_val(v))
}
fn to_string_config<T: YaSerialize + Glue>(v: &Val, c: &Config) -> Result<String, String> {
  yaserde::ser::to_string_with_config(&T::from_val(v), c)
}
fn to_string_content<T: YaSerialize + Glue>(v: &Val) -> Result<String, String> {
  yaserde::ser::to_string_content(&T::from_val(v))
}
pub fn full<T: YaSerialize + YaDeserialize + Glue>() -> Ops {
  Ops {
    decode: decode::<T>,
    decode_str: decode_str::<T>,
    encode: encode::<T>,
    encode_dyn: encode_dyn::<T>,
    encode_content: encode_content::<T>,
    to_string: to_string::<T>,
    to_string_config: to_string_config::<T>,
    to_string_content: to_string_content::<T>,
    decode_drop: decode_drop::<T>,
    decode_at: decode_at::<T>,
    encode_at: encode_at::<T>,
  }
}
pub fn enc_only<T: YaSerialize + Glue>() -> Ops {
  Ops {
    decode: |_| no(),
    decode_str: |_| no(),
    encode: encode::<T>,
    encode_dyn: encode_dyn::<T>,
    encode_content: encode_content::<T>,
    to_string: to_string::<T>,
    to_string_config: to_string_config::<T>,
    to_string_content: to_string_content::<T>,
    decode_drop: |_| no(),
    decode_at: |_| no(),
    encode_at: encode_at::<T>,
  }
}
pub fn dec_only<T: YaDeserialize + Glue>() -> Ops {
  Ops {
    decode: decode::<T>,
    decode_str: decode_str::<T>,
    encode: |_, _, _| no(),
    encode_dyn: |_, _, _| no(),
    encode_content: |_, _| no(),
    to_string: |_| no(),
    to_string_config: |_, _| no(),
    to_string_content: |_| no(),
    decode_drop: decode_drop::<T>,
    decode_at: decode_at::<T>,
    encode_at: |_, _| no(),
  }
}

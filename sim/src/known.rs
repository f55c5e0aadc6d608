//! Fixed inputs on which the pinned tree breaks a property and which were recorded rather than repaired
//! (known_findings.txt). The generators leave these shapes out; each is tried here, by itself, so that a
//! repair or a different failure on the same input is noticed.
use std::fmt::Debug;
use yaserde::ser::Config;
use yaserde::*;

macro_rules! ty { ($($t:tt)*) => { #[derive(Debug, Clone, PartialEq, YaSerialize, YaDeserialize)] $($t)* } }
ty! { #[derive(Default)] struct TextOnly { #[yaserde(text = true)] v: String } }
ty! { #[derive(Default)] struct AttrT { #[yaserde(attribute = true)] x: TextOnly } }
ty! { #[derive(Default)] #[yaserde(prefix = "p", namespaces = {"p" = "urn:x?a=1&b=2"})] struct NsAmp { #[yaserde(prefix = "p")] v: String } }
ty! { #[derive(Default)] struct FlIn { inner: String } }
ty! { #[derive(Default)] struct FlHost { a: String, #[yaserde(flatten = true)] f: FlIn } }
ty! { #[derive(Default)] struct FlText { #[yaserde(flatten = true)] f: FlIn, #[yaserde(text = true)] t: String } }
ty! { #[derive(Default)] struct AttrNs { #[yaserde(attribute = true)] id: u8 } }
ty! { #[allow(non_camel_case_types)] enum En { circle(u8), opt(Option<u8>), list(Vec<u8>) } }
impl Default for En {
  fn default() -> Self {
    En::circle(0)
  }
}
ty! { #[derive(Default)] struct EnSame { circle: En } }
ty! { #[derive(Default)] struct EnHost { shape: En } }
fn no_number(x: &u8) -> bool {
  *x == 0
}
impl EnIf {
  fn no_number(&self, x: &u8) -> bool {
    no_number(x)
  }
}
#[derive(YaSerialize)]
enum EnIf { A { #[yaserde(skip_serializing_if = "no_number")] a: u8, b: u8 } }
ty! { enum EnN { A, B { x: u8, y: String } } }
impl Default for EnN {
  fn default() -> Self {
    EnN::A
  }
}
ty! { #[yaserde(prefix = "p", namespaces = {"p" = "urn:p"})] enum EnNs { #[yaserde(prefix = "p")] A(u8), #[yaserde(prefix = "p")] B(u8) } }
impl Default for EnNs {
  fn default() -> Self {
    EnNs::A(0)
  }
}
ty! { #[derive(Default)] struct One { a: String } }
ty! { #[derive(Default)] struct Rec { kid: Vec<Rec> } }
ty! { #[derive(Default)] #[yaserde(prefix = "d", default_namespace = "d", namespaces = {"d" = "urn:d"})] struct DefNs { #[yaserde(prefix = "d")] val: String } }
ty! { #[derive(Default)] #[yaserde(prefix = "d", default_namespace = "d", namespaces = {"d" = "urn:d"})] struct DefNsBare { val: String } }
ty! { #[derive(Default)] struct DefNsHost { child: DefNs } }
ty! { #[derive(Default)] struct TO { #[yaserde(text = true)] v: Option<String> } }
ty! { #[derive(Default)] #[yaserde(prefix = "p", namespaces = {"p" = "urn:two"})] struct ClashIn { #[yaserde(prefix = "p")] v: u8 } }
ty! { #[derive(Default)] #[yaserde(prefix = "p", namespaces = {"p" = "urn:one"})] struct Clash { #[yaserde(prefix = "p")] kid: ClashIn } }
ty! { #[derive(Default)] #[yaserde(prefix = "p", namespaces = {"p" = "urn:one"})] struct ClashOpt { #[yaserde(prefix = "p")] kid: Option<ClashIn> } }
fn seven() -> Option<u8> {
  Some(7)
}
fn fl_in() -> FlIn {
  FlIn { inner: "std".into() }
}
#[derive(Debug, Clone, PartialEq, Default, YaSerialize, YaDeserialize)]
struct OptDef {
  #[yaserde(default = "seven")]
  n: Option<u8>,
}
ty! { #[derive(Default)] struct FlDef { a: String, #[yaserde(flatten = true, default = "fl_in")] f: FlIn } }
ty! { #[yaserde(tag = "kind")] enum TagPay { U, A(FlIn), B(u8) } }
impl Default for TagPay {
  fn default() -> Self {
    TagPay::U
  }
}

#[derive(Debug, Clone, PartialEq, Default, YaSerialize, YaDeserialize)]
#[yaserde(flatten = true)]
struct RootFlat {
  y: u8,
  z: Option<u8>,
}
ty! { #[derive(Default)] #[yaserde(flatten = true)] struct RootFlatPart { #[yaserde(flatten = true)] f: FlIn, y: u8 } }
#[derive(Debug, Clone, PartialEq, Default, YaSerialize, YaDeserialize)]
#[yaserde(flatten = true)]
struct RootFlatAttr {
  #[yaserde(attribute = true)]
  a: Option<u8>,
  y: u8,
}
ty! { #[derive(Default)] struct RootFlatHost { part: RootFlat, k: u8 } }

fn dec<T: YaDeserialize + Debug>(s: &str) -> String {
  match de::from_str::<T>(s) {
    Ok(v) => format!("Ok({v:?})"),
    Err(_) => "Err".into(),
  }
}
fn enc<T: YaSerialize>(v: T) -> String {
  match ser::to_string_with_config(&v, &Config { perform_indent: false, write_document_declaration: false, indent_string: None }) {
    Ok(s) => format!("{s:?}"),
    Err(_) => "Err".into(),
  }
}
fn trip<T: YaSerialize + YaDeserialize + Debug>(v: T) -> String {
  match ser::to_string(&v) {
    Ok(s) => dec::<T>(&s),
    Err(_) => "Refused".into(),
  }
}
fn ok<T: Debug>(v: T) -> String {
  format!("Ok({v:?})")
}
/// (property, name, observed, the outcome the property calls for)
pub struct Probe {
  pub prop: &'static str,
  pub id: &'static str,
  pub f: fn() -> (String, String),
}
fn s(x: &str) -> String {
  x.to_string()
}
pub const PROBES: &[Probe] = &[
  Probe { prop: "C01", id: "pi-in-text", f: || (dec::<TO>("<TO>abc<?p x?>def</TO>"), ok(TO { v: Some(s("abcdef")) })) },
  Probe { prop: "C01", id: "pi-in-scalar", f: || (dec::<One>("<One><a>abc<?p x?>def</a></One>"), ok(One { a: s("abcdef") })) },
  Probe { prop: "C01", id: "crlf-text", f: || (dec::<One>("<One><a>x\r\ny</a></One>"), ok(One { a: s("x\ny") })) },
  Probe { prop: "C01", id: "enum-self-name", f: || (dec::<EnSame>("<EnSame><circle><circle>7</circle></circle></EnSame>"), ok(EnSame { circle: En::circle(7) })) },
  Probe { prop: "C06", id: "attr-markup", f: || (enc(AttrT { x: TextOnly { v: s("a&b") } }), format!("{:?}", "<AttrT x=\"a&amp;b\" />")) },
  Probe { prop: "C06", id: "ns-amp", f: || (enc(NsAmp { v: s("q") }), format!("{:?}", "<p:NsAmp xmlns:p=\"urn:x?a=1&amp;b=2\"><p:v>q</p:v></p:NsAmp>")) },
  Probe { prop: "C06", id: "control-char", f: || (enc(One { a: s("x\u{1}y") }), s("Err")) },
  Probe { prop: "C06", id: "cr-text", f: || (enc(One { a: s("x\ry") }), format!("{:?}", "<One><a>x&#xD;y</a></One>")) },
  Probe { prop: "C06", id: "named-skip-if", f: || (enc(EnIf::A { a: 0, b: 2 }), format!("{:?}", "<EnIf><b>2</b></EnIf>")) },
  Probe { prop: "C08", id: "text-trim", f: || (trip(One { a: s(" lead") }), ok(One { a: s(" lead") })) },
  Probe { prop: "C08", id: "text-trim-end", f: || (trip(TO { v: Some(s("trail ")) }), ok(TO { v: Some(s("trail ")) })) },
  Probe { prop: "C08", id: "control-char", f: || (trip(One { a: s("x\u{1}y") }), s("Refused")) },
  Probe { prop: "C14", id: "opt-text-empty", f: || (trip(TO { v: Some(s("")) }), ok(TO { v: Some(s("")) })) },
  Probe { prop: "C14", id: "enum-named", f: || (trip(EnN::B { x: 1, y: s("q") }), ok(EnN::B { x: 1, y: s("q") })) },
  Probe { prop: "C14", id: "enum-empty-option", f: || (trip(EnHost { shape: En::opt(None) }), ok(EnHost { shape: En::opt(None) })) },
  Probe { prop: "C14", id: "enum-empty-list", f: || (trip(EnHost { shape: En::list(vec![]) }), ok(EnHost { shape: En::list(vec![]) })) },
  Probe { prop: "C14", id: "default-ns-child", f: || (trip(DefNsHost { child: DefNs { val: s("q") } }), ok(DefNsHost { child: DefNs { val: s("q") } })) },
  Probe { prop: "C14", id: "default-ns-bare", f: || (trip(DefNsBare { val: s("q") }), ok(DefNsBare { val: s("q") })) },
  Probe { prop: "C14", id: "default-none", f: || (trip(OptDef { n: None }), ok(OptDef { n: None })) },
  Probe { prop: "C14", id: "flatten-default", f: || (trip(FlDef { a: s("q"), f: fl_in() }), ok(FlDef { a: s("q"), f: fl_in() })) },
  Probe { prop: "C14", id: "tag-payload", f: || (trip(TagPay::A(FlIn { inner: s("q") })), ok(TagPay::A(FlIn { inner: s("q") }))) },
  Probe { prop: "C14", id: "tag-scalar", f: || (trip(TagPay::B(5)), ok(TagPay::B(5))) },
  Probe { prop: "C14", id: "prefix-clash", f: || (trip(Clash { kid: ClashIn { v: 3 } }), ok(Clash { kid: ClashIn { v: 3 } })) },
  Probe { prop: "C14", id: "prefix-clash-lost", f: || (trip(ClashOpt { kid: Some(ClashIn { v: 3 }) }), ok(ClashOpt { kid: Some(ClashIn { v: 3 }) })) },
  Probe { prop: "C14", id: "flatten-root-part", f: || (trip(RootFlatPart { f: fl_in(), y: 4 }), ok(RootFlatPart { f: fl_in(), y: 4 })) },
  Probe { prop: "C14", id: "flatten-root-attr", f: || (trip(RootFlatAttr { a: Some(1), y: 4 }), ok(RootFlatAttr { a: Some(1), y: 4 })) },
  Probe { prop: "C14", id: "flatten-nested", f: || (trip(RootFlatHost { part: RootFlat { y: 1, z: None }, k: 2 }), ok(RootFlatHost { part: RootFlat { y: 1, z: None }, k: 2 })) },
  Probe {
    prop: "C05",
    id: "deep-recursion",
    f: || {
      // on a stack of known size; an overflow ends the process
      let t = std::thread::Builder::new().stack_size(8 << 20).spawn(|| {
        let n = 100_000;
        let r = de::from_str::<Rec>(&format!("<Rec>{}{}</Rec>", "<kid>".repeat(n), "</kid>".repeat(n)));
        std::mem::forget(r);
      });
      let _ = t.map(|t| t.join());
      (s("ended"), s("ended"))
    },
  },
  Probe {
    prop: "C10",
    id: "flatten-ns-amp",
    f: || (dec::<FlHost>("<FlHost><a>1</a><z:zz xmlns:z=\"urn:a&amp;b\"/><inner>2</inner></FlHost>"), ok(FlHost { a: s("1"), f: FlIn { inner: s("2") } })),
  },
  Probe { prop: "C10", id: "flatten-root-first", f: || (dec::<RootFlat>("<other><y>2</y></other><y>1</y><z>3</z>"), ok(RootFlat { y: 1, z: Some(3) })) },
  Probe { prop: "C10", id: "attr-ns", f: || (dec::<AttrNs>("<AttrNs id=\"1\" xmlns:z=\"urn:z\" z:id=\"2\"/>"), ok(AttrNs { id: 1 })) },
  Probe {
    prop: "C10",
    id: "enum-ns",
    f: || (dec::<EnNs>("<p:EnNs xmlns:p=\"urn:p\" xmlns:z=\"urn:z\"><p:B>1</p:B><z:A>2</z:A></p:EnNs>"), ok(EnNs::B(1))),
  },
  Probe { prop: "C10", id: "scalar-foreign", f: || (dec::<One>("<One><a>abc<z/></a></One>"), ok(One { a: s("abc") })) },
  Probe {
    prop: "C10",
    id: "text-split",
    f: || (dec::<FlText>("<FlText><inner>i</inner>x<zz/>y</FlText>"), ok(FlText { f: FlIn { inner: s("i") }, t: s("xy") })),
  },
];
pub fn of(prop: &str) -> impl Iterator<Item = &'static Probe> + '_ {
  PROBES.iter().filter(move |p| p.prop == prop)
}

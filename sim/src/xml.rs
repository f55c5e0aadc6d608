//! Element trees with expanded names, a renderer with random (insignificant) lexical choices, and an
//! independent namespace-aware parser used as the oracle for what the encoder wrote.
use crate::choice::Src;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Attr {
  pub ns: String,
  pub local: String,
  pub value: String,
  /// the value is a list of words: the white space around them is free
  pub list: bool,
}
impl PartialEq for Attr {
  fn eq(&self, o: &Attr) -> bool {
    (&self.ns, &self.local, &self.value) == (&o.ns, &o.local, &o.value)
  }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Elem {
  pub ns: String,
  pub local: String,
  pub attrs: Vec<Attr>,
  pub kids: Vec<Node>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Node {
  E(Elem),
  T(String),
  /// text that the encoder must write as CDATA
  C(String),
}
impl Elem {
  pub fn new(ns: &str, local: &str) -> Elem {
    Elem { ns: ns.into(), local: local.into(), attrs: vec![], kids: vec![] }
  }
  pub fn attr(&mut self, ns: &str, local: &str, value: String) {
    self.attrs.push(Attr { ns: ns.into(), local: local.into(), value, list: false });
  }
  pub fn elems(&self) -> impl Iterator<Item = &Elem> {
    self.kids.iter().filter_map(|k| if let Node::E(e) = k { Some(e) } else { None })
  }
  pub fn text_content(&self) -> String {
    let mut s = String::new();
    for k in &self.kids {
      if let Node::T(t) | Node::C(t) = k {
        s.push_str(t)
      }
    }
    s
  }
  pub fn count(&self) -> usize {
    1 + self.elems().map(|e| e.count()).sum::<usize>()
  }
  pub fn has_text(&self) -> bool {
    self.kids.iter().any(|k| matches!(k, Node::T(t) | Node::C(t) if !t.is_empty()))
  }
  pub fn all_ns(&self, out: &mut Vec<String>) {
    if !out.contains(&self.ns) {
      out.push(self.ns.clone());
    }
    for a in &self.attrs {
      if !out.contains(&a.ns) {
        out.push(a.ns.clone());
      }
    }
    for e in self.elems() {
      e.all_ns(out);
    }
  }
  fn elem_ns(&self, out: &mut Vec<String>) {
    if !out.contains(&self.ns) {
      out.push(self.ns.clone());
    }
    for e in self.elems() {
      e.elem_ns(out);
    }
  }
  /// canonical form for comparison: attributes sorted, adjacent text merged, empty text dropped; with
  /// `indented`, white space between elements is dropped too
  pub fn canon(&self, indented: bool) -> Elem {
    let mut e = Elem::new(&self.ns, &self.local);
    e.attrs = self.attrs.clone();
    e.attrs.sort_by(|a, b| (&a.ns, &a.local, &a.value).cmp(&(&b.ns, &b.local, &b.value)));
    let blank = |t: &str| t.chars().all(|c| c == ' ' || c == '\n' || c == '\t' || c == '\r');
    let has_elem = self.elems().next().is_some() || self.kids.iter().any(|k| matches!(k, Node::C(_)));
    for k in &self.kids {
      match k {
        Node::E(x) => e.kids.push(Node::E(x.canon(indented))),
        Node::C(t) => {
          if t.is_empty() {
            continue;
          }
          // neighbouring sections are one (a section cannot hold its own end marker)
          if let Some(Node::C(p)) = e.kids.last_mut() {
            p.push_str(t);
          } else {
            e.kids.push(Node::C(t.clone()));
          }
        }
        Node::T(t) => {
          if t.is_empty() || (indented && has_elem && blank(t)) {
            continue;
          }
          if let Some(Node::T(p)) = e.kids.last_mut() {
            p.push_str(t);
          } else {
            e.kids.push(Node::T(t.clone()));
          }
        }
      }
    }
    e
  }
  pub fn show(&self) -> String {
    let mut s = String::new();
    self.show_in(&mut s);
    s
  }
  fn show_in(&self, s: &mut String) {
    s.push_str(&format!("<{{{}}}{}", self.ns, self.local));
    for a in &self.attrs {
      s.push_str(&format!(" {{{}}}{}={:?}", a.ns, a.local, a.value));
    }
    s.push('>');
    for k in &self.kids {
      match k {
        Node::E(e) => e.show_in(s),
        Node::T(t) => s.push_str(&format!("{t:?}")),
        Node::C(t) => s.push_str(&format!("CDATA{t:?}")),
      }
    }
    s.push_str("</>");
  }
}

// ---------------------------------------------------------------- rendering

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Enc {
  Utf8,
  Utf8Bom,
  Utf16Le,
  Utf16Be,
  Latin1,
  Ascii,
}
#[derive(Clone, Debug)]
pub struct Noise {
  /// 0 = minimal form; otherwise probability weight in 16ths of each decoration
  pub level: u64,
  pub prolog: bool,
  pub trailing: bool,
  pub enc: Enc,
}
impl Noise {
  pub fn none() -> Noise {
    Noise { level: 0, prolog: false, trailing: false, enc: Enc::Utf8 }
  }
  pub fn gen(s: &mut Src, trailing_ok: bool) -> Noise {
    let level = *s.pick(&[0u64, 0, 1, 3, 6]);
    let prolog = s.chance(1, 3);
    let trailing = trailing_ok && s.chance(1, 4);
    let enc = [Enc::Utf8, Enc::Utf8Bom, Enc::Utf16Le, Enc::Utf16Be, Enc::Latin1, Enc::Ascii]
      [s.weighted(&[20, 1, 1, 1, 1, 1])];
    Noise { level, prolog, trailing, enc }
  }
}
/// A rendered document.
#[derive(Clone, Debug)]
pub struct Doc {
  pub bytes: Vec<u8>,
  /// offset just after the `>` of the (last) root close tag
  pub end: usize,
  pub text: String,
  /// offsets just after the elements at the wanted depth (see `render_at`)
  pub marks: Vec<usize>,
}
struct Rend<'a> {
  s: &'a mut Src,
  n: Noise,
  o: String,
  counter: usize,
  depth: usize,
  mark: usize,
  marks: Vec<usize>,
}
pub const PREFIXES: [&str; 6] = ["a", "ns", "p1", "x-y", "q.z", "_b"];

impl<'a> Rend<'a> {
  fn coin(&mut self) -> bool {
    self.n.level > 0 && self.s.chance(self.n.level, 16)
  }
  fn ws(&mut self) {
    let k = self.s.below(4);
    self.o.push_str([" ", "\n", "\t ", "  \n  "][k]);
  }
  /// another spelling of a list of words
  fn words(&mut self, list: &str) -> String {
    let mut o = String::new();
    for w in list.split(' ') {
      if !o.is_empty() || self.s.chance(1, 12) {
        o.push_str(self.s.pick(&[" ", " ", "  ", "\t", "\n", " \n\t "]));
      }
      o.push_str(w);
    }
    if self.s.chance(1, 12) {
      o.push(' ');
    }
    o
  }
  fn misc(&mut self, pi_ok: bool) {
    // insignificant material between tags
    while self.coin() {
      match self.s.below(if pi_ok { 3 } else { 2 }) {
        0 => self.ws(),
        1 => {
          let k = self.s.below(4);
          self.o.push_str(["<!-- c -->", "<!---->", "<!--<a>&x;</a>-->", "<!-- - x>y ]]> -->"][k]);
        }
        _ => {
          let k = self.s.below(2);
          self.o.push_str(["<?pi data?>", "<?p <a></a> ?>"][k]);
        }
      }
    }
  }
  fn ch(&mut self, c: char, q: Option<char>) {
    // one character of text (q = None) or of an attribute value quoted with q
    let direct_ok = match self.n.enc {
      Enc::Latin1 => (c as u32) < 256,
      Enc::Ascii => (c as u32) < 128,
      _ => true,
    };
    let must = match c {
      '<' | '&' => true,
      '>' => self.o.ends_with("]]"),
      '\r' => true,
      // C1 controls and whitespace at risk of normalisation are always written as references
      '\n' | '\t' => q.is_some(),
      c if Some(c) == q => true,
      _ => false,
    };
    if must || !direct_ok || (self.n.level > 1 && self.s.chance(1, 40)) {
      let named = match c {
        '<' => Some("&lt;"),
        '>' => Some("&gt;"),
        '&' => Some("&amp;"),
        '"' => Some("&quot;"),
        '\'' => Some("&apos;"),
        _ => None,
      };
      match (named, if self.n.level > 0 { self.s.below(3) } else { 0 }) {
        (Some(n), 0) => self.o.push_str(n),
        (_, 2) => self.o.push_str(&format!("&#x{:X};", c as u32)),
        _ => self.o.push_str(&format!("&#{};", c as u32)),
      }
    } else {
      self.o.push(c);
    }
  }
  fn text(&mut self, t: &str) {
    let representable = |c: char, e: Enc| match e {
      Enc::Latin1 => (c as u32) < 256,
      Enc::Ascii => (c as u32) < 128,
      _ => true,
    };
    if self.n.level > 0
      && !t.is_empty()
      && !t.contains("]]>")
      && !t.contains('\r')
      && t.chars().all(|c| representable(c, self.n.enc))
      && self.s.chance(self.n.level, 40)
    {
      self.o.push_str("<![CDATA[");
      self.o.push_str(t);
      self.o.push_str("]]>");
      return;
    }
    if self.coin() && !t.is_empty() {
      // surrounding white space is trimmed
      self.ws();
    }
    let cut = self.n.level > 2 && t.len() > 1 && self.s.chance(1, 6);
    let n = t.chars().count();
    let at = if cut { 1 + self.s.below(n.max(2) - 1) } else { n };
    let how = if cut { self.s.below(2) } else { 0 };
    let (mut cdata, mut end) = (false, n);
    if cut && how == 1 {
      // a stretch of the text as CDATA
      let part: String = t.chars().skip(at).take(3).collect();
      if !part.is_empty() && !part.contains("]]>") && !part.contains('\r') && part.chars().all(|c| representable(c, self.n.enc)) {
        cdata = true;
        end = at + part.chars().count();
      }
    }
    for (i, c) in t.chars().enumerate() {
      if i == at && cut {
        if cdata {
          self.o.push_str("<![CDATA[");
        } else if how == 0 {
          self.o.push_str("<!--i-->");
        }
      }
      if cdata && i == end {
        self.o.push_str("]]>");
      }
      if cdata && i >= at && i < end {
        self.o.push(c);
      } else {
        self.ch(c, None);
      }
    }
    if cdata && end >= n {
      self.o.push_str("]]>");
    }
    if self.coin() && !t.is_empty() {
      self.ws();
    }
  }
  fn elem(&mut self, e: &Elem, scope: &BTreeMap<String, String>, root: bool) {
    // scope: prefix -> ns ("" prefix = default namespace)
    let mut scope = scope.clone();
    let mut decls: Vec<(String, String)> = vec![];
    let mut need: Vec<(String, bool)> = vec![(e.ns.clone(), false)];
    for a in &e.attrs {
      need.push((a.ns.clone(), true));
    }
    if root && self.s.chance(1, 2) {
      // declare everything up front
      let mut all = vec![];
      e.all_ns(&mut all);
      for n in all {
        need.push((n, true));
      }
    }
    let mut elem_ns = vec![];
    e.elem_ns(&mut elem_ns);
    if !e.ns.is_empty()
      && elem_ns.len() == 1
      && !scope.contains_key("")
      && self.s.chance(1, 3)
    {
      scope.insert(String::new(), e.ns.clone());
      decls.push((String::new(), e.ns.clone()));
    }
    for (ns, attr) in need {
      if ns.is_empty() {
        continue;
      }
      let have = scope.iter().any(|(p, n)| *n == ns && (!attr || !p.is_empty()));
      if !have {
        self.counter += 1;
        let mut p = PREFIXES[(self.counter * 7 + self.s.below(2)) % PREFIXES.len()].to_string();
        if scope.contains_key(&p) {
          p = format!("{p}{}", self.counter);
        }
        scope.insert(p.clone(), ns.clone());
        decls.push((p, ns));
      }
    }
    let qn = |scope: &BTreeMap<String, String>, ns: &str, local: &str, attr: bool| -> String {
      if ns.is_empty() {
        return local.to_string();
      }
      let p = scope.iter().find(|(p, n)| **n == ns && (!attr || !p.is_empty())).unwrap().0;
      if p.is_empty() {
        local.to_string()
      } else {
        format!("{p}:{local}")
      }
    };
    let name = qn(&scope, &e.ns, &e.local, false);
    self.o.push('<');
    self.o.push_str(&name);
    let mut items: Vec<(String, String)> = vec![];
    for (p, n) in decls {
      items.push((if p.is_empty() { "xmlns".into() } else { format!("xmlns:{p}") }, n));
    }
    for a in &e.attrs {
      let value = if a.list && self.n.level > 0 { self.words(&a.value) } else { a.value.clone() };
      items.push((qn(&scope, &a.ns, &a.local, true), value));
    }
    if self.n.level > 0 && items.len() > 1 {
      let k = self.s.below(items.len());
      items.rotate_left(k);
    }
    for (k, v) in items {
      if self.coin() {
        self.ws();
      } else {
        self.o.push(' ');
      }
      self.o.push_str(&k);
      let sp = self.coin();
      self.o.push_str(if sp { " = " } else { "=" });
      let q = if self.coin() { '\'' } else { '"' };
      self.o.push(q);
      for c in v.chars() {
        self.ch(c, Some(q));
      }
      self.o.push(q);
    }
    if self.coin() {
      self.ws();
    }
    let empty = e.kids.iter().all(|k| matches!(k, Node::T(t) | Node::C(t) if t.is_empty()));
    if empty && !self.s.chance(1, 2) {
      self.o.push_str("/>");
      if self.depth == self.mark {
        self.marks.push(self.o.len());
      }
      return;
    }
    self.o.push('>');
    let mixed = e.has_text();
    let elems_only = !mixed && !empty;
    for k in &e.kids {
      match k {
        Node::E(x) => {
          self.misc(elems_only);
          self.depth += 1;
          self.elem(x, &scope, false);
          self.depth -= 1;
        }
        Node::T(t) | Node::C(t) => self.text(t),
      }
    }
    if elems_only {
      self.misc(true);
    } else if self.coin() {
      self.o.push_str("<!--t-->");
    }
    self.o.push_str("</");
    self.o.push_str(&name);
    if self.coin() {
      self.ws();
    }
    self.o.push('>');
    if self.depth == self.mark {
      self.marks.push(self.o.len());
    }
  }
}
pub fn encode_text(t: &str, enc: Enc) -> Vec<u8> {
  match enc {
    Enc::Utf8 => t.as_bytes().to_vec(),
    Enc::Utf8Bom => {
      let mut v = vec![0xEF, 0xBB, 0xBF];
      v.extend(t.as_bytes());
      v
    }
    Enc::Utf16Le => {
      let mut v = vec![0xFF, 0xFE];
      for u in t.encode_utf16() {
        v.extend(u.to_le_bytes());
      }
      v
    }
    Enc::Utf16Be => {
      let mut v = vec![0xFE, 0xFF];
      for u in t.encode_utf16() {
        v.extend(u.to_be_bytes());
      }
      v
    }
    Enc::Latin1 | Enc::Ascii => t.chars().map(|c| c as u32 as u8).collect(),
  }
}
fn names_fit(e: &Elem, enc: Enc) -> bool {
  let max = match enc {
    Enc::Ascii => 127,
    Enc::Latin1 => 255,
    _ => return true,
  };
  let fits = |n: &str| n.chars().all(|c| c as u32 <= max);
  fits(&e.local)
    && fits(&e.ns)
    && e.attrs.iter().all(|a| fits(&a.ns) && fits(&a.local))
    && e.kids.iter().all(|k| match k {
      Node::E(x) => names_fit(x, enc),
      _ => true,
    })
}
/// Renders one document with the given roots (more than one only for root-flattened types).
pub fn render(s: &mut Src, roots: &[Elem], noise: &Noise) -> Doc {
  render_at(s, roots, noise, usize::MAX)
}
/// As `render`; also notes where each element at depth `mark` ends (the root is at depth 0).
pub fn render_at(s: &mut Src, roots: &[Elem], noise: &Noise, mark: usize) -> Doc {
  let mut noise = noise.clone();
  // a name cannot be written with character references: the encoding must hold it
  if !roots.iter().all(|x| names_fit(x, noise.enc)) {
    noise.enc = Enc::Utf8;
  }
  let mut r = Rend { s, n: noise.clone(), o: String::new(), counter: 0, depth: 0, mark, marks: vec![] };
  let e = noise.enc;
  if noise.prolog || matches!(e, Enc::Latin1 | Enc::Ascii) {
    let ename = match e {
      Enc::Utf8 | Enc::Utf8Bom => *r.s.pick(&[" encoding=\"utf-8\"", " encoding='UTF-8'", ""]),
      Enc::Utf16Le | Enc::Utf16Be => *r.s.pick(&["", " encoding=\"utf-16\""]),
      Enc::Latin1 => " encoding=\"ISO-8859-1\"",
      Enc::Ascii => " encoding=\"US-ASCII\"",
    };
    let sa = *r.s.pick(&["", " standalone='yes'"]);
    r.o.push_str(&format!("<?xml version=\"1.0\"{ename}{sa}?>"));
  }
  if noise.level > 0 {
    r.misc(true);
    if roots.len() == 1 && r.coin() {
      let d = r.s.below(2);
      let _ = d;
      r.o.push_str(&format!("<!DOCTYPE {}>", roots[0].local));
      r.misc(true);
    }
  }
  let scope = BTreeMap::new();
  let mut end_text = 0;
  for (i, e) in roots.iter().enumerate() {
    if i > 0 {
      r.misc(true);
    }
    r.elem(e, &scope, true);
    end_text = r.o.len();
  }
  if noise.trailing {
    r.ws();
    r.misc(true);
  }
  let marks = std::mem::take(&mut r.marks);
  let text = r.o;
  let end = encode_text(&text[..end_text], e).len();
  let marks = marks.into_iter().map(|m| encode_text(&text[..m], e).len()).collect();
  Doc { bytes: encode_text(&text, e), end, text, marks }
}

// ---------------------------------------------------------------- independent parser

pub struct Parsed {
  pub decl: Option<String>,
  pub roots: Vec<Elem>,
  /// whether some text came from a CDATA section: paths of elements
  pub cdata: usize,
  pub comments: usize,
}
struct P<'a> {
  s: &'a str,
  i: usize,
  cdata: usize,
  comments: usize,
}
fn name_char(c: char) -> bool {
  c.is_alphanumeric() || c == '_' || c == '-' || c == '.' || c == ':' || (c as u32) > 0x7f
}
/// Parses the bytes as the encoder writes them (UTF-8). Any deviation from well-formedness is an error.
pub fn parse(bytes: &[u8]) -> Result<Parsed, String> {
  let s = std::str::from_utf8(bytes).map_err(|e| format!("not UTF-8: {e}"))?;
  let mut p = P { s, i: 0, cdata: 0, comments: 0 };
  let mut decl = None;
  if p.s.starts_with("<?xml") {
    let e = p.s.find("?>").ok_or("unterminated declaration")?;
    decl = Some(p.s[..e + 2].to_string());
    p.i = e + 2;
  }
  let mut roots = vec![];
  loop {
    let r = &p.s[p.i..];
    if r.is_empty() {
      break;
    }
    if r.starts_with("</") {
      return Err(format!("unexpected close tag at {}", p.i));
    }
    if r.starts_with('<') {
      let scope = BTreeMap::new();
      let mut d = 0;
      roots.push(p.elem(&scope, &mut d)?);
    } else {
      let c = r.chars().next().unwrap();
      if !c.is_ascii_whitespace() {
        return Err(format!("text outside the root at {}: {:?}", p.i, c));
      }
      p.i += 1;
    }
  }
  Ok(Parsed { decl, roots, cdata: p.cdata, comments: p.comments })
}
impl<'a> P<'a> {
  fn rest(&self) -> &'a str {
    &self.s[self.i..]
  }
  fn eat(&mut self, t: &str) -> Result<(), String> {
    if self.rest().starts_with(t) {
      self.i += t.len();
      Ok(())
    } else {
      Err(format!("expected {t:?} at {}", self.i))
    }
  }
  fn ws(&mut self) -> bool {
    let st = self.i;
    while self.rest().starts_with(|c: char| c.is_ascii_whitespace()) {
      self.i += 1;
    }
    self.i > st
  }
  fn name(&mut self) -> Result<&'a str, String> {
    let r = self.rest();
    let n = r.find(|c: char| !name_char(c)).unwrap_or(r.len());
    if n == 0 {
      return Err(format!("name expected at {}", self.i));
    }
    self.i += n;
    Ok(&r[..n])
  }
  fn reference(&mut self) -> Result<char, String> {
    let r = self.rest();
    let e = r.find(';').ok_or("unterminated reference")?;
    let body = &r[1..e];
    self.i += e + 1;
    match body {
      "lt" => Ok('<'),
      "gt" => Ok('>'),
      "amp" => Ok('&'),
      "quot" => Ok('"'),
      "apos" => Ok('\''),
      b if b.starts_with("#x") => u32::from_str_radix(&b[2..], 16).ok().and_then(char::from_u32).ok_or_else(|| format!("bad reference {b}")),
      b if b.starts_with('#') => b[1..].parse::<u32>().ok().and_then(char::from_u32).ok_or_else(|| format!("bad reference {b}")),
      b => Err(format!("unknown entity {b}")),
    }
  }
  fn elem(&mut self, scope: &BTreeMap<&'a str, String>, depth: &mut usize) -> Result<Elem, String> {
    let _ = depth;
    self.eat("<")?;
    let q = self.name()?;
    let mut scope = scope.clone();
    let mut raw: Vec<(&'a str, String)> = vec![];
    let empty;
    loop {
      let sp = self.ws();
      if self.rest().starts_with("/>") {
        self.i += 2;
        empty = true;
        break;
      }
      if self.rest().starts_with('>') {
        self.i += 1;
        empty = false;
        break;
      }
      if !sp {
        return Err(format!("white space expected at {}", self.i));
      }
      let n = self.name()?;
      self.ws();
      self.eat("=")?;
      self.ws();
      let q = self.rest().chars().next().ok_or("eof in tag")?;
      if q != '"' && q != '\'' {
        return Err(format!("quote expected at {}", self.i));
      }
      self.i += 1;
      let mut v = String::new();
      loop {
        let c = self.rest().chars().next().ok_or("eof in attribute")?;
        if c == q {
          self.i += 1;
          break;
        }
        if c == '<' {
          return Err(format!("< in attribute at {}", self.i));
        }
        if c == '&' {
          v.push(self.reference()?);
        } else {
          v.push(c);
          self.i += c.len_utf8();
        }
      }
      if raw.iter().any(|x| x.0 == n) {
        return Err(format!("attribute {n} repeated at {}", self.i));
      }
      raw.push((n, v));
    }
    for (n, v) in &raw {
      if *n == "xmlns" {
        scope.insert("", v.clone());
      } else if let Some(p) = n.strip_prefix("xmlns:") {
        if v.is_empty() {
          return Err(format!("empty namespace for prefix {p}"));
        }
        scope.insert(p, v.clone());
      }
    }
    let resolve = |q: &str, attr: bool| -> Result<(String, String), String> {
      match q.split_once(':') {
        Some((p, l)) => {
          let ns = scope.get(p).ok_or_else(|| format!("undeclared prefix {p}"))?;
          if l.is_empty() || l.contains(':') {
            return Err(format!("bad name {q}"));
          }
          Ok((ns.clone(), l.to_string()))
        }
        None if attr => Ok((String::new(), q.to_string())),
        None => Ok((scope.get("").cloned().unwrap_or_default(), q.to_string())),
      }
    };
    let (ns, local) = resolve(q, false)?;
    let mut e = Elem::new(&ns, &local);
    for (n, v) in raw {
      if n == "xmlns" || n.starts_with("xmlns:") {
        continue;
      }
      let (ns, local) = resolve(n, true)?;
      if e.attrs.iter().any(|a| a.ns == ns && a.local == local) {
        return Err(format!("attribute {local} repeated"));
      }
      e.attrs.push(Attr { ns, local, value: v, list: false });
    }
    if empty {
      return Ok(e);
    }
    let mut text = String::new();
    macro_rules! flush {
      () => {
        if !text.is_empty() {
          e.kids.push(Node::T(std::mem::take(&mut text)));
        }
      };
    }
    loop {
      let r = self.rest();
      if r.is_empty() {
        return Err("eof in element".into());
      }
      if r.starts_with("</") {
        flush!();
        self.i += 2;
        let n = self.name()?;
        if n != q {
          return Err(format!("close tag {n} for {q}"));
        }
        self.ws();
        self.eat(">")?;
        return Ok(e);
      } else if r.starts_with("<![CDATA[") {
        let end = r.find("]]>").ok_or("unterminated CDATA")?;
        flush!();
        e.kids.push(Node::C(r[9..end].to_string()));
        self.cdata += 1;
        self.i += end + 3;
      } else if r.starts_with("<!--") {
        let end = r[4..].find("-->").ok_or("unterminated comment")?;
        self.comments += 1;
        self.i += 4 + end + 3;
      } else if r.starts_with("<?") || r.starts_with("<!") {
        return Err(format!("unexpected markup at {}", self.i));
      } else if r.starts_with('<') {
        flush!();
        let mut d = 0;
        let c = self.elem(&scope, &mut d)?;
        e.kids.push(Node::E(c));
      } else if r.starts_with('&') {
        let c = self.reference()?;
        text.push(c);
      } else {
        let c = r.chars().next().unwrap();
        if r.starts_with("]]>") {
          return Err(format!("]]> in text at {}", self.i));
        }
        text.push(c);
        self.i += c.len_utf8();
      }
    }
  }
}

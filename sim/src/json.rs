//! A small JSON reader and writer (no dependency).
use std::collections::BTreeMap;
use std::fmt::Write;
#[derive(Clone, Debug, PartialEq)]
pub enum J {
  Null,
  Bool(bool),
  U(u64),
  F(f64),
  S(String),
  A(Vec<J>),
  O(BTreeMap<String, J>),
}
impl J {
  pub fn s(x: &str) -> J {
    J::S(x.to_string())
  }
  pub fn obj(v: Vec<(&str, J)>) -> J {
    J::O(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
  }
  pub fn get(&self, k: &str) -> Option<&J> {
    match self {
      J::O(m) => m.get(k),
      _ => None,
    }
  }
  pub fn as_u(&self) -> Option<u64> {
    match self {
      J::U(x) => Some(*x),
      J::F(x) => Some(*x as u64),
      _ => None,
    }
  }
  pub fn as_s(&self) -> Option<&str> {
    match self {
      J::S(x) => Some(x),
      _ => None,
    }
  }
  pub fn as_a(&self) -> Option<&[J]> {
    match self {
      J::A(x) => Some(x),
      _ => None,
    }
  }
  fn w(&self, o: &mut String, ind: usize) {
    match self {
      J::Null => o.push_str("null"),
      J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
      J::U(x) => write!(o, "{x}").unwrap(),
      J::F(x) => write!(o, "{x:.3}").unwrap(),
      J::S(s) => {
        o.push('"');
        for c in s.chars() {
          match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
          }
        }
        o.push('"');
      }
      J::A(v) => {
        if v.iter().all(|x| matches!(x, J::U(_) | J::F(_) | J::Bool(_) | J::Null)) {
          o.push('[');
          for (i, x) in v.iter().enumerate() {
            if i > 0 {
              o.push(',');
            }
            x.w(o, 0);
          }
          o.push(']');
          return;
        }
        o.push_str("[\n");
        for (i, x) in v.iter().enumerate() {
          if i > 0 {
            o.push_str(",\n");
          }
          o.push_str(&" ".repeat(ind + 1));
          x.w(o, ind + 1);
        }
        o.push('\n');
        o.push_str(&" ".repeat(ind));
        o.push(']');
      }
      J::O(m) => {
        o.push_str("{\n");
        for (i, (k, x)) in m.iter().enumerate() {
          if i > 0 {
            o.push_str(",\n");
          }
          o.push_str(&" ".repeat(ind + 1));
          J::s(k).w(o, 0);
          o.push_str(": ");
          x.w(o, ind + 1);
        }
        o.push('\n');
        o.push_str(&" ".repeat(ind));
        o.push('}');
      }
    }
  }
  pub fn dump(&self) -> String {
    let mut o = String::new();
    self.w(&mut o, 0);
    o
  }
  pub fn parse(s: &str) -> Result<J, String> {
    let b = s.as_bytes();
    let mut i = 0;
    let v = val(b, &mut i)?;
    ws(b, &mut i);
    if i != b.len() {
      return Err(format!("trailing data at {i}"));
    }
    Ok(v)
  }
}
fn ws(b: &[u8], i: &mut usize) {
  while *i < b.len() && b[*i].is_ascii_whitespace() {
    *i += 1;
  }
}
fn val(b: &[u8], i: &mut usize) -> Result<J, String> {
  ws(b, i);
  let e = |i: usize| format!("bad json at {i}");
  match b.get(*i).ok_or("eof")? {
    b'{' => {
      *i += 1;
      let mut m = BTreeMap::new();
      loop {
        ws(b, i);
        if b.get(*i) == Some(&b'}') {
          *i += 1;
          return Ok(J::O(m));
        }
        if b.get(*i) == Some(&b',') {
          *i += 1;
          continue;
        }
        let k = match val(b, i)? {
          J::S(s) => s,
          _ => return Err(e(*i)),
        };
        ws(b, i);
        if b.get(*i) != Some(&b':') {
          return Err(e(*i));
        }
        *i += 1;
        m.insert(k, val(b, i)?);
      }
    }
    b'[' => {
      *i += 1;
      let mut v = vec![];
      loop {
        ws(b, i);
        if b.get(*i) == Some(&b']') {
          *i += 1;
          return Ok(J::A(v));
        }
        if b.get(*i) == Some(&b',') {
          *i += 1;
          continue;
        }
        v.push(val(b, i)?);
      }
    }
    b'"' => {
      *i += 1;
      let mut o = vec![];
      loop {
        match *b.get(*i).ok_or("eof")? {
          b'"' => {
            *i += 1;
            return String::from_utf8(o).map(J::S).map_err(|x| x.to_string());
          }
          b'\\' => {
            let c = *b.get(*i + 1).ok_or("eof")?;
            *i += 2;
            match c {
              b'n' => o.push(b'\n'),
              b't' => o.push(b'\t'),
              b'r' => o.push(b'\r'),
              b'u' => {
                let h = std::str::from_utf8(b.get(*i..*i + 4).ok_or("eof")?).map_err(|x| x.to_string())?;
                *i += 4;
                let c = char::from_u32(u32::from_str_radix(h, 16).map_err(|x| x.to_string())?).unwrap_or('?');
                let mut t = [0; 4];
                o.extend(c.encode_utf8(&mut t).as_bytes());
              }
              c => o.push(c),
            }
          }
          c => {
            o.push(c);
            *i += 1;
          }
        }
      }
    }
    b't' => {
      *i += 4;
      Ok(J::Bool(true))
    }
    b'f' => {
      *i += 5;
      Ok(J::Bool(false))
    }
    b'n' => {
      *i += 4;
      Ok(J::Null)
    }
    _ => {
      let st = *i;
      while *i < b.len() && (b[*i] == b'-' || b[*i] == b'+' || b[*i] == b'.' || b[*i].is_ascii_alphanumeric()) {
        *i += 1;
      }
      let t = std::str::from_utf8(&b[st..*i]).unwrap();
      if let Ok(u) = t.parse::<u64>() {
        return Ok(J::U(u));
      }
      t.parse::<f64>().map(J::F).map_err(|_| e(st))
    }
  }
}

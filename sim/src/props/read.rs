//! C01, C02, C03, C05: reading.
use super::*;

/// a comment of a size at which limits usually lie
fn pad(c: &mut Ctx, d: &mut Doc) {
  if d.text.as_bytes() != &d.bytes[..] {
    return;
  }
  let n = [70_000usize, 1 << 20, 1_100_000, 4 << 20, 17 << 20][c.s.weighted(&[4, 4, 4, 2, 1])];
  let close = d.text[..d.end].rfind("</");
  let at = match close {
    Some(i) if c.s.chance(3, 4) => i,
    _ if !d.text.starts_with("<?xml") => 0,
    _ => d.end,
  };
  let mut fill = String::with_capacity(n + 16);
  fill.push_str("<!--");
  while fill.len() < n {
    fill.push_str(" padding of some kind");
  }
  fill.push_str("-->");
  c.log(|| format!("a comment of {} bytes inserted at byte {at}", fill.len()));
  c.stats.add("padded", 1);
  d.text.insert_str(at, &fill);
  d.bytes = d.text.clone().into_bytes();
  if at < d.end {
    d.end += fill.len();
  }
}
pub fn c01(c: &mut Ctx) -> Result<(), Violation> {
  log_level(c);
  let t = pick_type(c, |t| t.dec);
  let mut g = Gen::swarm(c.s);
  let noise = Noise::gen(c.s, true);
  let mut k = case(c, t, &mut g, noise);
  if c.s.chance(1, 20_000) {
    pad(c, &mut k.doc);
  }
  let name = c.env.schema.ty(t).name;
  check_model(c, t, &k.v, &k.roots);
  let data = Arc::new(k.doc.bytes.clone());
  let want: Dec = Ok(Ok(k.v.clone()));
  // from memory
  if let Ok(text) = std::str::from_utf8(&data) {
    let f = c.env.ops[t].decode_str;
    let (r, _) = guarded(limit_for(data.len()), || f(text));
    if r != want {
      return viol("memory-decode", format!("{name}: from_str gave {} for {} denoting {}", show_dec(&r), esc(&data), short(format!("{:?}", k.v))));
    }
  }
  let n = if data.len() > 10_000 { 1 } else { c.s.range(1, 4) };
  for _ in 0..n {
    let plan = Plan::delivery(c.s, data.len());
    c.log(|| format!("deliver {plan:?}"));
    c.feat(t as u64, lenclass(data.len()));
    c.feat(plan.bufcap as u64, plan.chunks.first().copied().unwrap_or(0) as u64);
    c.feat(plan.faults.len() as u64, k.noise.enc as u64 * 100 + k.noise.level);
    let (r, _) = decode(c, t, &data, plan.clone());
    c.log(|| format!("-> {}", show_dec(&r)));
    if r != want {
      return viol(
        "delivery",
        format!("{name}: delivered as {plan:?}, from_reader gave {} for {} denoting {}", show_dec(&r), esc(&data), short(format!("{:?}", k.v))),
      );
    }
  }
  Ok(())
}

fn pick_offset(s: &mut Src, d: &Doc) -> usize {
  // an offset strictly inside the document, biased to markup
  let n = d.end.max(1);
  if s.chance(1, 2) {
    let marks: Vec<usize> =
      d.bytes[..d.end].iter().enumerate().filter(|(_, b)| matches!(b, b'<' | b'>' | b'/' | b'"' | b'&' | b';' | b']')).map(|(i, _)| i).collect();
    if !marks.is_empty() {
      let m = *s.pick(&marks);
      return (m + s.below(3)).saturating_sub(1).min(n - 1);
    }
  }
  s.below(n)
}
/// how a decode that was cut off may end
fn judge_cut(c: &Ctx, t: usize, v: &Val, r: &Dec, what: &str, data: &[u8]) -> Result<(), Violation> {
  let td = c.env.schema.ty(t);
  match r {
    Ok(Err(_)) => Ok(()),
    Ok(Ok(x)) => {
      if td.flatten || c.env.schema.complete_at_end(t) {
        viol("accepted", format!("{}: {what}, decoded as {} although the document was not complete: {}", td.name, short(format!("{x:?}")), esc(data)))
      } else if x != v {
        viol(
          "wrong-value",
          format!("{}: {what}, decoded as {} instead of {} or an error: {}", td.name, short(format!("{x:?}")), short(format!("{v:?}")), esc(data)),
        )
      } else {
        Ok(())
      }
    }
    Err(f) => viol(f.class(), format!("{}: {what}, decoding ended in {f:?}: {}", td.name, esc(data))),
  }
}
fn cut(c: &mut Ctx, eof: bool) -> Result<(), Violation> {
  let t = pick_type(c, |t| t.dec && !(eof && t.flatten));
  let mut g = Gen::swarm(c.s);
  let mut noise = Noise::gen(c.s, false);
  noise.trailing = false;
  let k = case(c, t, &mut g, noise);
  let data = Arc::new(k.doc.bytes.clone());
  let end = if c.env.schema.ty(t).flatten { data.len() + 1 } else { k.doc.end };
  let sweep = data.len() <= 400 && c.s.chance(1, 3);
  let offs: Vec<usize> = if sweep {
    (0..end).collect()
  } else {
    (0..c.s.range(1, 6)).map(|_| pick_offset(c.s, &k.doc)).collect()
  };
  let base = Plan::delivery(c.s, data.len());
  let fault = if eof { Fault::End } else { Plan::err(c.s) };
  let vary = !sweep || data.len() < 120;
  c.log(|| format!("base delivery {base:?} sweep={sweep}"));
  for at in offs {
    let fault = if vary && !eof { Plan::err(c.s) } else { fault.clone() };
    let plan = base.clone().with(at, fault.clone());
    let (r, sh) = decode(c, t, &data, plan);
    let hit = get(&sh, |i| i.hit.is_some());
    let kind = match &fault {
      Fault::Err { kind, transient } => 1 + *kind as u64 * 2 + *transient as u64,
      _ => 0,
    };
    c.log(|| format!("{fault:?} at byte {at} -> {}", show_dec(&r)));
    if hit {
      c.stats.add("cut_before_end", 1);
      let pc = posclass(&data, at);
      c.feat(t as u64 * 4 + outcome(&r), pc * 64 + kind);
    }
    let what = match &fault {
      Fault::Err { kind, transient } => format!("read error {:?}{} at byte {at} of {}", KINDS[*kind], if *transient { " (transient)" } else { "" }, data.len()),
      _ => format!("end of file at byte {at} of {}", data.len()),
    };
    if !hit {
      // the decode ended before it reached the fault: it must have had a reason
      c.stats.add("ended_before_fault", 1);
    }
    judge_cut(c, t, &k.v, &r, &what, &data)?;
  }
  Ok(())
}
pub fn c02(c: &mut Ctx) -> Result<(), Violation> {
  cut(c, false)
}
pub fn c03(c: &mut Ctx) -> Result<(), Violation> {
  cut(c, true)
}

// ---------------------------------------------------------------- corruption
const TOKENS: [&[u8]; 34] = [
  b"<", b">", b"/>", b"</", b"&", b";", b"&#0;", b"&#x110000;", b"&bad;", b"\"", b"'", b"=", b"<!--", b"-->", b"<![CDATA[", b"]]>", b"<?x ", b"?>",
  b"xmlns=\"u\"", b"xmlns:p=\"\"", b"<a>", b"</a>", b"<a/>", b"<!DOCTYPE x [", b"<!ENTITY e \"&e;\">", b"]>", b"\0", b"\xff", b"\xc3", b"\xed\xa0\x80", b" ",
  b"<?xml version=\"1.0\"?>", b"\xef\xbb\xbf", b"&lt;",
];
fn corrupt_bytes(c: &mut Ctx, d: &mut Vec<u8>, donor: &[u8], kinds: &mut Vec<u64>) {
  let n = d.len();
  let at = c.s.below(n + 1);
  let k = c.s.below(9);
  kinds.push(k as u64);
  let span = |s: &mut Src, at: usize| -> usize { (at + 1 + s.below(12)).min(n) };
  match k {
    0 if at < n => {
      d[at] ^= 1 << c.s.below(8);
      c.stats.add("fault:bit_flip", 1);
    }
    1 if at < n => {
      d[at] = *c.s.pick(&[0u8, 9, 10, 13, 32, 34, 38, 39, 47, 60, 61, 62, 127, 128, 194, 255]);
      c.stats.add("fault:byte_replaced", 1);
    }
    2 => {
      let e = span(c.s, at);
      d.drain(at.min(e)..e);
      c.stats.add("fault:range_lost", 1);
    }
    3 => {
      let e = span(c.s, at);
      let seg = d[at.min(e)..e].to_vec();
      let p = c.s.below(d.len() + 1);
      d.splice(p..p, seg);
      c.stats.add("fault:range_duplicated", 1);
    }
    4 => {
      let e = span(c.s, at);
      let seg: Vec<u8> = d.drain(at.min(e)..e).collect();
      let p = c.s.below(d.len() + 1);
      d.splice(p..p, seg);
      c.stats.add("fault:range_moved", 1);
    }
    5 => {
      let t = c.s.pick(&TOKENS).to_vec();
      d.splice(at..at, t);
      c.stats.add("fault:token_inserted", 1);
    }
    6 => {
      d.truncate(at);
      c.stats.add("fault:truncated", 1);
    }
    7 => {
      let a = c.s.below(donor.len() + 1);
      let e = (a + 1 + c.s.below(60)).min(donor.len());
      let seg = donor[a.min(e)..e].to_vec();
      d.splice(at..at, seg);
      c.stats.add("fault:foreign_splice", 1);
    }
    _ => {
      // an element-sized piece: from one '<' to a later '>'
      if let Some(a) = d.iter().skip(at).position(|b| *b == b'<').map(|x| x + at) {
        if let Some(e) = d.iter().skip(a).position(|b| *b == b'>').map(|x| x + a + 1) {
          if c.s.chance(1, 2) {
            d.drain(a..e);
            c.stats.add("fault:tag_lost", 1);
          } else {
            let seg = d[a..e].to_vec();
            d.splice(e..e, seg);
            c.stats.add("fault:tag_repeated", 1);
          }
        }
      }
    }
  }
}
pub const JUNK: [&str; 20] = [
  "", "x", "-1", "256", "99999999999999999999999", "true", "1e999", "nan", "0x10", "+5", "\u{0661}", "1 2 3", "<", "&", "]]>", "\u{1F600}", "1.5", "Red", "0", "a<b/>c",
];
/// names that mean something somewhere in the type
pub fn names_of(c: &Ctx, t: usize, out: &mut Vec<(String, String)>, depth: usize) {
  if depth > 4 || out.len() > 60 {
    return;
  }
  let td = c.env.schema.ty(t);
  out.push((td.root_ns.to_string(), td.root.to_string()));
  let ty = |ty: &Ty, out: &mut Vec<(String, String)>| {
    let mut x = ty;
    loop {
      match x {
        Ty::Opt(y) | Ty::Vec(y) => x = y,
        Ty::Ref(r) => return names_of(c, *r, out, depth + 1),
        Ty::Sc(_) => return,
      }
    }
  };
  match &td.kind {
    Kind::Struct(fs) => {
      for f in fs {
        out.push((f.ns.to_string(), f.name.to_string()));
        ty(&f.ty, out);
      }
    }
    Kind::Enum { variants, .. } => {
      for v in variants {
        out.push((v.ns.to_string(), v.label.replace(' ', "_")));
        if let Payload::New(x) = &v.payload {
          ty(x, out)
        }
      }
    }
    _ => {}
  }
}
/// element reached by a drawn walk
pub fn walk<'e>(s: &mut Src, e: &'e mut Elem) -> &'e mut Elem {
  let n = e.elems().count();
  if n == 0 || s.chance(1, 3) {
    return e;
  }
  let k = s.below(n);
  let mut i = 0;
  let mut at = None;
  for (j, kid) in e.kids.iter().enumerate() {
    if matches!(kid, Node::E(_)) {
      if i == k {
        at = Some(j);
        break;
      }
      i += 1;
    }
  }
  match &mut e.kids[at.unwrap()] {
    Node::E(x) => walk(s, x),
    _ => unreachable!(),
  }
}
fn corrupt_tree(c: &mut Ctx, root: &mut Elem, names: &[(String, String)], kinds: &mut Vec<u64>) {
  let k = c.s.below(10);
  kinds.push(20 + k as u64);
  c.stats.add("fault:tree_damage", 1);
  let (nns, nloc) = c.s.pick(names).clone();
  let junk = c.s.pick(&JUNK).to_string();
  let e = walk(c.s, root);
  match k {
    0 => {
      // text replaced
      e.kids.retain(|k| matches!(k, Node::E(_)));
      e.kids.push(Node::T(junk));
    }
    1 => {
      let mut x = Elem::new(&nns, &nloc);
      x.kids.push(Node::T(junk));
      let p = c.s.below(e.kids.len() + 1);
      e.kids.insert(p, Node::E(x));
    }
    2 => {
      e.ns = nns;
      e.local = nloc;
    }
    3 => {
      // wrapped in itself
      let copy = e.clone();
      e.kids = vec![Node::E(copy)];
    }
    4 => {
      if !e.kids.is_empty() {
        let p = c.s.below(e.kids.len());
        e.kids.remove(p);
      }
    }
    5 => {
      if !e.attrs.is_empty() {
        let p = c.s.below(e.attrs.len());
        e.attrs[p].value = junk;
      }
    }
    6 => {
      if !e.attrs.iter().any(|a| a.local == nloc) {
        e.attr("", &nloc.clone(), junk);
      }
    }
    7 => {
      // an element where text was, or text where elements were
      e.kids.insert(0, Node::T("stray".into()));
      e.kids.push(Node::E(Elem::new(&nns, &nloc)));
    }
    8 => {
      let copy = e.clone();
      let p = c.s.below(e.kids.len() + 1);
      e.kids.insert(p, Node::E(copy));
    }
    _ => {
      e.kids.clear();
      e.attrs.clear();
    }
  }
}
pub fn c05(c: &mut Ctx) -> Result<(), Violation> {
  let t = pick_type(c, |t| t.dec);
  let mut g = Gen::swarm(c.s);
  let mut noise = Noise::gen(c.s, true);
  let name = c.env.schema.ty(t).name;
  let v = c.env.schema.gen(c.s, t, &mut g);
  let mut roots = c.env.schema.encode(t, &v);
  let mut kinds = vec![];
  let mode = c.s.below(3);
  if mode >= 1 && !roots.is_empty() {
    let mut names = vec![];
    names_of(c, t, &mut names, 0);
    names.push((String::new(), "foreign".into()));
    names.push(("urn:other".into(), names[0].1.clone()));
    for _ in 0..c.s.range(1, 4) {
      let k = c.s.below(roots.len());
      corrupt_tree(c, &mut roots[k], &names, &mut kinds);
      if roots[k].count() > 3000 {
        break;
      }
    }
    noise.enc = Enc::Utf8;
  }
  let doc = render(c.s, &roots, &noise);
  let mut bytes = doc.bytes.clone();
  if mode != 1 {
    let d2 = pick_type(c, |t| t.dec);
    let mut g2 = Gen::small();
    let v2 = c.env.schema.gen(c.s, d2, &mut g2);
    let r2 = c.env.schema.encode(d2, &v2);
    let donor = render(c.s, &r2, &Noise::none()).bytes;
    for _ in 0..c.s.range(1, 6) {
      corrupt_bytes(c, &mut bytes, &donor, &mut kinds);
    }
  }
  let deep = c.s.chance(1, 5000) && noise.enc == Enc::Utf8;
  if deep {
    // a pile of unknown elements, closed or not
    let n = 1usize << c.s.range(8, 16);
    let at: Vec<usize> = bytes.iter().enumerate().filter(|(_, b)| **b == b'>').map(|(i, _)| i + 1).collect();
    let at = if at.is_empty() { bytes.len() } else { *c.s.pick(&at) };
    let mut pile = "<zz>".repeat(n);
    if c.s.chance(2, 3) {
      pile.push_str(&"</zz>".repeat(n));
    }
    bytes.splice(at..at, pile.bytes());
    kinds.push(60);
    c.stats.add("fault:deep_nesting", 1);
  }
  c.nontrivial = bytes != doc.bytes || mode != 0;
  c.log(|| format!("type {name} damaged document: {}", esc(&bytes)));
  let data = Arc::new(bytes);
  kinds.sort();
  kinds.dedup();
  let mut first: Option<Dec> = None;
  for i in 0..2 {
    let plan = if i == 0 { Plan::whole() } else { Plan::delivery(c.s, data.len()) };
    let live0 = crate::alloc::live();
    crate::alloc::reset_peak();
    let (r, sh) = decode(c, t, &data, plan.clone());
    let peak = crate::alloc::peak() - live0;
    let (past, calls) = get(&sh, |i| (i.past_end, i.calls));
    c.log(|| format!("deliver {plan:?} -> {} (peak {peak} bytes, {calls} reads)", show_dec(&r)));
    if i == 0 {
      let mut h = 0;
      for k in &kinds {
        h = h * 31 + k;
      }
      c.feat(t as u64 * 4 + outcome(&r), h);
      c.stats.add(
        match &r {
          Ok(Ok(_)) => "damaged_accepted",
          Ok(Err(_)) => "damaged_rejected",
          _ => "damaged_crashed",
        },
        1,
      );
    }
    if let Err(f) = &r {
      return viol(f.class(), format!("{name}: decoding damaged bytes ended in {f:?}: {}", esc(&data)));
    }
    let allowed = 4_000_000 + 4_000 * data.len() as i64;
    if peak > allowed {
      return viol("memory", format!("{name}: {peak} bytes of memory for a document of {} bytes: {}", data.len(), esc(&data)));
    }
    if past > 64 {
      return viol("over-read", format!("{name}: {past} reads after end of file: {}", esc(&data)));
    }
    match &first {
      None => first = Some(r),
      Some(f) => {
        let same = match (f, &r) {
          (Ok(Ok(a)), Ok(Ok(b))) => a == b,
          (Ok(Err(_)), Ok(Err(_))) => true,
          _ => false,
        };
        if !same {
          return viol("delivery", format!("{name}: {} at once but {} under {plan:?}: {}", show_dec(f), show_dec(&r), esc(&data)));
        }
      }
    }
  }
  Ok(())
}

//! C20: misdelivered documents. C21: scalars altered on the way.
use super::*;

// ---------------------------------------------------------------- C21

/// the text of one scalar, with the place it stands in
#[derive(Clone, Copy, PartialEq, Debug)]
enum Site {
  Elem(Sc),
  /// inside an attribute value that is read as a document of its own
  AttrRef(Sc),
  Attr(Sc),
  List(Sc),
  Payload(Sc),
  Newtype(Sc),
}
impl Site {
  fn sc(self) -> Sc {
    match self {
      Site::Elem(s) | Site::AttrRef(s) | Site::Attr(s) | Site::List(s) | Site::Payload(s) | Site::Newtype(s) => s,
    }
  }
}
fn base(t: &Ty) -> &Ty {
  match t {
    Ty::Opt(x) | Ty::Vec(x) => base(x),
    t => t,
  }
}
fn text_of(e: &mut Elem) -> Option<&mut String> {
  if e.kids.is_empty() {
    e.kids.push(Node::T(String::new()));
  }
  match e.kids.as_mut_slice() {
    [Node::T(t) | Node::C(t)] => Some(t),
    _ => None,
  }
}
/// calls `f` on every scalar of a value of type t carried by e, numbered in document order
fn scalars(sc: &Schema, t: usize, e: &mut Elem, f: &mut dyn FnMut(Site, &mut String)) {
  let td = sc.ty(t);
  if td.tags == "custom" {
    return;
  }
  match &td.kind {
    Kind::Prim(s) => {
      if let Some(x) = text_of(e) {
        f(Site::Newtype(*s), x)
      }
    }
    Kind::Custom => {}
    Kind::Struct(fs) => {
      for d in fs {
        if d.role == Role::Attr {
          for a in e.attrs.iter_mut().filter(|a| a.local == d.name && a.ns == d.ns) {
            let site = match base(&d.ty) {
              Ty::Sc(s) if matches!(d.ty, Ty::Vec(_)) => Site::List(*s),
              Ty::Sc(s) => Site::Attr(*s),
              Ty::Ref(r) if !matches!(d.ty, Ty::Vec(_)) && sc.ty(*r).tags != "custom" => match &sc.ty(*r).kind {
                Kind::Prim(s) => Site::AttrRef(*s),
                _ => continue,
              },
              _ => continue,
            };
            let was = a.value.clone();
            f(site, &mut a.value);
            if a.value != was {
              // its white space is part of the alteration
              a.list = false;
            }
          }
        }
      }
      for k in e.kids.iter_mut() {
        let Node::E(x) = k else { continue };
        if let Some(d) = fs.iter().find(|d| d.role == Role::Elem && d.name == x.local && d.ns == x.ns) {
          match base(&d.ty) {
            Ty::Sc(s) => {
              if let Some(x) = text_of(x) {
                f(Site::Elem(*s), x)
              }
            }
            Ty::Ref(r) => scalars(sc, *r, x, f),
            _ => {}
          }
        }
      }
      for d in fs {
        // a flattened part lies in the same element
        if let (Role::Flatten, Ty::Ref(r)) = (d.role, base(&d.ty)) {
          if matches!(sc.ty(*r).kind, Kind::Struct(_)) {
            scalars(sc, *r, e, f)
          }
        }
      }
    }
    Kind::Enum { variants, tag: None, .. } => {
      for k in e.kids.iter_mut() {
        let Node::E(x) = k else { continue };
        if let Some(Payload::New(ty)) = variants.iter().find(|v| v.label == x.local && v.ns == x.ns && !v.flatten).map(|v| &v.payload) {
          match base(ty) {
            Ty::Sc(s) => {
              if let Some(x) = text_of(x) {
                f(Site::Payload(*s), x)
              }
            }
            Ty::Ref(r) => scalars(sc, *r, x, f),
            _ => {}
          }
        }
      }
    }
    Kind::Enum { .. } => {}
  }
}
const EDGES: [&str; 40] = [
  "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648",
  "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
  "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456", "3.4028235e38", "3.4028236e38", "1e39", "-1e39",
  "1.00000017881393432617187499", "1.00000017881393432617187501", "3.4028235677973366e38", "8.589973e9", "1.7976931348623157e308", "1.7976931348623159e308", "1e400", "1e-400", "4.9e-324", "16777217", "9007199254740993",
];
const WORDS: [&str; 44] = [
  "", "-", "+", ".", "e", "true", "false", "TRUE", "True", "False", "yes", "no", "on", "t", "1", "0", "2", "-0", "+0", "00", "01", "-1", "+1", "1.0", "1.", ".5", "1e2",
  "1E2", "1_000", "1,000", "0x1F", "0b1", "1F", "ff", "FF", "inf", "-inf", "INF", "infinity", "nan", "NaN", "-NaN", "\u{0661}", "\u{ff11}",
];
fn alter(s: &mut Src, t: &str, other: &str, kinds: &mut u64, stats: &mut Stats) -> String {
  let mut ch: Vec<char> = t.chars().collect();
  let n = ch.len();
  let k = s.below(13);
  *kinds |= 1 << k;
  let at = s.below(n.max(1));
  match k {
    0 if n > 0 => {
      if ch[at].is_ascii_graphic() {
        ch[at] = ((ch[at] as u8) ^ (1 << s.below(4))) as char;
      }
      stats.add("fault:scalar_bit_flip", 1);
    }
    1 if n > 0 => {
      ch.remove(at);
      stats.add("fault:scalar_char_lost", 1);
    }
    2 if n > 0 => {
      let c = ch[at];
      let most = if s.chance(1, 20) { 400 } else { 3 };
      for _ in 0..1 + s.below(most) {
        ch.insert(at, c);
      }
      stats.add("fault:scalar_char_repeated", 1);
    }
    3 if n > 1 => {
      let b = s.below(n);
      ch.swap(at, b);
      stats.add("fault:scalar_chars_swapped", 1);
    }
    4 => {
      ch.truncate(at);
      stats.add("fault:scalar_truncated", 1);
    }
    5 => {
      let (a, b) = (*s.pick(&["", " ", "\n", "\t ", "  "]), *s.pick(&["", " ", "\n", " \t"]));
      stats.add("fault:scalar_padded", 1);
      return format!("{a}{t}{b}");
    }
    6 => {
      stats.add("fault:scalar_at_an_edge", 1);
      return s.pick(&EDGES).to_string();
    }
    7 => {
      stats.add("fault:scalar_prefixed", 1);
      return format!("{}{t}", s.pick(&["+", "-", "0", "00", "--", "+-", " -", "0x", "#", "00000000000000000000000000000000000000000"]));
    }
    8 => {
      stats.add("fault:scalar_suffixed", 1);
      return format!("{t}{}", s.pick(&[".0", ".", "e0", "f", "u8", "_", "%", " 1", "0", ".5", "e400", "e-400", ","]));
    }
    9 => {
      stats.add("fault:scalar_case_changed", 1);
      return if s.chance(1, 2) { t.to_uppercase() } else { t.to_lowercase() };
    }
    10 | 11 => {
      stats.add("fault:scalar_replaced", 1);
      return s.pick(&WORDS).to_string();
    }
    12 => {
      stats.add("fault:scalar_crossed", 1);
      return other.to_string();
    }
    _ => {}
  }
  ch.into_iter().collect()
}
const MARK: &str = "\u{e000}mark\u{e000}";
/// calls f on the element that holds the mark, with its parent
fn at_mark(e: &mut Elem, f: &mut dyn FnMut(&mut Elem, usize)) -> bool {
  for i in 0..e.kids.len() {
    let Node::E(x) = &mut e.kids[i] else { continue };
    if matches!(x.kids.as_slice(), [Node::T(t) | Node::C(t)] if t == MARK) {
      f(e, i);
      return true;
    }
    if at_mark(x, f) {
      return true;
    }
  }
  false
}
fn names_in(e: &Elem, out: &mut Vec<(String, String)>) {
  out.push((e.ns.clone(), e.local.clone()));
  for k in &e.kids {
    if let Node::E(x) = k {
      names_in(x, out)
    }
  }
}
fn bush(s: &mut Src, names: &[(String, String)], depth: usize) -> Elem {
  let (ns, local) = s.pick(names).clone();
  let mut e = Elem::new(&ns, &local);
  for _ in 0..s.range(1, 2) {
    if depth > 0 && s.chance(2, 3) {
      e.kids.push(Node::E(bush(s, names, depth - 1)));
    } else if !e.has_text() && e.kids.is_empty() {
      e.kids.push(Node::T(s.pick(&["7", "x", "true", "0.5", "Red"]).to_string()));
      break;
    }
  }
  e
}
/// a scalar's text was replaced by elements: it has no value, and nothing inside is anything else's
fn unscalar(c: &mut Ctx) -> Result<(), Violation> {
  let t = pick_type(c, |t| t.dec && !t.flatten && t.tags != "custom" && matches!(t.kind, Kind::Struct(_)));
  let name = c.env.schema.ty(t).name;
  let mut g = Gen::small();
  let v = c.env.schema.gen(c.s, t, &mut g);
  let mut roots = c.env.schema.encode(t, &v);
  let mut names = vec![];
  names_in(&roots[0], &mut names);
  names.push((String::new(), "zz".into()));
  let mut sites = 0;
  scalars(&c.env.schema, t, &mut roots[0], &mut |k, _| sites += matches!(k, Site::Elem(_)) as usize);
  if sites == 0 {
    return Ok(());
  }
  let at = c.s.below(sites);
  let mut i = 0;
  scalars(&c.env.schema, t, &mut roots[0], &mut |k, x| {
    if matches!(k, Site::Elem(_)) {
      if i == at {
        *x = MARK.into();
      }
      i += 1;
    }
  });
  let (mut gone, mut empty) = (roots.clone(), roots.clone());
  let kids: Vec<Node> = (0..c.s.range(1, 2)).map(|_| Node::E(bush(c.s, &names, 3))).collect();
  at_mark(&mut roots[0], &mut |p, i| {
    if let Node::E(x) = &mut p.kids[i] {
      x.kids = kids.clone();
    }
  });
  at_mark(&mut gone[0], &mut |p, i| {
    p.kids.remove(i);
  });
  at_mark(&mut empty[0], &mut |p, i| {
    if let Node::E(x) = &mut p.kids[i] {
      x.kids.clear();
    }
  });
  let mut noise = Noise::gen(c.s, true);
  noise.enc = Enc::Utf8;
  let doc = render(c.s, &roots, &noise);
  let wants = [c.env.schema.decode(t, &gone), c.env.schema.decode(t, &empty)];
  c.nontrivial = true;
  c.stats.add("fault:scalar_replaced_by_elements", 1);
  let data = Arc::new(doc.bytes.clone());
  let plan = if c.s.chance(1, 2) { Plan::whole() } else { Plan::delivery(c.s, data.len()) };
  let (r, _) = decode(c, t, &data, plan);
  c.log(|| format!("type {name}: {} -> {}, expected one of {wants:?} or an error", esc(&data), show_dec(&r)));
  c.feat(t as u64 * 4 + outcome(&r), at as u64);
  match &r {
    Ok(Err(_)) => Ok(()),
    Ok(Ok(x)) if wants.iter().any(|w| w.as_ref() == Ok(x)) => Ok(()),
    Ok(Ok(_)) => viol("wrong-value", format!("{name}: {} decoded as {} instead of one of {} or an error", esc(&data), show_dec(&r), short(format!("{wants:?}")))),
    Err(f) => viol(f.class(), format!("{name}: {} ended in {f:?}", esc(&data))),
  }
}
pub fn c21(c: &mut Ctx) -> Result<(), Violation> {
  log_level(c);
  if c.s.chance(1, 8) {
    return unscalar(c);
  }
  let t = pick_type(c, |t| t.dec && !t.flatten && t.tags != "custom");
  let name = c.env.schema.ty(t).name;
  let mut g = Gen::small();
  let v = c.env.schema.gen(c.s, t, &mut g);
  let mut roots = c.env.schema.encode(t, &v);
  let mut sites: Vec<(Site, String)> = vec![];
  scalars(&c.env.schema, t, &mut roots[0], &mut |k, x| sites.push((k, x.clone())));
  let before = roots[0].show();
  let (mut kinds, mut dropped, mut changed) = (0, false, 0u64);
  if !sites.is_empty() {
    let n = c.s.range(1, 3);
    let mut new: Vec<(usize, String)> = vec![];
    for _ in 0..n {
      let i = c.s.below(sites.len());
      let j = c.s.below(sites.len());
      let (k, old) = (&sites[i].0, &sites[i].1);
      let mut x = if matches!(k, Site::List(_)) && !old.is_empty() && c.s.chance(1, 2) {
        let mut w: Vec<String> = old.split(' ').map(|x| x.to_string()).collect();
        let p = c.s.below(w.len());
        w[p] = alter(c.s, &w[p], &sites[j].1, &mut kinds, &mut c.stats);
        w.join(" ")
      } else {
        alter(c.s, old, &sites[j].1, &mut kinds, &mut c.stats)
      };
      if matches!(k, Site::AttrRef(_)) {
        x = x.replace(['<', '>', '&'], "~");
      }
      if matches!(k, Site::Elem(_)) && sc_parse(x.trim_matches([' ', '\n', '\t', '\r']), k.sc()).is_none() {
        dropped = true;
      }
      changed += (x != *old) as u64;
      new.push((i, x));
    }
    let mut i = 0;
    scalars(&c.env.schema, t, &mut roots[0], &mut |_, x| {
      if let Some((_, y)) = new.iter().rev().find(|(j, _)| *j == i) {
        *x = y.clone();
      }
      i += 1;
    });
  }
  let noise = if c.s.chance(1, 2) { Noise::gen(c.s, true) } else { Noise::none() };
  let mut noise = noise;
  noise.enc = Enc::Utf8;
  let doc = render(c.s, &roots, &noise);
  let want = c.env.schema.decode(t, &roots);
  c.log(|| format!("type {name}: {before}\n  became {}\n  written {}\n  meaning {want:?}", roots[0].show(), esc(&doc.bytes)));
  c.nontrivial = changed > 0;
  c.stats.add(if want.is_ok() { "altered_but_meaningful" } else { "altered_to_malformed" }, 1);
  let data = Arc::new(doc.bytes.clone());
  let plan = if c.s.chance(1, 2) { Plan::whole() } else { Plan::delivery(c.s, data.len()) };
  c.feat(t as u64 * 2 + want.is_ok() as u64, kinds * 4 + changed);
  let (r, _) = decode(c, t, &data, plan);
  let ok = match (&r, &want) {
    (Ok(Ok(a)), Ok(b)) => a == b,
    (Ok(Err(_)), Err(_)) => true,
    // a malformed part that may be absent may as well make the whole document an error
    (Ok(Err(_)), Ok(_)) => dropped,
    _ => false,
  };
  if !ok {
    let class = match (&r, &want) {
      (Err(f), _) => f.class(),
      (Ok(Ok(_)), Err(_)) => "accepted",
      (Ok(Err(_)), Ok(_)) => "rejected",
      _ => "wrong-value",
    };
    return viol(class, format!("{name}: {} decoded as {} instead of {} (tree {})", esc(&data), show_dec(&r), short(format!("{want:?}")), short(roots[0].show())));
  }
  Ok(())
}

// ---------------------------------------------------------------- C20

/// the namespace URI as a sender of another version, or a careless gateway, would have it
fn other_uri(c: &mut Ctx, e: &Elem, own: &str) -> String {
  let mut all: Vec<&str> = c.env.schema.types.iter().map(|t| t.root_ns).filter(|n| !n.is_empty()).collect();
  all.sort();
  all.dedup();
  let x = match c.s.below(10) {
    0 | 1 => c.s.pick(&all).to_string(),
    // another namespace the receiver knows
    9 => {
      let mut known = vec![];
      e.all_ns(&mut known);
      c.s.pick(&known).clone()
    }
    2 => format!("{own}/"),
    3 => own.to_uppercase(),
    4 => own.chars().take(own.chars().count().saturating_sub(1)).collect(),
    5 => format!("{own}2"),
    6 => own.replacen("http:", "https:", 1),
    7 => own.replace(['.', ':'], "-"),
    _ => c.s.pick(&["urn:other", "http://www.w3.org/2001/XMLSchema-instance", "x", "a b"]).to_string(),
  };
  if x.is_empty() || x == own {
    "urn:elsewhere".into()
  } else {
    x
  }
}
fn rename_ns(e: &mut Elem, from: &str, to: &str) {
  for a in e.attrs.iter_mut().filter(|a| !a.ns.is_empty() && a.ns == from) {
    a.ns = to.into();
  }
  if e.ns == from {
    e.ns = to.into();
  }
  for k in e.kids.iter_mut() {
    if let Node::E(x) = k {
      rename_ns(x, from, to)
    }
  }
}
pub fn c20(c: &mut Ctx) -> Result<(), Violation> {
  log_level(c);
  // several receivers behind one router; each message is addressed to one of them
  let checks = |t: &TypeDef| t.dec && !t.flatten && t.tags != "custom" && !matches!(t.kind, Kind::Prim(_) | Kind::Custom);
  let peers: Vec<usize> = (0..1 + c.s.below(4)).map(|_| {
    let any = c.s.chance(1, 4);
    pick_type(c, |t| checks(t) && (any || !t.root_ns.is_empty()))
  }).collect();
  let n = 1 + c.s.below(4);
  let mut sig = 0u64;
  for m in 0..n {
    let to = *c.s.pick(&peers);
    let mut g = Gen::small();
    let own = c.env.schema.ty(to).root_ns.to_string();
    let kind = c.s.below(6);
    let (from, v) = match kind {
      // another receiver's message
      1 => {
        let f = pick_type(c, |t| t.dec && !t.flatten && !t.root_ns.is_empty());
        (f, c.env.schema.gen(c.s, f, &mut g))
      }
      _ => (to, c.env.schema.gen(c.s, to, &mut g)),
    };
    let mut roots = c.env.schema.encode(from, &v);
    let e = &mut roots[0];
    match kind {
      0 => c.stats.add("delivered_to_its_receiver", 1),
      1 => c.stats.add("fault:misrouted", 1),
      2 => {
        e.ns = other_uri(c, e, &own);
        c.stats.add("fault:root_in_other_namespace", 1);
      }
      3 => {
        let x = other_uri(c, e, &own);
        rename_ns(e, &own, &x);
        c.stats.add("fault:other_version_of_namespace", 1);
      }
      4 => {
        // wrapped by a gateway that keeps the receiver's root inside its own
        let mut w = Elem::new(&other_uri(c, e, &own), if c.s.chance(1, 2) { &e.local } else { "envelope" });
        std::mem::swap(e, &mut w);
        e.kids.push(Node::E(w));
        c.stats.add("fault:wrapped_in_other_namespace", 1);
      }
      _ => {
        // the right names in the wrong place: root in another namespace, the own one declared and used inside
        let x = other_uri(c, e, &own);
        e.ns = x;
        let mut k = Elem::new(&own, c.env.schema.ty(to).root);
        k.attr(&own, "note", "here".into());
        let p = c.s.below(e.kids.len() + 1);
        if !e.has_text() {
          e.kids.insert(p, Node::E(k));
        }
        c.stats.add("fault:root_in_other_namespace", 1);
      }
    }
    let wrong = e.ns != own;
    let mut noise = Noise::gen(c.s, true);
    noise.enc = Enc::Utf8;
    let doc = render(c.s, &roots, &noise);
    let data = Arc::new(doc.bytes.clone());
    let name = c.env.schema.ty(to).name;
    c.log(|| format!("message {m} for {name} (kind {kind}, wrong namespace {wrong}): {}", esc(&data)));
    if !wrong && kind != 0 {
      continue;
    }
    c.nontrivial |= wrong;
    let plan = if c.s.chance(1, 2) { Plan::whole() } else { Plan::delivery(c.s, data.len()) };
    let (r, _) = decode(c, to, &data, plan);
    sig = sig.wrapping_mul(31).wrapping_add(to as u64 * 8 + kind as u64);
    match &r {
      Ok(Err(_)) if wrong => {}
      Ok(Ok(x)) if !wrong && *x == v => {}
      Ok(Ok(_)) if wrong => {
        return viol("accepted", format!("{name}: message {m} with its root in {:?} instead of {own:?} was decoded as {}: {}", roots[0].ns, show_dec(&r), esc(&data)));
      }
      Ok(_) => return viol("lost", format!("{name}: its own message {m} was decoded as {} instead of {v:?}: {}", show_dec(&r), esc(&data))),
      Err(f) => return viol(f.class(), format!("{name}: message {m} ended in {f:?}: {}", esc(&data))),
    }
  }
  c.feat(sig, n as u64);
  Ok(())
}

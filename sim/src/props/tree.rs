//! C10: lost, repeated, reordered and foreign parts.
use super::*;

fn peel(t: &Ty) -> Option<usize> {
  match t {
    Ty::Opt(x) | Ty::Vec(x) => peel(x),
    Ty::Ref(r) => Some(*r),
    Ty::Sc(_) => None,
  }
}
/// the type of the value a child element carries, if it has parts of its own
fn kid_type(sc: &Schema, t: usize, e: &Elem) -> Option<usize> {
  match &sc.ty(t).kind {
    Kind::Struct(fs) => {
      for f in fs {
        match f.role {
          Role::Elem if f.name == e.local && f.ns == e.ns => return peel(&f.ty),
          Role::Flatten => {
            if let Some(x) = peel(&f.ty).and_then(|r| kid_type(sc, r, e)) {
              return Some(x);
            }
          }
          _ => {}
        }
      }
      None
    }
    Kind::Enum { variants, .. } => variants.iter().find(|v| v.label == e.local && v.ns == e.ns).and_then(|v| match &v.payload {
      Payload::New(ty) => peel(ty),
      _ => None,
    }),
    _ => None,
  }
}
fn has_text_role(sc: &Schema, t: usize) -> bool {
  match &sc.ty(t).kind {
    Kind::Struct(fs) => fs.iter().any(|f| f.role == Role::Text || f.role == Role::Flatten && peel(&f.ty).map_or(false, |r| has_text_role(sc, r))),
    _ => false,
  }
}
/// element content that a part of the type may legitimately be made of, as names
fn attr_names(sc: &Schema, t: usize, out: &mut Vec<String>) {
  if let Kind::Struct(fs) = &sc.ty(t).kind {
    for f in fs {
      match f.role {
        Role::Attr => out.push(f.name.to_string()),
        Role::Flatten => {
          if let Some(r) = peel(&f.ty) {
            attr_names(sc, r, out)
          }
        }
        _ => {}
      }
    }
  }
}
const FOREIGN_NS: [&str; 4] = ["", "urn:foreign", "http://www.w3.org/1999/xlink", "urn:f?x=1"];
/// whether a child element of that name is a part of the type
fn is_part(sc: &Schema, t: usize, ns: &str, local: &str) -> bool {
  match &sc.ty(t).kind {
    Kind::Struct(fs) => fs.iter().any(|f| match f.role {
      Role::Elem => f.name == local && f.ns == ns,
      Role::Flatten => peel(&f.ty).map_or(false, |r| is_part(sc, r, ns, local)),
      _ => false,
    }),
    Kind::Enum { variants, .. } => variants.iter().any(|v| v.label == local),
    _ => false,
  }
}
/// a name that is almost the given one
fn near(s: &mut Src, n: &str) -> String {
  let x = match s.below(8) {
    0 => n.to_uppercase(),
    1 => n.to_lowercase(),
    2 => format!("{n}s"),
    3 => format!("{n}2"),
    4 => format!("_{n}"),
    5 => n.replace(['-', '.'], "_"),
    6 => n.replace('_', "-"),
    _ => n.chars().take(n.chars().count().max(2) - 1).collect(),
  };
  if x == n || x.starts_with(['-', '.']) || x.to_lowercase().starts_with("xml") {
    format!("{n}.x")
  } else {
    x
  }
}
fn foreign(c: &mut Ctx, t: usize, host: &Elem, depth: usize) -> Elem {
  let mut f = match c.s.below(5) {
    // a name or a namespace that is almost a known one
    3 | 4 => {
      let (own, en): (Vec<(&str, &str)>, bool) = match &c.env.schema.ty(t).kind {
        Kind::Struct(fs) => (fs.iter().filter(|f| f.role != Role::Text).map(|f| (f.ns, f.name)).collect(), false),
        Kind::Enum { variants, .. } => (variants.iter().map(|v| (v.ns, v.label)).collect(), true),
        _ => (vec![], true),
      };
      let own: Vec<(&str, &str)> = own.into_iter().filter(|x| !x.1.is_empty()).collect();
      if own.is_empty() {
        Elem::new("", "zz")
      } else {
        let (ns, n) = *c.s.pick(&own);
        let e = if en || ns.is_empty() || c.s.chance(1, 2) {
          Elem::new(ns, &near(c.s, n))
        } else {
          let ns = match c.s.below(4) {
            0 => format!("{ns}/"),
            1 => ns.to_uppercase(),
            2 => format!("{ns}2"),
            _ => ns.chars().take(ns.chars().count() - 1).collect(),
          };
          Elem::new(&ns, n)
        };
        c.stats.add("fault:near_miss_of_a_name", 1);
        if is_part(&c.env.schema, t, &e.ns, &e.local) {
          Elem::new("", "zz")
        } else {
          e
        }
      }
    }
    0 => Elem::new(FOREIGN_NS[c.s.below(4)], *c.s.pick(&["zz-foreign", "unknown", "x.ext", "_"])),
    // a known name in a namespace nobody knows
    1 => {
      // (the variants of an enum are recognised by their local name: see the known finding enum-ns)
      let own: Vec<&str> = match &c.env.schema.ty(t).kind {
        Kind::Struct(fs) => fs.iter().filter(|f| f.role == Role::Elem).map(|f| f.name).collect(),
        _ => vec![],
      };
      let names: Vec<String> = own.iter().map(|n| n.to_string()).chain(["other".to_string()]).collect();
      let l = c.s.pick(&names).clone();
      Elem::new("urn:foreign", &l)
    }
    _ => Elem::new("urn:foreign:2", "ext"),
  };
  if c.s.chance(1, 3) {
    f.attr("", "a", "1".into());
    f.attr("urn:foreign", "b", "<&>".into());
  }
  for _ in 0..c.s.below(3) {
    match c.s.below(4) {
      0 => f.kids.push(Node::T("some text".into())),
      1 if depth < 3 => {
        let x = foreign(c, t, host, depth + 1);
        f.kids.push(Node::E(x));
      }
      2 => {
        // parts that would mean something one level up
        let k: Vec<Elem> = host.elems().cloned().collect();
        if !k.is_empty() {
          let x = c.s.pick(&k).clone();
          if x.count() < 60 {
            f.kids.push(Node::E(x));
          }
        }
      }
      _ if host.count() < 60 => {
        let mut h = host.clone();
        h.kids.retain(|k| matches!(k, Node::E(_)));
        f.kids.push(Node::E(h));
      }
      _ => {}
    }
  }
  if depth == 0 && c.s.chance(1, 60) {
    // a deep pile, with parts that would mean something at every level
    let n = *c.s.pick(&[17usize, 40, 70, 130, 260, 300]);
    let k: Vec<Elem> = host.elems().filter(|k| k.count() < 8).cloned().collect();
    let k = if k.is_empty() { None } else { Some(c.s.pick(&k).clone()) };
    let (before, after) = (c.s.chance(1, 2), c.s.chance(1, 2));
    for _ in 0..n {
      let mut o = Elem::new("urn:foreign", "level");
      o.kids.extend(k.clone().filter(|_| before).map(Node::E));
      o.kids.push(Node::E(f));
      o.kids.extend(k.clone().filter(|_| after).map(Node::E));
      f = o;
    }
    c.stats.add("fault:deep_foreign_pile", 1);
  }
  f
}
struct Mut {
  kinds: u64,
  n: usize,
}
fn mutate(c: &mut Ctx, t: usize, e: &mut Elem, m: &mut Mut, depth: usize) {
  if depth > 12 || m.n > 12 {
    return;
  }
  for k in e.kids.iter_mut() {
    if let Node::E(x) = k {
      if let Some(r) = kid_type(&c.env.schema, t, x) {
        if c.s.chance(1, 2) {
          mutate(c, r, x, m, depth + 1);
        }
      }
    }
  }
  let td = c.env.schema.ty(t);
  let parts = match &td.kind {
    Kind::Struct(_) => true,
    Kind::Enum { variants, tag, .. } => tag.is_none() && variants.iter().all(|v| !matches!(v.payload, Payload::Unit)),
    _ => false,
  };
  if !parts {
    return;
  }
  let is_struct = matches!(td.kind, Kind::Struct(_));
  let texty = has_text_role(&c.env.schema, t);
  let n = if depth == 0 { c.s.range(1, 4) } else { c.s.below(3) };
  for _ in 0..n {
    m.n += 1;
    let op = c.s.below(8);
    m.kinds |= 1 << op;
    match op {
      0 => {
        let ix: Vec<usize> = e.kids.iter().enumerate().filter(|(_, k)| matches!(k, Node::E(_))).map(|(i, _)| i).collect();
        if !ix.is_empty() && (is_struct || c.s.chance(1, 2)) {
          let i = *c.s.pick(&ix);
          e.kids.remove(i);
          c.stats.add("fault:part_lost", 1);
        }
      }
      1 | 2 if is_struct => {
        // another sender's parts mixed in
        let mut g = Gen::small();
        let v = c.env.schema.gen(c.s, t, &mut g);
        if td.flatten {
          continue;
        }
        let donor = c.env.schema.encode(t, &v);
        let kids: Vec<Elem> = donor[0].elems().cloned().collect();
        for k in kids {
          if c.s.chance(1, 2) && !texty {
            let p = c.s.below(e.kids.len() + 1);
            e.kids.insert(p, Node::E(k));
            c.stats.add("fault:part_repeated_with_other_value", 1);
          }
        }
      }
      3 if is_struct => {
        let ix: Vec<usize> = e.kids.iter().enumerate().filter(|(_, k)| matches!(k, Node::E(_))).map(|(i, _)| i).collect();
        if !ix.is_empty() && !texty {
          let i = *c.s.pick(&ix);
          let x = e.kids[i].clone();
          let p = c.s.below(e.kids.len() + 1);
          e.kids.insert(p, x);
          c.stats.add("fault:part_repeated", 1);
        }
      }
      4 => {
        if e.kids.len() > 1 && !texty {
          let a = c.s.below(e.kids.len());
          let k = e.kids.remove(a);
          let b = c.s.below(e.kids.len() + 1);
          e.kids.insert(b, k);
          c.stats.add("fault:part_moved", 1);
        }
      }
      5 | 6 => {
        let f = foreign(c, t, e, 0);
        // text stays in one piece
        let p = if texty { *c.s.pick(&[0, e.kids.len()]) } else { c.s.below(e.kids.len() + 1) };
        e.kids.insert(p, Node::E(f));
        c.stats.add("fault:foreign_subtree", 1);
      }
      _ => {
        if is_struct && c.s.chance(1, 3) && !e.attrs.is_empty() {
          let i = c.s.below(e.attrs.len());
          e.attrs.remove(i);
          c.stats.add("fault:attribute_lost", 1);
        } else {
          let ns = FOREIGN_NS[c.s.below(4)];
          let mut known = vec![];
          attr_names(&c.env.schema, t, &mut known);
          // attributes are recognised by their local name (see the known finding attr-ns)
          let mut l = c.s.pick(&["zz", "type", "nil", "schemaLocation"]).to_string();
          if c.s.chance(1, 3) && !known.is_empty() {
            let k = c.s.pick(&known).clone();
            l = near(c.s, &k);
          } else if c.s.chance(1, 3) {
            // the name of a part that is an element
            if let Some(x) = e.elems().next() {
              l = x.local.clone();
            }
          }
          if !known.contains(&l) && !e.attrs.iter().any(|a| a.local == l) {
            e.attr(ns, &l, "foreign & <odd>".into());
            c.stats.add("fault:foreign_attribute", 1);
          }
        }
      }
    }
  }
}
pub fn c10(c: &mut Ctx) -> Result<(), Violation> {
  log_level(c);
  let t = pick_type(c, |t| t.dec && !t.flatten);
  let name = c.env.schema.ty(t).name;
  let mut g = Gen::small();
  if c.s.chance(1, 20) {
    g = Gen::swarm(c.s);
  }
  let v = c.env.schema.gen(c.s, t, &mut g);
  let mut roots = c.env.schema.encode(t, &v);
  let before = roots[0].show();
  let mut m = Mut { kinds: 0, n: 0 };
  mutate(c, t, &mut roots[0], &mut m, 0);
  let mut noise = Noise::gen(c.s, true);
  noise.enc = Enc::Utf8;
  let doc = render(c.s, &roots, &noise);
  let want = c.env.schema.decode(t, &roots);
  c.log(|| format!("type {name}: {before}\n  became {}\n  written {}\n  meaning {want:?}", roots[0].show(), esc(&doc.bytes)));
  c.nontrivial = m.n > 0;
  c.stats.add(if want.is_ok() { "still_readable" } else { "required_part_missing" }, 1);
  let data = Arc::new(doc.bytes.clone());
  let plan = if c.s.chance(1, 2) { Plan::whole() } else { Plan::delivery(c.s, data.len()) };
  c.feat(t as u64 * 2 + want.is_ok() as u64, m.kinds * 16 + m.n as u64);
  let (r, _) = decode(c, t, &data, plan.clone());
  let ok = match (&r, &want) {
    (Ok(Ok(a)), Ok(b)) => a == b,
    (Ok(Err(_)), Err(_)) => true,
    _ => false,
  };
  if !ok {
    let class = match (&r, &want) {
      (Err(f), _) => f.class(),
      (Ok(Ok(_)), Err(_)) => "accepted",
      (Ok(Err(_)), Ok(_)) => "rejected",
      _ => "wrong-value",
    };
    return viol(class, format!("{name}: {} decoded as {} instead of {} (tree {})", esc(&data), show_dec(&r), short(format!("{want:?}")), short(roots[0].show())));
  }
  Ok(())
}

//! C14: chains of peers that decode and encode again.
use super::*;

struct Link<'l> {
  name: &'l str,
}
impl Link<'_> {
  /// one transmission: encode under `cfg`, deliver, decode; retried until it gets through
  fn send(&self, c: &mut Ctx, t: usize, v: &Val, cfg: &Config, out: &mut Vec<u8>) -> Result<(), Violation> {
    let guess = 60 + c.env.schema.encode(t, v).iter().map(|e| e.count() * 14).sum::<usize>();
    let mut fails = if c.s.chance(1, 4) { c.s.range(1, 2) } else { 0 };
    loop {
      let mut plan = Plan::delivery(c.s, guess);
      if fails > 0 {
        let at = c.s.below(guess);
        plan = plan.with(at, if c.s.chance(1, 3) { Fault::End } else { Plan::err(c.s) });
      }
      let (r, sh) = encode(c, t, v, cfg, plan, guess * 8);
      let hit = get(&sh, |i| i.hit.is_some());
      match r {
        Ok(Ok(_)) if !hit => {
          *out = get(&sh, |i| i.out.clone());
          return Ok(());
        }
        Ok(Err(_)) if hit => {
          c.stats.add("retransmissions", 1);
          fails -= 1;
        }
        r => return viol("refused", format!("{}: {} {v:?} with {}: {:?}", self.name, c.env.schema.ty(t).name, show_config(cfg), r.map(|x| x.map(|_| ())))),
      }
    }
  }
  fn recv(&self, c: &mut Ctx, t: usize, data: &Arc<Vec<u8>>) -> Result<Dec, Violation> {
    let mut fails = if c.s.chance(1, 4) { c.s.range(1, 2) } else { 0 };
    loop {
      let mut plan = Plan::delivery(c.s, data.len());
      if fails > 0 {
        let at = c.s.below(data.len());
        // the end of a root-flattened document is not marked by a closing tag
        let end = c.s.chance(1, 2) && !c.env.schema.ty(t).flatten;
        plan = plan.with(at, if end { Fault::End } else { Plan::err(c.s) });
      }
      let (r, sh) = decode(c, t, data, plan);
      let hit = get(&sh, |i| i.hit.is_some());
      if hit && fails > 0 && matches!(r, Ok(Err(_))) {
        c.stats.add("retransmissions", 1);
        fails -= 1;
        continue;
      }
      return Ok(r);
    }
  }
}
pub fn c14(c: &mut Ctx) -> Result<(), Violation> {
  log_level(c);
  if c.s.chance(2, 5) {
    return versions(c);
  }
  let t = pick_type(c, |t| t.enc && t.dec);
  let name = c.env.schema.ty(t).name;
  let mut g = Gen::swarm(c.s);
  g.budget = g.budget.min(20_000);
  // the first sender may hold more than it sends
  let held = c.env.schema.gen_held(c.s, t, &mut g);
  let v = c.env.schema.settle(t, held.clone());
  let hops = c.s.range(1, 6);
  c.log(|| format!("type {name} value {} over {hops} hops", short(format!("{v:?}"))));
  let mut seen: Vec<((bool, bool, Option<String>), Vec<u8>)> = vec![];
  let mut cur = held;
  let mut cfgs = vec![];
  for _ in 0..c.s.range(1, 3) {
    cfgs.push(config(c.s));
  }
  for h in 0..hops {
    let l = Link { name: "hop" };
    // what travels: first possibly a foreign peer's form, later sometimes re-rendered by a relay
    let cfg = copy_config(c.s.pick(&cfgs));
    let mut bytes = vec![];
    l.send(c, t, &cur, &cfg, &mut bytes)?;
    let key = (cfg.perform_indent, cfg.write_document_declaration, cfg.indent_string.clone());
    match seen.iter().find(|s| s.0 == key) {
      Some((_, b)) if *b != bytes => {
        return viol("drift", format!("{name}: hop {h} encodes ({}) {} but an earlier hop {}", show_config(&cfg), esc(&bytes), esc(b)));
      }
      Some(_) => {}
      None => seen.push((key, bytes.clone())),
    }
    let relay = c.s.chance(1, 3);
    if relay {
      // a relay that is not this library: same content, other lexical form
      let p = match parse(&bytes) {
        Ok(p) => p,
        Err(e) => return viol("content", format!("{name}: hop {h} sent {}: {e}", esc(&bytes))),
      };
      let roots: Vec<Elem> = p.roots.iter().map(|r| r.canon(cfg.perform_indent)).collect();
      let noise = Noise::gen(c.s, true);
      bytes = render(c.s, &roots, &noise).bytes;
      c.stats.add("relayed", 1);
    }
    c.feat(t as u64 * 8 + hops as u64, h as u64 * 4 + relay as u64 * 2 + cfg.perform_indent as u64);
    let data = Arc::new(bytes);
    let r = l.recv(c, t, &data)?;
    c.log(|| format!("hop {h} ({}, relay={relay}): {} -> {}", show_config(&cfg), esc(&data), show_dec(&r)));
    c.stats.add("hops", 1);
    match r {
      Ok(Ok(x)) if x == v => cur = x,
      r => return viol("hop", format!("{name}: after hop {h} ({}) {} arrived as {} instead of {}", show_config(&cfg), esc(&data), show_dec(&r), short(format!("{v:?}")))),
    }
  }
  c.nontrivial |= hops > 1;
  Ok(())
}
/// the parts two versions of a type share, by name
fn shared(c: &Env, ta: usize, a: &Val, tb: usize, b: &Val, path: &str) -> Result<(), String> {
  let (Kind::Struct(fa), Kind::Struct(fb)) = (&c.schema.ty(ta).kind, &c.schema.ty(tb).kind) else {
    return Ok(());
  };
  for (f, x) in fa.iter().zip(a.fields()) {
    for (g, y) in fb.iter().zip(b.fields()) {
      if f.name == g.name && f.role == g.role && f.role != Role::Flatten {
        same(c, &f.ty, x, &g.ty, y, &format!("{path}.{}", f.name))?;
      }
    }
  }
  Ok(())
}
fn same(c: &Env, ta: &Ty, a: &Val, tb: &Ty, b: &Val, path: &str) -> Result<(), String> {
  match (ta, a, tb, b) {
    (Ty::Ref(x), a, Ty::Ref(y), b) if x != y => shared(c, *x, a, *y, b, path),
    (Ty::Opt(x), Val::Opt(Some(a)), Ty::Opt(y), Val::Opt(Some(b))) => same(c, x, a, y, b, path),
    (Ty::Vec(x), Val::Vec(a), Ty::Vec(y), Val::Vec(b)) if a.len() == b.len() => {
      for (i, (p, q)) in a.iter().zip(b).enumerate() {
        same(c, x, p, y, q, &format!("{path}[{i}]"))?;
      }
      Ok(())
    }
    _ if a == b => Ok(()),
    _ => Err(format!("{path} is {} on one side and {} on the other", short(format!("{a:?}")), short(format!("{b:?}")))),
  }
}
fn versions(c: &mut Ctx) -> Result<(), Violation> {
  let ver: Vec<usize> = (0..c.env.schema.types.len()).filter(|t| c.env.schema.ty(*t).tags.starts_with("ver")).collect();
  let t0 = *c.s.pick(&ver);
  let tag = c.env.schema.ty(t0).tags;
  let family: Vec<usize> = ver.iter().copied().filter(|t| c.env.schema.ty(*t).tags == tag).collect();
  let mut g = Gen::swarm(c.s);
  g.budget = g.budget.min(10_000);
  let v0 = c.env.schema.gen(c.s, t0, &mut g);
  let hops = c.s.range(1, 5);
  let (mut t, mut v) = (t0, v0.clone());
  c.log(|| format!("{} {}", c.env.schema.ty(t).name, short(format!("{v:?}"))));
  let mut path = vec![t0];
  for h in 0..hops {
    let next = *c.s.pick(&family);
    let cfg = config(c.s);
    let l = Link { name: "version hop" };
    let mut bytes = vec![];
    l.send(c, t, &v, &cfg, &mut bytes)?;
    let data = Arc::new(bytes);
    let r = l.recv(c, next, &data)?;
    let (na, nb) = (c.env.schema.ty(t).name, c.env.schema.ty(next).name);
    c.log(|| format!("hop {h}: {na} -> {nb}: {} -> {}", esc(&data), show_dec(&r)));
    c.feat(t as u64 * 1000 + next as u64, h as u64);
    c.stats.add("version_hops", 1);
    let want = c.env.schema.decode(next, &c.env.schema.encode(t, &v));
    let x = match (r, want) {
      (Ok(Ok(x)), Ok(w)) if x == w => x,
      (r, w) => return viol("version", format!("{na} sent {} which {nb} reads as {} instead of {w:?}", esc(&data), show_dec(&r))),
    };
    if let Err(e) = shared(c.env, t, &v, next, &x, nb) {
      return viol("version", format!("{na} {v:?} sent as {}, received as {nb}: {e}", esc(&data)));
    }
    t = next;
    v = x;
    path.push(next);
    // what every version on the way knew has survived since the start
    if path.iter().all(|p| *p == path[0]) && v != v0 {
      return viol("version", format!("{na}: {v0:?} became {v:?} over peers of the same version"));
    }
  }
  c.nontrivial = true;
  Ok(())
}

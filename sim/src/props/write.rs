//! C06, C07: writing.
use super::*;

/// compares what the encoder wrote with the reference tree; `indented` ignores added white space
pub fn denotes(bytes: &[u8], roots: &[Elem], indented: bool) -> Result<(), String> {
  let p = parse(bytes).map_err(|e| format!("not well-formed: {e}"))?;
  if p.comments > 0 {
    return Err("contains a comment".into());
  }
  let got: Vec<Elem> = p.roots.iter().map(|e| e.canon(indented)).collect();
  let want: Vec<Elem> = roots.iter().map(|e| e.canon(indented)).collect();
  if got != want {
    let sh = |v: &[Elem]| short(v.iter().map(|e| e.show()).collect::<String>());
    return Err(format!("denotes {} instead of {}", sh(&got), sh(&want)));
  }
  Ok(())
}
pub fn c06(c: &mut Ctx) -> Result<(), Violation> {
  log_level(c);
  let t = pick_type(c, |t| t.enc);
  let td = c.env.schema.ty(t);
  let mut g = Gen::swarm(c.s);
  let v = c.env.schema.gen_held(c.s, t, &mut g);
  let roots = c.env.schema.encode(t, &v);
  let cfg = config(c.s);
  c.log(|| format!("type {} value {} config {}", td.name, short(format!("{v:?}")), show_config(&cfg)));
  let size = 200 + roots.iter().map(|r| r.count()).sum::<usize>() * 100;
  // undisturbed
  let (r, sh) = encode(c, t, &v, &cfg, Plan::whole(), size);
  let full = get(&sh, |i| i.out.clone());
  let what = |m: String| format!("{} {} ({}): {m}", td.name, short(format!("{v:?}")), show_config(&cfg));
  match r {
    Ok(Ok(_)) => {}
    Ok(Err(e)) => return viol("refused", what(format!("serialization failed without a fault: {e:?}"))),
    Err(f) => return viol(f.class(), what(format!("{f:?}"))),
  }
  c.log(|| format!("wrote {}", esc(&full)));
  if let Err(e) = denotes(&full, &roots, cfg.perform_indent) {
    return viol("content", what(format!("wrote {}: {e}", esc(&full))));
  }
  if full.starts_with(b"<?xml") != cfg.write_document_declaration {
    return viol("declaration", what(format!("wrote {}", esc(&full))));
  }
  // the other entry points
  let ops = c.env.ops[t];
  match guarded(limit_for(size), || (ops.to_string_config)(&v, &cfg)).0 {
    Ok(Ok(s)) if s.as_bytes() == &full[..] => {}
    r => return viol("entry-points", what(format!("to_string_with_config gave {r:?}, the writer {}", esc(&full)))),
  }
  if !cfg.perform_indent && cfg.write_document_declaration {
    match guarded(limit_for(size), || (ops.to_string)(&v)).0 {
      Ok(Ok(s)) if s.as_bytes() == &full[..] => {}
      r => return viol("entry-points", what(format!("to_string gave {r:?}, the writer {}", esc(&full)))),
    }
  }
  // disturbed sinks
  for _ in 0..c.s.range(1, 4) {
    let plan = Plan::delivery(c.s, full.len());
    c.feat(t as u64 * 16 + cfg.perform_indent as u64 * 2 + cfg.write_document_declaration as u64, lenclass(full.len()));
    c.feat(plan.faults.len() as u64, plan.chunks.first().copied().unwrap_or(0) as u64);
    let (r, sh) = encode(c, t, &v, &cfg, plan.clone(), size);
    let got = get(&sh, |i| i.out.clone());
    c.log(|| format!("sink {plan:?} -> {} bytes", got.len()));
    match r {
      Ok(Ok(_)) if got == full => {}
      Ok(Ok(_)) => return viol("sink-schedule", what(format!("sink {plan:?} received {} instead of {}", esc(&got), esc(&full)))),
      Ok(Err(e)) => return viol("sink-schedule", what(format!("sink {plan:?} kept accepting but serialization failed: {e:?}"))),
      Err(f) => return viol(f.class(), what(format!("{f:?} with sink {plan:?}"))),
    }
  }
  // content only: what would stand between the tags (a flattened type has none)
  if !td.flatten && c.s.chance(1, 3) {
    let mut el = Elem::new("", "");
    if roots.len() == 1 && !td.flatten {
      el.kids = roots[0].kids.clone();
    } else {
      el.kids = roots.iter().cloned().map(Node::E).collect();
    }
    let mut nss = vec![];
    el.all_ns(&mut nss);
    if nss.iter().all(|n| n.is_empty()) {
      let plan = Plan::delivery(c.s, full.len());
      let (io, sh) = SimIo::sink(plan.clone());
      let (r, _) = guarded(limit_for(size), || (ops.encode_content)(&v, io));
      let got = get(&sh, |i| i.out.clone());
      c.io(&sh);
      let mut whole = b"<x>".to_vec();
      whole.extend(&got);
      whole.extend(b"</x>");
      let mut want = el.clone();
      want.local = "x".into();
      match r {
        Ok(Ok(_)) => {
          if let Err(e) = denotes(&whole, &[want], false) {
            return viol("content-only", what(format!("content {}: {e}", esc(&got))));
          }
        }
        r => return viol("content-only", what(format!("content serialization gave {:?}", r.map(|x| x.map(|_| ()))))),
      }
      match guarded(limit_for(size), || (ops.to_string_content)(&v)).0 {
        Ok(Ok(s)) if s.as_bytes() == &got[..] => {}
        r => return viol("content-only", what(format!("to_string_content gave {r:?}, the writer {}", esc(&got)))),
      }
    }
  }
  Ok(())
}
pub fn c07(c: &mut Ctx) -> Result<(), Violation> {
  let t = pick_type(c, |t| t.enc);
  let td = c.env.schema.ty(t);
  let mut g = Gen::swarm(c.s);
  let v = c.env.schema.gen_held(c.s, t, &mut g);
  let roots = c.env.schema.encode(t, &v);
  let cfg = config(c.s);
  let content = c.s.chance(1, 8);
  c.log(|| format!("type {} value {} config {} content-only={content}", td.name, short(format!("{v:?}")), show_config(&cfg)));
  let size = 200 + roots.iter().map(|r| r.count()).sum::<usize>() * 100;
  let ops = c.env.ops[t];
  let enc = |c: &mut Ctx, plan: Plan| {
    if content {
      let (io, sh) = SimIo::sink(plan);
      let (r, _) = guarded(limit_for(size), || (ops.encode_content)(&v, io));
      c.io(&sh);
      (r, sh)
    } else {
      encode(c, t, &v, &cfg, plan, size)
    }
  };
  let what = |m: String| format!("{} {} ({}): {m}", td.name, short(format!("{v:?}")), show_config(&cfg));
  let (r, sh) = enc(c, Plan::whole());
  let full = get(&sh, |i| i.out.clone());
  if !matches!(r, Ok(Ok(_))) {
    return viol("refused", what(format!("serialization failed without a fault: {:?}", r.map(|x| x.map(|_| ())))));
  }
  c.log(|| format!("undisturbed: {}", esc(&full)));
  let n = full.len();
  if n == 0 {
    return Ok(());
  }
  let sweep = n <= 400 && c.s.chance(1, 3);
  let offs: Vec<usize> = if sweep {
    (0..n).collect()
  } else {
    let d = Doc { bytes: full.clone(), end: n, text: String::new(), marks: vec![] };
    (0..c.s.range(1, 6)).map(|_| if c.s.chance(1, 2) { c.s.below(n) } else { pick_mark(c.s, &d) }).collect()
  };
  let base = Plan::delivery(c.s, n);
  for at in offs {
    let fault = if c.s.chance(1, 4) { Fault::End } else { Plan::err(c.s) };
    let plan = base.clone().with(at, fault.clone());
    let (r, sh) = enc(c, plan);
    let (got, hit) = get(&sh, |i| (i.out.clone(), i.hit.is_some()));
    let kind = match &fault {
      Fault::Err { kind, transient } => 1 + *kind as u64 * 2 + *transient as u64,
      _ => 0,
    };
    if hit {
      c.stats.add("refused_byte", 1);
      c.feat(t as u64 * 8 + cfg.perform_indent as u64, posclass(&full, at) * 64 + kind);
    }
    c.log(|| format!("{fault:?} at byte {at} of {n} -> {} bytes accepted, {:?}", got.len(), r.as_ref().map(|x| x.as_ref().map(|_| ()))));
    let f = format!("{fault:?} at byte {at} of {n}");
    match r {
      Ok(Err(_)) => {
        if !hit {
          return viol("refused", what(format!("{f}: failed before the fault")));
        }
      }
      Ok(Ok(_)) => return viol("accepted", what(format!("{f}: reported success; accepted {} of {}", esc(&got), esc(&full)))),
      Err(x) => return viol(x.class(), what(format!("{f}: {x:?}"))),
    }
    if got.len() > n || got[..] != full[..got.len()] {
      return viol("prefix", what(format!("{f}: accepted bytes {} are not a prefix of {}", esc(&got), esc(&full))));
    }
    if got.len() != at {
      return viol("prefix", what(format!("{f}: {} bytes were accepted, {} after the failure: {}", got.len(), got.len() as i64 - at as i64, esc(&got))));
    }
  }
  Ok(())
}
fn pick_mark(s: &mut Src, d: &Doc) -> usize {
  let marks: Vec<usize> = d.bytes.iter().enumerate().filter(|(_, b)| matches!(b, b'<' | b'>' | b'/' | b'"' | b'&' | b' ')).map(|(i, _)| i).collect();
  if marks.is_empty() {
    return s.below(d.end);
  }
  let m = *s.pick(&marks);
  (m + s.below(3)).saturating_sub(1).min(d.end - 1)
}

//! C08: durable records over a simulated disk that crashes.
use super::*;
use std::io::Read;
use std::sync::Mutex;

/// A file as a crash leaves it: what was synced, and what was only written.
#[derive(Clone, Default)]
struct File {
  data: Vec<u8>,
  synced: usize,
}
impl File {
  /// the bytes that survive a crash now
  fn crash(&mut self, c: &mut Ctx) {
    let n = self.data.len();
    if self.synced < n {
      let keep = match c.s.below(4) {
        0 => n,
        1 => self.synced,
        // pages of 16 bytes survive whole
        2 => self.synced + c.s.below((n - self.synced) / 16 + 1) * 16,
        _ => self.synced + c.s.below(n - self.synced + 1),
      };
      c.stats.add("fault:unsynced_tail_lost", (keep < n) as u64);
      let zeros = keep < n && c.s.chance(1, 3);
      self.data.truncate(keep);
      if zeros {
        // the length was journalled but the data was not written
        c.stats.add("fault:torn_tail_zeroed", 1);
        self.data.resize(n, 0);
      }
    }
    self.synced = self.data.len();
  }
}
struct Died;
/// serializes into the end of the file; Err(Died) if the process crashed meanwhile
fn put(c: &mut Ctx, t: usize, v: &Val, cfg: &Config, file: &mut File, crash: bool, enospc: bool) -> Result<Result<bool, Died>, Violation> {
  let guess = 60 + c.env.schema.encode(t, v).iter().map(|e| e.count() * 14).sum::<usize>();
  let mut plan = Plan::delivery(c.s, guess);
  let at = c.s.below(guess);
  if crash {
    plan = plan.with(at, Fault::Panic);
  } else if enospc {
    plan = plan.with(at, if c.s.chance(1, 2) { Fault::End } else { Plan::err(c.s) });
  }
  let (r, sh) = encode(c, t, v, cfg, plan, guess * 8);
  let (out, hit) = get(&sh, |i| (i.out.clone(), i.hit.is_some()));
  file.data.extend(out);
  match r {
    Ok(Ok(_)) => Ok(Ok(true)),
    Ok(Err(e)) => {
      if !hit {
        return viol("refused", format!("{} {v:?} could not be stored on a working disk: {e:?}", c.env.schema.ty(t).name));
      }
      c.stats.add("store_failed", 1);
      Ok(Ok(false))
    }
    Err(Fail::Stream) => {
      c.stats.add("fault:crash_in_write", 1);
      Ok(Err(Died))
    }
    Err(f) => viol(f.class(), format!("{} {v:?}: storing ended in {f:?}", c.env.schema.ty(t).name)),
  }
}
/// reads a record back, possibly over a disk that first fails or a process that crashes again
fn load(c: &mut Ctx, t: usize, data: &[u8], ok: &[&Val], must: bool, what: &str) -> Result<Option<Val>, Violation> {
  let d = Arc::new(data.to_vec());
  let name = c.env.schema.ty(t).name;
  let mut tries = if c.s.chance(1, 4) { 1 + c.s.below(2) } else { 0 };
  loop {
    let mut plan = Plan::delivery(c.s, d.len());
    if tries > 0 {
      let at = c.s.below(d.len() + 1);
      let f = if c.s.chance(1, 3) { Fault::Panic } else { Plan::err(c.s) };
      plan = plan.with(at, f);
    }
    let (r, _) = decode(c, t, &d, plan.clone());
    match &r {
      Ok(Ok(v)) => {
        if !ok.iter().any(|x| **x == *v) {
          return viol("wrong-value", format!("{name}: {what}: read back as {} from {} instead of {:?}", short(format!("{v:?}")), esc(data), ok));
        }
      }
      Err(f @ (Fail::Panic(_) | Fail::Budget(_))) => {
        return viol(f.class(), format!("{name}: {what}: reading {} ended in {f:?}", esc(data)));
      }
      _ => {}
    }
    if tries > 0 {
      tries -= 1;
      c.stats.add("reload_retried", 1);
      continue;
    }
    return match r {
      Ok(Ok(v)) => Ok(Some(v)),
      _ if must => viol("lost", format!("{name}: {what}: {} from {} instead of {:?}", show_dec(&r), esc(data), ok)),
      _ => Ok(None),
    };
  }
}
pub fn c08(c: &mut Ctx) -> Result<(), Violation> {
  log_level(c);
  if c.s.chance(1, 3) {
    return journal(c);
  }
  // one file per record; a store either replaces the file through a temporary one or writes it in place
  let keys = c.s.range(1, 3);
  struct Rec {
    t: usize,
    /// the file's durable and volatile content
    file: File,
    exists: bool,
    /// values that may be read back; the last one is the acknowledged one if `must`
    ok: Vec<Val>,
    must: bool,
  }
  let mut recs: Vec<Rec> = vec![];
  for _ in 0..keys {
    let t = pick_type(c, |t| t.enc && t.dec && !t.flatten);
    recs.push(Rec { t, file: File::default(), exists: false, ok: vec![], must: false });
  }
  let ops = c.s.range(2, 8);
  let mut crashes = 0;
  for op in 0..ops {
    let k = c.s.below(keys);
    let t = recs[k].t;
    let mut g = Gen::swarm(c.s);
    g.budget = g.budget.min(20_000);
    let held = c.env.schema.gen_held(c.s, t, &mut g);
    let v = c.env.schema.settle(t, held.clone());
    let cfg = config(c.s);
    let replace = c.s.chance(1, 2);
    // what goes wrong with this store, if anything
    let ill = c.s.below(8);
    let (crash_in, enospc, before_sync, sync_err, after_sync, after_ack) = (ill == 1, ill == 2, ill == 3, ill == 4, ill == 5, ill >= 6);
    let mut f = File::default();
    let done = put(c, t, &held, &cfg, &mut f, crash_in, enospc)?;
    let mut crashed = done.is_err();
    let mut acked = false;
    let complete = matches!(done, Ok(true));
    if complete && before_sync {
      c.stats.add("fault:crash_before_sync", 1);
      crashed = true;
    } else if complete && sync_err {
      // the data may or may not have reached the disk
      c.stats.add("fault:sync_error", 1);
      if c.s.chance(1, 2) {
        f.synced = c.s.below(f.data.len() + 1);
      }
    } else if complete {
      f.synced = f.data.len();
      if after_sync {
        c.stats.add("fault:crash_before_ack", 1);
        crashed = true;
      } else {
        acked = true;
        c.stats.add("acknowledged", 1);
      }
    }
    let r = &mut recs[k];
    if replace {
      // the rename happens only for a synced file, and is durable before the acknowledgement
      let renamed = complete && f.synced == f.data.len() && (acked || (crashed && c.s.chance(1, 2)));
      if renamed {
        r.file = f;
        r.exists = true;
        r.ok = vec![v.clone()];
        r.must = true;
      }
      // otherwise the temporary file is forgotten and the old record stands
    } else {
      r.exists = true;
      r.file = f;
      if acked {
        r.ok = vec![v.clone()];
        r.must = true;
      } else {
        // torn, or complete by luck; the old content was given up
        r.ok = vec![v.clone()];
        r.must = false;
      }
    }
    c.feat(t as u64 * 16 + ill as u64, replace as u64 * 2 + acked as u64);
    c.log(|| {
      format!(
        "op {op}: record {k} ({}) <- {} {}: ill={ill} complete={complete} acked={acked} crashed={crashed}",
        c_name(t, c_env(c.env)),
        short(format!("{v:?}")),
        if replace { "through a temporary file" } else { "in place" }
      )
    });
    if after_ack {
      c.stats.add("fault:crash_after_ack", 1);
      crashed = true;
    }
    if crashed {
      crashes += 1;
      for r in recs.iter_mut() {
        r.file.crash(c);
      }
    }
    if crashed || op + 1 == ops {
      // restart: read everything back
      for (k, r) in recs.iter().enumerate() {
        if !r.exists {
          continue;
        }
        let ok: Vec<&Val> = r.ok.iter().collect();
        let got = load(c, r.t, &r.file.data, &ok, r.must, &format!("record {k} after operation {op}"))?;
        c.stats.add(if got.is_some() { "read_back" } else { "read_back_rejected" }, 1);
        c.log(|| format!("  record {k}: {}", if got.is_some() { "intact" } else { "rejected" }));
      }
      c.stats.add("restarts", crashed as u64);
    }
  }
  c.nontrivial = crashes > 0;
  Ok(())
}
fn c_env(e: &Env) -> &Env {
  e
}
fn c_name(t: usize, e: &Env) -> &'static str {
  e.schema.ty(t).name
}
/// records appended to one file; recovery reads them one after the other until the tail
fn journal(c: &mut Ctx) -> Result<(), Violation> {
  let schema = &c.env.schema;
  let ts: Vec<usize> = (0..schema.types.len()).filter(|t| schema.ty(*t).enc && schema.ty(*t).dec && !schema.ty(*t).flatten && schema.complete_at_end(*t)).collect();
  let n = c.s.range(2, 7);
  let mut file = File::default();
  // (type, value, acknowledged, end offset)
  let mut log: Vec<(usize, Val, usize)> = vec![];
  // a record appended without acknowledgement that may have survived
  for op in 0..n {
    let t = *c.s.pick(&ts);
    let mut g = Gen::small();
    let held = c.env.schema.gen_held(c.s, t, &mut g);
    let v = c.env.schema.settle(t, held.clone());
    let mut cfg = config(c.s);
    // the declaration tells records apart
    cfg.write_document_declaration = true;
    let ill = c.s.below(6);
    let before = file.data.len();
    let done = put(c, t, &held, &cfg, &mut file, ill == 1, ill == 2)?;
    let mut crashed = done.is_err();
    let mut acked = false;
    match done {
      Ok(true) if ill == 3 => {
        c.stats.add("fault:crash_before_sync", 1);
        crashed = true;
      }
      Ok(true) => {
        file.synced = file.data.len();
        acked = true;
        c.stats.add("acknowledged", 1);
        crashed = ill == 4;
        c.stats.add("fault:crash_after_ack", crashed as u64);
      }
      Ok(false) => file.data.truncate(before),
      Err(_) => {}
    }
    c.log(|| format!("op {op}: append {} {}: ill={ill} acked={acked} crashed={crashed}", c_name(t, c_env(c.env)), short(format!("{v:?}"))));
    c.feat(t as u64 * 8 + ill as u64, acked as u64);
    let tail = if acked {
      log.push((t, v, file.data.len()));
      None
    } else {
      Some((t, v))
    };
    if crashed || op + 1 == n {
      if crashed {
        file.crash(c);
        c.stats.add("restarts", 1);
        c.nontrivial = true;
      }
      // recovery
      let mut plan = Plan::delivery(c.s, file.data.len());
      plan.bufcap = 0;
      let data = Arc::new(file.data.clone());
      let (io, sh) = SimIo::source(data.clone(), plan);
      let io = Arc::new(Mutex::new(io));
      let mut good = 0;
      for (i, (t, v, end)) in log.iter().enumerate() {
        let f = c.env.ops[*t].decode;
        let (r, steps) = guarded(limit_for(data.len()), || f(DynR(Box::new(Hold(io.clone())))));
        c.stats.add("steps", steps);
        if r != Ok(Ok(v.clone())) {
          return viol("lost", format!("{}: acknowledged record {i} of the journal {} reads back as {} instead of {v:?}", c_name(*t, c.env), esc(&data), show_dec(&r)));
        }
        good = *end;
        let pos = get(&sh, |i| i.pos);
        if pos != *end {
          return viol("framing", format!("{}: record {i} of the journal {} ends at {end} but {pos} bytes were taken", c_name(*t, c.env), esc(&data)));
        }
        c.stats.add("read_back", 1);
      }
      if let Some((t, v)) = &tail {
        if crashed && good < data.len() {
          let f = c.env.ops[*t].decode;
          let (r, _) = guarded(limit_for(data.len()), || f(DynR(Box::new(Hold(io.clone())))));
          match r {
            Ok(Ok(x)) if x == *v => {
              let pos = get(&sh, |i| i.pos);
              c.stats.add("torn_tail_complete", 1);
              c.log(|| "  the unacknowledged record survived".into());
              log.push((*t, v.clone(), pos));
              good = pos;
            }
            Ok(Err(_)) => c.stats.add("torn_tail_rejected", 1),
            r => return viol("wrong-value", format!("{}: the torn record at byte {good} of {} reads back as {} instead of {v:?} or an error", c_name(*t, c.env), esc(&data), show_dec(&r))),
          }
        }
      }
      c.io(&sh);
      // the torn tail is cut off before the next append
      file.data.truncate(good);
      file.synced = good;
    }
  }
  Ok(())
}
struct Hold(Arc<Mutex<SimIo>>);
impl Read for Hold {
  fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
    let mut g = match self.0.lock() {
      Ok(g) => g,
      Err(p) => p.into_inner(),
    };
    g.read(b)
  }
}

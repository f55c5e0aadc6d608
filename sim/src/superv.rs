//! Batches of runs over worker processes, minimisation, replay files, evidence.
use crate::choice::{mix, Src};
use crate::json::J;
use crate::props::{self, PropDef};
use crate::run::*;
use std::collections::HashSet;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub fn env() -> Env {
  Env { schema: crate::model::Schema { types: crate::corpus::schema() }, ops: crate::corpus::ops() }
}
fn seed() -> u64 {
  std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1)
}
fn thorough() -> bool {
  std::env::var("VERIF_TIER").map_or(false, |x| x == "thorough")
}
fn pnum(p: &str) -> u64 {
  p.bytes().fold(7, |a, b| mix(a, b as u64))
}
pub fn run_seed(prop: &str, seed: u64, idx: u64) -> u64 {
  mix(mix(seed, pnum(prop)), idx)
}
pub struct Res {
  pub v: Option<Violation>,
  pub rec: Vec<u64>,
  pub stats: Stats,
  pub sig: u64,
  pub nontrivial: bool,
  pub log: Vec<String>,
}
pub fn one(p: &PropDef, env: &Env, mut src: Src, log: bool, thorough: bool) -> Res {
  let (v, stats, sig, nt, l);
  {
    let mut c =
      Ctx { s: &mut src, env, stats: Stats::default(), sig: 1, nontrivial: false, log: if log { Some(vec![]) } else { None }, thorough };
    v = (p.f)(&mut c).err();
    log::set_max_level(log::LevelFilter::Trace);
    stats = c.stats;
    sig = c.sig;
    nt = c.nontrivial;
    l = c.log.unwrap_or_default();
  }
  Res { v, rec: src.rec, stats, sig, nontrivial: nt, log: l }
}
fn arg<'a>(a: &'a [String], k: &str) -> Option<&'a str> {
  a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).map(|x| x.as_str())
}
fn argu(a: &[String], k: &str) -> Option<u64> {
  arg(a, k).and_then(|x| x.parse().ok())
}
pub fn main(a: &[String]) -> i32 {
  match a.first().map(|x| x.as_str()) {
    Some("check") => check(a),
    Some("worker") => worker(a),
    Some("minimise") => minimise(a),
    Some("replay") => replay(a),
    Some("one") => {
      let p = props::find(&a[1]).expect("property");
      let e = env();
      let r = one(p, &e, Src::from_seed(run_seed(p.id, argu(a, "--seed").unwrap_or(seed()), argu(a, "--idx").unwrap_or(0))), true, thorough());
      for l in &r.log {
        println!("{l}");
      }
      println!("sig {:x} stats {:?}", r.sig, r.stats.m);
      if let Some(v) = r.v {
        println!("FAILED {}: {}", v.class, v.msg);
        return 1;
      }
      0
    }
    Some("tracehash") => tracehash(a),
    Some("probe") => match crate::known::PROBES.iter().find(|p| p.prop == a[1] && p.id == a[2]) {
      Some(p) => {
        // each probe is a handful of small calls; one that does not come back is ended by its parent
        let (got, want) = std::panic::catch_unwind(p.f).unwrap_or_else(|_| ("Panic".into(), String::new()));
        println!("GOT {got}");
        println!("WANT {want}");
        0
      }
      None => 2,
    },
    Some("types") => {
      for (i, t) in env().schema.types.iter().enumerate() {
        println!("{i} {}", t.name);
      }
      0
    }
    _ => {
      eprintln!("usage: yasim check|replay|one|tracehash ...");
      2
    }
  }
}
/// prints one hash per run over its full event log (determinism proof)
fn tracehash(a: &[String]) -> i32 {
  let p = props::find(&a[1]).expect("property");
  let e = env();
  let (from, n, step) = (argu(a, "--from").unwrap_or(0), argu(a, "--n").unwrap_or(100), argu(a, "--step").unwrap_or(1));
  let mut i = from;
  while i < n {
    let r = one(p, &e, Src::from_seed(run_seed(p.id, seed(), i)), true, thorough());
    let mut h = 1u64;
    for l in &r.log {
      h = mix(h, pnum(l));
    }
    for x in &r.rec {
      h = mix(h, *x);
    }
    for (k, v) in &r.stats.m {
      h = mix(h, mix(pnum(k), *v));
    }
    h = mix(h, r.v.map_or(0, |v| pnum(&v.msg)));
    println!("{i} {h:016x} {}", r.rec.len());
    i += step;
  }
  0
}
fn worker(a: &[String]) -> i32 {
  let p = props::find(&a[1]).expect("property");
  let (k, w, n, sd) = (argu(a, "--k").unwrap(), argu(a, "--w").unwrap(), argu(a, "--n").unwrap(), argu(a, "--seed").unwrap());
  let start = argu(a, "--start").unwrap_or(k);
  let prog = std::fs::OpenOptions::new().write(true).open(arg(a, "--prog").unwrap()).unwrap();
  let cap = Duration::from_secs(argu(a, "--cap").unwrap());
  let e = env();
  let t0 = Instant::now();
  let th = thorough();
  let mut stats = Stats::default();
  let mut sigs: HashSet<u64> = HashSet::new();
  let (mut runs, mut draws) = (0u64, 0u64);
  let mut samples: Vec<J> = vec![];
  let mut i = start;
  let mut out = std::io::stdout();
  while i < n {
    prog.write_at(&i.to_le_bytes(), 0).unwrap();
    let want_log = runs < 2 && k == 0;
    let r = one(p, &e, Src::from_seed(run_seed(p.id, sd, i)), want_log, th);
    runs += 1;
    draws += r.rec.len() as u64;
    for (k, v) in &r.stats.m {
      stats.add(k, *v);
    }
    if r.nontrivial {
      sigs.insert(r.sig);
    }
    if want_log {
      let mut t = r.log.join("\n");
      if t.len() > 4000 {
        let mut c = 4000;
        while !t.is_char_boundary(c) {
          c -= 1;
        }
        t.truncate(c);
        t.push_str("...");
      }
      samples.push(J::obj(vec![("run", J::U(i)), ("trace", J::S(t))]));
    }
    if let Some(v) = r.v {
      let _ = writeln!(out, "{}", J::obj(vec![("viol", J::U(i)), ("class", J::s(&v.class)), ("msg", J::s(&v.msg))]).dump().replace('\n', " "));
      break;
    }
    if t0.elapsed() > cap {
      break;
    }
    i += w;
  }
  let mut sg: Vec<u64> = sigs.into_iter().collect();
  sg.sort();
  let j = J::obj(vec![
    ("runs", J::U(runs)),
    ("draws", J::U(draws)),
    ("stats", J::O(stats.m.iter().map(|(k, v)| (k.clone(), J::U(*v))).collect())),
    ("sigs", J::A(sg.into_iter().map(J::U).collect())),
    ("samples", J::A(samples)),
  ]);
  let _ = writeln!(out, "DONE");
  let _ = out.write_all(j.dump().as_bytes());
  0
}
struct W {
  k: u64,
  child: Child,
  prog: std::path::PathBuf,
  out: std::thread::JoinHandle<String>,
}
fn me() -> Command {
  Command::new(std::env::current_exe().unwrap())
}
fn verif_dir() -> std::path::PathBuf {
  std::env::var("VERIF_DIR").map(Into::into).unwrap_or_else(|_| std::env::current_dir().unwrap())
}
struct Found {
  idx: u64,
  k: u64,
  class: String,
  msg: String,
}
const HANG_S: u64 = 60;
fn check(a: &[String]) -> i32 {
  let Some(p) = props::find(&a[1]) else {
    eprintln!("unknown property {}", a[1]);
    return 2;
  };
  let t0 = Instant::now();
  let sd = seed();
  let th = thorough();
  let w = argu(a, "--workers").unwrap_or(8);
  let n = argu(a, "--runs").unwrap_or(if th { p.thorough } else { p.quick });
  let cap = argu(a, "--cap").unwrap_or(if th { 600 } else { 75 });
  println!("property {} seed {sd} tier {} runs {n} workers {w}", p.id, if th { "thorough" } else { "quick" });
  let tmp = std::env::temp_dir().join(format!("yasim-{}-{}", p.id, std::process::id()));
  std::fs::create_dir_all(&tmp).unwrap();
  let mut ws: Vec<W> = vec![];
  for k in 0..w {
    let prog = tmp.join(format!("p{k}"));
    std::fs::write(&prog, u64::MAX.to_le_bytes()).unwrap();
    let mut child = me()
      .args(["worker", p.id, "--k", &k.to_string(), "--w", &w.to_string(), "--n", &n.to_string()])
      .args(["--seed", &sd.to_string(), "--cap", &cap.to_string(), "--prog", prog.to_str().unwrap()])
      .stdout(Stdio::piped())
      .stderr(Stdio::null())
      .spawn()
      .expect("spawn worker");
    let mut so = child.stdout.take().unwrap();
    let out = std::thread::spawn(move || {
      let mut s = vec![];
      let _ = std::io::Read::read_to_end(&mut so, &mut s);
      String::from_utf8_lossy(&s).into_owned()
    });
    ws.push(W { k, child, prog, out });
  }
  let rd = |p: &std::path::Path| std::fs::read(p).ok().and_then(|b| b.try_into().ok()).map(u64::from_le_bytes).unwrap_or(u64::MAX);
  let mut last: Vec<(u64, Instant)> = vec![(u64::MAX, Instant::now()); w as usize];
  let mut found: Vec<Found> = vec![];
  let mut results: Vec<J> = vec![];
  let mut live = ws;
  let mut stop_at: Option<Instant> = None;
  while !live.is_empty() {
    let mut next = vec![];
    for mut x in live {
      match x.child.try_wait().unwrap() {
        Some(st) => {
          let o = x.out.join().unwrap();
          let (head, tail) = match o.split_once("DONE\n") {
            Some((h, t)) => (h.to_string(), Some(t.to_string())),
            None => (o.clone(), None),
          };
          for l in head.lines() {
            if let Ok(j) = J::parse(l) {
              if let Some(i) = j.get("viol").and_then(|x| x.as_u()) {
                found.push(Found {
                  idx: i,
                  k: x.k,
                  class: j.get("class").and_then(|x| x.as_s()).unwrap_or("").to_string(),
                  msg: j.get("msg").and_then(|x| x.as_s()).unwrap_or("").to_string(),
                });
              }
            }
          }
          match tail.and_then(|t| J::parse(&t).ok()) {
            Some(j) => results.push(j),
            None => {
              if stop_at.is_none() || st.code().is_some() {
                let i = rd(&x.prog);
                if i == u64::MAX {
                  eprintln!("worker {} failed to start: {st:?}", x.k);
                  let _ = std::fs::remove_dir_all(&tmp);
                  return 2;
                }
                found.push(Found { idx: i, k: x.k, class: "abort".into(), msg: format!("the process running the simulation died ({st})") });
              }
            }
          }
          if !found.is_empty() && stop_at.is_none() {
            stop_at = Some(Instant::now());
          }
        }
        None => {
          let i = rd(&x.prog);
          let l = &mut last[x.k as usize];
          if l.0 != i {
            *l = (i, Instant::now());
          } else if l.1.elapsed() > Duration::from_secs(HANG_S) {
            let _ = x.child.kill();
            let _ = x.child.wait();
            let _ = x.out.join();
            found.push(Found { idx: i, k: x.k, class: "hang".into(), msg: format!("the run did not finish within {HANG_S} s") });
            stop_at = stop_at.or(Some(Instant::now()));
            continue;
          }
          if stop_at.map_or(false, |t| t.elapsed() > Duration::from_millis(300)) {
            let _ = x.child.kill();
            let _ = x.child.wait();
            let _ = x.out.join();
            continue;
          }
          next.push(x);
        }
      }
    }
    live = next;
    std::thread::sleep(Duration::from_millis(15));
  }
  let _ = std::fs::remove_dir_all(&tmp);
  // ---- aggregate
  let mut stats = Stats::default();
  let (mut runs, mut draws) = (0, 0);
  let mut sigs: HashSet<u64> = HashSet::new();
  let mut samples = vec![];
  for r in &results {
    runs += r.get("runs").and_then(|x| x.as_u()).unwrap_or(0);
    draws += r.get("draws").and_then(|x| x.as_u()).unwrap_or(0);
    if let Some(J::O(m)) = r.get("stats") {
      for (k, v) in m {
        stats.add(k, v.as_u().unwrap_or(0));
      }
    }
    for s in r.get("sigs").and_then(|x| x.as_a()).unwrap_or(&[]) {
      sigs.insert(s.as_u().unwrap_or(0));
    }
    for s in r.get("samples").and_then(|x| x.as_a()).unwrap_or(&[]) {
      samples.push(s.clone());
    }
  }
  let vd = verif_dir();
  let mut code = 0;
  let mut viols = 0u64;
  found.sort_by_key(|f| f.idx);
  for f in found.iter() {
    // one confirmed violation is enough
    let dir = vd.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.json", p.id, sd, f.idx));
    let st = me()
      .args(["minimise", p.id, "--seed", &sd.to_string(), "--idx", &f.idx.to_string(), "--out", path.to_str().unwrap()])
      .args(["--k", &f.k.to_string(), "--w", &w.to_string(), "--class", &f.class, "--msg", &f.msg])
      .stderr(Stdio::null())
      .status();
    match st.ok().and_then(|s| s.code()) {
      Some(0) => {
        viols += 1;
        let j = std::fs::read_to_string(&path).ok().and_then(|t| J::parse(&t).ok());
        let m = j.as_ref().and_then(|j| j.get("message")).and_then(|x| x.as_s()).unwrap_or(&f.msg).to_string();
        println!("violated: {}: {m}", f.class);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        code = 1;
        break;
      }
      _ => {
        eprintln!("run {} ({}: {}) could not be reproduced in a fresh process", f.idx, f.class, f.msg);
        if code == 0 {
          code = 2;
        }
      }
    }
  }
  // the inputs known to fail, one process each
  let file = std::fs::read_to_string(vd.join("known_findings.txt")).unwrap_or_default();
  let mut known_seen = vec![];
  let mut tried = 0u64;
  for pr in crate::known::of(p.id) {
    tried += 1;
    let (got, want) = probe(pr);
    if got == want {
      continue;
    }
    let listed = file.lines().find_map(|l| {
      let mut f = l.split(" | ");
      let head = f.next()?;
      (head == format!("known: property={} id={}", p.id, pr.id) && f.next()? == format!("observed={got}")).then(|| f.next().unwrap_or("").to_string())
    });
    match listed {
      Some(what) => {
        println!("KNOWN-FINDING: property={} {}: {what}", p.id, pr.id);
        known_seen.push(J::s(pr.id));
      }
      None => {
        let dir = vd.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-probe-{}.json", p.id, pr.id));
        let j = J::obj(vec![
          ("property", J::s(p.id)),
          ("probe", J::s(pr.id)),
          ("message", J::S(format!("fixed input {}: got {got}, expected {want}", pr.id))),
        ]);
        let _ = std::fs::write(&path, j.dump() + "\n");
        viols += 1;
        code = 1;
        println!("violated: fixed input {}: got {got}, expected {want}", pr.id);
        println!("VIOLATION property={} replay={}", p.id, path.display());
      }
    }
  }
  stats.add("fixed_inputs_tried", tried);
  let wall = t0.elapsed().as_secs_f64();
  let samples: Vec<J> = samples.into_iter().take(3).collect();
  let mut faults = vec![];
  let mut probes = vec![];
  for (k, v) in &stats.m {
    if let Some(f) = k.strip_prefix("fault:") {
      faults.push((f.to_string(), J::U(*v)));
    } else {
      probes.push((k.clone(), J::U(*v)));
    }
  }
  let cov = J::obj(vec![
    ("evaluations", J::U(runs)),
    ("distinct_nontrivial", J::U(sigs.len() as u64)),
    ("rule", J::s(p.rule)),
    ("samples", J::A(samples)),
    ("faults_injected", J::O(faults.into_iter().collect())),
    ("probes", J::O(probes.into_iter().collect())),
    ("choices_drawn", J::U(draws)),
    ("seeds", J::s(&format!("run seeds are mix(VERIF_SEED={sd}, property, index) for index 0..{runs}"))),
    ("runs_per_hour", J::U((runs as f64 / wall.max(0.001) * 3600.0) as u64)),
    ("simulated_time", J::s("none: the library reads no clock; progress is measured in stream calls (io_calls) and recorded steps (steps)")),
    ("known_findings_seen", J::A(known_seen)),
    ("types_under_test", J::U(env().schema.types.len() as u64)),
    ("corpus", corpus()),
    ("other_corpora", other_corpora()),
    ("real_components", J::s("yaserde, yaserde_derive (expanded over the corpus), xml-rs 0.8.22, std BufReader")),
    ("stubbed_components", J::s("std::io::Read source, std::io::Write sink, logger (step counter), thread scheduler, global allocator (counting, real allocation)")),
  ]);
  let ev = J::obj(vec![
    ("property", J::s(p.id)),
    ("tier", J::s(if th { "thorough" } else { "quick" })),
    ("seed", J::U(sd)),
    ("level", J::s(p.level)),
    ("coverage", cov),
    (
      "assumptions",
      J::A(vec![
        J::s("the type corpus (sim/gen.py) stands for all derived types; values, documents, schedules and faults are sampled by seed, not enumerated, except where a run sweeps every offset of its document"),
        J::s("the reference model (sim/src/model.rs) states the documented meaning of the annotations"),
      ]),
    ),
    ("wall_s", J::F(wall)),
    ("violations", J::U(viols)),
  ]);
  let dir = std::env::var("YASIM_EVIDENCE").map(Into::into).unwrap_or_else(|_| vd.join("evidence"));
  let _ = std::fs::create_dir_all(&dir);
  if let Err(e) = std::fs::write(dir.join(format!("{}.json", p.id)), ev.dump() + "\n") {
    eprintln!("cannot write evidence: {e}");
    return 2;
  }
  println!("runs {runs} distinct {} wall {wall:.1}s", sigs.len());
  for (k, v) in &stats.m {
    println!("  {k} {v}");
  }
  if code == 0 && runs == 0 {
    return 2;
  }
  code
}
fn corpus() -> J {
  J::A(crate::corpus::CORPUS.iter().map(|x| J::U(*x)).collect())
}
/// what the batches over other corpora covered, from their evidence files (thorough tier)
fn other_corpora() -> J {
  let list = std::env::var("YASIM_OTHER_EVIDENCE").unwrap_or_default();
  let read = |f: &str| -> Option<J> {
    let j = J::parse(&std::fs::read_to_string(f).ok()?).ok()?;
    let c = j.get("coverage")?;
    let u = |k: &str| c.get(k).and_then(|x| x.as_u()).map(J::U);
    let seeds = c.get("corpus")?.as_a()?.iter().filter_map(|x| x.as_u()).map(J::U).collect();
    Some(J::obj(vec![
      ("corpus", J::A(seeds)),
      ("evaluations", u("evaluations")?),
      ("distinct_nontrivial", u("distinct_nontrivial")?),
      ("types_under_test", u("types_under_test")?),
    ]))
  };
  J::A(list.split(':').filter(|x| !x.is_empty()).filter_map(read).collect())
}
// ---------------------------------------------------------------- minimisation
fn write_replay(path: &str, p: &PropDef, seed: u64, idx: u64, choices: &[u64], history: &[Vec<u64>], v: &Violation, log: &[String]) {
  let j = J::obj(vec![
    ("property", J::s(p.id)),
    ("seed", J::U(seed)),
    ("run", J::U(idx)),
    ("class", J::s(&v.class)),
    ("message", J::s(&v.msg)),
    ("thorough", J::U(thorough() as u64)),
    ("corpus", corpus()),
    ("choices", J::A(choices.iter().map(|x| J::U(*x)).collect())),
    ("preceding_runs", J::A(history.iter().map(|h| J::A(h.iter().map(|x| J::U(*x)).collect())).collect())),
    ("trace", J::A(log.iter().map(|l| J::s(l)).collect())),
  ]);
  std::fs::write(path, j.dump() + "\n").unwrap();
}
/// outcome and expectation of a fixed input, tried in its own process
fn probe(pr: &crate::known::Probe) -> (String, String) {
  let Ok(mut c) = me().args(["probe", pr.prop, pr.id]).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() else {
    return ("Spawn".into(), String::new());
  };
  let t = Instant::now();
  loop {
    match c.try_wait() {
      Ok(Some(st)) => {
        let mut o = String::new();
        if let Some(mut so) = c.stdout.take() {
          let _ = std::io::Read::read_to_string(&mut so, &mut o);
        }
        let f = |k: &str| o.lines().find_map(|l| l.strip_prefix(k)).map(|x| x.to_string());
        return match (st.code(), f("GOT "), f("WANT ")) {
          (Some(0), Some(g), Some(w)) => (g, w),
          _ => ("Abort".into(), String::new()),
        };
      }
      Ok(None) if t.elapsed() > Duration::from_secs(20) => {
        let _ = c.kill();
        let _ = c.wait();
        return ("Hang".into(), String::new());
      }
      _ => std::thread::sleep(Duration::from_millis(3)),
    }
  }
}
/// runs a replay file in a fresh process; Some(class) if it failed
fn fresh(path: &str) -> Option<String> {
  let mut c = me().args(["replay", path, "--quiet"]).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
  let t = Instant::now();
  loop {
    match c.try_wait().ok()? {
      Some(st) => {
        let mut o = String::new();
        let _ = std::io::Read::read_to_string(&mut c.stdout.take()?, &mut o);
        return match st.code() {
          Some(0) => None,
          Some(1) => o.lines().find_map(|l| l.strip_prefix("CLASS ")).map(|x| x.to_string()),
          _ => Some("abort".into()),
        };
      }
      None => {
        if t.elapsed() > Duration::from_secs(HANG_S) {
          let _ = c.kill();
          let _ = c.wait();
          return Some("hang".into());
        }
        std::thread::sleep(Duration::from_millis(5));
      }
    }
  }
}
fn minimise(a: &[String]) -> i32 {
  let p = props::find(&a[1]).expect("property");
  let (sd, idx) = (argu(a, "--seed").unwrap(), argu(a, "--idx").unwrap());
  let (k, w) = (argu(a, "--k").unwrap_or(0), argu(a, "--w").unwrap_or(1));
  let out = arg(a, "--out").unwrap();
  let class = arg(a, "--class").unwrap().to_string();
  let msg = arg(a, "--msg").unwrap_or("").to_string();
  let e = env();
  let th = thorough();
  let t0 = Instant::now();
  let rs = run_seed(p.id, sd, idx);
  if class == "hang" || class == "abort" {
    // cannot be run in this process: the seed itself is the replay
    let v = Violation { class: class.clone(), msg };
    write_seed_replay(out, p, sd, idx, &v);
    return match fresh(out) {
      Some(c) if c == class => 0,
      _ => 1,
    };
  }
  let r = one(p, &e, Src::from_seed(rs), false, th);
  let fails = |c: &[u64]| -> Option<Vec<u64>> {
    let r = one(p, &e, Src::from_choices(c.to_vec()), false, th);
    match r.v {
      Some(v) if v.class == class => Some(r.rec),
      _ => None,
    }
  };
  let single = r.v.as_ref().map_or(false, |v| v.class == class);
  if single {
    // is it reproducible from its choices, in a fresh process?
    let lg = one(p, &e, Src::from_choices(r.rec.clone()), true, th);
    if let Some(v) = &lg.v {
      write_replay(out, p, sd, idx, &r.rec, &[], v, &lg.log);
      if fresh(out).as_deref() == Some(&class) {
        let best = shrink(r.rec.clone(), fails, t0, Duration::from_secs(25));
        let lg2 = one(p, &e, Src::from_choices(best.clone()), true, th);
        if let Some(v2) = &lg2.v {
          write_replay(out, p, sd, idx, &best, &[], v2, &lg2.log);
          if fresh(out).as_deref() == Some(&class) {
            return 0;
          }
        }
        write_replay(out, p, sd, idx, &r.rec, &[], v, &lg.log);
        return if fresh(out).as_deref() == Some(&class) { 0 } else { 1 };
      }
    }
  }
  // it needs the runs before it in the same process: replay them too, then drop what is not needed
  let mut hist: Vec<Vec<u64>> = vec![];
  let mut i = k;
  while i < idx && hist.len() < 400_000 {
    hist.push(vec![i]);
    i += w;
  }
  let v = Violation { class: class.clone(), msg };
  let with = |h: &[Vec<u64>]| -> bool {
    write_hist(out, p, sd, idx, h, &v);
    fresh(out).as_deref() == Some(&class)
  };
  if !with(&hist) {
    return 1;
  }
  // keep a short suffix if that is enough, then remove blocks
  let mut n = 1;
  while n < hist.len() {
    let h = hist[hist.len() - n..].to_vec();
    if with(&h) {
      hist = h;
      break;
    }
    n *= 2;
  }
  let mut blk = hist.len() / 2;
  while blk >= 1 && t0.elapsed() < Duration::from_secs(90) {
    let mut i = 0;
    while i < hist.len() && t0.elapsed() < Duration::from_secs(90) {
      let mut h = hist.clone();
      h.drain(i..(i + blk).min(hist.len()));
      if with(&h) {
        hist = h;
      } else {
        i += blk;
      }
    }
    blk /= 2;
  }
  if with(&hist) {
    0
  } else {
    1
  }
}
fn write_hist(path: &str, p: &PropDef, seed: u64, idx: u64, h: &[Vec<u64>], v: &Violation) {
  let j = J::obj(vec![
    ("property", J::s(p.id)),
    ("seed", J::U(seed)),
    ("run", J::U(idx)),
    ("class", J::s(&v.class)),
    ("message", J::s(&format!("{} (after {} earlier runs in the same process)", v.msg, h.len()))),
    ("thorough", J::U(thorough() as u64)),
    ("corpus", corpus()),
    ("preceding_run_indices", J::A(h.iter().map(|x| J::U(x[0])).collect())),
  ]);
  std::fs::write(path, j.dump() + "\n").unwrap();
}
fn write_seed_replay(path: &str, p: &PropDef, seed: u64, idx: u64, v: &Violation) {
  write_hist(path, p, seed, idx, &[], v)
}
fn shrink(start: Vec<u64>, fails: impl Fn(&[u64]) -> Option<Vec<u64>>, t0: Instant, cap: Duration) -> Vec<u64> {
  let mut best = start;
  let over = || t0.elapsed() > cap;
  let better = |a: &[u64], b: &[u64]| (a.len(), a) < (b.len(), b);
  loop {
    let before = best.clone();
    // remove blocks
    let mut blk = (best.len() / 2).max(1);
    loop {
      let mut i = 0;
      while i < best.len() && !over() {
        let mut c = best.clone();
        c.drain(i..(i + blk).min(best.len()));
        match fails(&c) {
          Some(r) if better(&r, &best) => best = r,
          _ => i += blk,
        }
      }
      if blk == 1 || over() {
        break;
      }
      blk /= 2;
    }
    // zero blocks
    let mut blk = 8usize.min(best.len().max(1));
    while blk >= 1 && !over() {
      let mut i = 0;
      while i < best.len() && !over() {
        let e = (i + blk).min(best.len());
        if best[i..e].iter().any(|x| *x != 0) {
          let mut c = best.clone();
          c[i..e].iter_mut().for_each(|x| *x = 0);
          if let Some(r) = fails(&c) {
            if better(&r, &best) {
              best = r;
            }
          }
        }
        i += blk;
      }
      blk /= 2;
    }
    // lower single values
    let mut i = 0;
    while i < best.len() && !over() {
      let mut lo = 0u64;
      let mut hi = best[i];
      while lo < hi && !over() && i < best.len() {
        let mid = lo + (hi - lo) / 2;
        let mut c = best.clone();
        c[i] = mid;
        match fails(&c) {
          Some(r) if better(&r, &best) => {
            best = r;
            hi = mid;
          }
          _ => lo = mid + 1,
        }
      }
      i += 1;
    }
    if best == before || over() {
      return best;
    }
  }
}
fn replay(a: &[String]) -> i32 {
  let quiet = a.iter().any(|x| x == "--quiet");
  let Some(j) = std::fs::read_to_string(&a[1]).ok().and_then(|t| J::parse(&t).ok()) else {
    eprintln!("cannot read {}", a[1]);
    return 2;
  };
  let p = props::find(j.get("property").and_then(|x| x.as_s()).unwrap_or("")).expect("property");
  if let Some(id) = j.get("probe").and_then(|x| x.as_s()) {
    let Some(pr) = crate::known::of(p.id).find(|x| x.id == id) else {
      return 2;
    };
    let (got, want) = probe(pr);
    if got == want {
      println!("no violation");
      return 0;
    }
    println!("CLASS probe");
    println!("FAILED fixed input {id}: got {got}, expected {want}");
    println!("VIOLATION property={} replay={}", p.id, a[1]);
    return 1;
  }
  if let Some(c) = j.get("corpus").and_then(|x| x.as_a()) {
    let c: Vec<u64> = c.iter().filter_map(|x| x.as_u()).collect();
    if c != crate::corpus::CORPUS {
      eprintln!("this replay belongs to the simulator over type corpus {c:?}, not {:?}: use tools/replay.sh", crate::corpus::CORPUS);
      return 2;
    }
  }
  let e = env();
  let th = j.get("thorough").and_then(|x| x.as_u()) == Some(1);
  let nums = |x: &J| -> Vec<u64> { x.as_a().unwrap_or(&[]).iter().filter_map(|x| x.as_u()).collect() };
  let sd = j.get("seed").and_then(|x| x.as_u()).unwrap_or(1);
  let src = match j.get("choices") {
    Some(c) => Src::from_choices(nums(c)),
    None => {
      if let Some(h) = j.get("preceding_run_indices") {
        for i in nums(h) {
          let _ = one(p, &e, Src::from_seed(run_seed(p.id, sd, i)), false, th);
        }
      }
      Src::from_seed(run_seed(p.id, sd, j.get("run").and_then(|x| x.as_u()).unwrap_or(0)))
    }
  };
  let r = one(p, &e, src, !quiet, th);
  if !quiet {
    for l in &r.log {
      println!("{l}");
    }
  }
  match r.v {
    Some(v) => {
      println!("CLASS {}", v.class);
      println!("FAILED {}: {}", v.class, v.msg);
      println!("VIOLATION property={} replay={}", p.id, a[1]);
      1
    }
    None => {
      println!("no violation");
      0
    }
  }
}

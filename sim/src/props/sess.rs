//! C04, C09, C13: sessions over connections, next to each other, and their endings.
use super::*;
use crate::sched;
use std::collections::VecDeque;
use std::io::{self, ErrorKind, Read, Write};
use std::sync::Mutex;

// ---------------------------------------------------------------- a simulated connection
struct PipeSt {
  buf: VecDeque<u8>,
  cap: usize,
  torn_down: bool,
  sent: usize,
}
#[derive(Clone)]
struct Pipe(Arc<Mutex<PipeSt>>);
impl Pipe {
  fn new(cap: usize) -> Pipe {
    Pipe(Arc::new(Mutex::new(PipeSt { buf: VecDeque::new(), cap, torn_down: false, sent: 0 })))
  }
}
/// what a thread is waiting for: (pipe, for room to write)
type Waits = Arc<Mutex<Vec<Option<(usize, bool)>>>>;
#[derive(Clone)]
struct End {
  pipe: Pipe,
  id: usize,
  me: usize,
  waits: Waits,
  chunks: Arc<Vec<usize>>,
  k: usize,
  /// every n-th call is interrupted (0 = never)
  intr: usize,
  calls: usize,
  stats: Arc<Mutex<(u64, u64, u64)>>,
  blocked_reads: Arc<Mutex<u64>>,
}
impl End {
  fn pre(&mut self) -> io::Result<usize> {
    sched::point(1);
    self.calls += 1;
    let mut s = self.stats.lock().unwrap();
    s.0 += 1;
    if self.intr > 0 && self.calls % self.intr == 0 {
      s.1 += 1;
      return Err(io::Error::from(ErrorKind::Interrupted));
    }
    Ok(if self.chunks.is_empty() {
      usize::MAX
    } else {
      self.k += 1;
      self.chunks[self.k % self.chunks.len()]
    })
  }
  fn wait(&self, w: bool) {
    self.waits.lock().unwrap()[self.me] = Some((self.id, w));
    sched::block();
    self.waits.lock().unwrap()[self.me] = None;
  }
}
impl Read for End {
  fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
    if b.is_empty() {
      return Ok(0);
    }
    let lim = self.pre()?;
    loop {
      {
        let mut p = self.pipe.0.lock().unwrap();
        let n = p.buf.len().min(b.len()).min(lim);
        if n > 0 {
          if n < b.len() {
            self.stats.lock().unwrap().2 += 1;
          }
          for x in b[..n].iter_mut() {
            *x = p.buf.pop_front().unwrap();
          }
          return Ok(n);
        }
        if p.torn_down {
          return Err(io::Error::new(ErrorKind::ConnectionAborted, "sim: deadlock broken"));
        }
      }
      *self.blocked_reads.lock().unwrap() += 1;
      self.wait(false);
    }
  }
}
impl Write for End {
  fn write(&mut self, b: &[u8]) -> io::Result<usize> {
    if b.is_empty() {
      return Ok(0);
    }
    let lim = self.pre()?;
    loop {
      {
        let mut p = self.pipe.0.lock().unwrap();
        if p.torn_down {
          return Err(io::Error::new(ErrorKind::ConnectionAborted, "sim: deadlock broken"));
        }
        let n = (p.cap - p.buf.len().min(p.cap)).min(b.len()).min(lim);
        if n > 0 {
          if n < b.len() {
            self.stats.lock().unwrap().2 += 1;
          }
          p.buf.extend(&b[..n]);
          p.sent += n;
          return Ok(n);
        }
      }
      self.wait(true);
    }
  }
  fn flush(&mut self) -> io::Result<()> {
    Ok(())
  }
}
#[derive(Clone)]
struct Msg {
  t: usize,
  v: Val,
  /// bytes of a peer that is not yaserde; None: encoded by the code under test
  foreign: Option<Arc<Vec<u8>>>,
  cfg: (bool, bool, Option<String>),
  /// the complete message
  bytes: Arc<Vec<u8>>,
}
impl Msg {
  fn config(&self) -> Config {
    Config { perform_indent: self.cfg.0, write_document_declaration: self.cfg.1, indent_string: self.cfg.2.clone() }
  }
}
fn message(c: &mut Ctx, complete_only: bool) -> Result<Msg, Violation> {
  let schema = &c.env.schema;
  let ok: Vec<usize> =
    (0..schema.types.len()).filter(|t| schema.ty(*t).dec && !schema.ty(*t).flatten && (!complete_only || schema.complete_at_end(*t))).collect();
  let t = *c.s.pick(&ok);
  let mut g = Gen::small();
  g.budget = 400;
  let v = c.env.schema.gen(c.s, t, &mut g);
  let cfg = config(c.s);
  if !c.env.schema.ty(t).enc || c.s.chance(1, 3) {
    let mut n = Noise::gen(c.s, false);
    n.trailing = false;
    let d = render(c.s, &c.env.schema.encode(t, &v), &n);
    // white space and comments may follow the root only before the next message's declaration
    let b = Arc::new(d.bytes[..d.end].to_vec());
    return Ok(Msg { t, v, foreign: Some(b.clone()), cfg: (false, true, None), bytes: b });
  }
  let (r, sh) = encode(c, t, &v, &cfg, Plan::whole(), 10_000);
  if !matches!(r, Ok(Ok(_))) {
    return viol("refused", format!("{} {v:?} cannot be encoded", c.env.schema.ty(t).name));
  }
  let b = Arc::new(get(&sh, |i| i.out.clone()));
  Ok(Msg { t, v, foreign: None, cfg: (cfg.perform_indent, cfg.write_document_declaration, cfg.indent_string.clone()), bytes: b })
}
fn send(env: &Env, m: &Msg, end: &mut End) -> Result<(), String> {
  match &m.foreign {
    Some(b) => end.write_all(b).map_err(|e| e.to_string()),
    None => {
      let f = env.ops[m.t].encode_dyn;
      match guarded(limit_for(m.bytes.len()), || f(&m.v, DynW(Box::new(end.clone())), &m.config())).0 {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(e),
        Err(f) => Err(format!("{f:?}")),
      }
    }
  }
}
fn receive(env: &Env, m: &Msg, end: &End) -> Dec {
  let f = env.ops[m.t].decode;
  guarded(limit_for(m.bytes.len()), || f(DynR(Box::new(end.clone())))).0
}
pub fn c04(c: &mut Ctx) -> Result<(), Violation> {
  if c.s.chance(1, 4) {
    return open_stream(c);
  }
  // a client and a server, each a thread, over one connection
  let rounds = c.s.range(1, 4);
  let persistent = rounds > 1 || c.s.chance(1, 2);
  let window = if rounds > 1 && c.s.chance(1, 3) { rounds } else { 1 };
  let mut req = vec![];
  let mut rep = vec![];
  for _ in 0..rounds {
    req.push(message(c, persistent)?);
    rep.push(message(c, persistent)?);
  }
  // a one-shot reader may leave the end of the message in the connection
  let cap = if window > 1 || !persistent { usize::MAX } else { *c.s.pick(&[1usize, 3, 16, 64, 512, 65536, usize::MAX]) };
  let (a, b) = (Pipe::new(cap), Pipe::new(cap));
  let waits: Waits = Arc::new(Mutex::new(vec![None, None]));
  let stats = Arc::new(Mutex::new((0, 0, 0)));
  let blocked = Arc::new(Mutex::new(0u64));
  let chunks = |s: &mut Src| -> Arc<Vec<usize>> {
    Arc::new(match s.below(3) {
      0 => vec![],
      1 => vec![s.range(1, 20)],
      _ => (0..3).map(|_| s.range(1, 30)).collect(),
    })
  };
  let end = |c: &mut Ctx, pipe: &Pipe, id: usize, me: usize| End {
    pipe: pipe.clone(),
    id,
    me,
    waits: waits.clone(),
    chunks: chunks(c.s),
    k: 0,
    intr: *c.s.pick(&[0usize, 0, 2, 3, 7]),
    calls: 0,
    stats: stats.clone(),
    blocked_reads: blocked.clone(),
  };
  let (mut cw, cr, sr, mut sw) = (end(c, &a, 0, 0), end(c, &b, 1, 0), end(c, &a, 0, 1), end(c, &b, 1, 1));
  let every = *c.s.pick(&[1u32, 2, 7, 40, 400]);
  c.log(|| {
    format!(
      "rounds={rounds} window={window} capacity={cap} switch every {every} points; requests {:?}; replies {:?}",
      req.iter().map(|m| esc(&m.bytes)).collect::<Vec<_>>(),
      rep.iter().map(|m| esc(&m.bytes)).collect::<Vec<_>>()
    )
  });
  let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
  let done: Mutex<(usize, usize)> = Mutex::new((0, 0));
  let env = c.env;
  let name = |m: &Msg| env.schema.ty(m.t).name;
  let out = {
    let (req, rep, bad, done) = (&req, &rep, &bad, &done);
    let (ap, bp) = (a.clone(), b.clone());
    let client = move || {
      let mut i = 0;
      while i < rounds {
        for k in i..(i + window).min(rounds) {
          if let Err(e) = send(env, &req[k], &mut cw) {
            bad.lock().unwrap().push(format!("request {k} ({}) could not be sent: {e}", name(&req[k])));
            return;
          }
          // Ok means every byte has been handed over
          let want: usize = req[..=k].iter().map(|m| m.bytes.len()).sum();
          let sent = ap.0.lock().unwrap().sent;
          if sent != want {
            bad.lock().unwrap().push(format!("request {k} ({}) reported as sent with {sent} of {want} bytes handed over", name(&req[k])));
            return;
          }
        }
        for k in i..(i + window).min(rounds) {
          let r = receive(env, &rep[k], &cr);
          if r != Ok(Ok(rep[k].v.clone())) {
            bad.lock().unwrap().push(format!("reply {k} ({}): {} instead of {:?}", name(&rep[k]), show_dec(&r), rep[k].v));
            return;
          }
          done.lock().unwrap().0 += 1;
        }
        i += window;
      }
    };
    let server = move || {
      for k in 0..rounds {
        let r = receive(env, &req[k], &sr);
        if r != Ok(Ok(req[k].v.clone())) {
          bad.lock().unwrap().push(format!("request {k} ({}): {} instead of {:?}", name(&req[k]), show_dec(&r), req[k].v));
          return;
        }
        done.lock().unwrap().1 += 1;
        if let Err(e) = send(env, &rep[k], &mut sw) {
          bad.lock().unwrap().push(format!("reply {k} ({}) could not be sent: {e}", name(&rep[k])));
          return;
        }
        let want: usize = rep[..=k].iter().map(|m| m.bytes.len()).sum();
        let sent = bp.0.lock().unwrap().sent;
        if sent != want {
          bad.lock().unwrap().push(format!("reply {k} ({}) reported as sent with {sent} of {want} bytes handed over", name(&rep[k])));
          return;
        }
      }
    };
    let pipes = [a.clone(), b.clone()];
    let runnable = |i: usize| match waits.lock().unwrap()[i] {
      None => true,
      Some((p, w)) => {
        let p = pipes[p].0.lock().unwrap();
        p.torn_down || if w { p.buf.len() < p.cap } else { !p.buf.is_empty() }
      }
    };
    let unblock = || {
      for p in &pipes {
        p.0.lock().unwrap().torn_down = true;
      }
    };
    sched::run(c.s, vec![Box::new(client), Box::new(server)], every, &runnable, &unblock)
  };
  let st = *stats.lock().unwrap();
  c.stats.add("io_calls", st.0);
  c.stats.add("fault:interrupted_call", st.1);
  c.stats.add("fault:short_transfer", st.2);
  c.stats.add("blocking_reads", *blocked.lock().unwrap());
  c.stats.add("thread_switches", out.switches);
  c.stats.add("messages", 2 * rounds as u64);
  c.nontrivial = out.switches > 1;
  c.feat(out.order, req[0].t as u64 * 1000 + rep[0].t as u64);
  let d = *done.lock().unwrap();
  c.log(|| format!("{} switches, deadlock={}, replies received {}, requests received {}", out.switches, out.deadlock, d.0, d.1));
  let bad = bad.into_inner().unwrap();
  if out.deadlock && bad.len() < 2 || d == (rounds, rounds) && out.deadlock {
    // nobody can move although every message was handed over completely
    return viol("deadlock", format!("both ends wait for each other after {} requests and {} replies: {bad:?}", d.1, d.0));
  }
  if let Some(b) = bad.first() {
    return viol(if out.deadlock { "deadlock" } else { "exchange" }, format!("{b} (deadlock={})", out.deadlock));
  }
  if d != (rounds, rounds) {
    return viol("exchange", format!("ended after {d:?} of {rounds} exchanges"));
  }
  Ok(())
}
/// one source holding several messages back to back, never closed: each decode takes exactly its own
fn open_stream(c: &mut Ctx) -> Result<(), Violation> {
  let n = c.s.range(1, 4);
  let mut msgs = vec![];
  for i in 0..n {
    // a type that can be complete early may only come last
    let last = i + 1 == n;
    msgs.push(message(c, !last)?);
  }
  let mut data = vec![];
  let mut ends = vec![];
  for m in &msgs {
    data.extend(m.bytes.iter());
    ends.push(data.len());
  }
  let mut plan = Plan::delivery(c.s, data.len());
  plan.bufcap = 0;
  let data = Arc::new(data);
  c.log(|| format!("open stream {} delivered as {plan:?}", esc(&data)));
  let (io, sh) = SimIo::source(data.clone(), plan.clone());
  let io = Arc::new(Mutex::new(io.open()));
  for (i, m) in msgs.iter().enumerate() {
    let f = c.env.ops[m.t].decode;
    let r = DynR(Box::new(SharedR(io.clone())));
    let (r, _) = guarded(limit_for(data.len()), || f(r));
    let (pos, past) = get(&sh, |i| (i.pos, i.past_end));
    let name = c.env.schema.ty(m.t).name;
    c.log(|| format!("message {i} ({name}) -> {} at byte {pos} of {}", show_dec(&r), ends[i]));
    c.feat(m.t as u64, i as u64 * 100 + plan.chunks.first().copied().unwrap_or(0) as u64);
    if past > 0 {
      return viol("over-read", format!("{name}: message {i} is complete but the decoder asked for more than {}", esc(&data[..ends[i]])));
    }
    if r != Ok(Ok(m.v.clone())) {
      return viol("exchange", format!("{name}: message {i} of {} gave {} instead of {:?}", esc(&data), show_dec(&r), m.v));
    }
    if pos > ends[i] {
      return viol("over-read", format!("{name}: message {i} ends at byte {} but {pos} bytes were taken from {}", ends[i], esc(&data)));
    }
  }
  c.io(&sh);
  c.stats.add("messages", n as u64);
  c.nontrivial = true;
  Ok(())
}
struct SharedR(Arc<Mutex<SimIo>>);
impl Read for SharedR {
  fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
    let mut g = match self.0.lock() {
      Ok(g) => g,
      Err(p) => p.into_inner(),
    };
    g.read(b)
  }
}

// ---------------------------------------------------------------- C09
#[derive(Clone)]
struct Job {
  t: usize,
  /// Some: decode these bytes; None: encode v
  data: Option<Arc<Vec<u8>>>,
  v: Val,
  cfg: (bool, bool, Option<String>),
  plan: Plan,
  content: bool,
  /// the document no longer says v
  damaged: bool,
}
#[derive(Clone, PartialEq, Debug)]
struct Seen {
  /// decode: the value or message; encode: Ok or message
  res: Result<Result<Option<Val>, String>, Fail>,
  out: Vec<u8>,
  drops: u64,
}
fn run_job(env: &Env, j: &Job, hook: Option<Hook>) -> (Seen, Shared) {
  match &j.data {
    Some(d) => {
      let (io, sh) = SimIo::source(d.clone(), j.plan.clone());
      let io = if let Some(h) = hook { io.hook(h) } else { io };
      let f = env.ops[j.t].decode;
      let (r, _) = guarded(u64::MAX, || f(io.into_dyn_reader()));
      let drops = get(&sh, |i| i.drops);
      (Seen { res: r.map(|x| x.map(Some)), out: vec![], drops }, sh)
    }
    None => {
      let (io, sh) = SimIo::sink(j.plan.clone());
      let io = if let Some(h) = hook { io.hook(h) } else { io };
      let cfg = Config { perform_indent: j.cfg.0, write_document_declaration: j.cfg.1, indent_string: j.cfg.2.clone() };
      let f = env.ops[j.t].encode;
      let g = env.ops[j.t].encode_content;
      let (r, _) = guarded(u64::MAX, || if j.content { g(&j.v, io).map(|_| None) } else { f(&j.v, io, &cfg).map(|_| None) });
      let (out, drops) = get(&sh, |i| (i.out.clone(), i.drops));
      (Seen { res: r, out, drops }, sh)
    }
  }
}
/// a document that another version, a careless relay or a faulty peer would send
pub fn damage(s: &mut Src, root: &mut Elem) {
  let top = s.chance(1, 2);
  let mut at = if top { 0 } else { s.below(root.count()) };
  fn nth<'a>(e: &'a mut Elem, at: &mut usize) -> Option<&'a mut Elem> {
    if *at == 0 {
      return Some(e);
    }
    *at -= 1;
    for k in e.kids.iter_mut() {
      if let Node::E(x) = k {
        if let Some(x) = nth(x, at) {
          return Some(x);
        }
      }
    }
    None
  }
  let Some(e) = nth(root, &mut at) else { return };
  match s.below(6) {
    0 => e.ns = s.pick(&["", "urn:elsewhere", "http://example.com/p"]).to_string(),
    1 => e.local.push('x'),
    2 if !e.kids.is_empty() => {
      let i = s.below(e.kids.len());
      e.kids.remove(i);
    }
    3 if !e.attrs.is_empty() => {
      let i = s.below(e.attrs.len());
      if s.chance(1, 2) {
        e.attrs.remove(i);
      } else {
        e.attrs[i].value.push_str("zz");
      }
    }
    4 if !e.kids.is_empty() => {
      let i = s.below(e.kids.len());
      let k = e.kids[i].clone();
      e.kids.push(k);
    }
    _ => {
      if let Some(Node::T(t)) = e.kids.iter_mut().find(|k| matches!(k, Node::T(_))) {
        t.push_str("zz")
      } else {
        let mut z = Elem::new("urn:z", "zz");
        z.kids.push(Node::T("zz".into()));
        e.kids.push(Node::E(z))
      }
    }
  }
}
fn job(c: &mut Ctx, faults: u64, small: bool) -> Job {
  let t = pick_type(c, |_| true);
  let td = c.env.schema.ty(t);
  let mut g = Gen::small();
  g.budget = if small { 300 } else { 2000 };
  let v = c.env.schema.gen(c.s, t, &mut g);
  let dec = td.dec && (!td.enc || c.s.chance(1, 2));
  let mut j = Job { t, data: None, v, cfg: (false, true, None), plan: Plan::whole(), content: false, damaged: false };
  let n;
  if dec {
    let noise = Noise::gen(c.s, true);
    let mut roots = c.env.schema.encode(t, &j.v);
    if faults > 0 && c.s.chance(1, 4) && !roots.is_empty() {
      let i = c.s.below(roots.len());
      damage(c.s, &mut roots[i]);
      c.stats.add("fault:document_damaged", 1);
      j.damaged = true;
    }
    let d = render(c.s, &roots, &noise);
    n = d.bytes.len();
    j.data = Some(Arc::new(d.bytes));
  } else {
    let cfg = config(c.s);
    j.cfg = (cfg.perform_indent, cfg.write_document_declaration, cfg.indent_string.clone());
    j.content = c.s.chance(1, 6);
    n = 40 + c.env.schema.encode(t, &j.v).iter().map(|e| e.count() * 15).sum::<usize>();
  }
  j.plan = Plan::delivery(c.s, n);
  // interruption storms only slow this down
  for f in j.plan.faults.iter_mut() {
    if let (_, Fault::Intr(k)) = f {
      *k = (*k).min(3);
    }
  }
  if faults > 0 && c.s.chance(faults, 4) {
    let f = match c.s.below(4) {
      0 => Fault::Panic,
      1 => Fault::End,
      _ => Plan::err(c.s),
    };
    let at = c.s.below(n.max(1));
    j.plan = j.plan.with(at, f);
  }
  j
}
fn show_job(env: &Env, j: &Job) -> String {
  format!(
    "{} {} under {:?}",
    if j.data.is_some() { "decode" } else { "encode" },
    match &j.data {
      Some(d) => format!("{} from {}", env.schema.ty(j.t).name, esc(d)),
      None => format!("{} {} with {:?} content-only={}", env.schema.ty(j.t).name, short(format!("{:?}", j.v)), j.cfg, j.content),
    },
    j.plan
  )
}
fn has_fault(p: &Plan) -> bool {
  p.faults.iter().any(|f| !matches!(f.1, Fault::Intr(_) | Fault::Nest(_)))
}
/// a session without faults must give what the reference says
fn absolute(c: &Ctx, j: &Job, s: &Seen) -> Result<(), Violation> {
  if has_fault(&j.plan) || j.damaged {
    return Ok(());
  }
  let ok = match (&j.data, &s.res) {
    (Some(_), Ok(Ok(Some(v)))) => *v == j.v,
    (None, Ok(Ok(None))) => {
      j.content || super::write::denotes(&s.out, &c.env.schema.encode(j.t, &j.v), j.cfg.0).is_ok()
    }
    _ => false,
  };
  if ok {
    Ok(())
  } else {
    viol("session", format!("{} gave {:?} {}", show_job(c.env, j), s.res, esc(&s.out)))
  }
}
fn same(env: &Env, how: &str, j: &Job, solo: &Seen, now: &Seen) -> Result<(), Violation> {
  if solo != now {
    return viol(
      "interference",
      format!("{how}: {} gave {:?} {} alone but {:?} {} here", show_job(env, j), solo.res, esc(&solo.out), now.res, esc(&now.out)),
    );
  }
  Ok(())
}
pub fn c09(c: &mut Ctx) -> Result<(), Violation> {
  match c.s.weighted(&[5, 3, 3]) {
    0 => c09_threads(c),
    1 => c09_nested(c),
    _ => c09_residue(c),
  }
}
fn c09_threads(c: &mut Ctx) -> Result<(), Violation> {
  let n = if c.s.chance(1, 12) { c.s.range(5, 12) } else { c.s.range(2, 4) };
  let mut jobs = vec![];
  for _ in 0..n {
    jobs.push(job(c, 1, true));
  }
  if c.s.chance(1, 3) {
    // the same work twice at once
    let j = jobs[0].clone();
    jobs[1] = j;
  }
  let each = c.s.range(1, 3);
  let mut solo = vec![];
  for j in &jobs {
    let (s, sh) = run_job(c.env, j, None);
    c.io(&sh);
    absolute(c, j, &s)?;
    solo.push(s);
  }
  let every = *c.s.pick(&[1u32, 2, 5, 20, 100]);
  c.log(|| format!("{n} threads, {each} times each, switch every {every} points"));
  for j in &jobs {
    c.log(|| show_job(c.env, j));
  }
  let got: Mutex<Vec<(usize, Seen)>> = Mutex::new(vec![]);
  let env = c.env;
  let out = {
    let got = &got;
    let tasks: Vec<Box<dyn FnOnce() + Send + '_>> = jobs
      .iter()
      .enumerate()
      .map(|(i, j)| {
        let b: Box<dyn FnOnce() + Send + '_> = Box::new(move || {
          for _ in 0..each {
            let (s, _) = run_job(env, j, None);
            got.lock().unwrap().push((i, s));
          }
        });
        b
      })
      .collect();
    sched::run(c.s, tasks, every, &|_| true, &|| ())
  };
  c.stats.add("thread_switches", out.switches);
  c.stats.add("interleaved_sessions", (n * each) as u64);
  c.nontrivial = out.switches > n as u64;
  c.feat(out.order, jobs[0].t as u64);
  c.log(|| format!("{} switches", out.switches));
  let got = got.into_inner().unwrap();
  assert!(got.len() == n * each, "harness: a session vanished");
  for (i, s) in &got {
    same(env, "interleaved with other threads", &jobs[*i], &solo[*i], s)?;
  }
  Ok(())
}
fn c09_nested(c: &mut Ctx) -> Result<(), Violation> {
  let mut outer = job(c, 1, true);
  let k = c.s.range(1, 3);
  let inner: Vec<Job> = (0..k).map(|_| job(c, 1, true)).collect();
  let (s0, _) = run_job(c.env, &outer, None);
  absolute(c, &outer, &s0)?;
  let solo: Vec<Seen> = inner.iter().map(|j| run_job(c.env, j, None).0).collect();
  for (j, s) in inner.iter().zip(&solo) {
    absolute(c, j, s)?;
  }
  let len = outer.data.as_ref().map_or(s0.out.len(), |d| d.len());
  for i in 0..k {
    let at = c.s.below(len + 1);
    outer.plan.faults.push((at, Fault::Nest(i)));
  }
  // nesting happens before any fault at the same byte
  outer.plan.faults.sort_by_key(|f| (f.0, !matches!(f.1, Fault::Nest(_))));
  c.log(|| format!("outer: {}", show_job(c.env, &outer)));
  for j in &inner {
    c.log(|| format!("inner: {}", show_job(c.env, j)));
  }
  let seen: Arc<Mutex<Vec<(usize, Seen)>>> = Default::default();
  let s2 = seen.clone();
  // the hook outlives nothing: it is dropped with the stream inside run_job
  let env: &'static Env = unsafe { std::mem::transmute::<&Env, &'static Env>(c.env) };
  let inner2 = inner.clone();
  let hook: Hook = Box::new(move |i| {
    let (s, _) = run_job(env, &inner2[i], None);
    s2.lock().unwrap().push((i, s));
  });
  let (s, sh) = run_job(c.env, &outer, Some(hook));
  c.io(&sh);
  c.feat(outer.t as u64, inner[0].t as u64);
  c.feat(outer.plan.faults.first().map_or(0, |f| f.0 as u64), 0);
  let seen = seen.lock().unwrap().clone();
  c.log(|| format!("{} nested sessions ran", seen.len()));
  c.nontrivial = !seen.is_empty();
  same(c.env, "with sessions nested in its stream calls", &outer, &s0, &s)?;
  for (i, s) in &seen {
    same(c.env, "nested in another session's stream call", &inner[*i], &solo[*i], s)?;
  }
  Ok(())
}
fn c09_residue(c: &mut Ctx) -> Result<(), Violation> {
  let n = c.s.range(2, 5);
  let probe = job(c, 0, false);
  let (s0, _) = run_job(c.env, &probe, None);
  absolute(c, &probe, &s0)?;
  c.log(|| format!("probe: {}", show_job(c.env, &probe)));
  for i in 0..n {
    let j = job(c, 3, true);
    let (s, sh) = run_job(c.env, &j, None);
    c.io(&sh);
    c.log(|| format!("before {i}: {} -> {:?}", show_job(c.env, &j), s.res));
    if let Err(f @ (Fail::Panic(_) | Fail::Budget(_))) = &s.res {
      return viol(f.class(), format!("{} ended in {f:?}", show_job(c.env, &j)));
    }
    c.feat(j.t as u64, matches!(s.res, Ok(Ok(_))) as u64 * 3 + s.res.is_err() as u64);
    let (s, _) = run_job(c.env, &probe, None);
    same(c.env, &format!("after {} other sessions", i + 1), &probe, &s0, &s)?;
    if c.s.chance(1, 3) {
      // and the same session once more
      let (s1, _) = run_job(c.env, &j, None);
      let (s2, _) = run_job(c.env, &j, None);
      same(c.env, "repeated", &j, &s1, &s2)?;
    }
  }
  c.feat(probe.t as u64, n as u64);
  Ok(())
}

// ---------------------------------------------------------------- C13
pub fn c13(c: &mut Ctx) -> Result<(), Violation> {
  let small = c.s.chance(2, 3);
  let j = job(c, 3, small);
  let reps = if c.s.chance(1, 50) { 300 } else { c.s.range(2, 4) };
  c.log(|| format!("{} times {}", reps, show_job(c.env, &j)));
  let mut j = j;
  if let (Some(d), true) = (&j.data, c.s.chance(1, 3)) {
    // a document that is rejected half way
    let mut b = d.to_vec();
    let at = c.s.below(b.len());
    b[at] = *c.s.pick(&[b'<', b'&', 0, b'>', b'x', 0xff]);
    j.data = Some(Arc::new(b));
    c.stats.add("fault:byte_replaced", 1);
    c.log(|| format!("damaged: {}", esc(j.data.as_ref().unwrap())));
  }
  let env = c.env;
  let cfg = Config { perform_indent: j.cfg.0, write_document_declaration: j.cfg.1, indent_string: j.cfg.2.clone() };
  let ops = env.ops[j.t];
  warm();
  let mut ending = 0u64;
  let mut peak1 = 0;
  for i in 0..reps {
    let mut base = crate::alloc::live();
    crate::alloc::reset_peak();
    let plan = j.plan.clone();
    let (drops_at_end, drops_after, kind, sh);
    match &j.data {
      Some(d) => {
        let (io, s) = SimIo::source(d.clone(), plan);
        let f = ops.decode_drop;
        let (r, _) = guarded(u64::MAX, || f(io.into_dyn_reader()));
        drops_at_end = get(&s, |i| i.drops);
        kind = match &r {
          Ok(Ok(())) => 1,
          Ok(Err(_)) => 2,
          Err(_) => 3,
        };
        drop(r);
        drops_after = drops_at_end;
        sh = s;
      }
      None => {
        let (io, s) = SimIo::sink(plan);
        let (r, _) = guarded(u64::MAX, || if j.content { (ops.encode_content)(&j.v, io) } else { (ops.encode)(&j.v, io, &cfg) });
        drops_at_end = get(&s, |i| i.drops);
        kind = match &r {
          Ok(Ok(_)) => 4,
          Ok(Err(_)) => 5,
          Err(_) => 6,
        };
        drop(r);
        drops_after = get(&s, |i| i.drops);
        sh = s;
      }
    }
    let peak = crate::alloc::peak() - base;
    if i == 0 {
      // what the bookkeeping allocates is not the session's
      let own = crate::alloc::live();
      c.io(&sh);
      ending = kind;
      peak1 = peak;
      c.feat(j.t as u64 * 8 + kind, j.plan.faults.last().map_or(0, |f| f.0 as u64 + 1));
      c.log(|| format!("ending {kind}, drops {drops_at_end}/{drops_after}"));
      base += crate::alloc::live() - own;
    }
    let want_end = if kind == 4 { 0 } else { 1 };
    if drops_at_end != want_end || drops_after != 1 {
      return viol("drops", format!("{}: the stream was dropped {drops_at_end} times when the call ended and {drops_after} in all (ending {kind})", show_job(env, &j)));
    }
    if kind != ending {
      return viol("repetition", format!("{}: ended as {ending} first and as {kind} later", show_job(env, &j)));
    }
    drop(sh);
    let left = crate::alloc::live() - base;
    // a library may set something up once; it may not keep more each time
    if left != 0 && i > 0 {
      return viol("memory", format!("{}: {left} bytes are still allocated after repetition {i} ended as {kind}", show_job(env, &j)));
    }
    if i > 0 && peak > peak1 + 4096 {
      return viol("growth", format!("{}: peak memory grew from {peak1} to {peak} bytes by repetition {i}", show_job(env, &j)));
    }
  }
  c.stats.add(["", "ended:decoded", "ended:decode_error", "ended:decode_unwound", "ended:encoded", "ended:encode_error", "ended:encode_unwound"][ending as usize], 1);
  c.stats.add("sessions", reps as u64);
  c.nontrivial = ending != 1 && ending != 4 || reps > 10 || c.nontrivial;
  Ok(())
}

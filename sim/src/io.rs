//! The simulated source and sink: every byte delivered to, or accepted from, the code under test goes
//! through here, under an explicit plan of chunk sizes and faults at byte offsets.
use crate::choice::Src;
use std::io::{self, ErrorKind, Read, Write};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
  /// so many EINTR results before the byte at the offset is delivered / accepted
  Intr(u32),
  /// an error; `transient` errors happen once and later calls work again
  Err { kind: usize, transient: bool },
  /// clean end of file (source), a full sink accepting zero bytes (sink)
  End,
  /// the caller's stream panics
  Panic,
  /// run another session from inside the read / write call (index into the run's nested sessions)
  Nest(usize),
}
pub const KINDS: [ErrorKind; 16] = [
  ErrorKind::Other,
  ErrorKind::ConnectionReset,
  ErrorKind::WouldBlock,
  ErrorKind::TimedOut,
  ErrorKind::UnexpectedEof,
  ErrorKind::BrokenPipe,
  ErrorKind::InvalidData,
  ErrorKind::PermissionDenied,
  ErrorKind::NotFound,
  ErrorKind::OutOfMemory,
  ErrorKind::ConnectionAborted,
  ErrorKind::WriteZero,
  ErrorKind::InvalidInput,
  ErrorKind::AddrInUse,
  ErrorKind::Unsupported,
  ErrorKind::AlreadyExists,
];
#[derive(Clone, Debug, Default)]
pub struct Plan {
  /// sizes of successive transfers, repeated; empty = unlimited
  pub chunks: Vec<usize>,
  /// sorted by offset
  pub faults: Vec<(usize, Fault)>,
  /// wrap the source in a BufReader of this capacity (0 = none)
  pub bufcap: usize,
}
impl Plan {
  pub fn whole() -> Plan {
    Plan::default()
  }
  pub fn delivery(s: &mut Src, len: usize) -> Plan {
    let chunks = match s.below(6) {
      0 => vec![],
      1 => vec![1],
      2 => vec![s.range(1, 16)],
      3 => (0..s.range(1, 5)).map(|_| s.range(1, 40)).collect(),
      4 => vec![*s.pick(&[2usize, 3, 7, 64, 255, 256, 511, 512, 513, 1024, 4096, 8192])],
      _ => vec![1, s.range(1, 4000), 1],
    };
    let bufcap = if s.chance(1, 2) { *s.pick(&[1usize, 2, 3, 5, 8, 16, 64, 100, 512, 4096, 8192]) } else { 0 };
    let mut p = Plan { chunks, faults: vec![], bufcap };
    if s.chance(1, 2) {
      for _ in 0..s.range(1, 4) {
        let at = s.below(len + 1);
        let n = *s.pick(&[1u32, 1, 2, 3, 17, 100, 1000]);
        p.faults.push((at, Fault::Intr(n)));
      }
      if s.chance(1, 6) {
        // a storm: every byte of a stretch is interrupted
        let at = s.below(len + 1);
        for i in 0..64.min(len + 1 - at) {
          p.faults.push((at + i, Fault::Intr(1)));
        }
      }
    }
    p.sort();
    p
  }
  pub fn sort(&mut self) {
    self.faults.sort_by_key(|x| x.0);
  }
  pub fn with(mut self, at: usize, f: Fault) -> Plan {
    // interruptions beyond a terminal fault never happen; keep those before it
    self.faults.push((at, f));
    self.sort();
    self
  }
  pub fn err(s: &mut Src) -> Fault {
    Fault::Err { kind: s.below(KINDS.len()), transient: s.chance(1, 3) }
  }
}
#[derive(Default)]
pub struct Io {
  pub calls: u64,
  pub pos: usize,
  pub out: Vec<u8>,
  pub next: usize,
  pub ci: usize,
  pub intr_left: u32,
  /// terminal fault that happened first, with the offset
  pub hit: Option<(usize, Fault)>,
  pub latched: Option<Fault>,
  pub after_hit: u64,
  pub intr: u64,
  pub short: u64,
  pub errs: u64,
  pub ends: u64,
  pub panics: u64,
  pub nests: u64,
  /// calls that found the data exhausted
  pub past_end: u64,
  pub drops: u64,
  pub flushes: u64,
  pub hash: u64,
}
pub type Shared = Arc<Mutex<Io>>;
fn lock(s: &Shared) -> std::sync::MutexGuard<'_, Io> {
  match s.lock() {
    Ok(g) => g,
    Err(p) => p.into_inner(),
  }
}
pub fn get<T>(s: &Shared, f: impl FnOnce(&Io) -> T) -> T {
  f(&lock(s))
}
pub type Hook = Box<dyn FnMut(usize)>;
pub struct SimIo {
  data: Arc<Vec<u8>>,
  plan: Plan,
  /// what an exhausted source does: false = end of file, true = the stream is open but silent
  open: bool,
  shared: Shared,
  hook: Option<Hook>,
}
pub struct SimPanic(pub &'static str);
enum Act {
  Go(usize),
  Fault(Fault),
}
impl SimIo {
  pub fn source(data: Arc<Vec<u8>>, plan: Plan) -> (SimIo, Shared) {
    let sh: Shared = Default::default();
    (SimIo { data, plan, open: false, shared: sh.clone(), hook: None }, sh)
  }
  pub fn sink(plan: Plan) -> (SimIo, Shared) {
    Self::source(Arc::new(vec![]), plan)
  }
  pub fn open(mut self) -> SimIo {
    self.open = true;
    self
  }
  pub fn hook(mut self, h: Hook) -> SimIo {
    self.hook = Some(h);
    self
  }
  pub fn into_dyn_reader(self) -> DynR {
    let cap = self.plan.bufcap;
    if cap > 0 {
      DynR(Box::new(io::BufReader::with_capacity(cap, self)))
    } else {
      DynR(Box::new(self))
    }
  }
  /// decides what this call does with at most `want` bytes
  fn step(&mut self, want: usize) -> Act {
    let mut io = lock(&self.shared);
    io.calls += 1;
    if io.hit.is_some() {
      io.after_hit += 1;
      if io.after_hit > 20_000 {
        drop(io);
        std::panic::panic_any(crate::run::Budget("stream polled forever after a failure"));
      }
    }
    if let Some(f) = io.latched.clone() {
      return Act::Fault(f);
    }
    if io.intr_left > 0 {
      io.intr_left -= 1;
      return Act::Fault(Fault::Intr(0));
    }
    while io.next < self.plan.faults.len() && self.plan.faults[io.next].0 < io.pos {
      io.next += 1;
    }
    let mut lim = want;
    if let Some((at, f)) = self.plan.faults.get(io.next) {
      if *at == io.pos {
        let f = f.clone();
        let at = *at;
        io.next += 1;
        match &f {
          Fault::Intr(n) => {
            io.intr_left = n - 1;
            return Act::Fault(Fault::Intr(0));
          }
          Fault::Nest(_) => {}
          f => {
            if io.hit.is_none() {
              io.hit = Some((at, f.clone()));
            }
            if !matches!(f, Fault::Err { transient: true, .. }) {
              io.latched = Some(f.clone());
            }
          }
        }
        return Act::Fault(f);
      }
      lim = lim.min(at - io.pos);
    }
    if !self.plan.chunks.is_empty() {
      let c = self.plan.chunks[io.ci % self.plan.chunks.len()];
      io.ci += 1;
      lim = lim.min(c);
    }
    if lim < want {
      io.short += 1;
    }
    Act::Go(lim)
  }
}
impl Read for SimIo {
  fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
    crate::sched::point(1);
    loop {
      let left = self.data.len() - lock(&self.shared).pos;
      match self.step(buf.len().min(left.max(1))) {
        Act::Go(n) => {
          let mut io = lock(&self.shared);
          let n = n.min(left);
          if n == 0 && !buf.is_empty() {
            io.past_end += 1;
            if io.past_end > 20_000 {
              drop(io);
              std::panic::panic_any(crate::run::Budget("stream polled forever after its end"));
            }
            if self.open {
              return Err(io::Error::new(ErrorKind::WouldBlock, "sim: read on a silent open stream"));
            }
            return Ok(0);
          }
          let p = io.pos;
          buf[..n].copy_from_slice(&self.data[p..p + n]);
          io.pos += n;
          io.hash = crate::choice::mix(io.hash, n as u64);
          return Ok(n);
        }
        Act::Fault(f) => match self.fault(f) {
          Some(r) => return r,
          None => continue,
        },
      }
    }
  }
}
impl SimIo {
  fn fault(&mut self, f: Fault) -> Option<io::Result<usize>> {
    let mut io = lock(&self.shared);
    match f {
      Fault::Intr(_) => {
        io.intr += 1;
        Some(Err(io::Error::from(ErrorKind::Interrupted)))
      }
      Fault::Err { kind, .. } => {
        io.errs += 1;
        Some(Err(io::Error::new(KINDS[kind], "sim: injected")))
      }
      Fault::End => {
        io.ends += 1;
        Some(Ok(0))
      }
      Fault::Panic => {
        io.panics += 1;
        drop(io);
        std::panic::panic_any(SimPanic("sim: stream panic"))
      }
      Fault::Nest(k) => {
        io.nests += 1;
        drop(io);
        if let Some(h) = self.hook.as_mut() {
          h(k);
        }
        None
      }
    }
  }
}
impl Write for SimIo {
  fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
    crate::sched::point(2);
    if buf.is_empty() {
      return Ok(0);
    }
    loop {
      match self.step(buf.len()) {
        Act::Go(n) => {
          let mut io = lock(&self.shared);
          io.out.extend_from_slice(&buf[..n]);
          io.pos += n;
          io.hash = crate::choice::mix(io.hash, n as u64);
          return Ok(n);
        }
        Act::Fault(f) => match self.fault(f) {
          Some(r) => return r,
          None => continue,
        },
      }
    }
  }
  fn flush(&mut self) -> io::Result<()> {
    lock(&self.shared).flushes += 1;
    Ok(())
  }
}
impl Drop for SimIo {
  fn drop(&mut self) {
    lock(&self.shared).drops += 1;
  }
}
/// One reader type for every test, so that each type under test is compiled once.
pub struct DynR(pub Box<dyn Read>);
impl Read for DynR {
  fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
    self.0.read(buf)
  }
}
pub struct DynW(pub Box<dyn Write>);
impl Write for DynW {
  fn write(&mut self, b: &[u8]) -> io::Result<usize> {
    self.0.write(b)
  }
  fn flush(&mut self) -> io::Result<()> {
    self.0.flush()
  }
}

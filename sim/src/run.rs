//! One simulated run: its context, the guarded call into the code under test, and the step counter.
use crate::choice::{mix, Src};
use crate::model::Schema;
use crate::ops::Ops;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Env {
  pub schema: Schema,
  pub ops: Vec<Ops>,
}
pub struct Budget(pub &'static str);
#[derive(Clone, Debug)]
pub struct Violation {
  pub class: String,
  pub msg: String,
}
pub fn viol<T>(class: &str, msg: String) -> Result<T, Violation> {
  Err(Violation { class: class.to_string(), msg })
}
#[derive(Default, Clone)]
pub struct Stats {
  pub m: BTreeMap<String, u64>,
}
impl Stats {
  pub fn add(&mut self, k: &str, n: u64) {
    if n > 0 {
      match self.m.get_mut(k) {
        Some(x) => *x += n,
        None => {
          self.m.insert(k.to_string(), n);
        }
      }
    }
  }
}
pub struct Ctx<'a> {
  pub s: &'a mut Src,
  pub env: &'a Env,
  pub stats: Stats,
  pub sig: u64,
  pub nontrivial: bool,
  pub log: Option<Vec<String>>,
  pub thorough: bool,
}
impl<'a> Ctx<'a> {
  pub fn log(&mut self, f: impl FnOnce() -> String) {
    if let Some(l) = self.log.as_mut() {
      l.push(f());
    }
  }
  /// adds a feature to the run's signature (what makes two runs distinct)
  pub fn feat(&mut self, a: u64, b: u64) {
    self.sig = mix(self.sig, mix(a, b));
  }
  pub fn io(&mut self, sh: &crate::io::Shared) {
    let (calls, intr, short, errs, ends, panics, nests) =
      crate::io::get(sh, |i| (i.calls, i.intr, i.short, i.errs, i.ends, i.panics, i.nests));
    self.stats.add("io_calls", calls);
    self.stats.add("fault:interrupted_call", intr);
    self.stats.add("fault:short_transfer", short);
    self.stats.add("fault:io_error", errs);
    self.stats.add("fault:early_end_or_full", ends);
    self.stats.add("fault:stream_panic", panics);
    self.stats.add("nested_session", nests);
    if intr + short + errs + ends + panics + nests > 0 {
      self.nontrivial = true;
    }
  }
}
thread_local! {
  static STEPS: Cell<u64> = const { Cell::new(0) };
  static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
  static GUARDED: Cell<u32> = const { Cell::new(0) };
  static PANIC: RefCell<String> = const { RefCell::new(String::new()) };

}
struct StepLogger;
impl log::Log for StepLogger {
  fn enabled(&self, _: &log::Metadata) -> bool {
    true
  }
  fn log(&self, _: &log::Record) {
    crate::sched::point(3);
    let n = STEPS.with(|s| {
      let n = s.get() + 1;
      s.set(n);
      n
    });
    if n > LIMIT.with(|l| l.get()) {
      LIMIT.with(|l| l.set(u64::MAX));
      std::panic::panic_any(Budget("step budget exceeded without finishing"));
    }
  }
  fn flush(&self) {}
}
static LOGGER: StepLogger = StepLogger;
pub fn install() {
  let _ = log::set_logger(&LOGGER);
  log::set_max_level(log::LevelFilter::Trace);
  std::panic::set_hook(Box::new(|i| {
    let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
      s.to_string()
    } else if let Some(s) = i.payload().downcast_ref::<String>() {
      s.clone()
    } else {
      "?".into()
    };
    // the position inside a source file is left out: it changes with unrelated edits
    let f = i.location().map(|l| l.file().rsplit('/').next().unwrap_or("").to_string()).unwrap_or_default();
    if GUARDED.try_with(|g| g.get() == 0).unwrap_or(true) || m.starts_with("harness:") {
      eprintln!("panic outside the code under test: {m} at {:?}", i.location().map(|l| (l.file(), l.line())));
    }
    let _ = PANIC.try_with(|p| {
      // a buffer of constant size: a panic must not look like a leak to the memory accounting
      let mut p = p.borrow_mut();
      p.clear();
      if p.capacity() < 1024 {
        p.reserve_exact(1024);
      }
      for c in m.chars().chain(" [".chars()).chain(f.chars()).chain("]".chars()) {
        if p.len() + 4 < 1024 {
          p.push(c);
        }
      }
    });
  }));
}
/// makes the panic hook's buffer exist before memory is measured
pub fn warm() {
  PANIC.with(|p| {
    let mut p = p.borrow_mut();
    p.clear();
    p.reserve_exact(1024);
  });
}
#[derive(Debug, Clone, PartialEq)]
pub enum Fail {
  Panic(String),
  Budget(String),
  Stream,
}
impl Fail {
  pub fn class(&self) -> &'static str {
    match self {
      Fail::Panic(_) => "panic",
      Fail::Budget(_) => "no-progress",
      Fail::Stream => "stream-panic",
    }
  }
}
/// Calls into the code under test; panics are outcomes.
pub fn guarded<T>(limit: u64, f: impl FnOnce() -> T) -> (Result<T, Fail>, u64) {
  STEPS.with(|s| s.set(0));
  LIMIT.with(|l| l.set(limit));
  GUARDED.with(|g| g.set(g.get() + 1));
  let r = catch_unwind(AssertUnwindSafe(f));
  GUARDED.with(|g| g.set(g.get() - 1));
  LIMIT.with(|l| l.set(u64::MAX));
  let steps = STEPS.with(|s| s.get());
  let r = match r {
    Ok(x) => Ok(x),
    Err(p) => Err(if p.is::<crate::io::SimPanic>() {
      Fail::Stream
    } else if let Some(b) = p.downcast_ref::<Budget>() {
      Fail::Budget(b.0.to_string())
    } else {
      let m = PANIC.with(|p| p.borrow().clone());
      if m.starts_with("harness:") {
        std::panic::resume_unwind(p);
      }
      Fail::Panic(m)
    }),
  };
  (r, steps)
}
pub fn limit_for(bytes: usize) -> u64 {
  20_000 + 400 * bytes as u64
}

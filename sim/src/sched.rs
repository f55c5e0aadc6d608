//! Caller threads under a scheduler: real threads, parked and released one at a time at the points where
//! the code under test touches a stream or records a step. Which thread runs next is always a drawn choice.
use crate::choice::{mix, Src};
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex};

#[derive(PartialEq, Clone, Copy, Debug)]
enum Turn {
  Parked,
  Run,
  Done,
}
pub struct Slot {
  m: Mutex<Turn>,
  cv: Condvar,
}
struct Handle {
  slot: Arc<Slot>,
  every: u32,
  count: u32,
}
thread_local! {
  static H: RefCell<Option<Handle>> = const { RefCell::new(None) };
}
impl Slot {
  fn new() -> Arc<Slot> {
    Arc::new(Slot { m: Mutex::new(Turn::Parked), cv: Condvar::new() })
  }
  fn park(&self) {
    let mut g = self.m.lock().unwrap();
    *g = Turn::Parked;
    self.cv.notify_all();
    while *g != Turn::Run {
      g = self.cv.wait(g).unwrap();
    }
  }
  /// controller side: lets the thread run until it parks again or ends; true = ended
  fn resume(&self) -> bool {
    let mut g = self.m.lock().unwrap();
    if *g == Turn::Done {
      return true;
    }
    *g = Turn::Run;
    self.cv.notify_all();
    while *g == Turn::Run {
      g = self.cv.wait(g).unwrap();
    }
    *g == Turn::Done
  }
  fn wait_start(&self) {
    let mut g = self.m.lock().unwrap();
    while *g != Turn::Run {
      g = self.cv.wait(g).unwrap();
    }
  }
  fn done(&self) {
    *self.m.lock().unwrap() = Turn::Done;
    self.cv.notify_all();
  }
}
struct Leave(Arc<Slot>);
impl Drop for Leave {
  fn drop(&mut self) {
    H.with(|h| *h.borrow_mut() = None);
    self.0.done();
  }
}
/// a possible switch point
pub fn point(_kind: u8) {
  let slot = H
    .try_with(|h| {
      let mut b = h.try_borrow_mut().ok()?;
      let h = b.as_mut()?;
      h.count += 1;
      if h.count >= h.every {
        h.count = 0;
        Some(h.slot.clone())
      } else {
        None
      }
    })
    .ok()
    .flatten();
  if let Some(s) = slot {
    s.park();
  }
}
/// gives up the turn until the controller finds this thread runnable again
pub fn block() {
  let s = H.with(|h| h.borrow().as_ref().map(|h| h.slot.clone())).expect("harness: block outside the scheduler");
  s.park();
}
pub struct Outcome {
  pub switches: u64,
  pub order: u64,
  pub deadlock: bool,
}
/// Runs the tasks, one at a time, switching at every `every`-th point of each.
/// `runnable(i)` tells whether task i can make progress; `unblock` is called once if none can.
pub fn run<'a>(
  s: &mut Src,
  tasks: Vec<Box<dyn FnOnce() + Send + 'a>>,
  every: u32,
  runnable: &dyn Fn(usize) -> bool,
  unblock: &dyn Fn(),
) -> Outcome {
  let n = tasks.len();
  let slots: Vec<Arc<Slot>> = (0..n).map(|_| Slot::new()).collect();
  let mut out = Outcome { switches: 0, order: 1, deadlock: false };
  std::thread::scope(|sc| {
    for (i, t) in tasks.into_iter().enumerate() {
      let slot = slots[i].clone();
      sc.spawn(move || {
        slot.wait_start();
        H.with(|h| *h.borrow_mut() = Some(Handle { slot: slot.clone(), every, count: 0 }));
        let _l = Leave(slot);
        t();
      });
    }
    let mut live: Vec<usize> = (0..n).collect();
    let mut stick = 0usize;
    let mut cur = usize::MAX;
    while !live.is_empty() {
      let mut r: Vec<usize> = live.iter().copied().filter(|i| runnable(*i)).collect();
      if r.is_empty() {
        if out.deadlock {
          // unblocked threads are always runnable
          panic!("harness: threads blocked after the streams were closed");
        }
        out.deadlock = true;
        unblock();
        r = live.clone();
      }
      // one draw gives both the thread and how long it is preferred
      let i = if stick > 0 && r.contains(&cur) {
        stick -= 1;
        cur
      } else {
        let k = if r.len() == 1 { 0 } else { s.below(r.len() * 4) };
        stick = [0, 0, 2, 9][k / r.len() % 4];
        r[k % r.len()]
      };
      if i != cur {
        out.switches += 1;
        out.order = mix(out.order, i as u64);
      } else {
        out.order = mix(out.order, 77);
      }
      cur = i;
      if slots[i].resume() {
        live.retain(|x| *x != i);
      }
    }
  });
  out
}

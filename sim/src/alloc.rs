//! Counting allocator: live and peak bytes and allocation count of the current thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
thread_local! {
  static LIVE: Cell<i64> = const { Cell::new(0) };
  static PEAK: Cell<i64> = const { Cell::new(0) };
  static COUNT: Cell<u64> = const { Cell::new(0) };
}
pub struct Counting;
fn add(n: i64) {
  let _ = LIVE.try_with(|l| {
    let v = l.get() + n;
    l.set(v);
    let _ = PEAK.try_with(|p| {
      if v > p.get() {
        p.set(v)
      }
    });
  });
  if n > 0 {
    let _ = COUNT.try_with(|c| c.set(c.get() + 1));
  }
}
unsafe impl GlobalAlloc for Counting {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    add(l.size() as i64);
    System.alloc(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    add(-(l.size() as i64));
    System.dealloc(p, l)
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    add(n as i64 - l.size() as i64);
    System.realloc(p, l, n)
  }
}
pub fn live() -> i64 {
  LIVE.with(|l| l.get())
}
pub fn reset_peak() {
  PEAK.with(|p| p.set(live()))
}
pub fn peak() -> i64 {
  PEAK.with(|p| p.get())
}

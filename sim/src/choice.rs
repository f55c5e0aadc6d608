//! The one source of choices. A run is a pure function of the sequence of numbers drawn here:
//! either from a PRNG seeded by the run seed, or from a recorded (possibly shrunk) sequence.
#[derive(Clone)]
pub struct Rng(u64, u64);
pub fn splitmix(x: &mut u64) -> u64 {
  *x = x.wrapping_add(0x9E3779B97F4A7C15);
  let mut z = *x;
  z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
  z ^ (z >> 31)
}
pub fn mix(a: u64, b: u64) -> u64 {
  let mut s = a ^ b.wrapping_mul(0xD6E8FEB86659FD93);
  splitmix(&mut s);
  splitmix(&mut s)
}
impl Rng {
  pub fn new(seed: u64) -> Rng {
    let mut s = seed;
    let a = splitmix(&mut s);
    let b = splitmix(&mut s) | 1;
    Rng(a, b)
  }
  pub fn next(&mut self) -> u64 {
    // xoroshiro128+
    let (s0, mut s1) = (self.0, self.1);
    let r = s0.wrapping_add(s1);
    s1 ^= s0;
    self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
    self.1 = s1.rotate_left(37);
    r
  }
}
pub struct Src {
  rng: Option<Rng>,
  replay: Vec<u64>,
  pos: usize,
  pub rec: Vec<u64>,
}
impl Src {
  pub fn from_seed(seed: u64) -> Src {
    Src { rng: Some(Rng::new(seed)), replay: vec![], pos: 0, rec: Vec::with_capacity(256) }
  }
  pub fn from_choices(v: Vec<u64>) -> Src {
    Src { rng: None, replay: v, pos: 0, rec: vec![] }
  }
  /// a value in 0..n; 0 is the simplest
  pub fn draw(&mut self, n: u64) -> u64 {
    assert!(n > 0);
    let v = match self.rng.as_mut() {
      Some(r) => ((r.next() >> 11) as u128 * n as u128 >> 53) as u64,
      None => {
        let v = self.replay.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        if v >= n { v % n } else { v }
      }
    };
    self.rec.push(v);
    v
  }
  pub fn bits(&mut self) -> u64 {
    let hi = self.draw(1 << 32);
    let lo = self.draw(1 << 32);
    hi << 32 | lo
  }
  pub fn below(&mut self, n: usize) -> usize {
    self.draw(n as u64) as usize
  }
  pub fn range(&mut self, lo: usize, hi: usize) -> usize {
    lo + self.draw((hi - lo + 1) as u64) as usize
  }
  /// true with probability num/den; shrinks towards false
  pub fn chance(&mut self, num: u64, den: u64) -> bool {
    self.draw(den) >= den - num
  }
  pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
    let i = self.below(v.len());
    &v[i]
  }
  /// index chosen with the given weights; shrinks towards index 0
  pub fn weighted(&mut self, w: &[u64]) -> usize {
    let t: u64 = w.iter().sum();
    let mut x = self.draw(t);
    for (i, k) in w.iter().enumerate() {
      if x < *k {
        return i;
      }
      x -= k;
    }
    unreachable!()
  }
}

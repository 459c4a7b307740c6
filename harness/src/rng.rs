//! Small deterministic random number generator (splitmix64 / xorshift).

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
  pub fn new(seed: u64) -> Rng {
    let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
    r.next();
    r.next();
    r
  }
  /// Generator for case `idx` of stream `tag` under the global seed.
  pub fn case(seed: u64, tag: &str, idx: u64) -> Rng {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in tag.bytes() {
      h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    Rng::new(seed.wrapping_mul(0x2545_f491_4f6c_dd1d) ^ h ^ idx.wrapping_mul(0xd134_2543_de82_ef95))
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
  }
  pub fn fork(&mut self) -> Rng {
    Rng::new(self.next())
  }
  /// Uniform in `0..n` (`n > 0`).
  pub fn below(&mut self, n: usize) -> usize {
    assert!(n > 0);
    (self.next() % n as u64) as usize
  }
  /// Uniform in `lo..=hi`.
  pub fn range(&mut self, lo: usize, hi: usize) -> usize {
    lo + self.below(hi - lo + 1)
  }
  /// True with probability `num/den`.
  pub fn chance(&mut self, num: usize, den: usize) -> bool {
    self.below(den) < num
  }
  pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
    &xs[self.below(xs.len())]
  }
  pub fn shuffle<T>(&mut self, xs: &mut [T]) {
    for i in (1..xs.len()).rev() {
      xs.swap(i, self.below(i + 1));
    }
  }
  /// An interesting 32-bit integer.
  pub fn int(&mut self) -> i32 {
    match self.below(10) {
      0 => 0,
      1 => 1,
      2 => -1,
      3 => i32::MAX,
      4 => i32::MIN,
      5 => 1 << self.below(31),
      6 => self.next() as i32,
      7 => -(self.below(100) as i32),
      _ => self.below(100) as i32,
    }
  }
}

/// 64-bit FNV hash of bytes (stable between runs).
pub fn fnv(bytes: &[u8]) -> u64 {
  let mut h = 0xcbf2_9ce4_8422_2325u64;
  for b in bytes {
    h = (h ^ *b as u64).wrapping_mul(0x1000_0000_01b3);
  }
  h ^ (h >> 29)
}

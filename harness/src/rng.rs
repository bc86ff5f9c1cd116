//! Deterministic PRNG (splitmix64 seeding a xoshiro-like generator).
#[derive(Clone)]
pub struct Rng(u64);
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    mix(h)
}
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(mix(seed.wrapping_add(0x9e3779b97f4a7c15))) }
    pub fn u64(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15); mix(self.0) }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 {0} else {(self.u64() % n as u64) as usize} }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + (self.u64() % ((hi - lo + 1) as u64)) as i64 }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.below(xs.len()); &xs[i] }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) { for i in (1..xs.len()).rev() { let j = self.below(i + 1); xs.swap(i, j); } }
}

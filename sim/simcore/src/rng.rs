//! The only source of random choices of the simulator.
#[derive(Clone)]
pub struct Rng(u64, u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    h
}
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(mix(seed), mix(seed ^ 0xa5a5_5a5a_1234_9876) | 1) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(self.1 ^ 0x9e3779b97f4a7c15);
        let x = mix(self.0);
        self.1 = self.1.rotate_left(7) ^ (x | 1);
        self.1 |= 1;
        x
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 { if n <= 1 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 } }
    pub fn usize(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// inclusive range
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.usize(v.len())] }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.usize(i + 1); v.swap(i, j); } }
    /// small numbers are frequent, large ones possible
    pub fn small(&mut self, max: u64) -> u64 { let m = self.below(max + 1); let k = self.below(m + 1); if self.chance(1, 2) { k } else { m } }
}

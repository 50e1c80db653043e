pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03); for _ in 0..4 { r.next(); } r }
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    pub fn below(&mut self, n: usize) -> usize { ((self.next() >> 33) as usize) % n }
    pub fn chance(&mut self, pct: usize) -> bool { self.below(100) < pct }
    pub fn pick<'a, T: ?Sized>(&mut self, v: &[&'a T]) -> &'a T { v[self.below(v.len())] }
    pub fn one<T: Copy>(&mut self, v: &[T]) -> T { v[self.below(v.len())] }
}

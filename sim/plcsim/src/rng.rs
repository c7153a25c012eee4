pub struct Rng(u64);
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn fnv(h: u64, v: u64) -> u64 {
    mix(h ^ v.wrapping_mul(0x9E3779B97F4A7C15))
}
impl Rng {
    pub fn new(s: u64) -> Rng {
        Rng(mix(s ^ 0x5DEECE66D))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.u64() % n
        }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        if hi <= lo {
            return lo;
        }
        let span = (hi as i128 - lo as i128 + 1) as u128;
        (lo as i128 + (self.u64() as u128 % span) as i128) as i64
    }
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(1000) < pct * 10
    }
    pub fn permille(&mut self, p: u64) -> bool {
        self.below(1000) < p
    }
    /// log-uniform in [1, max]
    pub fn log(&mut self, max: i64) -> i64 {
        let bits = 64 - (max.max(1) as u64).leading_zeros() as u64;
        let b = self.below(bits) + 1;
        let v = if b >= 64 { self.u64() >> 1 } else { (1u64 << (b - 1)) | (self.u64() & ((1u64 << (b - 1)) - 1)) };
        (v as i64).clamp(1, max.max(1))
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, idx: u64, salt: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ idx.wrapping_mul(0xD1B54A32D192ED03) ^ salt.wrapping_mul(0x8CB92BA72F3D8DD7));
        for _ in 0..4 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn chance(&mut self, num: u32, den: u32) -> bool { (self.next() % den as u64) < num as u64 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let t: u64 = w.iter().map(|x| *x as u64).sum();
        let mut x = self.next() % t.max(1);
        for (i, k) in w.iter().enumerate() {
            if x < *k as u64 { return i; }
            x -= *k as u64;
        }
        0
    }
}

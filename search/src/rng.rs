//! splitmix64: small, seedable, the same everywhere.
use std::sync::OnceLock;

/// Numbers and texts the checked tree contains and the reference does not; what a change
/// compares against is worth trying as a length, an index, a value or a name.
pub struct Hints { pub ints: Vec<u64>, pub strs: Vec<Vec<u8>> }
pub fn hints() -> &'static Hints {
    static H: OnceLock<Hints> = OnceLock::new();
    H.get_or_init(|| {
        let var = |n| std::env::var(n).unwrap_or_default();
        Hints {
            ints: var("VERIF_HINT_INTS").split(',').filter_map(|x| x.parse().ok()).collect(),
            strs: var("VERIF_HINT_STRS").split(',').filter(|x| !x.is_empty()).map(|x| (0..x.len() / 2).filter_map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).ok()).collect()).collect(),
        }
    })
}

/// big: how many more counts may be unusually large
pub struct Rng(pub u64, pub usize);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        let mut r = Rng(seed ^ stream.wrapping_mul(0x9E3779B97F4A7C15), 0);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn byte(&mut self) -> u8 { self.next() as u8 }
    /// usually below n
    pub fn count(&mut self, n: usize) -> usize {
        if self.1 > 0 && self.chance(1, 8) { self.1 -= 1; self.large() } else { self.below(n) }
    }
    pub fn large(&mut self) -> usize {
        let h = &hints().ints;
        if !h.is_empty() && self.chance(1, 2) {
            let v = self.pick(h);
            if v < 70_000 { return (v as usize + self.below(4)).saturating_sub(1) }
        }
        match self.below(8) {
            0 => self.pick(&[255, 256, 257, 500, 512, 1000, 1001, 1024, 1025, 2000, 4096, 5000]),
            1 => self.pick(&[10_000, 16_384, 32_768, 60_000, 65_535, 65_536, 65_537]),
            _ => self.pick(&[5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 40, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 200]),
        }
    }
    /// a value a comparison is likely to be made with
    pub fn edge(&mut self) -> u64 {
        let h = &hints().ints;
        let v = if !h.is_empty() && self.chance(1, 2) { self.pick(h) } else { 1u64 << self.below(64) };
        match self.below(6) { 0 => v.wrapping_sub(1), 1 => v.wrapping_add(1), 2 => !v, 3 => v.wrapping_neg(), 4 => v | self.below(4) as u64, _ => v }
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T { v[self.below(v.len())] }
}

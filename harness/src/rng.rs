//! A small deterministic generator (xoshiro256** seeded by SplitMix64).

#[derive(Debug, Clone)]
pub struct Rng { s: [u64; 4] }

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    splitmix(&mut h)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }

    /// The generator of one case: depends on the property, the seed of the run and the case's number only.
    pub fn case(prop: &str, seed: u64, case: u64) -> Self {
        let mut x = seed.wrapping_mul(0xD1342543DE82EF95) ^ hash_str(prop);
        let a = splitmix(&mut x);
        Rng::new(a ^ case.wrapping_mul(0x2545F4914F6CDD1D))
    }

    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    /// A number below `n` (which must not be 0).
    pub fn below(&mut self, n: usize) -> usize { (self.u64() % n as u64) as usize }

    /// A number from `a` to `b`, both included.
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }

    pub fn chance(&mut self, percent: u32) -> bool { (self.u64() % 100) < percent as u64 }

    pub fn pick<'a, T>(&mut self, from: &'a [T]) -> &'a T { &from[self.below(from.len())] }

    /// An index drawn with the given weights.
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u64 = weights.iter().map(|&w| w as u64).sum();
        let mut at = self.u64() % total.max(1);
        for (i, &w) in weights.iter().enumerate() {
            if at < w as u64 { return i; }
            at -= w as u64;
        }
        0
    }
}

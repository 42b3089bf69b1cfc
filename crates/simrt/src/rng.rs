//! The only source of randomness of the simulator: one seed decides everything.

#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 2],
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let a = mix(seed);
        let b = mix(a ^ 0x1234_5678_9abc_def0);
        Rng { s: [a | 1, b] }
    }
    pub fn fork(&mut self, tag: u64) -> Rng {
        Rng::new(self.next() ^ mix(tag))
    }
    pub fn next(&mut self) -> u64 {
        let (mut a, b) = (self.s[0], self.s[1]);
        let r = a.wrapping_add(b);
        self.s[0] = b;
        a ^= a << 23;
        self.s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
        r
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usize(xs.len())]
    }
    /// log-uniform in 1..=2^bits
    pub fn log(&mut self, bits: u32) -> u64 {
        let b = self.below(bits as u64 + 1) as u32;
        1 + self.below(1u64 << b)
    }
}

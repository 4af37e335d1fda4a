//! Small deterministic RNG (xoshiro256** seeded by splitmix64).
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
    /// how many more items unusually long lists may have
    budget: usize,
    long_runs: usize,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64, stream: &str, case: u64) -> Self {
        let mut x = seed ^ 0xA5A5_5A5A_1234_8765;
        for b in stream.bytes() {
            x = x.wrapping_mul(0x100_0000_01B3) ^ u64::from(b);
            splitmix(&mut x);
        }
        x ^= case.wrapping_mul(0xD6E8_FEB8_6659_FD93);
        let s = [
            splitmix(&mut x),
            splitmix(&mut x),
            splitmix(&mut x),
            splitmix(&mut x),
        ];
        Rng { s, budget: 12_000, long_runs: 1 }
    }

    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.u64() % n as u64) as usize
    }

    /// The length of a list, which usually is `n` and now and then a lot more, up to `max`.
    pub fn many(&mut self, n: usize, max: usize) -> usize {
        if self.u64() % 2500 != 0 {
            return n;
        }
        let max = max.min(self.budget);
        let mut bits = 0;
        while max >> (bits + 1) > 0 {
            bits += 1;
        }
        if bits < 4 {
            return n;
        }
        let size = 1usize << (3 + self.below(bits - 2));
        // around powers of two, where limits are
        let size = match self.below(3) {
            0 => size + 1 + self.below(3),
            1 => size + self.below(size),
            _ => size + self.below(size / 4),
        };
        let size = size.min(max);
        self.budget -= size;
        size
    }

    /// a..=b
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        let span = (b as i128 - a as i128 + 1) as u128;
        (a as i128 + (u128::from(self.u64()) % span) as i128) as i64
    }

    /// true with `pct` percent
    /// length of a run, mostly 1
    pub fn run(&mut self) -> usize {
        if self.long_runs > 0 && self.u64() % 15_000 == 0 {
            self.long_runs -= 1;
            return 1 << self.below(17) | self.below(20);
        }
        match self.below(6) {
            0 => 2,
            1 => 3 + self.below(4),
            _ => 1,
        }
    }
    pub fn chance(&mut self, pct: u32) -> bool {
        self.u64() % 100 < u64::from(pct)
    }

    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }

    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }

    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

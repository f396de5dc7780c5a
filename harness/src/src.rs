//! The source of every random choice: a recorded stream of bounded integers, which can be replayed
//! and shrunk. Choice 0 is always the simplest alternative.

pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    rec: Vec<u64>,
    data: Option<Vec<u8>>,
    /// Where to write every choice at once, for cases that crash.
    pub out: Option<std::fs::File>,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { state: mix(seed), replay: None, pos: 0, rec: Vec::new(), out: None, data: None }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src { state: 0, replay: Some(choices), pos: 0, rec: Vec::new(), out: None, data: None }
    }
    /// Choices from bytes, as few of them as each needs.
    pub fn bytes(data: Vec<u8>) -> Self {
        Src { state: 0, replay: None, pos: 0, rec: Vec::new(), out: None, data: Some(data) }
    }
    pub fn take_rec(&mut self) -> Vec<u64> {
        core::mem::take(&mut self.rec)
    }
    fn raw(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.state)
    }
    /// A number in `0..n`.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let x = match &self.replay {
            Some(c) => {
                let x = c.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                x % n
            }
            None if self.data.is_some() => {
                let d = self.data.as_ref().unwrap();
                let k = ((64 - (n - 1).leading_zeros() as usize) + 7) / 8;
                let mut x = 0u64;
                for b in 0..k {
                    x |= (d.get(self.pos + b).copied().unwrap_or(0) as u64) << (8 * b);
                }
                self.pos += k;
                x % n
            }
            None => {
                let r = self.raw();
                ((r as u128 * n as u128) >> 64) as u64
            }
        };
        crate::alloc::quiet(|| {
            self.rec.push(x);
            if let Some(f) = &mut self.out {
                use std::io::Write;
                let _ = f.write_all(format!("{x}\n").as_bytes());
            }
        });
        x
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn bits(&mut self) -> u64 {
        // Mostly small numbers and boundary values.
        match self.below(8) {
            0 => 0,
            1..=3 => self.below(16),
            4 => self.below(256),
            5 => {
                let b = 1u64 << self.below(64);
                b.wrapping_add(self.below(3)).wrapping_sub(1)
            }
            6 => u64::MAX - self.below(4),
            _ => (self.below(1 << 32) << 32) | self.below(1 << 32),
        }
    }
    /// True with probability `num/den`; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let x = self.below(den);
        x >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.idx(xs.len())]
    }
    /// Chooses an index with the given weights.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut x = self.below(total);
        for (i, wi) in w.iter().enumerate() {
            if x < *wi as u64 {
                return i;
            }
            x -= *wi as u64;
        }
        w.len() - 1
    }
}

//! Choice tape: every random decision of a case is drawn here, recorded, and can be replayed or
//! shrunk. The value 0 always means "the simplest choice".

pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
}

pub struct Source {
    pub tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    log: Option<std::fs::File>,
}

impl Source {
    /// Appends every choice to a file as it is drawn.
    pub fn log_to(&mut self, mut file: std::fs::File) {
        use std::io::Write;
        for v in &self.tape {
            let _ = file.write_all(&v.to_le_bytes());
        }
        self.log = Some(file);
    }

    pub fn random(prefix: Vec<u64>, seed: u64) -> Self {
        Source { tape: prefix, pos: 0, rng: Some(Rng::new(seed)), log: None }
    }

    pub fn replay(tape: Vec<u64>) -> Self {
        Source { tape, pos: 0, rng: None, log: None }
    }

    /// How much of the tape was used.
    pub fn used(&self) -> usize {
        self.pos
    }

    /// Uniform in 0..n. n == 0 means the full 64-bit range.
    pub fn draw(&mut self, n: u64) -> u64 {
        let v = if self.pos < self.tape.len() {
            let v = self.tape[self.pos];
            if n == 0 {
                v
            } else {
                v % n
            }
        } else if let Some(rng) = &mut self.rng {
            let raw = rng.next();
            let v = if n == 0 { raw } else { ((raw as u128 * n as u128) >> 64) as u64 };
            self.tape.push(v);
            if let Some(log) = &mut self.log {
                use std::io::Write;
                let _ = log.write_all(&v.to_le_bytes());
            }
            v
        } else {
            0
        };
        self.pos += 1;
        v
    }

    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.draw(n as u64) as usize
    }

    /// min..=max, simplest is min.
    pub fn range(&mut self, min: usize, max: usize) -> usize {
        min + self.below(max - min + 1)
    }

    /// True with a probability of `percent`; false is simplest.
    pub fn chance(&mut self, percent: u64) -> bool {
        self.draw(100) >= 100 - percent
    }

    /// True once in `n` draws on average; false is simplest.
    pub fn one_in(&mut self, n: u64) -> bool {
        self.draw(n) == n - 1
    }

    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len())]
    }

    /// Index picked by weight; index 0 is simplest.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.draw(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= *w;
        }
        weights.len() - 1
    }

    pub fn bytes(&mut self, len: usize) -> Vec<u8> {
        (0..len).map(|_| self.draw(256) as u8).collect()
    }

    /// Long pseudo random content from a single draw, for bulk data.
    pub fn bulk(&mut self, len: usize) -> Vec<u8> {
        let seed = self.draw(0);
        if seed == 0 {
            return vec![0; len];
        }
        let mut rng = Rng::new(seed);
        let mut out = Vec::with_capacity(len + 8);
        while out.len() < len {
            out.extend_from_slice(&rng.next().to_le_bytes());
        }
        out.truncate(len);
        out
    }

    /// 64-bit integers biased to edges and to every bit width.
    pub fn int(&mut self) -> u64 {
        match self.weighted(&[30, 40, 25, 5]) {
            0 => self.draw(8),
            1 => {
                let bits = self.draw(65);
                match bits {
                    0 => 0,
                    64 => self.draw(0),
                    b => self.draw(1 << b),
                }
            }
            2 => {
                // Next to powers of two.
                let bit = self.draw(65);
                let base = if bit == 64 { 0u64 } else { 1u64 << bit };
                let delta = self.draw(5) as i64 - 2;
                base.wrapping_add(delta as u64)
            }
            _ => {
                let v = self.int_simple();
                v.wrapping_neg()
            }
        }
    }

    fn int_simple(&mut self) -> u64 {
        let bits = self.draw(63);
        self.draw(1 << bits.max(1))
    }

    pub fn shuffle<T>(&mut self, items: &mut [T]) {
        for i in (1..items.len()).rev() {
            let j = i - self.below(i + 1);
            items.swap(i, j);
        }
    }

    pub fn permutation(&mut self, n: usize) -> Vec<usize> {
        let mut p: Vec<usize> = (0..n).collect();
        self.shuffle(&mut p);
        p
    }
}

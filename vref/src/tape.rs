//! The choice tape: every random decision of a case is one recorded draw.
//!
//! Generation mode fills the tape from a PRNG; replay mode reads it back (draws past the end are 0,
//! which every generator maps to its simplest choice). Shrinking edits the tape and replays it.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 { 0 } else { ((u128::from(self.next()) * u128::from(n)) >> 64) as u64 }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.rotate_left(32).wrapping_mul(0x2545_F491_4F6C_DD1D));
    r.next()
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &x in b {
        h = (h ^ u64::from(x)).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h ^ (h >> 29)
}

pub struct Tape {
    rng: Option<Rng>,
    /// Fuzzer input to take draws from
    input: Option<(Vec<u8>, usize)>,
    /// The draws as fuzzer input, if asked for
    output: Option<Vec<u8>>,
    pub draws: Vec<u64>,
    pos: usize,
}

/// Bytes a draw below `n` takes in fuzzer input
fn width(n: u64) -> usize {
    match n {
        0..=1 => 0,
        2..=0x100 => 1,
        0x101..=0x1_0000 => 2,
        0x1_0001..=0x1_0000_0000 => 4,
        _ => 6,
    }
}

impl Tape {
    pub fn generate(seed: u64) -> Self {
        Tape { rng: Some(Rng::new(seed)), input: None, output: None, draws: Vec::new(), pos: 0 }
    }
    pub fn replay(draws: Vec<u64>) -> Self {
        Tape { rng: None, input: None, output: None, draws, pos: 0 }
    }
    /// Draws from the bytes a fuzzer made up; 0 beyond the end
    pub fn fuzzed(input: &[u8]) -> Self {
        Tape { rng: None, input: Some((input.to_vec(), 0)), output: None, draws: Vec::new(), pos: 0 }
    }
    /// Like `generate`, also noting the fuzzer input with these draws
    pub fn generate_input(seed: u64) -> Self {
        Tape { output: Some(Vec::new()), ..Self::generate(seed) }
    }
    pub fn take_input(&mut self) -> Vec<u8> {
        self.output.take().unwrap_or_default()
    }
    fn fuzz_draw(&mut self, n: u64) -> Option<u64> {
        let (bytes, at) = self.input.as_mut()?;
        let w = width(n);
        let mut v = 0;
        for i in 0..w {
            v |= u64::from(bytes.get(*at + i).copied().unwrap_or(0)) << (8 * i);
        }
        *at = (*at + w).min(bytes.len());
        let v = v % n;
        self.draws.push(v);
        Some(v)
    }
    fn note(&mut self, n: u64, v: u64) {
        if let Some(o) = &mut self.output {
            o.extend_from_slice(&v.to_le_bytes()[..width(n)]);
        }
    }
    /// Draws actually used
    pub fn used(&self) -> &[u64] {
        &self.draws[..self.pos.min(self.draws.len())]
    }
    pub fn into_used(mut self) -> Vec<u64> {
        self.draws.truncate(self.pos);
        self.draws
    }
    pub fn digest(&self) -> u64 {
        let mut h = 0x1234_5678u64;
        for &d in self.used() {
            h = mix(h, d);
        }
        h
    }
    /// Uniform in `0..n`
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        if let Some(v) = self.fuzz_draw(n) {
            self.pos += 1;
            return v;
        }
        let v = match &mut self.rng {
            Some(r) => {
                let v = r.below(n);
                self.draws.push(v);
                self.note(n, v);
                v
            }
            None => self.draws.get(self.pos).copied().unwrap_or(0).min(n - 1),
        };
        self.pos += 1;
        v
    }
    pub fn seed(&mut self) -> u64 {
        if let Some(v) = self.fuzz_draw(1 << 48) {
            self.pos += 1;
            return v;
        }
        match &mut self.rng {
            Some(r) => {
                let v = r.next() >> 16;
                self.draws.push(v);
                self.note(1 << 48, v);
                self.pos += 1;
                v
            }
            None => {
                let v = self.draws.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v
            }
        }
    }
    /// Inclusive range
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    /// True with probability `num/den`; 0 on the tape is false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }
    pub fn u16(&mut self) -> u16 {
        self.below(65536) as u16
    }
    /// u16 with boundary values over-represented
    pub fn u16b(&mut self) -> u16 {
        const B: [u16; 16] = [0, 1, 2, 3, 127, 128, 254, 255, 256, 257, 511, 512, 32767, 32768, 65534, 65535];
        match self.below(3) {
            0 => self.below(16) as u16,
            1 => B[self.below(16) as usize],
            _ => self.u16(),
        }
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize]
    }
    /// Index chosen with the given weights; index 0 is the simplest
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, &w) in ws.iter().enumerate() {
            if v < w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
    /// Bytes: drawn one by one if short (shrinks well), otherwise a seeded pattern
    pub fn bytes(&mut self, n: usize, max: u8) -> Vec<u8> {
        let m = u64::from(max) + 1;
        if n <= 24 {
            return (0..n).map(|_| self.below(m) as u8).collect();
        }
        let kind = self.weighted(&[1, 2, 3, 3, 2]);
        let s = self.seed();
        pattern(kind, s, n, max)
    }
}

/// Deterministic byte patterns with values `0..=max`
pub fn pattern(kind: usize, seed: u64, n: usize, max: u8) -> Vec<u8> {
    let m = u64::from(max) + 1;
    let mut r = Rng::new(seed);
    match kind {
        0 => vec![(seed % m) as u8; n],
        // ramps
        1 => {
            let step = 1 + seed % 7;
            (0..n as u64).map(|i| ((i * step + seed / 7) % m) as u8).collect()
        }
        // runs
        2 => {
            let mut v = Vec::with_capacity(n);
            while v.len() < n {
                let b = r.below(m) as u8;
                let l = 1 + r.below(40) as usize;
                for _ in 0..l.min(n - v.len()) {
                    v.push(b);
                }
            }
            v
        }
        // noise
        3 => (0..n).map(|_| r.below(m) as u8).collect(),
        // repeated motifs
        _ => {
            let l = 1 + r.below(12) as usize;
            let motif: Vec<u8> = (0..l).map(|_| r.below(m) as u8).collect();
            (0..n).map(|i| if r.below(50) == 0 { r.below(m) as u8 } else { motif[i % l] }).collect()
        }
    }
}

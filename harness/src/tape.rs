//! Choice tape: every random decision of a case is drawn from a finite tape of
//! u64 words. A case is therefore a pure function of its tape, so a failing case
//! replays from the tape alone and shrinks by editing the tape (shorter tapes and
//! smaller words decode to simpler cases; an exhausted tape yields zeros).

/// splitmix64
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub struct Tape {
    words: Vec<u64>,
    pos: usize,
    /// None: replay (zeros past the end). Some: generate fresh words.
    rng: Option<u64>,
    max: usize,
}

impl Tape {
    pub fn fresh(seed: u64) -> Self {
        Tape { words: vec![], pos: 0, rng: Some(seed), max: 1 << 16 }
    }
    pub fn replay(words: Vec<u64>) -> Self {
        Tape { words, pos: 0, rng: None, max: usize::MAX }
    }
    pub fn used(&self) -> Vec<u64> {
        self.words[..self.pos.min(self.words.len())].to_vec()
    }
    fn word(&mut self) -> u64 {
        if self.pos < self.words.len() {
            self.pos += 1;
            return self.words[self.pos - 1];
        }
        match self.rng.as_mut() {
            Some(s) if self.pos < self.max => {
                *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
                let w = mix(*s);
                self.words.push(w);
                self.pos += 1;
                w
            }
            _ => 0,
        }
    }
    /// Uniform in 0..n (n >= 1); the stored word is reduced so that shrinking works.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let at = self.pos;
        let v = self.word() % n.max(1);
        if at < self.words.len() {
            self.words[at] = v;
        }
        v
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as i64, hi as i64) as usize
    }
    /// true with probability num/den; shrinks towards false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = self.below(den);
        v >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn u64(&mut self) -> u64 {
        self.word()
    }
    pub fn i64(&mut self) -> i64 {
        // mix of small, boundary and arbitrary integers
        match self.below(4) {
            0 => self.range(-5, 10),
            1 => *self.pick(&[0, 1, -1, i64::MAX, i64::MIN, i64::from(i32::MAX), i64::from(u32::MAX), 1 << 53, (1 << 53) + 1]),
            2 => self.range(-100_000, 100_000),
            _ => self.word() as i64,
        }
    }
    pub fn f64(&mut self) -> f64 {
        match self.below(3) {
            0 => self.range(-8, 8) as f64 / 2.0,
            1 => *self.pick(&[0.0, 1.0, -1.5, 1e300, -1e-300, 0.1, 1e16, 123456.789]),
            _ => self.range(-1_000_000, 1_000_000) as f64 / 1000.0,
        }
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.below(i as u64 + 1) as usize; // zero tape = identity
            xs.swap(i, j);
        }
    }
    pub fn subset<T: Clone>(&mut self, xs: &[T], num: u64, den: u64) -> Vec<T> {
        let mut out = vec![];
        for x in xs {
            if self.chance(num, den) {
                out.push(x.clone());
            }
        }
        out
    }
    pub fn opt<T>(&mut self, num: u64, den: u64, f: impl FnOnce(&mut Tape) -> T) -> Option<T> {
        if self.chance(num, den) {
            Some(f(self))
        } else {
            None
        }
    }
    pub fn word_str(&mut self, alphabet: &[char], lo: usize, hi: usize) -> String {
        let n = self.size(lo, hi);
        (0..n).map(|_| *self.pick(alphabet)).collect()
    }
}

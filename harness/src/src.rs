//! Choice tape: every random decision of a case is a bounded draw recorded on
//! one tape, so that a case can be replayed and shrunk.

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed) }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xD6E8FEB86659FD93).rotate_left(23));
    r.next() ^ Rng::new(b).next()
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

pub struct Src {
    pub tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    /// 1..=100, set by `begin`.
    pub size: usize,
    /// Oversized blobs or collections still to be made.
    pub big: u32,
}

const MAX_TAPE: usize = 1 << 15;

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { tape: Vec::new(), pos: 0, rng: Some(Rng::new(seed)), size: 1, big: 0 }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { tape, pos: 0, rng: None, size: 1, big: 0 }
    }
    /// Replays `tape`, then goes on at random.
    pub fn extend(tape: Vec<u64>, seed: u64) -> Self {
        Src { tape, pos: 0, rng: Some(Rng::new(seed)), size: 1, big: 0 }
    }
    /// Draws the size of the case; first draw of every case.
    pub fn begin(&mut self) {
        let a = self.below(100) as usize;
        let b = self.below(100) as usize;
        self.size = 1 + a.min(b) + a / 4;
    }
    /// Whether the blob or collection at hand is to be oversized.
    pub fn take_big(&mut self) -> bool {
        if self.big == 0 || self.chance(1, 3) { return false; }
        self.big -= 1;
        true
    }
    /// Length of an oversized blob.
    pub fn big_len(&mut self) -> usize {
        match self.below(4) {
            0 => self.range(100_000, 3_000_000),
            k => {
                let b = if k == 1 { 20 + self.below(3) } else { 16 + self.below(6) };
                (1usize << b) - 2 + self.below(5) as usize
            }
        }
    }
    /// Number of elements of an oversized collection.
    pub fn big_count(&mut self) -> usize {
        match self.below(3) {
            0 => self.range(20_000, 250_000),
            1 => (1usize << (14 + self.below(4))) - 2 + self.below(5) as usize,
            _ => *self.pick(&[65_535, 65_536, 65_537, 66_000, 70_000, 100_000, 131_073]),
        }
    }
    pub fn used(&self) -> usize { self.pos }

    /// Uniform draw in `0..n`; shrinks towards 0.  `n == 0` means the full
    /// 64-bit range.
    pub fn below(&mut self, n: u64) -> u64 {
        let red = |v: u64| if n == 0 { v } else { v % n };
        let v = if self.pos < self.tape.len() {
            red(self.tape[self.pos])
        } else if let Some(ref mut rng) = self.rng {
            if self.tape.len() >= MAX_TAPE {
                0
            } else {
                let v = red(rng.next());
                self.tape.push(v);
                v
            }
        } else {
            0
        };
        self.pos += 1;
        v
    }
    /// True with probability num/den; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn coin(&mut self) -> bool { self.chance(1, 2) }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        debug_assert!(lo <= hi);
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    pub fn u64(&mut self) -> u64 { self.below(0) }
    pub fn byte(&mut self) -> u8 { self.below(256) as u8 }

    /// A small length, at most `max`, mostly short.
    pub fn len(&mut self, max: usize) -> usize {
        if max == 0 { return 0; }
        let m = match self.below(8) {
            0..=3 => max.min(3),
            4..=5 => max.min(8),
            6 => max.min(4 + self.size / 2),
            _ => max.min(4 + self.size * 2),
        };
        self.below(m as u64 + 1) as usize
    }

    /// Log-uniform in `1..=max`.
    pub fn log(&mut self, max: usize) -> usize {
        let mut bits = 1;
        while max >> bits > 0 { bits += 1; }
        let b = 1 + self.below(bits);
        let hi = if b >= 63 { usize::MAX } else { (1usize << b) - 1 };
        self.range((1 << (b - 1)).min(max), hi.min(max))
    }
    /// A length of a large blob.
    pub fn large(&mut self) -> usize {
        match self.below(3) {
            0 => {
                // around a power of two, where buffers end
                let b = 12 + self.below(6);
                (1usize << b) - 2 + self.below(5) as usize
            }
            1 => *self.pick(&[8191, 8192, 8193, 10_000, 32_767, 32_768, 65_535, 65_536, 65_537, 100_000]),
            _ => self.log(150_000),
        }
    }

    /// An integer of at most `bits` bits with interesting magnitudes.
    pub fn uint(&mut self, bits: u32) -> u64 {
        let mask = if bits >= 64 { !0u64 } else { (1u64 << bits) - 1 };
        let v = match self.below(6) {
            0 => self.below(4),
            1 => self.below(256),
            2 => {
                // around a power of two
                let b = self.below(bits as u64) as u32;
                let p = 1u64 << b;
                let d = self.below(5);
                p.wrapping_add(d).wrapping_sub(2)
            }
            3 => {
                // around the maximum
                let d = self.below(4);
                mask - (d & mask)
            }
            4 => {
                // random width
                let w = 1 + self.below(bits as u64) as u32;
                let v = self.u64();
                if w >= 64 { v } else { v & ((1u64 << w) - 1) }
            }
            _ => self.u64(),
        };
        v & mask
    }

    pub fn bytes(&mut self, max: usize) -> Vec<u8> {
        if self.big > 0 && max >= 20 && self.take_big() { let n = self.big_len(); return self.bytes_n(n); }
        let n = self.len(max);
        self.bytes_n(n)
    }
    pub fn bytes_n(&mut self, n: usize) -> Vec<u8> {
        if n > 64 {
            // Long runs come from two draws, to keep tapes short.
            let k = self.below(256);
            let m = self.below(4);
            let mut r = Rng::new(k * 7 + m);
            return (0..n).map(|i| match m {
                0 => k as u8,
                1 => (i as u64 + k) as u8,
                _ => r.next() as u8,
            }).collect();
        }
        match if n >= 2 { self.below(10) } else { 0 } {
            // runs, and runs with one exception
            8 => { let b = *self.pick(&[0, 0xFF, b' ', 0x80, 0xC0, 0x40]); vec![b; n] }
            9 => {
                let b = *self.pick(&[0u8, 0xFF]);
                let mut v = vec![b; n];
                let i = if self.coin() { n - 1 } else { self.below(n as u64) as usize };
                v[i] = if self.coin() { b ^ 1 } else { self.byte() };
                v
            }
            _ => (0..n).map(|_| self.byte()).collect(),
        }
    }
    pub fn string(&mut self, max: usize) -> String {
        if self.big > 0 && max >= 20 && self.take_big() {
            // characters of all lengths
            let n = self.big_len();
            let mut r = Rng::new(self.below(1 << 16));
            let mut s = String::with_capacity(n);
            while s.len() + 4 <= n {
                let x = r.next();
                s.push(match x & 3 {
                    0 | 1 => (b'a' + (x >> 8) as u8 % 26) as char,
                    2 => char::from_u32(0x80 + (x >> 8) as u32 % 0x8000).unwrap(),
                    _ => char::from_u32(0x10000 + (x >> 8) as u32 % 0x10000).unwrap(),
                });
            }
            while s.len() < n { s.push('.'); }
            return s;
        }
        let n = self.len(max);
        let mut s = String::new();
        let mode = self.below(4);
        for _ in 0..n {
            let c = match mode {
                0 | 1 => (b'a' + self.below(26) as u8) as char,
                2 => self.chr(),
                _ => (self.below(128) as u8) as char,
            };
            if s.len() + c.len_utf8() > max { break; }
            s.push(c);
        }
        s
    }
    pub fn chr(&mut self) -> char {
        match self.below(6) {
            0 => (b'a' + self.below(26) as u8) as char,
            1 => char::from_u32(self.below(128) as u32).unwrap(),
            2 => char::from_u32(0x80 + self.below(0x780) as u32).unwrap(),
            3 => *self.pick(&['\u{0}', '\u{7F}', '\u{80}', '\u{7FF}', '\u{800}', '\u{D7FF}', '\u{E000}',
                              '\u{FFFF}', '\u{10000}', '\u{10FFFF}', '\u{FEFF}', '\u{FFFD}', '\u{FFFE}',
                              '\u{2028}', '\u{85}', '\u{A0}', '\u{301}', '\u{200D}', '\n', '\r', ' ', '\t', '\\', '"']),
            4 => char::from_u32(0x800 + self.below(0xD000) as u32).unwrap(),
            _ => char::from_u32(0x10000 + self.below(0x100000) as u32).unwrap(),
        }
    }
    /// A permutation of 0..n, identity when shrunk.
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in 0..n {
            let j = i + self.below((n - i) as u64) as usize;
            v.swap(i, j);
        }
        v
    }
}

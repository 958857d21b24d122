//! One bit per codepoint, remembering which words were touched.
pub const WORDS: usize = 0x11_0000 / 64;

pub struct Bits {
    w: Vec<u64>,
    lo: usize,
    hi: usize,
}

impl Default for Bits {
    fn default() -> Bits {
        Bits::new()
    }
}

impl Bits {
    pub fn new() -> Bits {
        Bits { w: vec![0; WORDS], lo: WORDS, hi: 0 }
    }
    pub fn clear(&mut self) {
        if self.lo < self.hi {
            self.w[self.lo..self.hi].fill(0);
        }
        self.lo = WORDS;
        self.hi = 0;
    }
    fn touch(&mut self, a: usize, b: usize) {
        self.lo = self.lo.min(a);
        self.hi = self.hi.max(b + 1);
    }
    pub fn set(&mut self, cp: u32) {
        let i = (cp / 64) as usize;
        self.w[i] |= 1 << (cp % 64);
        self.touch(i, i);
    }
    pub fn unset(&mut self, cp: u32) {
        let i = (cp / 64) as usize;
        self.w[i] &= !(1 << (cp % 64));
    }
    pub fn get(&self, cp: u32) -> bool {
        self.w[(cp / 64) as usize] >> (cp % 64) & 1 != 0
    }
    /// Set `lo..=hi`.
    pub fn fill(&mut self, lo: u32, hi: u32) {
        let (a, b) = ((lo / 64) as usize, (hi / 64) as usize);
        self.touch(a, b);
        let first = !0u64 << (lo % 64);
        let last = !0u64 >> (63 - hi % 64);
        if a == b {
            self.w[a] |= first & last;
        } else {
            self.w[a] |= first;
            for x in &mut self.w[a + 1..b] {
                *x = !0;
            }
            self.w[b] |= last;
        }
    }
    pub fn count(&self) -> u32 {
        if self.lo >= self.hi {
            return 0;
        }
        self.w[self.lo..self.hi].iter().map(|w| w.count_ones()).sum()
    }
    /// First codepoint on which the two disagree.
    pub fn first_difference(&self, other: &Bits) -> Option<u32> {
        let (lo, hi) = (self.lo.min(other.lo), self.hi.max(other.hi));
        if lo >= hi || self.w[lo..hi] == other.w[lo..hi] {
            return None;
        }
        for i in lo..hi {
            let d = self.w[i] ^ other.w[i];
            if d != 0 {
                return Some(i as u32 * 64 + d.trailing_zeros());
            }
        }
        None
    }
    /// Canonical intervals, bit by bit within mixed words.
    pub fn intervals(&self) -> Vec<(u32, u32)> {
        let mut out = Vec::new();
        let mut open: Option<u32> = None;
        for i in self.lo..self.hi.max(self.lo) {
            let w = self.w[i];
            let base = i as u32 * 64;
            if w == 0 {
                if let Some(s) = open.take() {
                    out.push((s, base - 1));
                }
            } else if w == !0 {
                open.get_or_insert(base);
            } else {
                for b in 0..64 {
                    if w >> b & 1 != 0 {
                        open.get_or_insert(base + b);
                    } else if let Some(s) = open.take() {
                        out.push((s, base + b - 1));
                    }
                }
            }
        }
        if let Some(s) = open {
            out.push((s, self.hi as u32 * 64 - 1));
        }
        out
    }
    pub fn flat(&self) -> Vec<u32> {
        let mut out = Vec::with_capacity(self.count() as usize);
        for i in self.lo..self.hi.max(self.lo) {
            let mut w = self.w[i];
            while w != 0 {
                out.push(i as u32 * 64 + w.trailing_zeros());
                w &= w - 1;
            }
        }
        out
    }
}

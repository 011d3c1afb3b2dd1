//! A tape of random numbers drawn by proptest; generators read it left to right. An exhausted
//! tape yields zeros, and smaller numbers mean simpler choices, so shrinking the tape (which
//! proptest does) shrinks the case.
pub struct Tape<'a> {
    d: &'a [u32],
    pos: usize,
}

impl<'a> Tape<'a> {
    pub fn new(d: &'a [u32]) -> Self {
        Tape { d, pos: 0 }
    }
    pub fn raw(&mut self) -> u32 {
        let v = self.d.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        v
    }
    pub fn raw64(&mut self) -> u64 {
        ((self.raw() as u64) << 32) | self.raw() as u64
    }
    /// Whether only zeros are left.
    pub fn done(&self) -> bool {
        self.pos >= self.d.len()
    }
    /// 0..n (monotone in the tape)
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        ((self.raw() as u64 * n as u64) >> 32) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability pct/100; a zero tape says false
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) >= 100 - pct.min(100)
    }
    /// true n times in ten thousand
    pub fn rare(&mut self, n: usize) -> bool {
        self.below(10_000) >= 10_000 - n
    }
    pub fn pick<'b, T>(&mut self, v: &'b [T]) -> &'b T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        // a zero tape leaves the order alone
        for i in 0..v.len().saturating_sub(1) {
            let j = i + self.below(v.len() - i);
            v.swap(i, j);
        }
    }
}

//! Choice tape: every random decision of a case is read from a byte string, so a
//! failing case is a byte string that can be shrunk, stored and replayed exactly.
pub struct Tape<'a> {
    b: &'a [u8],
    pos: usize,
    pub trace: Vec<String>,
    pub nontrivial: bool,
}
impl<'a> Tape<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Tape { b, pos: 0, trace: vec![], nontrivial: false }
    }
    pub fn done(&self) -> bool {
        self.pos >= self.b.len()
    }
    pub fn u8(&mut self) -> u8 {
        let r = self.b.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        r
    }
    pub fn u64(&mut self) -> u64 {
        let mut x = 0u64;
        for _ in 0..8 {
            x = (x << 8) | self.u8() as u64;
        }
        x
    }
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        if n <= 256 {
            self.u8() as usize * n / 256
        } else {
            ((self.u8() as usize) << 8 | self.u8() as usize) % n
        }
    }
    pub fn pct(&mut self, p: usize) -> bool {
        // zero byte = false, so that shrinking simplifies
        (self.u8() as usize) * 100 / 256 >= 100 - p
    }
    pub fn pick<'b, T>(&mut self, v: &'b [T]) -> &'b T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    pub fn log(&mut self, s: impl Into<String>) {
        if self.trace.len() < 400 {
            self.trace.push(s.into());
        }
    }
}
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    let s = s.trim();
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

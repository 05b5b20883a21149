//! Small helpers: random numbers, the byte pattern of a tag, divergences.
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn peek(&self) -> u64 {
        self.0 >> 17
    }
    /// 0..n-1
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

const PRIME: usize = 65521;
const TAGS: usize = 251;

/// Nonzero bytes; at every position the tags 1..250 have different bytes, and
/// the bytes of one tag at different positions are unrelated.
pub struct Pattern(Vec<Vec<u8>>);
impl Pattern {
    pub fn new() -> Pattern {
        let mut r = Rng::new(77);
        let h: Vec<usize> = (0..PRIME).map(|_| (r.next() % TAGS as u64) as usize).collect();
        Pattern((0..TAGS).map(|t| h.iter().map(|x| 1 + ((x + t) % TAGS) as u8).collect()).collect())
    }
    fn slice(&self, tag: i64, pos: u64, max: u64) -> &[u8] {
        let o = (pos % PRIME as u64) as usize;
        &self.0[tag as usize % TAGS][o..o + max.min((PRIME - o) as u64) as usize]
    }
    /// the bytes of `tag` from `pos` on (0: zeros)
    pub fn fill(&self, tag: i64, mut pos: u64, mut buf: &mut [u8]) {
        if tag == 0 {
            return buf.fill(0);
        }
        while !buf.is_empty() {
            let s = self.slice(tag, pos, buf.len() as u64);
            let (a, b) = buf.split_at_mut(s.len());
            a.copy_from_slice(s);
            pos = pos.wrapping_add(s.len() as u64);
            buf = b;
        }
    }
    /// first position where buf differs from the bytes of `tag` (0: zeros)
    pub fn check(&self, tag: i64, pos: u64, buf: &[u8]) -> Option<u64> {
        if tag == 0 {
            static Z: [u8; 4096] = [0; 4096];
            let mut i = 0;
            for c in buf.chunks(4096) {
                if c != &Z[..c.len()] {
                    let k = c.iter().position(|x| *x != 0).unwrap();
                    return Some(pos.wrapping_add((i + k) as u64));
                }
                i += c.len();
            }
            return None;
        }
        let mut i = 0usize;
        while i < buf.len() {
            let s = self.slice(tag, pos.wrapping_add(i as u64), (buf.len() - i) as u64);
            let b = &buf[i..i + s.len()];
            if b != s {
                let k = b.iter().zip(s).position(|(x, y)| x != y).unwrap();
                return Some(pos.wrapping_add((i + k) as u64));
            }
            i += s.len();
        }
        None
    }
}

/// A difference between the specification and the code.
#[derive(Clone, Debug)]
pub struct Diff {
    pub class: String,
    pub detail: String,
}
pub type Check = Result<(), Diff>;
pub fn diff<T>(class: impl Into<String>, detail: impl Into<String>) -> Result<T, Diff> {
    Err(Diff { class: class.into(), detail: detail.into() })
}

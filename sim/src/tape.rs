//! The single source of choice.  Every decision of a simulated run - the
//! generated scripts and messages, the configuration knobs, which delivery runs
//! next, delays, faults, host answers - is drawn from one `Tape`.  In search
//! mode values come from a PRNG seeded with (VERIF_SEED, profile, run index) and
//! are recorded; in replay mode they are read back.  A tape that ends early
//! yields zeros, and zero always means "the simplest choice", which is what
//! makes the minimiser work on the tape alone.

#[derive(Clone)]
pub struct Tape {
    s: [u64; 4],
    pub rec: Vec<u32>,
    replay: Option<Vec<u32>>,
    pos: usize,
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Tape {
    pub fn fresh(seed: u64, salt: &str, run: u64) -> Self {
        let mut h = seed ^ 0xA076_1D64_78BD_642F;
        for b in salt.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            splitmix(&mut h);
        }
        h ^= run.wrapping_mul(0xD6E8FEB86659FD93);
        let mut x = h;
        Tape {
            s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)],
            rec: Vec::with_capacity(512),
            replay: None,
            pos: 0,
        }
    }

    pub fn replay(values: Vec<u32>) -> Self {
        Tape { s: [1, 2, 3, 4], rec: Vec::with_capacity(values.len()), replay: Some(values), pos: 0 }
    }

    fn next_u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    /// Uniform in 0..n (n >= 1).
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n >= 1);
        let n = n.max(1);
        let v = match &self.replay {
            Some(r) => {
                let v = r.get(self.pos).copied().unwrap_or(0) as usize % n;
                self.pos += 1;
                v
            }
            None => ((self.next_u64() >> 33) as usize) % n,
        };
        self.rec.push(v as u32);
        v
    }

    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    /// true with probability num/den; zero on the tape is always false.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        if num == 0 {
            return false;
        }
        self.below(den) + num >= den
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.below(items.len());
        &items[i]
    }

    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u32 = weights.iter().sum();
        if total == 0 {
            return 0;
        }
        let mut v = self.below(total as usize) as u32;
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        0
    }
}

//! The choice tape: every decision of a simulated run (workload, arrival
//! schedule, faults, thread scheduling) is one draw from it.  A run is a pure
//! function of its tape; an exhausted tape yields 0, the simplest choice.

#[derive(Clone, Copy)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
}

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix2(a: u64, b: u64) -> u64 {
    mix(a.rotate_left(23) ^ mix(b.wrapping_add(0x9E37_79B9_7F4A_7C15)))
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

const MAX: usize = 40_000;

pub struct Tape {
    pub rec: Vec<u32>,
    rng: Option<Rng>,
    fixed: Vec<u32>,
    /// Where to write draws as they are made (to find out what a run that
    /// kills its process was doing).
    pub sink: Option<std::fs::File>,
}

impl Tape {
    pub fn random(seed: u64) -> Tape {
        Tape {
            rec: Vec::new(),
            rng: Some(Rng::new(seed)),
            fixed: Vec::new(),
            sink: None,
        }
    }
    pub fn fixed(v: Vec<u32>) -> Tape {
        Tape {
            rec: Vec::new(),
            rng: None,
            fixed: v,
            sink: None,
        }
    }
    /// Uniform in 0..n; 0 is the simplest choice.
    pub fn draw(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let i = self.rec.len();
        if i >= MAX {
            return 0;
        }
        let v = match self.rng {
            Some(ref mut r) => (r.next() % n as u64) as u32,
            None => self.fixed.get(i).map_or(0, |v| v % n),
        };
        self.rec.push(v);
        if let Some(f) = &mut self.sink {
            use std::io::Write;
            let _ = write!(f, "{},", v);
        }
        v
    }
    /// True with probability `pct` percent; false is simplest.
    pub fn chance(&mut self, pct: u32) -> bool {
        if pct == 0 {
            return false;
        }
        if pct >= 100 {
            return true;
        }
        self.draw(100) >= 100 - pct
    }
    /// Inclusive range; lo is simplest.
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.draw(hi - lo + 1)
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u32) as usize
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let sum: u32 = w.iter().sum();
        let mut v = self.draw(sum.max(1));
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        0
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

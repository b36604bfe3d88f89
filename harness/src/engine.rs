//! Choice sequences: every random decision of a generated case is drawn from a
//! `Src`, recorded, and can be replayed and shrunk.

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0xD6E8_FEB8_6659_FD93) ^ b.rotate_left(23));
    r.next() ^ Rng::new(b).next()
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

pub struct Src {
    rng: Option<Rng>,
    pub choices: Vec<u32>,
    /// the number of alternatives of each choice (guided cases only)
    pub bounds: Vec<u32>,
    /// choices to make before random ones
    prefix: Option<Vec<u32>>,
    pos: usize,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { rng: Some(Rng::new(seed)), choices: Vec::new(), bounds: Vec::new(), prefix: None, pos: 0 }
    }
    pub fn replay(choices: Vec<u32>) -> Src {
        Src { rng: None, choices, bounds: Vec::new(), prefix: None, pos: 0 }
    }
    /// The choices of `prefix`, then random ones; all of them are recorded.
    pub fn guided(prefix: Vec<u32>, seed: u64) -> Src {
        Src { rng: Some(Rng::new(seed)), choices: Vec::new(), bounds: Vec::new(), prefix: Some(prefix), pos: 0 }
    }
    /// A value in `0..n`; 0 is the simplest.
    pub fn below(&mut self, n: u32) -> u32 {
        debug_assert!(n > 0);
        if let Some(p) = &self.prefix {
            let v = match p.get(self.pos) {
                Some(&v) if v < n => v,
                Some(&v) => v % n,
                None => {
                    let r = self.rng.as_mut().unwrap();
                    ((r.next() >> 32).wrapping_mul(n as u64) >> 32) as u32
                }
            };
            self.choices.push(v);
            self.bounds.push(n);
            self.pos += 1;
            return v;
        }
        match &mut self.rng {
            Some(r) => {
                let v = ((r.next() >> 32).wrapping_mul(n as u64) >> 32) as u32;
                self.choices.push(v);
                self.pos += 1;
                v
            }
            None => {
                let v = self.choices.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(n - 1)
            }
        }
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u32) as usize
    }
    /// True with probability num/den; false is the simplest.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.below(den) >= den - num
    }
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.below(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }
    /// Small length: geometric-ish, at most `max`.
    pub fn len(&mut self, max: usize) -> usize {
        let mut n = 0;
        while n < max && self.below(5) >= 3 {
            n += 1;
        }
        n
    }
    pub fn used(&self) -> usize {
        self.pos
    }
}

/// Shrinks a failing choice sequence. `fails` must be deterministic.
pub fn shrink(start: Vec<u32>, mut budget: usize, fails: &mut dyn FnMut(&[u32]) -> bool) -> Vec<u32> {
    let mut best = start;
    let mut try_it = |cand: Vec<u32>, best: &mut Vec<u32>, budget: &mut usize| -> bool {
        if *budget == 0 || cand == *best {
            return false;
        }
        *budget -= 1;
        if fails(&cand) {
            *best = cand;
            true
        } else {
            false
        }
    };
    loop {
        let before = best.clone();
        // trim the end
        while !best.is_empty() {
            let mut c = best.clone();
            let k = (c.len() / 2).max(1);
            c.truncate(c.len() - k);
            if !try_it(c, &mut best, &mut budget) {
                break;
            }
        }
        // delete chunks
        let mut size = 64usize;
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if !try_it(c, &mut best, &mut budget) {
                    i += size.max(1);
                }
                if budget == 0 {
                    return best;
                }
            }
            size /= 2;
        }
        // zero blocks
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..e] {
                        *x = 0;
                    }
                    try_it(c, &mut best, &mut budget);
                }
                i += size;
            }
        }
        // lower single values
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            let v = best[i];
            for cand in [v / 2, v.saturating_sub(1)] {
                if cand < best[i] {
                    let mut c = best.clone();
                    c[i] = cand;
                    try_it(c, &mut best, &mut budget);
                }
            }
            // lower and delete what follows
            if v > 0 {
                for d in 1..4usize {
                    if i + 1 + d <= best.len() && best[i] > 0 {
                        let mut c = best.clone();
                        c[i] -= 1;
                        c.drain(i + 1..i + 1 + d);
                        try_it(c, &mut best, &mut budget);
                    }
                }
            }
        }
        if budget == 0 || best == before {
            return best;
        }
    }
}

//! Coverage-guided search over choice sequences: cases that ran through code, or
//! came nearer to a comparison, in a way no case before did are kept, and their
//! choices varied. The cases are judged exactly as the random ones are.

use crate::engine::{Rng, Src};
use crate::{checks, cov};

#[derive(Clone)]
pub struct Member {
    pub index: u64,
    pub choices: Vec<u32>,
    pub bounds: Vec<u32>,
}

pub struct Search {
    pub pool: Vec<Member>,
    /// per feature: the member that shows it best, how often it was met
    best: Vec<u32>,
    met: Vec<u32>,
    known: Vec<u32>,
    /// the rarest: of places in the code, of comparisons
    rare: [Vec<u32>; 2],
    next_sort: u64,
    pub runs: u64,
    touched: Vec<u32>,
}

/// How one case is to be made: everything needed to make it again.
pub struct Recipe {
    pub index: u64,
    pub prefix: Vec<u32>,
    pub seed: u64,
}

impl Search {
    pub fn new() -> Search {
        let n = cov::size();
        Search { pool: vec![], best: vec![u32::MAX; n], met: vec![0; n], known: vec![], rare: [vec![], vec![]], next_sort: 0, runs: 0, touched: vec![] }
    }
    pub fn features(&self) -> usize {
        self.known.len()
    }

    fn pick(&mut self, r: &mut Rng) -> usize {
        if self.runs >= self.next_sort {
            let met = &self.met;
            for (k, list) in self.rare.iter_mut().enumerate() {
                *list = self.known.iter().copied().filter(|&f| cov::is_place(f) == (k == 0)).collect();
                list.sort_by_key(|&f| met[f as usize]);
                list.truncate(if k == 0 { 200 } else { 400 });
            }
            self.next_sort = self.runs + 300 + self.runs / 8;
        }
        let below = |r: &mut Rng, n: usize| (r.next() % n as u64) as usize;
        match r.next() % 8 {
            // one of those that show what few cases show
            x @ 0..=3 if !self.rare[(x == 3) as usize].is_empty() => {
                let list = &self.rare[(x == 3) as usize];
                let k = below(r, list.len()).min(below(r, list.len()));
                self.best[list[k] as usize] as usize
            }
            // one of the newest
            4 | 5 => {
                let n = self.pool.len();
                n - 1 - below(r, n.min(50))
            }
            6 if !self.known.is_empty() => self.best[self.known[below(r, self.known.len())] as usize] as usize,
            _ => below(r, self.pool.len()),
        }
    }

    pub fn recipe(&mut self, r: &mut Rng, fresh: bool, index: impl Fn(&mut Rng) -> u64) -> Recipe {
        if fresh || self.pool.is_empty() {
            return Recipe { index: index(r), prefix: vec![], seed: r.next() };
        }
        let m = self.pick(r);
        let index = self.pool[m].index;
        let mut c = self.pool[m].choices.clone();
        let mut b = self.pool[m].bounds.clone();
        let n = 1 + (r.next() % 4).min(r.next() % 6);
        for _ in 0..n {
            if c.is_empty() {
                break;
            }
            let at = (r.next() % c.len() as u64) as usize;
            let span = 1 + (r.next() % 4 * (r.next() % 6)) as usize;
            let end = (at + span).min(c.len());
            match r.next() % 16 {
                0..=4 => c[at] = (r.next() % b[at].max(1) as u64) as u32,
                5 => c[at] = if r.next() % 2 == 0 { 0 } else { b[at] - 1 },
                6 => c[at] = (c[at] + if r.next() % 2 == 0 { 1 } else { b[at] - 1 }) % b[at].max(1),
                7 | 8 => {
                    c.drain(at..end);
                    b.drain(at..end);
                }
                9 | 10 => {
                    let (x, y) = (c[at..end].to_vec(), b[at..end].to_vec());
                    let to = if r.next() % 2 == 0 { end } else { (r.next() % (c.len() as u64 + 1)) as usize };
                    c.splice(to..to, x);
                    b.splice(to..to, y);
                }
                11 => {
                    // all anew in a stretch
                    for k in at..end {
                        c[k] = (r.next() % b[k].max(1) as u64) as u32;
                    }
                }
                12 => {
                    c.truncate(at);
                    b.truncate(at);
                }
                13 | 14 => {
                    // a stretch of another member, from where the alternatives are the same
                    let o = self.pick(r);
                    let o = &self.pool[o];
                    if o.choices.is_empty() {
                        continue;
                    }
                    let from = (r.next() % o.choices.len() as u64) as usize;
                    let fit = (from..o.choices.len()).chain(0..from).find(|&k| o.bounds[k] == b[at]).unwrap_or(from);
                    let len = 1 + (r.next() % 40) as usize;
                    let to = (fit + len).min(o.choices.len());
                    let keep = if r.next() % 2 == 0 { at } else { (at + len).min(c.len()) };
                    c.splice(at..keep, o.choices[fit..to].iter().copied());
                    b.splice(at..keep, o.bounds[fit..to].iter().copied());
                }
                _ => {
                    // the rest as in another member
                    let o = self.pick(r);
                    let o = &self.pool[o];
                    let k = at.min(o.choices.len());
                    c.truncate(at);
                    b.truncate(at);
                    c.extend_from_slice(&o.choices[k..]);
                    b.extend_from_slice(&o.bounds[k..]);
                }
            }
        }
        Recipe { index, prefix: c, seed: r.next() }
    }

    pub fn run(&mut self, p: &str, recipe: &Recipe, run_case: impl Fn(&str, u64, &mut Src) -> checks::Cx) -> (checks::Cx, Src) {
        let mut s = Src::guided(recipe.prefix.clone(), recipe.seed);
        cov::begin();
        let cx = run_case(p, recipe.index, &mut s);
        cov::end(&mut self.touched);
        self.runs += 1;
        // long sequences are slow and hard to vary
        if s.choices.len() > 4000 {
            return (cx, s);
        }
        let new = self.pool.len() as u32;
        let mut keep = false;
        for &f in &self.touched {
            let k = f as usize;
            self.met[k] = self.met[k].saturating_add(1);
            let b = self.best[k];
            if b == u32::MAX {
                self.known.push(f);
                self.best[k] = new;
                keep = true;
            } else if b != new && self.pool[b as usize].choices.len() > 20 + 2 * s.choices.len() && self.met[k] < 10_000 {
                // the same, shown by a much simpler case
                self.best[k] = new;
                keep = true;
            }
        }
        if keep {
            self.pool.push(Member { index: recipe.index, choices: s.choices.clone(), bounds: s.bounds.clone() });
        }
        (cx, s)
    }
}

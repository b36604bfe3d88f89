//! Words, characters and numbers that occur as literals in the code under
//! test. They only steer the generators towards values the code treats
//! specially; what a text means is never decided here.

use crate::engine::Src;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    pub words: Vec<String>,
    pub numbers: Vec<u64>,
    /// numbers that can be the length of something, and their neighbours
    pub sizes: Vec<u32>,
    /// the part of each that is not in `known_words.txt`: a change brought it
    /// into the code, so it is tried far more often
    pub new_words: Vec<String>,
    pub new_numbers: Vec<u64>,
    pub new_sizes: Vec<u32>,
}

/// Words and numbers of the code as it was when the harness was written.
const KNOWN: &str = include_str!("known_words.txt");

impl Dict {
    pub fn anything_new(&self) -> bool {
        !(self.new_words.is_empty() && self.new_numbers.is_empty())
    }
    pub fn word(&self, s: &mut Src) -> String {
        let l = if !self.new_words.is_empty() && s.chance(1, 2) { &self.new_words } else { &self.words };
        s.pick(l).clone()
    }
    pub fn number(&self, s: &mut Src) -> u64 {
        let l = if !self.new_numbers.is_empty() && s.chance(1, 2) { &self.new_numbers } else { &self.numbers };
        *s.pick(l)
    }
    pub fn size(&self, s: &mut Src) -> usize {
        let l = if !self.new_sizes.is_empty() && s.chance(1, 2) { &self.new_sizes } else { &self.sizes };
        *s.pick(l) as usize
    }
    /// The list, as written to `known_words.txt`.
    pub fn dump(&self) -> String {
        let mut o = String::new();
        for w in &self.words {
            o.push_str(&format!("w {:?}\n", w));
        }
        for n in &self.numbers {
            o.push_str(&format!("n {}\n", n));
        }
        o
    }
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut files = vec![];
        walk(std::path::Path::new(concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/src")), &mut files, 0);
        files.sort();
        let mut d = Dict::default();
        for f in files {
            if let Ok(s) = std::fs::read_to_string(&f) {
                // tests come last in a file
                let s = s.split("#[cfg(test)]").next().unwrap_or("");
                mine(s, &mut d);
            }
        }
        d.words.sort();
        d.words.dedup();
        d.numbers.sort();
        d.numbers.dedup();
        let known: std::collections::HashSet<&str> = KNOWN.lines().collect();
        d.new_words = d.words.iter().filter(|w| !known.contains(format!("w {:?}", w).as_str())).cloned().collect();
        d.new_numbers = d.numbers.iter().filter(|n| !known.contains(format!("n {}", n).as_str())).cloned().collect();
        fn sizes(of: &[u64]) -> Vec<u32> {
            let mut v = vec![];
            for &n in of {
                for m in [n.saturating_sub(1), n, n.saturating_add(1)] {
                    if (6..=5000).contains(&m) {
                        v.push(m as u32);
                    }
                }
            }
            v.sort();
            v.dedup();
            v
        }
        d.sizes = sizes(&d.numbers);
        d.new_sizes = sizes(&d.new_numbers);
        // never empty
        if d.words.is_empty() {
            d.words.push("x".into());
        }
        if d.numbers.is_empty() {
            d.numbers.push(1);
        }
        if d.sizes.is_empty() {
            d.sizes.push(8);
        }
        d
    })
}

fn walk(p: &std::path::Path, out: &mut Vec<std::path::PathBuf>, depth: usize) {
    let Ok(rd) = std::fs::read_dir(p) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() && depth < 6 {
            walk(&p, out, depth + 1);
        } else if p.extension().map_or(false, |x| x == "rs") {
            out.push(p);
        }
    }
}

fn mine(s: &str, d: &mut Dict) {
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == '/' && b.get(i + 1) == Some(&'/') {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && b.get(i + 1) == Some(&'*') {
            while i + 1 < b.len() && !(b[i] == '*' && b[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if c == '"' {
            let mut w = String::new();
            i += 1;
            while i < b.len() && b[i] != '"' {
                if b[i] == '\\' {
                    i += 1;
                    match b.get(i) {
                        Some('n') => w.push('\n'),
                        Some('t') => w.push('\t'),
                        Some('r') => w.push('\r'),
                        Some('u') => {
                            let h: String = b[i + 1..].iter().skip(1).take_while(|c| **c != '}').collect();
                            if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                                w.push(c);
                            }
                            i += h.len() + 2;
                        }
                        Some(&c) => w.push(c),
                        None => {}
                    }
                    i += 1;
                } else {
                    w.push(b[i]);
                    i += 1;
                }
            }
            i += 1;
            let n = w.chars().count();
            if (1..=100).contains(&n) {
                d.words.push(w);
            }
        } else if c == '\'' {
            // a character literal or a lifetime
            if b.get(i + 1) == Some(&'\\') {
                let mut j = i + 2;
                if b.get(j) == Some(&'u') {
                    let h: String = b[j + 1..].iter().skip(1).take_while(|c| **c != '}').collect();
                    if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                        d.words.push(c.to_string());
                    }
                    j += h.len() + 2;
                }
                i = j + 2;
            } else if b.get(i + 2) == Some(&'\'') {
                d.words.push(b[i + 1].to_string());
                i += 3;
            } else {
                i += 1;
            }
        } else if c.is_ascii_digit() {
            let mut w = String::new();
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                w.push(b[i]);
                i += 1;
            }
            let w: String = w.chars().filter(|c| *c != '_').collect();
            let v = if let Some(h) = w.strip_prefix("0x") {
                let h: String = h.chars().take_while(|c| c.is_ascii_hexdigit()).collect();
                u64::from_str_radix(&h, 16).ok()
            } else {
                let h: String = w.chars().take_while(|c| c.is_ascii_digit()).collect();
                h.parse().ok()
            };
            if let Some(v) = v {
                d.numbers.push(v);
                // also a character
                if let Some(c) = u32::try_from(v).ok().and_then(char::from_u32).filter(|c| *c as u32 > 0x7f) {
                    d.words.push(c.to_string());
                }
            }
        } else if c.is_alphabetic() || c == '_' {
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
}

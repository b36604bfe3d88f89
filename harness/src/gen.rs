//! Grammar-directed generator: emits the tokens of well-formed SPARQL 1.1
//! texts from a choice sequence. It builds no trees; what a text means is
//! decided by the independent reference parser.

use crate::engine::Src;
use crate::dict::dict;
use crate::lex;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    Kw,
    A,
    Iri,
    Pname,
    Bnode,
    Var,
    Lang,
    Num,
    Str,
    P,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub k: K,
    pub s: String,
}

pub struct G<'a> {
    pub s: &'a mut Src,
    pub out: Vec<Tok>,
    pub fuel: i32,
    /// how many long lists may still be made
    pub long: u32,
    pub deep: u32,
    flat: bool,
    eager: bool,
    /// what the parts written so far are, and where
    parts: Vec<(&'static str, bool, u32, u32)>,
    /// labels of what the case contains, for the evidence
    pub labels: Vec<&'static str>,
}

pub const ONE_ARG: &[&str] = &[
    "STR", "LANG", "DATATYPE", "IRI", "URI", "ABS", "CEIL", "FLOOR", "ROUND", "STRLEN", "UCASE", "LCASE",
    "ENCODE_FOR_URI", "YEAR", "MONTH", "DAY", "HOURS", "MINUTES", "SECONDS", "TIMEZONE", "TZ", "MD5", "SHA1",
    "SHA256", "SHA384", "SHA512", "ISIRI", "ISURI", "ISBLANK", "ISLITERAL", "ISNUMERIC",
];
pub const TWO_ARG: &[&str] = &[
    "LANGMATCHES", "CONTAINS", "STRSTARTS", "STRENDS", "STRBEFORE", "STRAFTER", "STRLANG", "STRDT", "SAMETERM",
];
pub const NO_ARG: &[&str] = &["RAND", "NOW", "UUID", "STRUUID"];
pub const AGG: &[&str] = &["COUNT", "SUM", "MIN", "MAX", "AVG", "SAMPLE", "GROUP_CONCAT"];
pub const WELL_KNOWN: &[(&str, &str, &[&str])] = &[
    ("xsd", "http://www.w3.org/2001/XMLSchema#", &["boolean", "integer", "decimal", "double", "float", "string", "dateTime", "date", "int", "long", "nonNegativeInteger", "anyURI", "dayTimeDuration"]),
    ("rdf", "http://www.w3.org/1999/02/22-rdf-syntax-ns#", &["type", "first", "rest", "nil", "langString", "XMLLiteral", "HTML", "subject", "value", "_1"]),
    ("rdfs", "http://www.w3.org/2000/01/rdf-schema#", &["label", "comment", "subClassOf", "seeAlso", "Class", "domain"]),
    ("owl", "http://www.w3.org/2002/07/owl#", &["sameAs", "Thing", "Class"]),
    ("foaf", "http://xmlns.com/foaf/0.1/", &["name", "knows", "mbox", "Person"]),
    ("fn", "http://www.w3.org/2005/xpath-functions#", &["concat", "contains", "count", "string-length", "not"]),
    ("dc", "http://purl.org/dc/elements/1.1/", &["title", "date"]),
];
pub const VALUES: &[&str] = &[
    "true", "false", "1", "0", "-5", "+7", "42", "1.5", "-0.5", "1e3", "1.0E-2", "INF", "NaN", "2020-01-01", "2020-01-01T00:00:00Z", "", "abc", "TRUE",
    " 1", "P1D", "http://x", "en",
];
pub const OTHER: &[&str] =
    &["BOUND", "BNODE", "CONCAT", "SUBSTR", "REPLACE", "COALESCE", "IF", "REGEX", "EXISTS", "NOT"];

impl<'a> G<'a> {
    pub fn new(s: &'a mut Src, fuel: i32) -> G<'a> {
        // now and then all lists are of like length, or every optional part is
        // as likely as not, so that several of them meet in one text
        let (flat, eager) = match s.below(10) {
            7 => (true, false),
            8 => (false, true),
            9 => (true, true),
            _ => (false, false),
        };
        let fuel = if flat { fuel.min(*s.pick(&[2, 6, 12])) } else { fuel };
        let mut g = G { s, out: Vec::new(), fuel, long: 1, deep: 1, flat, eager, parts: Vec::new(), labels: Vec::new() };
        if flat {
            g.lab("lists of like length");
        }
        if eager {
            g.lab("many optional parts");
        }
        g
    }
    pub fn lab(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    fn t(&mut self, k: K, s: impl Into<String>) {
        self.fuel -= 1;
        self.out.push(Tok { k, s: s.into() });
    }
    pub fn kw(&mut self, s: &str) {
        self.t(K::Kw, s);
    }
    pub fn p(&mut self, s: &str) {
        self.t(K::P, s);
    }
    pub fn one_in(&mut self, n: u32) -> bool {
        if self.eager && self.fuel > -40 {
            return self.s.chance(1, 2);
        }
        self.fuel > 0 && self.s.chance(1, n)
    }
    fn half(&mut self) -> bool {
        self.fuel > 0 && self.s.chance(1, 2)
    }
    /// list length at least `min`
    pub fn count(&mut self, min: usize) -> usize {
        if self.flat && self.fuel > -80 {
            return min + self.s.idx(6);
        }
        if self.fuel <= 0 {
            return min;
        }
        if self.long > 0 && self.s.chance(1, 48) {
            self.long -= 1;
            self.lab("long list");
            // keep the elements of a long list simple
            self.fuel = 0;
            return match self.s.below(48) {
                0..=39 => *self.s.pick(&[7, 10, 17, 33, 65, 130, 260]),
                47 => *self.s.pick(&[300, 520, 1030]),
                _ => {
                    let n = dict().size(self.s);
                    if n > 300 && !self.s.chance(1, 8) {
                        300
                    } else {
                        n
                    }
                }
            };
        }
        min + self.s.len(4)
    }
    /// extra nesting levels
    fn depth(&mut self) -> usize {
        if self.fuel > 0 && self.deep > 0 && self.s.chance(1, 48) {
            self.deep -= 1;
            self.lab("deep nesting");
            self.fuel = self.fuel.min(4);
            return match self.s.below(16) {
                14 => *self.s.pick(&[66, 101, 129]),
                15 => dict().size(self.s).min(130),
                _ => *self.s.pick(&[3, 5, 9, 17, 33, 50]),
            };
        }
        0
    }

    /// Writes an earlier token that satisfies `ok` again, now and then.
    fn reuse(&mut self, ok: impl Fn(&Tok) -> bool) -> bool {
        if self.out.len() < 2 || !self.s.chance(1, 12) {
            return false;
        }
        let c: Vec<usize> = (0..self.out.len()).filter(|&i| ok(&self.out[i])).collect();
        if c.is_empty() {
            return false;
        }
        let i = *self.s.pick(&c);
        let mut t = self.out[i].clone();
        if self.s.chance(1, 4) {
            // the same but for one character
            let mut w: Vec<char> = t.s.chars().collect();
            if let Some(j) = (0..w.len()).rev().find(|&j| w[j].is_ascii_alphabetic()) {
                w[j] = if self.s.chance(1, 2) { (w[j] as u8 ^ 0x20) as char } else { 'k' };
                if (t.k == K::Var || t.k == K::Iri) && !t.s.contains('%') {
                    t.s = w.into_iter().collect();
                }
            }
        }
        self.fuel -= 1;
        self.out.push(t);
        true
    }
    /// A part of the kind named; now and then it is an earlier part of that
    /// kind once more, to the letter or with one term changed.
    fn part(&mut self, kind: &'static str, path: bool, f: impl FnOnce(&mut Self)) {
        if self.parts.len() > 0 && self.s.chance(1, 20) {
            let c: Vec<(u32, u32)> = self.parts.iter().filter(|p| p.0 == kind && p.1 == path).map(|p| (p.2, p.3)).collect();
            if !c.is_empty() {
                let (a, b) = *self.s.pick(&c);
                let start = self.out.len();
                self.copy(a as usize..b as usize);
                self.lab("part repeated");
                if self.s.chance(1, 2) {
                    self.change_term(start);
                }
                return;
            }
        }
        let start = self.out.len();
        f(self);
        let n = self.out.len() - start;
        if n > 0 && n <= 60 && self.parts.len() < 400 {
            self.parts.push((kind, path, start as u32, self.out.len() as u32));
        }
    }
    /// One term of the tokens from `start` on becomes another.
    fn change_term(&mut self, start: usize) {
        let c: Vec<usize> = (start..self.out.len())
            .filter(|&i| matches!(self.out[i].k, K::Var | K::Iri | K::Bnode | K::Str) || self.out[i].k == K::Pname && !self.out[i].s.ends_with(':'))
            .collect();
        if c.is_empty() {
            return;
        }
        let i = *self.s.pick(&c);
        let t = match self.out[i].k {
            K::Var => *self.s.pick(&["?x", "?y", "$x", "?new"]),
            K::Bnode => *self.s.pick(&["_:b", "_:c", "_:new"]),
            K::Str => *self.s.pick(&["'s'", "\"s\"", "''", "'new'"]),
            K::Pname => *self.s.pick(&["a:b", "a:B", ":b", "a:new"]),
            _ => *self.s.pick(&["<>", "<x>", "<X>", "<new>"]),
        };
        self.out[i].s = t.to_string();
    }
    fn copy(&mut self, r: std::ops::Range<usize>) {
        let e = self.out[r].to_vec();
        self.fuel -= e.len() as i32;
        self.out.extend(e);
    }
    /// `n` elements with a separator; now and then one is a copy of another.
    fn list(&mut self, n: usize, sep: &str, mut f: impl FnMut(&mut Self)) {
        let mut last = 0..0;
        for i in 0..n {
            if i > 0 && !sep.is_empty() {
                self.p(sep);
            }
            let start = self.out.len();
            if i > 0 && self.same_range(&last) {
                self.copy(last.clone());
            } else {
                f(self);
            }
            last = start..self.out.len();
        }
    }
    fn same_range(&mut self, r: &std::ops::Range<usize>) -> bool {
        if r.is_empty() || r.len() > 40 || !self.s.chance(1, 12) {
            return false;
        }
        self.lab("element repeated");
        true
    }
    /// True once in `n` times; more often when the code holds new words.
    fn dict_turn(&mut self, n: u32) -> bool {
        let n = if dict().anything_new() { (n / 4).max(3) } else { n };
        self.s.chance(1, n)
    }
    /// A word of the dictionary, now and then in other letters.
    fn dict_word(&mut self) -> String {
        let w = dict().word(self.s);
        match self.s.below(12) {
            8 => w.to_ascii_uppercase(),
            9 => w.to_ascii_lowercase(),
            10 | 11 if !w.is_empty() => {
                // one letter in the other case
                let mut c: Vec<char> = w.chars().collect();
                let k = self.s.idx(c.len());
                if c[k].is_ascii_alphabetic() {
                    c[k] = (c[k] as u8 ^ 0x20) as char;
                }
                c.into_iter().collect()
            }
            _ => w,
        }
    }
    /// A word of the dictionary made of name characters only.
    fn dict_name(&mut self) -> Option<String> {
        let w: String = self.dict_word().chars().filter(|&c| lex::pn_char(c)).take(60).collect();
        let c = w.chars().next()?;
        if lex::pn_base(c) && !w.ends_with('.') {
            Some(w)
        } else {
            None
        }
    }

    // ---- lexical ----------------------------------------------------------

    fn uni_base(&mut self) -> char {
        // ends of the PN_CHARS_BASE ranges and a few in between
        let r = *self.s.pick(lex::PN_BASE_RANGES);
        let c = match self.s.below(4) {
            0 => r.0,
            1 => r.1,
            _ => r.0 + self.s.below(r.1 - r.0 + 1),
        };
        char::from_u32(c).unwrap_or('a')
    }
    fn uni_extra(&mut self) -> char {
        let r = *self.s.pick(lex::PN_EXTRA_RANGES);
        let c = if self.s.chance(1, 2) { r.1 } else { r.0 + self.s.below(r.1 - r.0 + 1) };
        char::from_u32(c).unwrap()
    }
    fn letter(&mut self) -> char {
        *self.s.pick(&['x', 'a', 'b', 'y', 'z', 's', 'e', 'E', 'A', 'Q', 'T', 'f', 'n', 'o'])
    }
    fn name_char(&mut self, var: bool) -> char {
        match self.s.below(16) {
            0..=7 => self.letter(),
            8 | 9 => (b'0' + self.s.below(10) as u8) as char,
            10 => '_',
            11 if !var => '-',
            12 => self.uni_base(),
            13 => self.uni_extra(),
            _ => self.letter(),
        }
    }
    fn name_start(&mut self, under: bool, dig: bool) -> char {
        match self.s.below(12) {
            0..=7 => self.letter(),
            8 if dig => (b'0' + self.s.below(10) as u8) as char,
            9 if under => '_',
            10 => self.uni_base(),
            _ => self.letter(),
        }
    }
    /// A name whose characters are all of one sort.
    fn one_sort(&mut self, first_letter: bool) -> String {
        let n = match self.s.below(4) {
            0 => 1 + self.s.below(3),
            1 | 2 => 3 + self.s.below(7),
            _ => 10 + self.s.below(30),
        } as usize;
        let sort = if first_letter { 3 + self.s.below(5) } else { self.s.below(8) };
        let same = self.uni_base();
        let mut r = String::new();
        for k in 0..n {
            r.push(match sort {
                // often with zeros in front
                0 => if k < n / 2 { '0' } else { (b'0' + self.s.below(10) as u8) as char },
                1 => (b'0' + self.s.below(10) as u8) as char,
                2 => '_',
                3 => (b'A' + self.s.below(26) as u8) as char,
                4 => (b'a' + self.s.below(26) as u8) as char,
                5 => (b'a' + self.s.below(6) as u8) as char,
                6 => same,
                _ => self.uni_base(),
            });
        }
        r
    }
    fn short(&mut self) -> usize {
        match self.s.below(40) {
            38 => {
                let n = dict().size(self.s);
                if n > 400 && !self.s.chance(1, 8) {
                    400
                } else {
                    n
                }
            }
            39 => *self.s.pick(&[12, 31, 64, 65, 127, 128, 255, 256, 300, 1000]),
            x => (x % 5) as usize,
        }
    }
    pub fn name_prefix(&mut self) -> String {
        if self.dict_turn(40) {
            if let Some(w) = self.dict_name() {
                return w;
            }
        }
        if self.s.chance(1, 20) {
            return self.one_sort(true);
        }
        if self.s.chance(1, 5) {
            // names that look like keywords
            return self.wordlike();
        }
        let mut r = String::new();
        r.push(self.name_start(false, false));
        for _ in 0..self.short() {
            if self.s.chance(1, 10) {
                r.push('.');
                if self.s.chance(1, 3) {
                    r.push('.');
                }
                r.push(self.name_char(false));
            } else {
                r.push(self.name_char(false));
            }
        }
        r
    }
    pub fn name_local(&mut self) -> String {
        if self.dict_turn(40) {
            if let Some(w) = self.dict_name() {
                return w;
            }
        }
        if self.s.chance(1, 20) {
            return self.one_sort(false);
        }
        if self.s.chance(1, 8) {
            return self.wordlike();
        }
        let mut r = String::new();
        match self.s.below(10) {
            0 => self.plx(&mut r),
            1 => r.push(':'),
            _ => {
                let c = self.name_start(true, true);
                r.push(c)
            }
        }
        for _ in 0..self.short() {
            match self.s.below(14) {
                0 => {
                    r.push('.');
                    if self.s.chance(1, 3) {
                        r.push('.');
                    }
                    let c = self.name_char(false);
                    r.push(c);
                }
                1 => self.plx(&mut r),
                2 => r.push(':'),
                3 => r.push('-'),
                _ => {
                    let c = self.name_char(false);
                    r.push(c)
                }
            }
        }
        r
    }
    fn plx(&mut self, r: &mut String) {
        if self.s.chance(1, 2) {
            let h: Vec<char> = "0123456789abcdefABCDEF".chars().collect();
            r.push('%');
            r.push(*self.s.pick(&h));
            r.push(*self.s.pick(&h));
        } else {
            let e: Vec<char> = lex::LOCAL_ESC.chars().collect();
            r.push('\\');
            r.push(*self.s.pick(&e));
        }
    }
    fn wordlike(&mut self) -> String {
        if self.s.chance(1, 8) {
            if let Some(w) = self.dict_name() {
                return w;
            }
        }
        let k = *self.s.pick(lex::KEYWORDS);
        let mut w = match self.s.below(4) {
            3 => {
                // letters of either case
                let k = k.to_ascii_lowercase();
                k.chars().map(|c| if self.s.chance(1, 3) { c.to_ascii_uppercase() } else { c }).collect()
            }
            0 => k.to_ascii_lowercase(),
            1 => k.to_string(),
            _ => {
                let mut c = k.to_ascii_lowercase();
                c[0..1].make_ascii_uppercase();
                c
            }
        };
        match self.s.below(6) {
            0 => w.push('s'),
            1 => w.push('1'),
            2 => w.push_str("-x"),
            3 => {
                w.pop();
                if w.is_empty() {
                    w.push('a')
                }
            }
            _ => {}
        }
        if w.ends_with('_') {
            w.push('x');
        }
        w
    }
    pub fn iriref_text(&mut self) -> String {
        let mut r = String::new();
        if self.s.chance(2, 3) {
            r.push_str(*self.s.pick(&["http://example.org/", "http://x/a#", "urn:x:", "mailto:", "#", "", "../b", "//h?q=1&r=2"]));
        }
        if self.dict_turn(16) {
            let w: String = self.dict_word().chars().filter(|&c| lex::iri_char(c)).collect();
            if self.s.chance(1, 2) {
                return w;
            }
            r.push_str(&w);
        }
        for _ in 0..self.short() {
            let c = match self.s.below(12) {
                0..=5 => self.letter(),
                6 => *self.s.pick(&['#', '?', '&', '=', '+', '-', '.', ';', ',', '!', '*', '/', '(', ')', '[', ']', '\'', '%', '@', '$', '~', ':']),
                7 => self.uni_base(),
                8 => self.uni_extra(),
                9 => *self.s.pick(&['\u{7f}', '\u{a0}', '\u{100}', '\u{3000}', '\u{4e00}', '\u{ff1e}', '\u{fffd}', '\u{1f461}', '\u{10ffff}', '!', '\u{2028}', '\u{120}', '\u{13c}']),
                _ => (b'0' + self.s.below(10) as u8) as char,
            };
            r.push(c);
        }
        r
    }
    pub fn iri(&mut self) {
        if self.reuse(|t| t.k == K::Iri || t.k == K::Pname) {
            return;
        }
        if self.s.chance(1, 14) {
            return self.well_known();
        }
        match self.s.below(8) {
            0 | 1 | 2 => {
                let p = *self.s.pick(&["a:b", ":p", "foaf:knows", "ex:x1", "rdf:type", "x:y"]);
                self.t(K::Pname, p);
            }
            3 | 4 => {
                let v = self.iriref_text();
                self.t(K::Iri, format!("<{}>", v));
            }
            5 => {
                let l = self.name_local();
                self.t(K::Pname, format!(":{}", l));
            }
            6 => {
                let p = if self.s.chance(1, 4) { String::new() } else { self.name_prefix() };
                self.t(K::Pname, format!("{}:", p));
            }
            _ => {
                let p = self.name_prefix();
                let l = self.name_local();
                self.t(K::Pname, format!("{}:{}", p, l));
            }
        }
    }
    /// A name of one of the vocabularies everybody uses, in either form.
    pub fn well_known(&mut self) {
        let (p, ns, names) = *self.s.pick(WELL_KNOWN);
        let mut n = (*self.s.pick(names)).to_string();
        match self.s.below(12) {
            10 => n = n.to_ascii_lowercase(),
            11 => n.push(*self.s.pick(&['s', '1', '_'])),
            _ => {}
        }
        if self.s.chance(1, 2) {
            self.t(K::Iri, format!("<{}{}>", ns, n));
        } else {
            self.t(K::Pname, format!("{}:{}", p, n));
        }
    }
    pub fn iriref(&mut self) {
        if self.reuse(|t| t.k == K::Iri) {
            return;
        }
        let v = self.iriref_text();
        self.t(K::Iri, format!("<{}>", v));
    }
    pub fn pname_ns(&mut self) {
        if self.reuse(|t| t.k == K::Pname && t.s.ends_with(':') && !t.s[..t.s.len() - 1].contains(':')) {
            return;
        }
        let p = match self.s.below(4) {
            0 => String::new(),
            1 => "ex".to_string(),
            _ => self.name_prefix(),
        };
        self.t(K::Pname, format!("{}:", p));
    }
    pub fn bnode(&mut self) {
        if self.reuse(|t| t.k == K::Bnode) {
            return;
        }
        if self.s.chance(1, 12) {
            let n = self.one_sort(false);
            self.t(K::Bnode, format!("_:{}", n));
            return;
        }
        let mut r = String::from("_:");
        let c = self.name_start(true, true);
        r.push(c);
        for _ in 0..self.short() {
            if self.s.chance(1, 8) {
                r.push('.');
                if self.s.chance(1, 3) {
                    r.push('.');
                }
            }
            let c = self.name_char(false);
            r.push(c);
        }
        self.t(K::Bnode, r);
    }
    pub fn var(&mut self) {
        if self.reuse(|t| t.k == K::Var) {
            return;
        }
        if self.s.chance(2, 3) {
            let v = *self.s.pick(&["?x", "?y", "?z", "?s", "?p", "?o", "$x", "$y", "?a", "?as", "?in", "?e1", "?1"]);
            self.t(K::Var, v);
            return;
        }
        let mut r = String::from(if self.s.chance(1, 3) { "$" } else { "?" });
        if self.s.chance(1, 12) {
            r += &self.one_sort(false);
            self.t(K::Var, r);
            return;
        }
        let c = self.name_start(true, true);
        r.push(c);
        for _ in 0..self.short() {
            let c = self.name_char(true);
            r.push(c);
        }
        self.t(K::Var, r);
    }
    fn str_chunk(&mut self, r: &mut String, q: char, long: bool) {
        match self.s.below(16) {
            0 => {
                r.push('\\');
                r.push(*self.s.pick(&['t', 'b', 'n', 'r', 'f', '\\', '"', '\'']));
            }
            1 => r.push(if q == '"' { '\'' } else { '"' }),
            2 if long => {
                // one or two quotes, kept apart from the closing ones
                r.push(q);
                if self.s.chance(1, 2) {
                    r.push(q);
                }
                r.push('x');
            }
            3 => r.push(*self.s.pick(&['#', '?', '<', '>', '@', '^', '{', '}', '.', ';', ' ', '%', '/', '(', ')'])),
            4 => r.push(*self.s.pick(&['\n', '\t', '\r', ' '])),
            5 => {
                let c = self.uni_base();
                r.push(c)
            }
            6 => r.push(*self.s.pick(&['\u{1f600}', '\u{0}', '\u{7f}', '\u{e000}', '\u{feff}', '\u{2028}', '\u{127}', '\u{15c}', '\u{122}'])),
            7 => {
                if self.s.chance(1, 3) {
                    let w: String = self.dict_word().chars().filter(|c| !['"', '\'', '\\', '\n', '\r'].contains(c)).collect();
                    r.push_str(&w)
                } else {
                    r.push_str(*self.s.pick(&["# no comment", "@en", "^^a:b", "''", "true", "} . {"]))
                }
            }
            _ => {
                let c = self.name_char(false);
                r.push(c)
            }
        }
    }
    pub fn string(&mut self) {
        if self.reuse(|t| t.k == K::Str) {
            return;
        }
        let q = if self.s.chance(1, 2) { '\'' } else { '"' };
        let long = self.s.chance(1, 4);
        let mut c = String::new();
        let n = self.short();
        for _ in 0..n {
            self.str_chunk(&mut c, q, long);
        }
        if !long {
            // drop raw quotes of our own kind
            let mut o = String::new();
            let mut esc = false;
            for ch in c.chars() {
                if ch == q && !esc {
                    continue;
                }
                esc = ch == '\\' && !esc;
                o.push(ch);
            }
            self.t(K::Str, format!("{}{}{}", q, o, q));
        } else {
            let mut tail = 0;
            let mut esc = false;
            for ch in c.chars() {
                if ch == q && !esc {
                    tail += 1;
                } else {
                    tail = 0;
                }
                esc = ch == '\\' && !esc;
            }
            if tail > 0 {
                c.push('x');
            }
            let mut o = String::new();
            let mut run = 0;
            let mut esc = false;
            for ch in c.chars() {
                if ch == q && !esc {
                    run += 1;
                    if run == 3 {
                        run = 1;
                        o.push('x');
                    }
                } else {
                    run = 0;
                }
                esc = ch == '\\' && !esc;
                o.push(ch);
            }
            self.t(K::Str, format!("{0}{0}{0}{1}{0}{0}{0}", q, o));
        }
    }
    pub fn lang(&mut self) {
        if self.s.chance(2, 3) {
            let base = *self.s.pick(&["en", "fr", "de-CH", "EN", "x-y1-z2", "a-1-2-3", "zh-Hant-TW", "q", "en-us"]);
            self.t(K::Lang, format!("@{}", base));
            return;
        }
        let mut r = String::from("@");
        let n = if self.s.chance(1, 6) { *self.s.pick(&[8, 9, 12, 20, 40]) } else { 1 + self.s.len(8) };
        for _ in 0..n {
            r.push(self.alpha());
        }
        let parts = match self.s.below(8) {
            6 => self.s.below(12),
            7 => *self.s.pick(&[3, 5, 8, 9, 17, 40]),
            k => k.min(2),
        };
        for _ in 0..parts {
            r.push('-');
            let n = if self.s.chance(1, 10) { *self.s.pick(&[8, 9, 10, 30]) } else { 1 + self.s.len(8) };
            for _ in 0..n {
                let c = if self.s.chance(1, 3) { (b'0' + self.s.below(10) as u8) as char } else { self.alpha() };
                r.push(c);
            }
        }
        self.t(K::Lang, r);
    }
    fn alpha(&mut self) -> char {
        let c = (b'a' + self.s.below(26) as u8) as char;
        if self.s.chance(1, 4) {
            c.to_ascii_uppercase()
        } else {
            c
        }
    }
    pub fn rdf_literal(&mut self) {
        if self.s.chance(1, 14) {
            // a value of a datatype everybody uses
            self.lab("well-known datatype");
            let q = *self.s.pick(&["'", "\"", "'''", "\"\"\""]);
            let v = if self.s.chance(1, 8) {
                self.dict_word().chars().filter(|c| !['"', '\'', '\\', '\n', '\r'].contains(c)).collect()
            } else {
                (*self.s.pick(VALUES)).to_string()
            };
            self.t(K::Str, format!("{}{}{}", q, v, q));
            self.p("^^");
            if self.s.chance(1, 2) {
                let n = *self.s.pick(WELL_KNOWN[0].2);
                if self.s.chance(1, 2) {
                    self.t(K::Iri, format!("<{}{}>", WELL_KNOWN[0].1, n));
                } else {
                    self.t(K::Pname, format!("xsd:{}", n));
                }
            } else {
                self.iri();
            }
            return;
        }
        self.string();
        match self.s.below(5) {
            0 | 1 | 2 => {}
            3 => self.lang(),
            _ => {
                self.p("^^");
                self.iri();
            }
        }
    }
    pub fn num_unsigned(&mut self) -> String {
        match self.s.below(12) {
            0..=3 => format!("{}", self.s.below(12)),
            4 if self.s.chance(1, 3) || self.dict_turn(1000) => format!("{}", dict().number(self.s)).chars().take(18).collect(),
            4 => (*self.s.pick(&["0", "00", "007", "9223372036854775807", "1000000000000", "4294967296", "9007199254740993", "000000000000000000000000000000000012", "255", "256", "65536"])).to_string(),
            5 => format!("{}.{}", self.s.below(20), self.s.below(1000)),
            6 => format!(".{}", self.s.below(1000)),
            7 => format!("{}e{}", self.s.below(20), self.s.below(30)),
            8 => format!("{}.{}E{}{}", self.s.below(20), self.s.below(1000), self.s.pick(&["+", "-", ""]), self.s.below(400)),
            9 => format!(".{}e{}{}", self.s.below(100), self.s.pick(&["+", "-", ""]), self.s.below(400)),
            10 => format!("{}.e{}", self.s.below(20), self.s.below(30)),
            _ => (*self.s.pick(&[
                "0.1", "0.30000000000000004", "123456789.123456789123456789", "1e400", "1.e-5", "5e-324", "0.0", "3.14",
                "1.7976931348623157", "100000000000000000000000.5", "0e0", "00.10", "1E9223372036854775807", "2e-9223372036854775808", "0.000000000000000000000001",
            ]))
            .to_string(),
        }
    }
    pub fn num(&mut self, signed_ok: bool) {
        if self.reuse(|t| t.k == K::Num && (signed_ok || t.s.as_bytes()[0] != b'-' && t.s.as_bytes()[0] != b'+') && t.s.len() < 19) {
            return;
        }
        let mut n = self.num_unsigned();
        if signed_ok {
            match self.s.below(5) {
                0 => n = format!("-{}", n),
                1 => n = format!("+{}", n),
                2 if self.s.chance(1, 6) => n = (*self.s.pick(&["-9223372036854775808", "-0", "-0.0", "+0", "-.5e1"])).to_string(),
                _ => {}
            }
        }
        self.t(K::Num, n);
    }
    fn boolean(&mut self) {
        let w = *self.s.pick(&["TRUE", "FALSE"]);
        self.kw(w);
    }
    pub fn var_or_iri(&mut self) {
        if self.s.chance(1, 2) {
            self.iri()
        } else {
            self.var()
        }
    }
    pub fn nil(&mut self) {
        self.p("(");
        self.p(")");
    }

    // ---- prologue ---------------------------------------------------------

    pub fn prologue(&mut self, n: usize) {
        for _ in 0..n {
            if self.s.chance(1, 3) {
                self.kw("BASE");
                self.iriref();
            } else {
                self.kw("PREFIX");
                self.pname_ns();
                self.iriref();
            }
        }
    }

    // ---- terms ------------------------------------------------------------

    pub fn graph_term(&mut self) {
        match self.s.below(12) {
            0..=4 => self.iri(),
            5 | 6 => self.rdf_literal(),
            7 => self.num(true),
            8 => self.boolean(),
            9 => self.bnode(),
            10 => {
                self.p("[");
                self.p("]");
            }
            _ => self.nil(),
        }
    }
    pub fn var_or_term(&mut self) {
        if self.s.chance(3, 5) {
            self.graph_term()
        } else {
            self.var()
        }
    }

    // ---- triples ----------------------------------------------------------

    /// `path`: predicates may be property paths
    pub fn triples_list(&mut self, path: bool, min: usize) {
        let n = self.count(min);
        let mut last = 0..0;
        for i in 0..n {
            let start = self.out.len();
            if i > 0 && self.same_range(&last) {
                self.copy(last.clone());
            } else {
                self.triples(path);
            }
            last = start..self.out.len();
            if i + 1 < n || self.half() {
                self.p(".");
            }
        }
    }
    pub fn triples(&mut self, path: bool) {
        self.part("triples", path, |g| g.triples_(path))
    }
    fn triples_(&mut self, path: bool) {
        if self.one_in(4) {
            self.lab("node subject");
            self.node(path);
            if self.half() {
                self.plist(path);
            }
        } else {
            self.var_or_term();
            self.plist(path);
        }
    }
    pub fn plist(&mut self, path: bool) {
        self.part("plist", path, |g| g.plist_(path))
    }
    fn plist_(&mut self, path: bool) {
        let n = self.count(1);
        for i in 0..n {
            if i > 0 {
                self.p(";");
                while self.one_in(6) {
                    self.lab("repeated ;");
                    self.p(";");
                }
            }
            self.verb(path);
            // only the objects of the first verb of a path list may hold paths
            self.objects(path && i == 0);
        }
        if self.one_in(6) {
            self.lab("trailing ;");
            self.p(";");
            while self.one_in(4) {
                self.p(";");
            }
        }
    }
    /// verb and objects
    pub fn plist_entry(&mut self) {
        self.verb(false);
        self.objects(false);
    }
    pub fn path_part(&mut self) {
        self.path_elt();
    }
    pub fn objects(&mut self, path: bool) {
        self.part("objects", path, |g| g.objects_(path))
    }
    fn objects_(&mut self, path: bool) {
        let n = self.count(1);
        self.list(n, ",", |g| g.graph_node(path));
    }
    pub fn verb(&mut self, path: bool) {
        match self.s.below(8) {
            0 | 1 | 2 => self.iri(),
            3 => self.var(),
            4 => self.t(K::A, "a"),
            _ => {
                if path && self.fuel > 0 {
                    self.lab("path");
                    self.path();
                } else {
                    self.iri();
                }
            }
        }
    }
    pub fn graph_node(&mut self, path: bool) {
        self.part("graph_node", path, |g| g.graph_node_(path))
    }
    fn graph_node_(&mut self, path: bool) {
        if self.one_in(5) {
            self.node(path)
        } else {
            self.var_or_term()
        }
    }
    pub fn node(&mut self, path: bool) {
        let d = self.depth();
        if d > 0 {
            let mut close = vec![];
            let style = self.s.below(4);
            // members beside the nested one
            let beside = self.s.chance(1, 3);
            for _ in 0..d {
                if style == 0 || style > 1 && self.s.chance(1, 2) {
                    self.p("(");
                    if beside && self.s.chance(1, 6) {
                        self.var_or_term();
                    }
                    close.push(")");
                } else {
                    self.p("[");
                    if self.s.chance(1, 4) {
                        self.t(K::A, "a");
                    } else {
                        self.iri();
                    }
                    close.push("]");
                }
            }
            self.var_or_term();
            for c in close.into_iter().rev() {
                if beside && self.s.chance(1, 6) {
                    if c == "]" {
                        let sep = *self.s.pick(&[",", ";"]);
                        self.p(sep);
                        if sep == ";" {
                            self.iri();
                        }
                    }
                    self.var_or_term();
                }
                self.p(c);
            }
            return;
        }
        self.fuel -= 2;
        if self.s.chance(1, 2) {
            self.lab("collection");
            self.p("(");
            let n = self.count(1);
            self.list(n, "", |g| g.graph_node(path));
            self.p(")");
        } else {
            self.lab("blank node property list");
            self.p("[");
            self.plist(path);
            self.p("]");
        }
    }

    // ---- property paths ---------------------------------------------------

    pub fn path(&mut self) {
        self.part("path", false, |g| g.path_())
    }
    fn path_(&mut self) {
        let n = self.count(1);
        if n > 1 {
            self.lab("path |");
        }
        self.list(n, "|", |g| g.path_seq());
    }
    fn path_seq(&mut self) {
        self.part("path_seq", false, |g| g.path_seq_())
    }
    fn path_seq_(&mut self) {
        let n = self.count(1);
        if n > 1 {
            self.lab("path /");
        }
        self.list(n, "/", |g| {
            if g.one_in(4) {
                g.lab("path ^");
                g.p("^");
            }
            g.path_elt();
        });
    }
    fn path_elt(&mut self) {
        self.fuel -= 1;
        let d = self.depth();
        if d > 0 {
            // none, some or all levels inverted, with modifier, with a step beside
            let (inv, modi, step) = (*self.s.pick(&[0, 0, 1, 4]), *self.s.pick(&[0, 0, 1, 4]), *self.s.pick(&[0, 0, 1, 4]));
            for k in 0..d {
                // the caller already wrote the first '^', if any
                if k > 0 && self.s.chance(inv, 4) {
                    self.p("^");
                }
                self.p("(");
                if self.s.chance(step, 8) {
                    self.iri();
                    let sep = *self.s.pick(&["|", "/"]);
                    self.p(sep);
                }
            }
            self.iri();
            for _ in 0..d {
                self.p(")");
                if self.s.chance(modi, 4) {
                    self.path_mod();
                }
            }
            return;
        }
        match if self.fuel > 0 { self.s.below(10) } else { self.s.below(4) } {
            0..=2 => self.iri(),
            3 => self.t(K::A, "a"),
            4 | 5 => {
                self.lab("path group");
                self.p("(");
                self.path();
                self.p(")");
            }
            6 => {
                self.lab("path !x");
                self.p("!");
                self.path_one();
            }
            7 | 8 => {
                self.lab("path !(...)");
                self.p("!");
                self.p("(");
                let n = self.count(0);
                self.list(n, "|", |g| g.path_one());
                self.p(")");
            }
            _ => self.iri(),
        }
        if self.one_in(3) {
            self.path_mod();
        }
    }
    fn path_mod(&mut self) {
        self.lab("path modifier");
        let m = *self.s.pick(&["?", "*", "+"]);
        self.p(m);
    }
    fn path_one(&mut self) {
        if self.s.chance(1, 3) {
            self.p("^");
        }
        if self.s.chance(1, 4) {
            self.t(K::A, "a");
        } else {
            self.iri();
        }
    }

    // ---- expressions ------------------------------------------------------

    pub fn expr(&mut self) {
        self.part("expr", false, |g| g.expr_())
    }
    fn expr_(&mut self) {
        self.fuel -= 1;
        let n = if self.one_in(5) { self.count(2) } else { 1 };
        if n > 1 {
            self.lab("||");
        }
        self.list(n, "||", |g| {
            let m = if g.one_in(5) { g.count(2) } else { 1 };
            if m > 1 {
                g.lab("&&");
            }
            g.list(m, "&&", |g| g.rel());
        });
    }
    fn rel(&mut self) {
        self.part("rel", false, |g| g.rel_())
    }
    fn rel_(&mut self) {
        self.additive();
        if self.one_in(4) {
            match self.s.below(8) {
                6 => {
                    self.lab("IN");
                    self.kw("IN");
                    self.expr_list();
                }
                7 => {
                    self.lab("NOT IN");
                    self.kw("NOT");
                    self.kw("IN");
                    self.expr_list();
                }
                k => {
                    self.lab("comparison");
                    self.p(["=", "!=", "<", ">", "<=", ">="][k as usize]);
                    self.additive();
                }
            }
        }
    }
    fn additive(&mut self) {
        self.mult();
        if self.one_in(4) {
            let n = self.count(1);
            for _ in 0..n {
                self.lab("+ -");
                match self.s.below(3) {
                    0 => {
                        self.p("+");
                        self.mult();
                    }
                    1 => {
                        self.p("-");
                        self.mult();
                    }
                    _ => {
                        self.lab("attached sign");
                        let n = self.num_unsigned();
                        let sg = *self.s.pick(&["+", "-"]);
                        self.t(K::Num, format!("{}{}", sg, n));
                        if self.one_in(3) {
                            self.mult_tail();
                        }
                    }
                }
            }
        }
    }
    fn mult(&mut self) {
        self.unary();
        if self.one_in(4) {
            self.mult_tail();
        }
    }
    fn mult_tail(&mut self) {
        self.lab("* /");
        let n = self.count(1);
        for _ in 0..n {
            let o = *self.s.pick(&["*", "/"]);
            self.p(o);
            self.unary();
        }
    }
    fn unary(&mut self) {
        if self.one_in(6) {
            self.lab("unary");
            let o = *self.s.pick(&["!", "+", "-"]);
            self.p(o);
        }
        self.primary();
    }
    pub fn primary(&mut self) {
        self.part("primary", false, |g| g.primary_())
    }
    fn primary_(&mut self) {
        let d = self.depth();
        if d > 0 {
            let style = self.s.below(8);
            for k in 0..d {
                match style {
                    // the outermost may have an operator before it
                    0 | 3 if k == 0 => {}
                    0 => {
                        if self.s.chance(1, 2) {
                            let o = *self.s.pick(&["!", "-", "+"]);
                            self.p(o);
                        }
                    }
                    1 => {
                        let f = *self.s.pick(ONE_ARG);
                        self.kw(f);
                    }
                    2 => self.kw("COALESCE"),
                    3 => {
                        self.iri();
                        // a call, or an operator
                        let before = *self.s.pick(&["", "+", "=", "&&", "*"]);
                        if !before.is_empty() {
                            self.p(before);
                        }
                    }
                    _ => {}
                }
                self.p("(");
                if style == 2 && self.s.chance(1, 2) {
                    self.var();
                    self.p(",");
                }
            }
            self.primary();
            for _ in 0..d {
                self.p(")");
            }
            return;
        }
        match if self.fuel > 0 { self.s.below(12) } else { self.s.below(6) } {
            0 | 1 | 2 => self.var(),
            3 => self.num(true),
            4 => self.rdf_literal(),
            5 => {
                if self.s.chance(1, 2) {
                    self.boolean()
                } else {
                    self.iri()
                }
            }
            6 => self.iri(),
            7 => self.function_call(),
            8 | 9 => {
                self.lab("parentheses");
                self.p("(");
                self.expr();
                self.p(")");
            }
            _ => self.builtin(),
        }
    }
    pub fn expr_list(&mut self) {
        self.part("expr_list", false, |g| g.expr_list_())
    }
    fn expr_list_(&mut self) {
        let n = self.count(0);
        self.p("(");
        self.list(n, ",", |g| g.expr());
        self.p(")");
    }
    pub fn function_call(&mut self) {
        self.lab("function call");
        self.iri();
        let n = self.count(0);
        self.p("(");
        if n > 0 && self.s.chance(1, 4) {
            self.kw("DISTINCT");
        }
        self.list(n, ",", |g| g.expr());
        self.p(")");
    }
    fn args(&mut self, n: usize) {
        self.p("(");
        if n > 1 && self.s.chance(1, 12) {
            self.related_args(n);
        } else {
            self.list(n, ",", |g| g.expr());
        }
        self.p(")");
    }
    /// Arguments some of which are made from others: f(x), x + 1, (x)
    fn related_args(&mut self, n: usize) {
        self.lab("related arguments");
        let mut made: Vec<std::ops::Range<usize>> = Vec::new();
        for i in 0..n {
            if i > 0 {
                self.p(",");
            }
            let start = self.out.len();
            if made.is_empty() || self.s.chance(1, 3) {
                self.expr();
            } else {
                let r = made[self.s.idx(made.len())].clone();
                self.around(r);
            }
            if self.out.len() - start < 40 {
                made.push(start..self.out.len());
            }
        }
    }
    /// An expression with an earlier one in it.
    fn around(&mut self, r: std::ops::Range<usize>) {
        match self.s.below(6) {
            0 => self.copy(r),
            1 => {
                self.p("(");
                self.copy(r);
                self.p(")");
            }
            2 => {
                self.p("(");
                self.copy(r);
                self.p(")");
                let o = *self.s.pick(&["+", "-", "*", "/", "=", "!=", "<", "&&", "||"]);
                self.p(o);
                self.num(true);
            }
            _ => {
                let f = *self.s.pick(ONE_ARG);
                self.kw(f);
                self.p("(");
                self.copy(r);
                self.p(")");
            }
        }
    }
    pub fn builtin(&mut self) {
        let c = self.s.below(10);
        if c < 3 {
            let f = *self.s.pick(ONE_ARG);
            self.call(f)
        } else if c < 5 {
            let f = *self.s.pick(TWO_ARG);
            self.call(f)
        } else if c < 6 {
            let f = *self.s.pick(NO_ARG);
            self.call(f)
        } else if c < 8 {
            let f = *self.s.pick(AGG);
            self.call(f)
        } else {
            let f = *self.s.pick(OTHER);
            self.call(f)
        }
    }
    pub fn any_name(&mut self) -> &'static str {
        let n = ONE_ARG.len() + TWO_ARG.len() + NO_ARG.len() + AGG.len() + OTHER.len();
        let mut i = self.s.idx(n);
        for l in [ONE_ARG, TWO_ARG, NO_ARG, AGG, OTHER] {
            if i < l.len() {
                return l[i];
            }
            i -= l.len();
        }
        "STR"
    }
    pub fn call(&mut self, f: &'static str) {
        self.lab(f);
        self.fuel -= 1;
        self.kw(f);
        if ONE_ARG.contains(&f) {
            self.args(1);
        } else if TWO_ARG.contains(&f) {
            self.args(2);
        } else if NO_ARG.contains(&f) {
            self.args(0);
        } else if f == "COUNT" {
            self.p("(");
            if self.s.chance(1, 3) {
                self.kw("DISTINCT");
            }
            if self.s.chance(1, 3) {
                self.p("*");
            } else {
                self.expr();
            }
            self.p(")");
        } else if AGG.contains(&f) {
            self.p("(");
            if self.s.chance(1, 3) {
                self.kw("DISTINCT");
            }
            self.expr();
            if f == "GROUP_CONCAT" && self.s.chance(1, 2) {
                self.p(";");
                self.kw("SEPARATOR");
                self.p("=");
                self.string();
            }
            self.p(")");
        } else {
            match f {
                "BOUND" => {
                    self.p("(");
                    self.var();
                    self.p(")");
                }
                "BNODE" => {
                    let n = self.s.idx(2);
                    self.args(n)
                }
                "CONCAT" | "COALESCE" => self.expr_list(),
                "SUBSTR" | "REGEX" => {
                    let n = 2 + self.s.idx(2);
                    self.args(n)
                }
                "REPLACE" => {
                    let n = 3 + self.s.idx(2);
                    self.args(n)
                }
                "IF" => self.args(3),
                "EXISTS" => self.group(),
                _ => {
                    self.kw("EXISTS");
                    self.group();
                }
            }
        }
    }
    pub fn constraint(&mut self) {
        self.part("constraint", false, |g| g.constraint_())
    }
    fn constraint_(&mut self) {
        match self.s.below(4) {
            0 | 1 => {
                self.p("(");
                self.expr();
                self.p(")");
            }
            2 => self.builtin(),
            _ => self.function_call(),
        }
    }
    pub fn expr_as_var(&mut self) {
        self.p("(");
        self.expr();
        self.kw("AS");
        self.var();
        self.p(")");
    }

    // ---- data blocks ------------------------------------------------------

    pub fn values(&mut self) {
        self.kw("VALUES");
        self.datablock();
    }
    pub fn datablock(&mut self) {
        self.part("datablock", false, |g| g.datablock_())
    }
    fn datablock_(&mut self) {
        if self.s.chance(1, 3) {
            self.lab("one-variable VALUES");
            self.var();
            self.p("{");
            let n = self.count(0);
            self.list(n, "", |g| g.data_value());
            self.p("}");
        } else {
            self.lab("full VALUES");
            self.p("(");
            let vars = self.count(0);
            for _ in 0..vars {
                self.var();
            }
            self.p(")");
            self.p("{");
            let rows = self.count(0);
            self.list(rows, "", |g| {
                g.p("(");
                // rows normally match the variables, but need not
                let n = if g.s.chance(1, 4) { g.count(0) } else { vars.min(8) };
                g.list(n, "", |g| g.data_value());
                g.p(")");
            });
            self.p("}");
        }
    }
    pub fn data_value(&mut self) {
        self.part("data_value", false, |g| g.data_value_())
    }
    fn data_value_(&mut self) {
        match self.s.below(8) {
            0 | 1 => self.iri(),
            2 | 3 => self.rdf_literal(),
            4 | 5 => self.num(true),
            6 => self.boolean(),
            _ => {
                self.lab("UNDEF");
                self.kw("UNDEF")
            }
        }
    }

    // ---- patterns ---------------------------------------------------------

    pub fn group(&mut self) {
        self.part("group", false, |g| g.group_())
    }
    fn group_(&mut self) {
        self.fuel -= 1;
        let d = self.depth();
        if d > 0 {
            let style = self.s.below(10);
            for _ in 0..d {
                self.p("{");
                if style != 7 && self.s.chance(1, 4) {
                    self.var();
                    self.t(K::A, "a");
                    self.iri();
                    if self.s.chance(1, 2) {
                        self.p(".");
                    }
                }
                let kind = if style < 8 { style } else { self.s.below(3) };
                match kind {
                    0 => self.kw("OPTIONAL"),
                    1 => self.kw("MINUS"),
                    3 => {
                        self.kw("GRAPH");
                        self.var_or_iri();
                    }
                    4 => {
                        self.kw("SERVICE");
                        if self.s.chance(1, 4) {
                            self.kw("SILENT");
                        }
                        self.var_or_iri();
                    }
                    5 => {
                        self.kw("FILTER");
                        if self.s.chance(1, 2) {
                            self.kw("NOT");
                        }
                        self.kw("EXISTS");
                    }
                    6 => {
                        self.p("{");
                        self.p("}");
                        self.kw("UNION");
                    }
                    7 => {
                        self.kw("SELECT");
                        self.p("*");
                    }
                    _ => {}
                }
            }
            self.p("{");
            self.p("}");
            for _ in 0..d {
                if style != 7 && self.s.chance(1, 6) {
                    self.p(".");
                }
                self.p("}");
            }
            return;
        }
        self.p("{");
        if self.fuel > 4 && self.s.chance(1, 8) {
            self.lab("sub-SELECT");
            self.sub_select();
        } else {
            self.group_body();
        }
        self.p("}");
    }
    pub fn sub_select(&mut self) {
        self.select_clause();
        if self.half() {
            self.kw("WHERE");
        }
        self.group();
        self.modifiers();
        if self.one_in(3) {
            self.values();
        }
    }
    pub fn group_body(&mut self) {
        if self.s.chance(1, 2) {
            self.triples_list(true, 1);
        }
        let n = if self.fuel > 0 { self.count(0) } else { 0 };
        for _ in 0..n {
            self.pattern();
            if self.one_in(4) {
                self.lab("dot after pattern");
                self.p(".");
            }
            if self.one_in(3) {
                self.lab("triples after pattern");
                self.triples_list(true, 1);
            }
        }
    }
    pub fn pattern(&mut self) {
        self.part("pattern", false, |g| g.pattern_())
    }
    fn pattern_(&mut self) {
        let k = self.s.below(8);
        self.pattern_kind(k);
    }
    pub fn pattern_kind(&mut self, k: u32) {
        match k {
            0 => {
                self.lab("FILTER");
                self.kw("FILTER");
                self.constraint();
            }
            1 => {
                self.lab("OPTIONAL");
                self.kw("OPTIONAL");
                self.group();
            }
            2 => {
                self.lab("MINUS");
                self.kw("MINUS");
                self.group();
            }
            3 => {
                let n = self.count(1);
                self.lab(if n > 1 { "UNION" } else { "group" });
                let mut last = 0..0;
                for i in 0..n {
                    if i > 0 {
                        self.kw("UNION");
                    }
                    let start = self.out.len();
                    if i > 0 && self.same_range(&last) {
                        self.copy(last.clone());
                    } else {
                        self.group();
                    }
                    last = start..self.out.len();
                }
            }
            4 => {
                self.lab("GRAPH");
                self.kw("GRAPH");
                self.var_or_iri();
                self.group();
            }
            5 => {
                self.lab("SERVICE");
                self.kw("SERVICE");
                if self.s.chance(1, 2) {
                    self.lab("SERVICE SILENT");
                    self.kw("SILENT");
                }
                self.var_or_iri();
                self.group();
            }
            6 => {
                self.lab("BIND");
                self.kw("BIND");
                self.expr_as_var();
            }
            _ => {
                self.lab("inline VALUES");
                self.values();
            }
        }
    }

    // ---- modifiers --------------------------------------------------------

    pub fn modifiers(&mut self) {
        if self.one_in(6) {
            self.group_by();
        }
        if self.one_in(8) {
            self.having();
        }
        if self.one_in(5) {
            self.order_by();
        }
        if self.one_in(4) {
            self.limit_offset();
        }
    }
    pub fn group_by(&mut self) {
        self.part("group_by", false, |g| g.group_by_())
    }
    fn group_by_(&mut self) {
        self.lab("GROUP BY");
        self.kw("GROUP");
        self.kw("BY");
        let n = self.count(1);
        self.list(n, "", |g| match g.s.below(5) {
            0 | 1 => g.var(),
            2 => g.builtin(),
            3 => g.function_call(),
            _ => {
                g.p("(");
                g.expr();
                if g.s.chance(1, 2) {
                    g.lab("GROUP BY (... AS ...)");
                    g.kw("AS");
                    g.var();
                }
                g.p(")");
            }
        });
    }
    pub fn having(&mut self) {
        self.lab("HAVING");
        self.kw("HAVING");
        let n = self.count(1);
        self.list(n, "", |g| g.constraint());
    }
    pub fn order_by(&mut self) {
        self.part("order_by", false, |g| g.order_by_())
    }
    fn order_by_(&mut self) {
        self.lab("ORDER BY");
        self.kw("ORDER");
        self.kw("BY");
        let n = self.count(1);
        self.list(n, "", |g| match g.s.below(4) {
            0 => g.var(),
            1 => g.constraint(),
            k => {
                g.lab("ASC/DESC");
                g.kw(if k == 2 { "ASC" } else { "DESC" });
                g.p("(");
                g.expr();
                g.p(")");
            }
        });
    }
    fn u64(&mut self) {
        let v = match self.s.below(4) {
            1 if self.dict_turn(12) => {
                let n = dict().number(self.s);
                format!("{}", n.saturating_add(self.s.below(3) as u64).saturating_sub(1))
            }
            0 | 1 => format!("{}", self.s.below(100)),
            2 => (*self.s.pick(&["0", "18446744073709551615", "9223372036854775808", "4294967296", "007", "00000000000000000000000000001", "256", "65535"])).to_string(),
            _ => format!("{}{}", 1 + self.s.below(1000000), self.s.below(1000000)),
        };
        self.t(K::Num, v);
    }
    pub fn limit_offset(&mut self) {
        self.part("limit_offset", false, |g| g.limit_offset_())
    }
    fn limit_offset_(&mut self) {
        self.lab("LIMIT/OFFSET");
        let (a, b) = if self.s.chance(1, 2) { ("LIMIT", "OFFSET") } else { ("OFFSET", "LIMIT") };
        self.kw(a);
        self.u64();
        if self.s.chance(1, 2) {
            self.kw(b);
            self.u64();
        }
    }

    // ---- queries ----------------------------------------------------------

    pub fn datasets(&mut self) {
        if !self.one_in(4) {
            return;
        }
        let n = self.count(1);
        self.list(n, "", |g| {
            g.lab("FROM");
            g.kw("FROM");
            if g.s.chance(1, 2) {
                g.lab("FROM NAMED");
                g.kw("NAMED");
            }
            g.iri();
        });
    }
    pub fn select_clause(&mut self) {
        self.kw("SELECT");
        match self.s.below(4) {
            0 => self.kw("DISTINCT"),
            1 => self.kw("REDUCED"),
            _ => {}
        }
        if self.s.chance(1, 3) {
            self.p("*");
        } else {
            let n = self.count(1);
            self.list(n, "", |g| {
                if g.one_in(4) {
                    g.lab("(expr AS var)");
                    g.expr_as_var();
                } else {
                    g.var();
                }
            });
        }
    }
    pub fn where_clause(&mut self) {
        if self.s.chance(1, 2) {
            self.kw("WHERE");
        }
        self.group();
    }
    pub fn query(&mut self) {
        let k = self.s.below(5);
        self.query_form(k);
    }
    pub fn query_form(&mut self, k: u32) {
        match k {
            0 => {
                self.lab("ASK");
                self.kw("ASK");
                self.datasets();
                self.where_clause();
            }
            1 => {
                self.lab("SELECT");
                self.select_clause();
                self.datasets();
                self.where_clause();
            }
            2 => {
                self.lab("CONSTRUCT");
                self.kw("CONSTRUCT");
                self.p("{");
                if self.s.chance(4, 5) {
                    self.triples_list(false, 1);
                }
                self.p("}");
                self.datasets();
                self.where_clause();
            }
            3 => {
                self.lab("CONSTRUCT WHERE");
                self.kw("CONSTRUCT");
                self.datasets();
                self.kw("WHERE");
                self.p("{");
                if self.s.chance(4, 5) {
                    self.triples_list(false, 1);
                }
                self.p("}");
            }
            _ => {
                self.lab("DESCRIBE");
                self.kw("DESCRIBE");
                if self.s.chance(1, 4) {
                    self.p("*");
                } else {
                    for _ in 0..self.count(1) {
                        self.var_or_iri();
                    }
                }
                self.datasets();
                if self.s.chance(2, 3) {
                    self.where_clause();
                } else {
                    self.lab("DESCRIBE without WHERE");
                }
            }
        }
        self.modifiers();
    }
    pub fn stmt(&mut self) {
        let n = if self.one_in(4) { self.count(1) } else { 0 };
        self.prologue(n);
        self.query();
        if self.one_in(5) {
            self.lab("trailing VALUES");
            self.values();
        }
    }

    // ---- updates ----------------------------------------------------------

    fn silent(&mut self) {
        if self.s.chance(1, 2) {
            self.lab("SILENT");
            self.kw("SILENT");
        }
    }
    fn graph_ref(&mut self) {
        self.kw("GRAPH");
        self.iri();
    }
    fn graph_ref_all(&mut self) {
        match self.s.below(5) {
            0 => self.kw("DEFAULT"),
            1 => self.kw("NAMED"),
            2 => self.kw("ALL"),
            _ => self.graph_ref(),
        }
    }
    fn graph_or_default(&mut self) {
        match self.s.below(4) {
            0 => self.kw("DEFAULT"),
            1 => self.graph_ref(),
            _ => self.iri(),
        }
    }
    pub fn management(&mut self) {
        self.part("management", false, |g| g.management_())
    }
    fn management_(&mut self) {
        match self.s.below(7) {
            0 => {
                self.lab("LOAD");
                self.kw("LOAD");
                self.silent();
                self.iri();
                if self.s.chance(1, 2) {
                    self.lab("LOAD INTO");
                    self.kw("INTO");
                    self.graph_ref();
                }
            }
            1 => {
                self.lab("CLEAR");
                self.kw("CLEAR");
                self.silent();
                self.graph_ref_all();
            }
            2 => {
                self.lab("DROP");
                self.kw("DROP");
                self.silent();
                self.graph_ref_all();
            }
            3 => {
                self.lab("CREATE");
                self.kw("CREATE");
                self.silent();
                self.graph_ref();
            }
            k => {
                let w = ["ADD", "MOVE", "COPY"][(k - 4) as usize];
                self.lab(w);
                self.kw(w);
                self.silent();
                self.graph_or_default();
                self.kw("TO");
                self.graph_or_default();
            }
        }
    }
    pub fn quads(&mut self) {
        self.part("quads", false, |g| g.quads_())
    }
    fn quads_(&mut self) {
        self.p("{");
        let mut dangling = false;
        if self.s.chance(2, 3) {
            self.triples_list(false, 1);
            dangling = true;
        }
        let n = if self.half() { self.count(1) } else { 0 };
        let _ = dangling;
        for _ in 0..n {
            self.lab("GRAPH block");
            self.kw("GRAPH");
            self.var_or_iri();
            self.p("{");
            if self.s.chance(4, 5) {
                self.triples_list(false, 1);
            }
            self.p("}");
            if self.s.chance(1, 3) {
                self.p(".");
            }
            if self.s.chance(1, 3) {
                self.lab("triples after GRAPH block");
                self.triples_list(false, 1);
            }
        }
        self.p("}");
    }
    pub fn data_update(&mut self) {
        self.part("data_update", false, |g| g.data_update_())
    }
    fn data_update_(&mut self) {
        match self.s.below(6) {
            0 => {
                self.lab("INSERT DATA");
                self.kw("INSERT");
                self.kw("DATA");
                self.quads();
            }
            1 => {
                self.lab("DELETE DATA");
                self.kw("DELETE");
                self.kw("DATA");
                self.quads();
            }
            2 => {
                self.lab("DELETE WHERE");
                self.kw("DELETE");
                self.kw("WHERE");
                self.quads();
            }
            k => {
                if self.s.chance(1, 3) {
                    self.lab("WITH");
                    self.kw("WITH");
                    self.iri();
                }
                if k != 3 {
                    self.lab("DELETE");
                    self.kw("DELETE");
                    self.quads();
                }
                if k == 3 || k == 5 {
                    self.lab("INSERT");
                    self.kw("INSERT");
                    self.quads();
                }
                if self.one_in(3) {
                    for _ in 0..self.count(1) {
                        self.lab("USING");
                        self.kw("USING");
                        if self.s.chance(1, 2) {
                            self.kw("NAMED");
                        }
                        self.iri();
                    }
                }
                self.kw("WHERE");
                self.group();
            }
        }
    }
    pub fn update_op(&mut self) {
        if self.s.chance(1, 3) {
            self.management()
        } else {
            self.data_update()
        }
    }
    pub fn update(&mut self, management_only: bool) {
        let n = match self.s.below(24) {
            0..=11 => 1,
            12..=16 => 2,
            17..=20 => 3,
            21 | 22 => 5,
            _ => 20,
        };
        for i in 0..n {
            if i > 0 {
                self.lab("several operations");
                self.p(";");
                self.fuel = self.fuel.max(12);
            }
            let k = if self.s.chance(1, 4) { self.count(1).min(6) } else { 0 };
            self.prologue(k);
            if management_only {
                self.management()
            } else {
                self.update_op()
            }
        }
        match self.s.below(6) {
            0 => {
                self.lab("final ;");
                self.p(";");
            }
            1 => {
                self.lab("final ; with prologue");
                self.p(";");
                self.prologue(1);
            }
            _ => {}
        }
    }
}

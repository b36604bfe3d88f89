//! One generator-plus-oracle per property. A case is a function of
//! (property, index, choice sequence) and of nothing else.

use crate::engine::Src;
use crate::gen::{Tok, G, K};
use crate::layout::{self, Mode};
use crate::lex::{self, T};
use crate::refparse::{self, Pr, Verdict, E};
use crate::sut::{self, Entry, Out, ENTRIES};

#[derive(Clone, Debug)]
pub struct Fail {
    pub what: String,
    pub entry: String,
    pub text: String,
    pub expected: String,
    pub got: String,
}

#[derive(Default)]
pub struct Cx {
    pub labels: Vec<&'static str>,
    /// what identifies the case (its input text)
    pub text: String,
    pub nontrivial: bool,
    pub evals: u64,
    pub fail: Option<Fail>,
    /// generator, reference and renderer disagree: an error of the check
    pub harness: Option<String>,
    pub unspecified: bool,
    pub max_work: f64,
    pub growth: f64,
}

impl Cx {
    fn lab(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    fn failed(&self) -> bool {
        self.fail.is_some() || self.harness.is_some()
    }
    fn fail(&mut self, what: &str, entry: Entry, text: &str, expected: String, got: String) {
        if self.fail.is_none() {
            self.fail = Some(Fail {
                what: what.to_string(),
                entry: format!("{:?}", entry),
                text: text.to_string(),
                expected,
                got,
            });
        }
    }
    fn run(&mut self, e: Entry, text: &str) -> Out {
        self.evals += 1;
        let o = sut::run(e, text);
        let n = text.len() as f64 + 40.0;
        let r = sut::last_work() as f64 / (n * n);
        if r > self.max_work {
            self.max_work = r;
        }
        o
    }
}

// ---- the reference verdict per entry ----------------------------------------

pub fn verdict(text: &str, e: Entry) -> Verdict {
    fn d<X: std::fmt::Debug>(r: Result<X, E>) -> Result<String, E> {
        r.map(|x| format!("{:?}", x))
    }
    refparse::decide_with(text, |p: &mut Pr| match e {
        Entry::Stmt => d(p.stmt()),
        Entry::Query => d(p.query()),
        Entry::Ask => d(p.ask()),
        Entry::Construct => d(p.construct()),
        Entry::SubConstruct => d(p.sub_construct()),
        Entry::SubTriples => d(p.sub_triples()),
        Entry::Describe => d(p.describe()),
        Entry::Update => d(p.update()),
    })
}

fn whole(text: &str, o: &Out) -> bool {
    match o {
        Out::Ok(r, _) => lex::is_blank(&text[*r..]),
        _ => false,
    }
}

/// The text is well-formed by construction: it must be read whole, into the
/// reference tree. Returns that tree.
fn must_parse(cx: &mut Cx, e: Entry, text: &str) -> Option<String> {
    match verdict(text, e) {
        Verdict::Accept(tree) => {
            let o = cx.run(e, text);
            match &o {
                Out::Ok(r, t) if lex::is_blank(&text[*r..]) => {
                    if *t != tree {
                        cx.fail("a well-formed text is read into another tree", e, text, tree.clone(), o.brief());
                    }
                }
                Out::Ok(..) => cx.fail("a well-formed text is not read whole", e, text, format!("whole text, {}", tree), o.brief()),
                _ => cx.fail("a well-formed text is not accepted", e, text, format!("whole text, {}", tree), o.brief()),
            }
            Some(tree)
        }
        v => {
            cx.harness = Some(format!("generated text not accepted by the reference: {:?}\n{}", v, text));
            None
        }
    }
}

/// Any text. `rejects`: also judge texts the grammar rejects.
fn judge_any(cx: &mut Cx, e: Entry, text: &str, rejects: bool) -> Verdict {
    let v = verdict(text, e);
    match &v {
        Verdict::Accept(tree) => {
            let o = cx.run(e, text);
            match &o {
                Out::Ok(r, t) if lex::is_blank(&text[*r..]) => {
                    if t != tree {
                        cx.fail("a well-formed text is read into another tree", e, text, tree.clone(), o.brief());
                    }
                }
                _ => cx.fail("a well-formed text is not read whole", e, text, format!("whole text, {}", tree), o.brief()),
            }
        }
        Verdict::Reject(at) if rejects => {
            let o = cx.run(e, text);
            match &o {
                Out::Ok(r, _) => {
                    if lex::is_blank(&text[*r..]) {
                        cx.fail("a text outside the grammar is read whole", e, text, format!("an error, or a remainder starting at byte {} at the latest", at), o.brief());
                    } else if r > at {
                        cx.fail("reading went past the first token that cannot continue a well-formed text", e, text, format!("an error, or a remainder starting at byte {} at the latest", at), o.brief());
                    }
                }
                Out::Err(_) => {}
                _ => cx.fail("a text outside the grammar must yield an error or a remainder", e, text, "an error or a remainder".into(), o.brief()),
            }
        }
        Verdict::Reject(_) => {
            let o = cx.run(e, text);
            if !matches!(o, Out::Ok(..) | Out::Err(_)) {
                cx.fail("a parse must yield a tree or an error", e, text, "a tree or an error".into(), o.brief());
            }
        }
        Verdict::Unspecified(_) => {
            cx.unspecified = true;
            let o = cx.run(e, text);
            if !matches!(o, Out::Ok(..) | Out::Err(_)) {
                cx.fail("a parse must yield a tree or an error", e, text, "a tree or an error".into(), o.brief());
            }
        }
    }
    v
}

fn fuel(s: &mut Src) -> i32 {
    *s.pick(&[8, 8, 15, 15, 30, 30, 60, 120])
}

fn gen<'x>(s: &'x mut Src, cx: &mut Cx, fuel: i32, f: impl FnOnce(&mut G)) -> Vec<Tok> {
    let mut g = G::new(s, fuel);
    f(&mut g);
    let G { out, labels, .. } = g;
    for l in labels {
        cx.lab(l);
    }
    out
}

fn render(s: &mut Src, cx: &mut Cx, toks: &[Tok]) -> String {
    let words = layout::texts(toks, s);
    let m = layout::mode(s);
    cx.lab(match m {
        Mode::Spaced => "layout: spaced",
        Mode::Tight => "layout: tight",
        Mode::Wild => "layout: blanks and comments",
    });
    let t = layout::join(&words, m, s, true);
    if !layout::faithful(&t, &words) {
        cx.harness = Some(format!("rendering changed the tokens: {:?}\n{}", words, t));
    }
    t
}

fn valid_case(s: &mut Src, cx: &mut Cx, e: Entry, fuel: i32, f: impl FnOnce(&mut G)) -> Option<String> {
    let toks = gen(s, cx, fuel, f);
    let text = render(s, cx, &toks);
    cx.text = text.clone();
    cx.nontrivial = toks.len() >= 6;
    if cx.failed() {
        return None;
    }
    must_parse(cx, e, &text)
}

// ---- mutation ----------------------------------------------------------------

pub const POOL: &[(&str, K)] = &[
    ("{", K::P), ("}", K::P), ("(", K::P), (")", K::P), ("[", K::P), ("]", K::P), (",", K::P), (";", K::P), (".", K::P),
    ("=", K::P), ("!=", K::P), ("<", K::P), (">", K::P), ("<=", K::P), (">=", K::P), ("!", K::P), ("||", K::P),
    ("&&", K::P), ("|", K::P), ("/", K::P), ("^", K::P), ("^^", K::P), ("?", K::P), ("*", K::P), ("+", K::P), ("-", K::P),
    ("a", K::A), ("?x", K::Var), ("$y", K::Var), ("_:b", K::Bnode), ("<http://x>", K::Iri), ("<>", K::Iri),
    ("a:b", K::Pname), (":", K::Pname), (":x", K::Pname), ("in:", K::Pname), ("1", K::Num), ("-1", K::Num), ("+2", K::Num), ("1.5", K::Num),
    (".5", K::Num), ("1e3", K::Num), ("9223372036854775808", K::Num), ("-9223372036854775809", K::Num), ("18446744073709551615", K::Num),
    ("18446744073709551616", K::Num), ("1e9223372036854775808", K::Num), ("2.5E-99999999999999999999", K::Num), (".1e+340282366920938463463374607431768211456", K::Num),
    ("340282366920938463463374607431768211456", K::Num), ("\"s\"", K::Str), ("''", K::Str), ("'''l'''", K::Str), ("@en", K::Lang),
];

/// Whole clauses and parts, to be put where they do or do not belong.
pub const CLAUSES: &[&str] = &[
    "VALUES ?x { }", "VALUES ( ?x ) { ( 1 ) }", "LIMIT 1", "OFFSET 1", "ORDER BY ?x", "GROUP BY ?x", "HAVING ( 1 )", "FROM <a>", "FROM NAMED <a>",
    "WHERE { }", "FILTER ( 1 )", "BIND ( 1 AS ?x )", "UNION { }", "OPTIONAL { }", "MINUS { }", "GRAPH <g> { }", "SERVICE <g> { }", "BASE <b>",
    "PREFIX a: <b>", "INTO GRAPH <g>", "USING <g>", "USING NAMED <g>", "WITH <g>", "INSERT { }", "DELETE { }", "TO <g>", "GRAPH <g>", "DATA { }",
    "DELETE WHERE { }", "; SEPARATOR = 's'", "AS ?x", "( 1 AS ?x )", "( ?x AS ?x )", "^^ <d>", "NOT IN ( )", "IN ( 1 )", "EXISTS { }", "NOT EXISTS { }",
    "[ ?p ?o ]", "?s ?p ?o", "?p ?o", "?s ?p ?o .", "; ?p ?o", "{ SELECT * { } }", "SELECT * { }", "ASK { }", "CLEAR ALL", "{ ?s ?p ?o }", "ASC ( ?x )",
    "DESC ?x", "COUNT ( * )", "SUM ( ?x )", "<f> ( ?x )", "! <p>", "^ <p>", "( <p> )", "( )", "[ ]", "@en @en", "- - 1", ". .", "{ { } }",
];

fn kind(w: &str) -> K {
    let u = w.to_ascii_uppercase();
    match w.as_bytes()[0] {
        b'?' | b'$' if w.len() > 1 => K::Var,
        b'<' if w.ends_with('>') && w.len() > 1 => K::Iri,
        b'\'' | b'"' => K::Str,
        b'@' => K::Lang,
        b'0'..=b'9' => K::Num,
        _ if w == "a" => K::A,
        _ if w.starts_with("_:") => K::Bnode,
        _ if w.contains(':') => K::Pname,
        _ if lex::KEYWORDS.contains(&u.as_str()) => K::Kw,
        _ => K::P,
    }
}

fn pool_tok(s: &mut Src) -> Tok {
    if s.chance(2, 5) {
        let k = *s.pick(lex::KEYWORDS);
        if k == "A" {
            return Tok { k: K::A, s: "a".into() };
        }
        Tok { k: K::Kw, s: k.into() }
    } else {
        let (t, k) = *s.pick(POOL);
        Tok { k, s: t.into() }
    }
}

pub fn mutate_tokens(s: &mut Src, toks: &mut Vec<Tok>) {
    let n = 1 + s.len(2);
    for _ in 0..n {
        if toks.is_empty() {
            toks.push(pool_tok(s));
            continue;
        }
        if s.chance(1, 4) {
            restructure(s, toks);
            continue;
        }
        let i = s.idx(toks.len());
        match s.below(12) {
            10 => {
                let (w, at) = (*s.pick(FOREIGN), i);
                let t = Tok { k: kind(w), s: w.into() };
                if s.chance(1, 2) {
                    toks.insert(at, t);
                } else {
                    toks[at] = t;
                }
            }
            11 => {
                // the items at both sides of a word change places
                let b = span(toks, (i + 1).min(toks.len() - 1));
                if i > 0 && i + 1 < b {
                    let mut new: Vec<Tok> = toks[i + 1..b].to_vec();
                    new.push(if s.chance(1, 2) {
                        toks[i].clone()
                    } else if s.chance(1, 2) {
                        let w = *s.pick(FOREIGN);
                        Tok { k: kind(w), s: w.into() }
                    } else {
                        pool_tok(s)
                    });
                    new.push(toks[i - 1].clone());
                    toks.splice(i - 1..b, new);
                }
            }
            9 => {
                let c = *s.pick(CLAUSES);
                toks.splice(i..i, c.split(' ').map(|w| Tok { k: kind(w), s: w.into() }));
            }
            8 => {
                // the same character behind the first and before the last of a word
                let mut w: Vec<char> = toks[i].s.chars().collect();
                let c = if s.chance(1, 2) { ' ' } else { *s.pick(CHARS) };
                let (a, b) = (1 + s.len(1), s.len(1));
                if w.len() > a + b {
                    w.insert(w.len() - 1 - b, c);
                    if s.chance(3, 4) {
                        w.insert(a, c);
                    }
                    toks[i].s = w.into_iter().collect();
                }
            }
            0 | 1 => {
                toks.remove(i);
            }
            2 => {
                let t = toks[i].clone();
                toks.insert(i, t);
            }
            3 => {
                if i + 1 < toks.len() {
                    toks.swap(i, i + 1);
                }
            }
            4 => {
                let t = pool_tok(s);
                toks.insert(i, t);
            }
            5 => toks[i] = pool_tok(s),
            6 => {
                let j = s.idx(toks.len());
                let t = toks[j].clone();
                toks[i] = t;
            }
            _ => {
                if s.chance(1, 2) {
                    toks.truncate(i);
                } else {
                    let e = (i + 1 + s.len(4)).min(toks.len());
                    toks.drain(i..e);
                }
            }
        }
    }
}

/// End of the balanced run of tokens that starts at i (exclusive), or i + 1.
fn span(toks: &[Tok], i: usize) -> usize {
    let mut d = 0i32;
    for (k, t) in toks.iter().enumerate().skip(i) {
        if t.k == K::P {
            match t.s.as_str() {
                "(" | "[" | "{" => d += 1,
                ")" | "]" | "}" => d -= 1,
                _ => {}
            }
        }
        if d < 0 {
            return i + 1;
        }
        if d == 0 {
            return k + 1;
        }
    }
    i + 1
}

/// A run of one to four balanced items starting at i.
fn items(s: &mut Src, toks: &[Tok], i: usize) -> usize {
    let mut e = span(toks, i);
    for _ in 0..s.below(4) {
        if e < toks.len() && !(toks[e].k == K::P && matches!(toks[e].s.as_str(), ")" | "]" | "}")) {
            e = span(toks, e);
        }
    }
    e
}

/// Changes of structure: the brackets stay balanced.
pub fn restructure(s: &mut Src, toks: &mut Vec<Tok>) {
    if toks.is_empty() {
        return;
    }
    let p = |s: &str| Tok { k: K::P, s: s.into() };
    let i = s.idx(toks.len());
    let e = items(s, toks, i);
    match s.below(12) {
        10 => {
            // two neighbouring runs change places
            let f = if e < toks.len() { items(s, toks, e) } else { e };
            toks[i..f].rotate_left(e - i);
        }
        11 => {
            // a separator and an item, as lists elsewhere have them
            let sep = *s.pick(&[",", ",", ";", ";", ".", "|", "/", "=", "&&", "||", "+", "*"]);
            let item = if s.chance(1, 2) {
                let j = s.idx(toks.len());
                let k = span(toks, j);
                toks[j..k].to_vec()
            } else {
                vec![pool_tok(s)]
            };
            let at = *s.pick(&[i, e]);
            let mut new = item;
            if s.chance(1, 2) {
                new.push(p(sep));
            } else {
                new.insert(0, p(sep));
            }
            toks.splice(at..at, new);
        }
        8 => {
            // a run once more, right behind itself
            let run: Vec<Tok> = toks[i..e].to_vec();
            toks.splice(e..e, run);
        }
        9 => {
            // a clause once more: from one keyword to the next, or to the end
            let kws: Vec<usize> = (0..toks.len()).filter(|&k| toks[k].k == K::Kw).collect();
            if !kws.is_empty() {
                let a = *s.pick(&kws);
                let mut b = span(toks, a);
                while b < toks.len() && toks[b].k != K::Kw && !(toks[b].k == K::P && matches!(toks[b].s.as_str(), ")" | "]" | "}" | ";")) {
                    b = span(toks, b);
                }
                let run: Vec<Tok> = toks[a..b].to_vec();
                let at = if s.chance(1, 3) { toks.len() } else { b };
                toks.splice(at..at, run);
            }
        }
        0 | 1 => {
            // brackets around a run
            let (o, c) = *s.pick(&[("(", ")"), ("(", ")"), ("{", "}"), ("[", "]")]);
            toks.insert(e, p(c));
            toks.insert(i, p(o));
        }
        2 => {
            // without the brackets around a run
            let opens: Vec<usize> = (0..toks.len()).filter(|&k| toks[k].k == K::P && matches!(toks[k].s.as_str(), "(" | "[" | "{")).collect();
            if !opens.is_empty() {
                let o = *s.pick(&opens);
                let c = span(toks, o);
                if c > o + 1 {
                    toks.remove(c - 1);
                    toks.remove(o);
                }
            }
        }
        3 => {
            // other brackets
            let opens: Vec<usize> = (0..toks.len()).filter(|&k| toks[k].k == K::P && matches!(toks[k].s.as_str(), "(" | "[" | "{")).collect();
            if !opens.is_empty() {
                let o = *s.pick(&opens);
                let c = span(toks, o);
                if c > o + 1 {
                    let (x, y) = *s.pick(&[("(", ")"), ("{", "}"), ("[", "]")]);
                    toks[o] = p(x);
                    toks[c - 1] = p(y);
                }
            }
        }
        4 => {
            // a run copied elsewhere
            let run: Vec<Tok> = toks[i..e].to_vec();
            let at = s.idx(toks.len() + 1);
            toks.splice(at..at, run);
        }
        5 => {
            // a run in place of another
            let run: Vec<Tok> = toks[i..e].to_vec();
            let j = s.idx(toks.len());
            let f = items(s, toks, j);
            toks.splice(j..f, run);
        }
        6 => {
            // a run moved
            let run: Vec<Tok> = toks.drain(i..e).collect();
            let at = s.idx(toks.len() + 1);
            toks.splice(at..at, run);
        }
        _ => {
            // a run dropped
            toks.drain(i..e);
        }
    }
}

const CHARS: &[char] = &[
    ' ', '\n', '\t', '\r', '#', '{', '}', '(', ')', '[', ']', '<', '>', '"', '\'', '\\', '?', '$', '@', ':', '.', ';', ',', '|', '/', '^',
    '*', '+', '-', '!', '=', '&', '%', '_', 'a', 'e', 'E', 'x', '0', '9', '\u{b7}', '\u{300}', '\u{e9}', '\u{d7}', '\u{1f600}', '\u{120}',
    '\u{a0}', '\u{2028}', '\u{0}', '\u{b}', '\u{c}', '\u{85}', '\u{3000}', '\u{203f}', '~', '`', '\u{212a}', '\u{17f}', '\u{130}', '\u{ff1f}', '\u{23f}',
];

pub fn mutate_chars(s: &mut Src, text: &str) -> String {
    let mut cs: Vec<char> = text.chars().collect();
    let n = 1 + s.len(2);
    for _ in 0..n {
        if cs.is_empty() {
            cs.push(*s.pick(CHARS));
            continue;
        }
        let i = s.idx(cs.len());
        match s.below(8) {
            0 => {
                cs.remove(i);
            }
            6 => {
                // what was apart runs together
                let j = cs.len().min(i + 1 + s.idx(40));
                let mut k = 0;
                cs.retain(|c| {
                    k += 1;
                    !(k > i && k <= j && c.is_whitespace())
                });
            }
            7 => {
                let j = cs.len().min(i + 1 + s.len(6));
                if s.chance(1, 2) {
                    cs.drain(i..j);
                } else {
                    let part = cs[i..j].to_vec();
                    let at = if s.chance(1, 2) { j } else { s.idx(cs.len()) };
                    cs.splice(at..at, part);
                }
            }
            1 | 2 => cs.insert(i, *s.pick(CHARS)),
            3 => cs[i] = *s.pick(CHARS),
            4 => {
                let c = cs[i];
                if c.is_ascii_alphabetic() && s.chance(1, 2) {
                    cs[i] = (c as u8 ^ 0x20) as char;
                } else {
                    cs.insert(i, c);
                }
            }
            _ => cs.truncate(i),
        }
    }
    cs.into_iter().collect()
}

/// Text of the mutated tokens; layouts that cannot run together.
fn mutated_text(s: &mut Src, cx: &mut Cx, toks: &[Tok]) -> String {
    let mut t = toks.to_vec();
    if s.chance(1, 8) {
        // the tokens as they are, most of them without a gap, whatever they form
        cx.lab("squeezed");
        let words = layout::texts(&t, s);
        let (gaps, of) = *s.pick(&[(0, 1), (1, 8), (1, 3)]);
        let mut text = String::new();
        for (k, w) in words.iter().enumerate() {
            // the first few keep apart, so that what follows is reached
            if k > 0 && (k < 4 || s.chance(gaps, of)) {
                text.push(' ');
            }
            text.push_str(w);
        }
        text
    } else if s.chance(2, 3) {
        cx.lab("token mutation");
        mutate_tokens(s, &mut t);
        let words = layout::texts(&t, s);
        let m = layout::mode(s);
        layout::join(&words, m, s, true)
    } else {
        cx.lab("character mutation");
        let words = layout::texts(&t, s);
        let m = layout::mode(s);
        let text = layout::join(&words, m, s, true);
        mutate_chars(s, &text)
    }
}

/// Mostly well-formed cases; some mutated ones, decided by the reference.
fn mixed_case(s: &mut Src, cx: &mut Cx, e: Entry, fuel: i32, f: impl FnOnce(&mut G)) {
    if s.chance(1, 5) {
        let toks = gen(s, cx, fuel, f);
        let text = mutated_text(s, cx, &toks);
        cx.text = text.clone();
        cx.nontrivial = toks.len() >= 6;
        match judge_any(cx, e, &text, true) {
            Verdict::Accept(_) => cx.lab("mutated, well-formed"),
            Verdict::Reject(_) => cx.lab("mutated, outside the grammar"),
            Verdict::Unspecified(_) => cx.lab("mutated, undecided"),
        }
    } else {
        valid_case(s, cx, e, fuel, f);
    }
}

// ---- the properties ------------------------------------------------------------

pub fn case(prop: &str, i: u64, s: &mut Src, cx: &mut Cx) {
    match prop {
        "C01" => c01(s, cx),
        "C02" => c02(s, cx),
        "C03" => c03(s, cx),
        "C04" => c04(s, cx),
        "C05" => c05(s, cx),
        "C06" => c06(s, cx),
        "C07" => c07(i, s, cx),
        "C08" => c08(i, s, cx),
        "C09" => c09(s, cx),
        "C10" => c10(s, cx),
        "C11" => c11(s, cx),
        "C12" => c12(s, cx),
        "C13" => c13(s, cx),
        "C14" => c14(s, cx),
        "C15" => c15(s, cx),
        "C16" => c16(s, cx),
        "C17" => c17(i, s, cx),
        "C18" => c18(i, s, cx),
        "C19" => c19(s, cx),
        "C20" => c20(i, s, cx),
        "C21" => c21(s, cx),
        "C22" => c22(i, s, cx),
        "C23" => c23(s, cx),
        _ => cx.harness = Some(format!("unknown property {}", prop)),
    }
}

fn c01(s: &mut Src, cx: &mut Cx) {
    let fu = fuel(s);
    mixed_case(s, cx, Entry::Stmt, fu, |g| g.stmt());
}

fn c02(s: &mut Src, cx: &mut Cx) {
    let fu = fuel(s).max(15);
    mixed_case(s, cx, Entry::Stmt, fu, |g| {
        match g.s.below(4) {
            0 => g.kw("ASK"),
            1 => {
                g.kw("SELECT");
                g.p("*");
                g.kw("WHERE");
            }
            2 => {
                g.kw("DESCRIBE");
                g.p("*");
            }
            _ => {
                g.kw("CONSTRUCT");
                g.p("{");
                g.p("}");
            }
        }
        g.p("{");
        if g.s.chance(1, 10) {
            g.lab("sub-SELECT");
            g.sub_select();
        } else {
            if g.s.chance(1, 2) {
                g.triples_list(true, 1);
            }
            let n = g.count(1);
            for _ in 0..n {
                let k = g.s.below(8);
                g.pattern_kind(k);
                if g.one_in(4) {
                    g.lab("dot after pattern");
                    g.p(".");
                }
                if g.one_in(3) {
                    g.lab("triples after pattern");
                    g.triples_list(true, 1);
                }
            }
        }
        g.p("}");
        if g.one_in(6) {
            g.modifiers();
        }
    });
}

fn c03(s: &mut Src, cx: &mut Cx) {
    let fu = fuel(s);
    let k = s.below(6);
    let e = if k >= 4 { Entry::Update } else { Entry::Stmt };
    mixed_case(s, cx, e, fu, |g| match k {
        0 | 1 => {
            g.lab("triples in a pattern");
            g.kw("ASK");
            g.p("{");
            g.triples_list(true, 1);
            g.p("}");
        }
        2 => {
            g.lab("triples in a template");
            g.kw("CONSTRUCT");
            g.p("{");
            g.triples_list(false, 1);
            g.p("}");
            g.kw("WHERE");
            g.p("{");
            g.p("}");
        }
        3 => {
            g.lab("triples in CONSTRUCT WHERE");
            g.kw("CONSTRUCT");
            g.kw("WHERE");
            g.p("{");
            g.triples_list(false, 1);
            g.p("}");
        }
        4 => {
            g.lab("triples in quads");
            g.kw("INSERT");
            g.kw("DATA");
            g.p("{");
            g.triples_list(false, 1);
            g.p("}");
        }
        _ => {
            g.lab("triples in a GRAPH block");
            g.kw("DELETE");
            g.kw("WHERE");
            g.p("{");
            g.kw("GRAPH");
            g.iri();
            g.p("{");
            g.triples_list(false, 1);
            g.p("}");
            if g.s.chance(1, 2) {
                g.triples_list(false, 1);
            }
            g.p("}");
        }
    });
}

fn c04(s: &mut Src, cx: &mut Cx) {
    let fu = fuel(s).max(15);
    mixed_case(s, cx, Entry::Stmt, fu, |g| {
        g.kw("ASK");
        g.p("{");
        let n = 1 + g.s.len(2);
        for i in 0..n {
            if i > 0 {
                g.p(".");
            }
            if g.s.chance(1, 6) {
                g.p("[");
                g.path();
                g.graph_node(true);
                g.p("]");
            }
            else {
                g.var_or_term();
            }
            let m = 1 + g.s.len(2);
            for j in 0..m {
                if j > 0 {
                    g.p(";");
                }
                if g.s.chance(1, 8) {
                    g.lab("variable predicate");
                    g.var();
                } else {
                    g.path();
                }
                match g.s.below(4) {
                    0 => {
                        g.lab("variable after path");
                        g.var()
                    }
                    1 => {
                        g.lab("number after path");
                        g.num(true)
                    }
                    _ => g.objects(j == 0),
                }
            }
        }
        g.p("}");
    });
}

fn expr_context(g: &mut G, f: &mut dyn FnMut(&mut G)) {
    match g.s.below(9) {
        0 | 1 | 2 => {
            g.lab("in FILTER");
            g.kw("ASK");
            g.p("{");
            g.kw("FILTER");
            g.p("(");
            f(g);
            g.p(")");
            g.p("}");
        }
        3 => {
            g.lab("in SELECT");
            g.kw("SELECT");
            g.p("(");
            f(g);
            g.kw("AS");
            g.var();
            g.p(")");
            g.p("{");
            g.p("}");
        }
        4 => {
            g.lab("in BIND");
            g.kw("ASK");
            g.p("{");
            g.kw("BIND");
            g.p("(");
            f(g);
            g.kw("AS");
            g.var();
            g.p(")");
            g.p("}");
        }
        5 => {
            g.lab("in HAVING");
            g.kw("ASK");
            g.p("{");
            g.p("}");
            g.kw("HAVING");
            g.p("(");
            f(g);
            g.p(")");
        }
        6 => {
            g.lab("in ORDER BY");
            g.kw("ASK");
            g.p("{");
            g.p("}");
            g.kw("ORDER");
            g.kw("BY");
            if g.s.chance(1, 2) {
                g.kw("DESC");
            }
            g.p("(");
            f(g);
            g.p(")");
        }
        7 => {
            g.lab("in GROUP BY");
            g.kw("ASK");
            g.p("{");
            g.p("}");
            g.kw("GROUP");
            g.kw("BY");
            g.p("(");
            f(g);
            if g.s.chance(1, 2) {
                g.kw("AS");
                g.var();
            }
            g.p(")");
        }
        _ => {
            g.lab("in an argument list");
            g.kw("ASK");
            g.p("{");
            g.kw("FILTER");
            g.iri();
            g.p("(");
            f(g);
            g.p(",");
            f(g);
            g.p(")");
            g.p("}");
        }
    }
}

fn c05(s: &mut Src, cx: &mut Cx) {
    let fu = fuel(s).max(15);
    mixed_case(s, cx, Entry::Stmt, fu, |g| expr_context(g, &mut |g| g.expr()));
}

fn c06(s: &mut Src, cx: &mut Cx) {
    let fu = fuel(s);
    mixed_case(s, cx, Entry::Stmt, fu, |g| match g.s.below(8) {
        0 => {
            g.lab("constraint");
            g.kw("ASK");
            g.p("{");
            g.kw("FILTER");
            let f = g.any_name();
            g.call(f);
            g.p("}");
        }
        1 => {
            g.kw("ASK");
            g.p("{");
            g.kw("FILTER");
            g.function_call();
            g.p("}");
        }
        2 => {
            g.kw("ASK");
            g.p("{");
            g.p("}");
            let w = *g.s.pick(&["HAVING", "ORDER", "GROUP"]);
            g.kw(w);
            if w != "HAVING" {
                g.kw("BY");
            }
            let n = 1 + g.s.len(3);
            for _ in 0..n {
                if g.s.chance(1, 3) {
                    g.function_call();
                } else {
                    let f = g.any_name();
                    g.call(f);
                }
            }
        }
        _ => expr_context(g, &mut |g| {
            match g.s.below(6) {
                0 => g.function_call(),
                1 => {
                    g.lab("name without arguments");
                    g.iri()
                }
                _ => {
                    let f = g.any_name();
                    g.call(f)
                }
            }
            if g.one_in(6) {
                g.p("+");
                let f = g.any_name();
                g.call(f);
            }
        }),
    });
}

// characters in every position of every kind of name

pub const SWEEP_BLOCK: u32 = 128;
pub const SWEEP_BLOCKS: u64 = (0x110000 / SWEEP_BLOCK) as u64;

const NAME_SHAPES: &[&str] = &[
    "ASK{?s ?p <x\u{1}y>}",
    "ASK{?s ?p \u{1}:y }",
    "ASK{?s ?p p\u{1}:y }",
    "ASK{?s ?p p\u{1}q:y }",
    "ASK{?s ?p p:\u{1} }",
    "ASK{?s ?p p:y\u{1} }",
    "ASK{?s ?p :y\u{1}z }",
    "ASK{?s ?p _:\u{1} }",
    "ASK{?s ?p _:b\u{1} }",
    "ASK{?s ?p _:b\u{1}c }",
    "ASK{?s ?p ?\u{1} }",
    "ASK{?s ?p $v\u{1} }",
    "ASK{?s ?p ?v\u{1}w }",
    "ASK{?s ?p p.\u{1}:y }",
    "ASK{?s ?p :y.\u{1}}",
    "ASK{?s ?p :%\u{1}4 }",
    "ASK{?s ?p :x%4\u{1} }",
    "ASK{?s ?p :\\\u{1} }",
    "ASK{?s ?p :y\\\u{1} }",
];
/// Every character in and around strings.
const STRING_SHAPES: &[&str] = &[
    "ASK{?s ?p '\u{1}' }",
    "ASK{?s ?p \"x\u{1}y\" }",
    "ASK{?s ?p \"\"\"x\u{1}\"\"\" }",
    "ASK{?s ?p '''\u{1}x''' }",
    "ASK{?s ?p '\\\u{1}' }",
    "ASK{?s ?p \"\"\"a\\\u{1}b\"\"\" }",
    "ASK{?s ?p 'x'@\u{1} }",
    "ASK{?s ?p 'x'@a\u{1} }",
    "ASK{?s ?p 'x'@a-\u{1} }",
    "ASK{?s ?p 'x'@a-b\u{1} }",
    "ASK{?s ?p 'x'\u{1}a:b }",
    "ASK{?s ?p 'x'^\u{1}a:b }",
    "ASK{?s ?p 'x'^^\u{1}b }",
];
/// Every character between, in front of, behind and inside tokens.
const TOKEN_SHAPES: &[&str] = &[
    "\u{1}ASK{}",
    "ASK{}\u{1}",
    "ASK{}\u{1}LIMIT 1",
    "A\u{1}K{}",
    "ASK\u{1}{}",
    "ASK{?s ?p\u{1}?o}",
    "ASK{?s ?p 1\u{1}2}",
    "ASK{?s ?p ?o\u{1}?s ?p ?o}",
    "ASK{FILTER(1\u{1}2)}",
    "ASK{FILTER(1\u{1}=2)}",
    "ASK{?s a:b\u{1}a:b ?o}",
    "ASK{}#\u{1} LIMIT 1",
    "SELECT\u{1}{}",
    "ASK{FILTER(\u{1}1)}",
    "ASK{?s \u{1}a:b ?o}",
    "ASK{\u{1}}",
];

fn c07(i: u64, s: &mut Src, cx: &mut Cx) {
    // 1 in 40 indices sweeps a block of code points, all others are random
    if i % 40 == 0 {
        // the blocks are spread so that any run covers all planes
        sweep(i / 40, NAME_SHAPES, cx);
        return;
    }
    if i % 40 == 1 && i / 40 < SWEEP_EDGES.with(|e| e.len() as u64) {
        // the ends of the character ranges, always
        let c = SWEEP_EDGES.with(|e| e[(i / 40) as usize]);
        cx.lab("range edge");
        cx.text = format!("edge U+{:04X}", c as u32);
        cx.nontrivial = true;
        sweep_char(NAME_SHAPES, c, cx);
        return;
    }
    if s.chance(1, 3) {
        // near-names made of name and non-name characters
        let mut n = String::new();
        let k = 1 + s.below(7);
        for _ in 0..k {
            match s.below(8) {
                0..=3 => n.push(*s.pick(&['a', 'b', 'x', '1', '9', '_', '-', '.', ':', 'e', 't'])),
                4 => n.push(*s.pick(&['%', '\\', '~', '!', '.', '.', ':', '-', '/', ','])),
                5 => n.push_str(*s.pick(&["%41", "%zz", "%4", "\\-", "\\x", "\\.", "..", "\u{b7}", "\u{e9}"])),
                6 => {
                    let r = *s.pick(lex::PN_BASE_RANGES);
                    let d = s.below(4);
                    let c = match d {
                        0 => r.0,
                        1 => r.1,
                        2 => r.0.saturating_sub(1),
                        _ => r.1 + 1,
                    };
                    n.push(char::from_u32(c).unwrap_or('a'))
                }
                _ => n.push(*s.pick(CHARS)),
            }
        }
        let w = match s.below(8) {
            0 => format!("<{}>", n),
            1 => format!("?{}", n),
            2 => format!("${}", n),
            3 => format!("_:{}", n),
            4 => format!(":{}", n),
            5 => format!("{}:", n),
            6 => format!("p:{}", n),
            _ => {
                let k = s.idx(n.chars().count() + 1);
                let (a, b): (String, String) = (n.chars().take(k).collect(), n.chars().skip(k).collect());
                format!("{}:{}", a, b)
            }
        };
        let ctx = s.below(7);
        let (e, text) = match ctx {
            0 => (Entry::Stmt, format!("ASK{{?s ?p {} }}", w)),
            1 => (Entry::Stmt, format!("ASK{{{} ?p 1 }}", w)),
            2 => (Entry::Stmt, format!("ASK{{?s ?p {}. ?s ?p ?o}}", w)),
            3 => (Entry::Stmt, format!("ASK{{FILTER({} = 1)}}", w)),
            4 => (Entry::Stmt, format!("ASK{{VALUES ?x {{ {} }} }}", w)),
            5 => (Entry::Update, format!("CREATE GRAPH {}", w)),
            _ => (Entry::Stmt, format!("PREFIX {} <> ASK{{}}", w)),
        };
        cx.text = text.clone();
        cx.nontrivial = n.chars().count() > 1;
        match judge_any(cx, e, &text, true) {
            Verdict::Accept(_) => cx.lab("near-name, allowed"),
            Verdict::Reject(_) => cx.lab("near-name, not allowed"),
            Verdict::Unspecified(_) => cx.lab("near-name, undecided"),
        }
        return;
    }
    // valid names in every place a name may stand
    let k = s.below(10);
    let e = if k == 8 { Entry::Update } else { Entry::Stmt };
    valid_case(s, cx, e, 8, |g| {
        let name = |g: &mut G| match g.s.below(6) {
            0 | 1 => g.iri(),
            2 => {
                let (p, l) = (g.name_prefix(), g.name_local());
                g.out.push(Tok { k: K::Pname, s: format!("{}:{}", p, l) })
            }
            3 => g.bnode(),
            4 => g.var(),
            _ => g.iriref(),
        };
        match k {
            0..=3 => {
                g.lab("name in triples");
                g.kw("ASK");
                g.p("{");
                name(g);
                if g.s.chance(1, 2) {
                    g.var()
                } else {
                    g.iri()
                }
                name(g);
                if g.s.chance(1, 3) {
                    g.p(",");
                    name(g);
                }
                if g.s.chance(1, 2) {
                    g.lab("name before a dot");
                    g.p(".");
                    if g.s.chance(1, 2) {
                        name(g);
                        g.iri();
                        name(g);
                    }
                }
                g.p("}");
            }
            4 => {
                g.lab("name in an expression");
                g.kw("ASK");
                g.p("{");
                g.kw("FILTER");
                g.p("(");
                g.iri();
                let o = *g.s.pick(&["=", "<", "-", "+", "*", "/", "||", ">="]);
                g.p(o);
                g.var();
                g.p(")");
                g.p("}");
            }
            5 => {
                g.lab("name in a path");
                g.kw("ASK");
                g.p("{");
                g.var();
                g.iri();
                let o = *g.s.pick(&["/", "|", "*", "+", "?"]);
                g.p(o);
                if o == "/" || o == "|" {
                    g.iri();
                }
                g.var();
                g.p("}");
            }
            6 => {
                g.lab("name after a keyword");
                g.kw("DESCRIBE");
                g.iri();
                g.iri();
                g.kw("FROM");
                g.iri();
            }
            7 => {
                g.lab("datatype name");
                g.kw("ASK");
                g.p("{");
                g.var();
                g.iri();
                g.string();
                g.p("^^");
                g.iri();
                g.p("}");
            }
            8 => {
                g.lab("graph name");
                g.management();
            }
            _ => {
                g.lab("declared name");
                g.prologue(1);
                g.kw("SELECT");
                g.var();
                g.var();
                g.p("{");
                g.p("}");
            }
        }
    });
}

thread_local! {
    static SWEEP_EDGES: Vec<char> = {
        let mut v = vec![];
        for r in lex::PN_BASE_RANGES.iter().chain(lex::PN_EXTRA_RANGES) {
            for c in [r.0.wrapping_sub(1), r.0, r.0 + 1, r.1 - 1, r.1, r.1 + 1] {
                if let Some(c) = char::from_u32(c) {
                    v.push(c);
                }
            }
        }
        v.sort();
        v.dedup();
        v
    };
}
pub fn edges() -> u64 {
    SWEEP_EDGES.with(|e| e.len() as u64)
}

/// One block of code points; any `SWEEP_BLOCKS` numbers in a row cover all.
fn sweep(n: u64, shapes: &[&str], cx: &mut Cx) {
    let b = (n % SWEEP_BLOCKS * 2677) % SWEEP_BLOCKS;
    cx.lab("character sweep");
    cx.text = format!("sweep of U+{:04X}..U+{:04X}", b as u32 * SWEEP_BLOCK, b as u32 * SWEEP_BLOCK + SWEEP_BLOCK - 1);
    cx.nontrivial = true;
    for cp in (b as u32 * SWEEP_BLOCK)..((b as u32 + 1) * SWEEP_BLOCK) {
        if let Some(c) = char::from_u32(cp) {
            if !sweep_char(shapes, c, cx) {
                return;
            }
        }
    }
}

fn sweep_char(shapes: &[&str], c: char, cx: &mut Cx) -> bool {
    for shape in shapes {
        let text = shape.replace('\u{1}', &c.to_string());
        judge_any(cx, Entry::Stmt, &text, true);
        if cx.failed() {
            return false;
        }
    }
    true
}

fn c08(i: u64, s: &mut Src, cx: &mut Cx) {
    if i % 256 == 0 {
        sweep(i / 256, STRING_SHAPES, cx);
        return;
    }
    if s.chance(1, 2) {
        // quote, backslash and content soup
        let mut c = String::new();
        let n = s.below(9);
        for _ in 0..n {
            match s.below(10) {
                0 | 1 => c.push(*s.pick(&['"', '\''])),
                2 => c.push('\\'),
                3 => {
                    c.push('\\');
                    c.push(*s.pick(&['t', 'b', 'n', 'r', 'f', '\\', '"', '\'', 'a', 'u', 'x', '0', ' ', '\u{e9}', '\n', 'T']));
                }
                4 => c.push_str(*s.pick(&["\"\"", "''", "\"\"\"", "'''", "@", "^^", "#", "\n"])),
                5 => c.push(*s.pick(CHARS)),
                _ => c.push(*s.pick(&['a', 'b', ' ', '1', 'n', 't'])),
            }
        }
        let q = *s.pick(&["\"", "'", "\"\"\"", "'''"]);
        let close = if s.chance(1, 10) { *s.pick(&["", "\"", "'", "\"\"", "\"\"\"", "'''"]) } else { q };
        let suffix = match s.below(8) {
            0..=2 => "",
            3 => *s.pick(&["@en", "@en-GB", "@EN-a1-b2", " @en", "@e", "\n@x-1"]),
            4 => *s.pick(&["@", "@1", "@en-", "@-en", "@en--x", "@en_GB", "@\u{e9}n", "@e1", "@en-g\u{e9}"]),
            5 => *s.pick(&[
                "^^a:b", "^^<http://x>", " ^^ :t", "^^#c\n<i>", "^^xsd:string", "^^xsd:boolean", "^^xsd:integer", "^^xsd:double",
                "^^<http://www.w3.org/2001/XMLSchema#string>", "^^<http://www.w3.org/2001/XMLSchema#boolean>", "^^<http://www.w3.org/2001/XMLSchema#integer>",
                "^^rdf:langString",
            ]),
            6 => *s.pick(&["^^", "^a:b", "^^?x", "^^'x'", "^ ^a:b", "^^_:b", "@en^^a:b", "^^a:b@en"]),
            _ => "",
        };
        let lit = format!("{}{}{}{}", q, c, close, suffix);
        let text = match s.below(5) {
            0 | 1 => format!("ASK{{?s ?p {} }}", lit),
            2 => format!("ASK{{?s ?p {} , \"z\" . ?s ?p 'z'}}", lit),
            3 => format!("ASK{{FILTER({} = 'z')}}", lit),
            _ => format!("ASK{{VALUES ?x {{ {} 'z' }} }}", lit),
        };
        cx.text = text.clone();
        cx.nontrivial = c.chars().count() >= 2;
        match judge_any(cx, Entry::Stmt, &text, true) {
            Verdict::Accept(_) => cx.lab("string soup, well-formed"),
            Verdict::Reject(_) => cx.lab("string soup, outside the grammar"),
            Verdict::Unspecified(_) => cx.lab("string soup, undecided"),
        }
        return;
    }
    let k = s.below(6);
    let e = if k == 5 { Entry::Update } else { Entry::Stmt };
    valid_case(s, cx, e, 20, |g| match k {
        0 | 1 => {
            g.lab("string in triples");
            g.kw("ASK");
            g.p("{");
            if g.s.chance(1, 4) {
                g.rdf_literal();
            } else {
                g.var();
            }
            g.iri();
            g.rdf_literal();
            while g.s.chance(1, 3) {
                g.p(",");
                g.rdf_literal();
            }
            g.p("}");
        }
        2 => {
            g.lab("string in an expression");
            g.kw("ASK");
            g.p("{");
            g.kw("FILTER");
            g.p("(");
            g.rdf_literal();
            let o = *g.s.pick(&["=", "<", "+", "||"]);
            g.p(o);
            g.rdf_literal();
            g.p(")");
            g.p("}");
        }
        3 => {
            g.lab("separator string");
            g.kw("SELECT");
            g.p("(");
            g.kw("GROUP_CONCAT");
            g.p("(");
            g.var();
            g.p(";");
            g.kw("SEPARATOR");
            g.p("=");
            g.string();
            g.p(")");
            g.kw("AS");
            g.var();
            g.p(")");
            g.p("{");
            g.p("}");
        }
        4 => {
            g.lab("string in VALUES");
            g.kw("ASK");
            g.p("{");
            g.p("}");
            g.kw("VALUES");
            g.var();
            g.p("{");
            let n = 1 + g.s.len(4);
            for _ in 0..n {
                g.rdf_literal();
            }
            g.p("}");
        }
        _ => {
            g.lab("string in quads");
            g.kw("INSERT");
            g.kw("DATA");
            g.p("{");
            g.iri();
            g.iri();
            g.rdf_literal();
            g.p("}");
        }
    });
}

fn c09(s: &mut Src, cx: &mut Cx) {
    let mut w = String::new();
    let soup = s.chance(2, 5);
    if soup {
        let n = 1 + s.below(9);
        for _ in 0..n {
            w.push(*s.pick(&['0', '1', '9', '5', '.', '.', 'e', 'E', '+', '-', '2', '7', '0', '3', '4', '6']));
        }
        cx.lab("digit soup");
    } else {
        match s.below(6) {
            0 => {
                // integers around the powers of two and the 64-bit ends
                let b = s.below(65);
                let v: i128 = (1i128 << b) + s.below(3) as i128 - 1;
                let v = if s.chance(1, 2) { -v } else { v };
                w = format!("{}", v);
                if v >= 0 && s.chance(1, 3) {
                    w.insert(0, '+');
                }
                cx.lab("integer near a power of two");
            }
            1 => {
                // an integer with many leading zeros or digits
                if s.chance(1, 3) {
                    w.push(*s.pick(&['-', '+']));
                }
                for _ in 0..s.below(24) {
                    w.push('0');
                }
                for _ in 0..1 + s.below(24) {
                    w.push((b'0' + s.below(10) as u8) as char);
                }
                cx.lab("long integer");
            }
            2 => {
                if s.chance(1, 3) {
                    w.push(*s.pick(&['-', '+']));
                }
                for _ in 0..s.below(20) {
                    w.push((b'0' + s.below(10) as u8) as char);
                }
                w.push('.');
                for _ in 0..1 + s.below(24) {
                    w.push((b'0' + s.below(10) as u8) as char);
                }
                cx.lab("decimal");
            }
            3 if s.chance(1, 3) => {
                // far from 1, by digits alone: the smallest and the largest floats
                if s.chance(1, 3) {
                    w.push(*s.pick(&['-', '+']));
                }
                let d: String = (0..1 + s.below(20)).map(|_| (b'0' + s.below(10) as u8) as char).collect();
                let z = "0".repeat(s.below(345) as usize);
                if s.chance(1, 2) {
                    w.push_str(*s.pick(&["", "0", "00"]));
                    w.push('.');
                    w.push_str(&z);
                    w.push_str(&d);
                } else {
                    w.push_str(&d);
                    w.push_str(&z);
                    w.push_str(*s.pick(&[".0", ".5", ".00", ".9999999999999999"]));
                }
                if s.chance(1, 4) {
                    w.push_str(*s.pick(&["e0", "E5", "e-320", "e+7"]));
                }
                cx.lab("extreme decimal");
            }
            3 => {
                w = format!("{}{}", s.below(1 << 30), s.below(1 << 30));
                let k = s.idx(w.len());
                w.insert(k, '.');
                w.push(*s.pick(&['e', 'E']));
                w.push_str(*s.pick(&["", "+", "-"]));
                w.push_str(&format!("{}", s.below(500)));
                cx.lab("double");
            }
            4 => {
                w = (*s.pick(&[
                    "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615",
                    "18446744073709551616", "99999999999999999999", "340282366920938463463374607431768211456", "4294967296", "4294967295",
                    "-2147483649", "2147483648", "1e9223372036854775807", "1e9223372036854775808", "1e-9223372036854775809", "+9223372036854775808",
                ]))
                .to_string();
                cx.lab("64-bit ends");
            }
            _ => {
                w = {
                    let mut g = G::new(s, 5);
                    g.num(true);
                    g.out[0].s.clone()
                };
                cx.lab("numeral");
            }
        }
    }
    if s.chance(1, 12) {
        w = (*s.pick(&["true", "false", "TRUE", "False", "tRuE", "FALSE", "fALSE"])).to_string();
        cx.lab("boolean");
    }
    let ctx = s.below(12);
    let (e, text) = match ctx {
        0 | 1 => (Entry::Stmt, format!("ASK{{?s ?p {} }}", w)),
        2 => (Entry::Stmt, format!("ASK{{?s a:b {} , {} ; ?p {} . }}", w, w, w)),
        3 => (Entry::Stmt, format!("ASK{{FILTER({})}}", w)),
        4 => (Entry::Stmt, format!("ASK{{FILTER(?x + {} * {})}}", w, w)),
        5 => (Entry::Stmt, format!("ASK{{FILTER(?x {} / 2)}}", w)),
        6 => (Entry::Stmt, format!("ASK{{VALUES ?x {{ {} {} }} }}", w, w)),
        7 => (Entry::Stmt, format!("ASK{{VALUES (?x ?y) {{ ({} {}) }} }}", w, w)),
        8 => (Entry::Stmt, format!("ASK{{?s ?p ( {} {} ) }}", w, w)),
        9 => (Entry::Stmt, format!("SELECT (- {} AS ?x) (! {} AS ?y) {{}}", w, w)),
        10 => (Entry::Update, format!("INSERT DATA{{ a:b a:c {} }}", w)),
        _ => (Entry::Stmt, format!("ASK{{}} LIMIT {}", w)),
    };
    cx.text = text.clone();
    cx.nontrivial = w.len() >= 2;
    match judge_any(cx, e, &text, true) {
        Verdict::Accept(_) => cx.lab("well-formed"),
        Verdict::Reject(_) => cx.lab("outside the grammar"),
        Verdict::Unspecified(why) => {
            cx.lab("undecided");
            if why == "integer beyond 64 bits" {
                // whatever comes back, no integer may be made of it
                cx.lab("integer beyond 64 bits");
                let o = cx.run(e, &text);
                if let Out::Ok(r, t) = &o {
                    let n = t.matches("Int(").count();
                    let extra = if ctx == 5 { 1 } else { 0 };
                    if lex::is_blank(&text[*r..]) && n > extra {
                        cx.fail("an integer outside the 64-bit range is returned as an integer", e, &text, "no Int for this numeral".into(), o.brief());
                    }
                }
            }
        }
    }
}

fn c10(s: &mut Src, cx: &mut Cx) {
    let fu = fuel(s).max(15);
    mixed_case(s, cx, Entry::Stmt, fu, |g| {
        let sub = g.s.chance(1, 6);
        match g.s.below(6) {
            _ if sub => {
                g.kw("ASK");
                g.p("{");
                g.kw("SELECT");
                g.p("*");
                g.p("{");
                g.p("}");
            }
            0 => {
                g.kw("DESCRIBE");
                g.var_or_iri();
            }
            1 => {
                g.kw("CONSTRUCT");
                g.kw("WHERE");
                g.p("{");
                g.p("}");
            }
            2 => {
                g.kw("SELECT");
                g.var();
                g.p("{");
                g.p("}");
            }
            3 => {
                g.kw("CONSTRUCT");
                g.p("{");
                g.p("}");
                g.p("{");
                g.p("}");
            }
            _ => {
                g.kw("ASK");
                g.p("{");
                g.p("}");
            }
        }
        let k = g.s.below(16);
        if k & 1 > 0 || k == 0 {
            g.group_by();
        }
        if k & 2 > 0 {
            g.having();
        }
        if k & 4 > 0 {
            g.order_by();
        }
        if k & 8 > 0 || k == 0 {
            g.limit_offset();
        }
        if g.s.chance(1, 8) {
            g.lab("VALUES after modifiers");
            g.values();
        }
        if sub {
            g.lab("in a sub-SELECT");
            g.p("}");
        }
    });
}

fn c11(s: &mut Src, cx: &mut Cx) {
    let fu = fuel(s).max(15);
    mixed_case(s, cx, Entry::Stmt, fu, |g| match g.s.below(4) {
        0 => {
            g.lab("at the end of a query");
            g.query_form_small();
            g.values();
        }
        1 => {
            g.lab("at the end of a sub-SELECT");
            g.kw("ASK");
            g.p("{");
            g.kw("SELECT");
            g.p("*");
            g.p("{");
            g.p("}");
            if g.s.chance(1, 3) {
                g.modifiers();
            }
            g.values();
            g.p("}");
        }
        _ => {
            g.lab("in a pattern");
            g.kw("ASK");
            g.p("{");
            let n = 1 + g.s.len(2);
            for _ in 0..n {
                g.values();
                if g.s.chance(1, 4) {
                    g.p(".");
                }
                if g.s.chance(1, 4) {
                    g.triples(true);
                }
            }
            g.p("}");
        }
    });
}

fn c12(s: &mut Src, cx: &mut Cx) {
    if s.chance(1, 8) {
        // a management operation between others
        valid_case(s, cx, Entry::Update, 20, |g| g.update(false));
    } else {
        mixed_case(s, cx, Entry::Update, 12, |g| g.update(true));
    }
}

fn c13(s: &mut Src, cx: &mut Cx) {
    let fu = fuel(s);
    if s.chance(1, 3) {
        mixed_case(s, cx, Entry::Update, fu, |g| g.update(false));
    } else {
        mixed_case(s, cx, Entry::Update, fu, |g| g.data_update());
    }
}

fn c14(s: &mut Src, cx: &mut Cx) {
    let fu = fuel(s).min(30);
    let upd = s.chance(1, 3);
    if s.chance(1, 4) {
        // near-declarations, decided by the reference
        let e = if upd { Entry::Update } else { Entry::Stmt };
        let toks = gen(s, cx, fu, |g| {
            g.prologue(2);
            if upd {
                g.update_op()
            } else {
                g.kw("ASK");
                g.p("{");
                g.p("}");
            }
        });
        let text = mutated_text(s, cx, &toks);
        cx.text = text.clone();
        cx.nontrivial = true;
        judge_any(cx, e, &text, true);
        return;
    }
    let mut pl = 0;
    let toks = gen(s, cx, fu, |g| {
        let n = g.count(0);
        g.prologue(n);
        pl = g.out.len();
        g.fuel = g.fuel.max(8);
        if upd {
            g.update_op()
        } else {
            g.query()
        }
    });
    let text = render(s, cx, &toks);
    cx.text = text.clone();
    cx.nontrivial = pl > 0;
    if cx.failed() {
        return;
    }
    let e = if upd { Entry::Update } else { Entry::Stmt };
    must_parse(cx, e, &text);
    if cx.failed() {
        return;
    }
    // what follows the prologue is parsed as if it stood alone
    let words = layout::texts(&toks[pl..], s);
    let alone = layout::join(&words, Mode::Spaced, s, false);
    let (a, b) = if upd {
        let f = |t: &str| nom_sparql::verif::update(t).ok().map(|(_, u)| format!("{:?} {:?}", u.update_stmt, u.inner_update));
        (f(&text), f(&alone))
    } else {
        let f = |t: &str| nom_sparql::parser::sparql_query_stmt(t).ok().map(|(_, u)| format!("{:?} {:?}", u.query, u.values));
        (f(&text), f(&alone))
    };
    cx.evals += 1;
    if a != b {
        cx.fail("the prologue changes how what follows is read", e, &text, format!("as for {:?}: {:?}", alone, b), format!("{:?}", a));
    }
}

fn any_request(g: &mut G) -> Entry {
    if g.s.chance(1, 4) {
        g.update(false);
        Entry::Update
    } else {
        g.stmt();
        Entry::Stmt
    }
}

fn c15(s: &mut Src, cx: &mut Cx) {
    let fu = fuel(s);
    let mut e = Entry::Stmt;
    let toks = gen(s, cx, fu, |g| e = any_request(g));
    let words = layout::texts(&toks, s);
    let base = layout::join(&words, Mode::Spaced, s, false);
    cx.text = base.clone();
    let tree = match must_parse(cx, e, &base) {
        Some(t) => t,
        None => return,
    };
    if cx.failed() {
        return;
    }
    for m in [Mode::Tight, Mode::Wild, Mode::Wild] {
        let v = layout::join(&words, m, s, true);
        if !layout::faithful(&v, &words) {
            cx.harness = Some(format!("layout changed the tokens: {}", v));
            return;
        }
        if v != base {
            cx.nontrivial = true;
        }
        let o = cx.run(e, &v);
        match &o {
            Out::Ok(r, t) if lex::is_blank(&v[*r..]) && *t == tree => {}
            _ => {
                cx.fail("another layout of the same tokens is read differently", e, &v, format!("as for {:?}: {}", base, tree), o.brief());
                return;
            }
        }
    }
    // a single gap changed: shrinks to the exact place
    if words.len() > 1 {
        let at = 1 + s.idx(words.len() - 1);
        let empties = (words[at - 1] == "(" && words[at] == ")") || (words[at - 1] == "[" && words[at] == "]");
        let tr = layout::trivia(s, !empties);
        let mut v = String::new();
        for (i, w) in words.iter().enumerate() {
            if i == at {
                v.push_str(&tr);
            } else if i > 0 {
                v.push(' ');
            }
            v.push_str(w);
        }
        // `<#>` is no comment
        if !layout::faithful(&v, &words) {
            return;
        }
        let o = cx.run(e, &v);
        match &o {
            Out::Ok(r, t) if lex::is_blank(&v[*r..]) && *t == tree => {}
            _ => cx.fail("another layout of the same tokens is read differently", e, &v, format!("as for {:?}: {}", base, tree), o.brief()),
        }
    }
}

const COMMON: &[&str] = &["SELECT", "WHERE", "FILTER", "AS", "DISTINCT", "GRAPH", "UNION", "OPTIONAL", "BIND", "VALUES", "PREFIX", "BASE", "FROM", "NAMED", "a", "true", "false"];

fn c16(s: &mut Src, cx: &mut Cx) {
    let fu = fuel(s);
    let mut e = Entry::Stmt;
    let toks = gen(s, cx, fu, |g| e = any_request(g));
    let upper: Vec<String> = toks.iter().map(|t| t.s.clone()).collect();
    let base = layout::join(&upper, Mode::Spaced, s, false);
    cx.text = base.clone();
    let tree = match must_parse(cx, e, &base) {
        Some(t) => t,
        None => return,
    };
    if cx.failed() {
        return;
    }
    cx.nontrivial = toks.iter().filter(|t| t.k == K::Kw).count() >= 2;
    for mode in 1..5 {
        let words: Vec<String> = toks.iter().map(|t| layout::recase(t, mode, s)).collect();
        let v = layout::join(&words, Mode::Spaced, s, false);
        let o = cx.run(e, &v);
        match &o {
            Out::Ok(r, t) if lex::is_blank(&v[*r..]) && *t == tree => {}
            _ => {
                cx.fail("another letter case of the keywords is read differently", e, &v, format!("as for {:?}: {}", base, tree), o.brief());
                return;
            }
        }
    }
    // a single keyword changed
    let kws: Vec<usize> = (0..toks.len()).filter(|&i| toks[i].k == K::Kw).collect();
    if !kws.is_empty() {
        let i = *s.pick(&kws);
        let mut words = upper.clone();
        words[i] = layout::recase(&toks[i], 1 + s.below(3), s);
        let v = layout::join(&words, Mode::Spaced, s, false);
        let o = cx.run(e, &v);
        match &o {
            Out::Ok(r, t) if lex::is_blank(&v[*r..]) && *t == tree => {}
            _ => {
                cx.fail("another letter case of one keyword is read differently", e, &v, format!("as for {:?}: {}", base, tree), o.brief());
                return;
            }
        }
    }
    // a keyword with one character that only looks like its letter; the rarer
    // words get their share
    if !kws.is_empty() {
        let rare: Vec<usize> = kws.iter().copied().filter(|&i| !COMMON.contains(&toks[i].s.as_str())).collect();
        let from = if !rare.is_empty() && s.chance(1, 2) { &rare } else { &kws };
        let i = *s.pick(from);
        let w: Vec<char> = layout::recase(&toks[i], 1 + s.below(3), s).chars().collect();
        let k = s.idx(w.len());
        let fake: &[char] = match w[k].to_ascii_lowercase() {
            's' => &['\u{17f}', '\u{ff33}', '\u{ff53}', '\u{1e9e}', '\u{15f}'],
            'i' => &['\u{131}', '\u{130}', '\u{ff29}', '\u{ff49}', '\u{ed}'],
            'k' => &['\u{212a}', '\u{ff2b}', '\u{ff4b}'],
            'a' => &['\u{ff21}', '\u{ff41}', '\u{e5}', '\u{212b}', '\u{430}'],
            'e' => &['\u{ff25}', '\u{ff45}', '\u{e9}', '\u{435}'],
            'o' => &['\u{ff2f}', '\u{ff4f}', '\u{f6}', '\u{43e}'],
            _ => &['\u{ff21}', '\u{300}', '-', '_', '0', '\u{e9}'],
        };
        // the same letter from the fullwidth forms or the mathematical letters
        let l = w[k].to_ascii_lowercase();
        let wide: Vec<char> = if l.is_ascii_alphabetic() {
            let d = l as u32 - 'a' as u32;
            [0xff21 + d, 0xff41 + d, 0x1d400 + d, 0x1d41a + d].iter().filter_map(|&c| char::from_u32(c)).collect()
        } else {
            vec![]
        };
        let fake = if !wide.is_empty() && s.chance(1, 2) { &wide[..] } else { fake };
        let mut w2 = w.clone();
        match s.below(6) {
            0 => {
                w2.remove(k);
            }
            1 => w2.insert(k, w[k]),
            2 => {
                w2.insert(k + 1, *s.pick(&['\u{300}', '\u{307}', '-', '_', '1', '\u{b7}', 's']));
            }
            _ => w2[k] = *s.pick(fake),
        }
        if !w2.is_empty() {
            cx.lab("a word that only resembles a keyword");
            let mut words = upper.clone();
            words[i] = w2.into_iter().collect();
            let v = layout::join(&words, Mode::Spaced, s, false);
            judge_any(cx, e, &v, true);
            if cx.failed() {
                return;
            }
            cx.unspecified = false;
        }
    }
    // a letter changed in other text
    let others: Vec<usize> = (0..toks.len())
        .filter(|&i| matches!(toks[i].k, K::Iri | K::Pname | K::Var | K::Bnode | K::Lang | K::Str))
        .collect();
    if others.is_empty() {
        return;
    }
    let i = *s.pick(&others);
    let b = upper[i].as_bytes();
    let pos: Vec<usize> =
        (0..b.len()).filter(|&k| b[k].is_ascii_alphabetic() && (k == 0 || b[k - 1] != b'\\')).collect();
    if pos.is_empty() {
        return;
    }
    let k = *s.pick(&pos);
    let mut nb = b.to_vec();
    nb[k] ^= 0x20;
    let mut words = upper.clone();
    words[i] = String::from_utf8(nb).unwrap();
    let v = layout::join(&words, Mode::Spaced, s, false);
    cx.lab("letter case of a name or string");
    match verdict(&v, e) {
        Verdict::Accept(t2) => {
            if t2 == tree {
                cx.harness = Some(format!("reference ignores letter case: {}", v));
                return;
            }
            must_parse(cx, e, &v);
        }
        x => cx.harness = Some(format!("case change left the grammar: {:?} {}", x, v)),
    }
}

pub fn soup(s: &mut Src, max: u32) -> String {
    let mut w = String::new();
    let n = s.below(max);
    for _ in 0..n {
        match s.below(6) {
            0 => w.push(*s.pick(CHARS)),
            1 => {
                let t = pool_tok(s);
                w.push_str(&t.s);
            }
            2 => {
                let t = pool_tok(s);
                w.push(' ');
                w.push_str(&t.s);
                w.push(' ');
            }
            3 => w.push(char::from_u32(s.below(0x250)).unwrap_or('x')),
            4 => w.push(char::from_u32(s.below(0x110000)).unwrap_or('y')),
            _ => w.push(*s.pick(&['?', 'x', ' ', '{', '}', '.', '(', ')'])),
        }
    }
    w
}

const OPENERS: &[&str] = &[
    "{", "(", "[", "[ a ", "( ( ", "{ { ", "OPTIONAL {", "FILTER (", "FILTER(!(", "{ SELECT * {", "STR(", "[ a:b ( ", "^(", "!(", "NOT EXISTS {",
    "VALUES (", "GRAPH ?g {", "COUNT(", "IF(", "a:b(", "?x IN (", "(((", "- (", "EXISTS {", "UNION {", "{ ?s ?p [", "COALESCE(1,", "SUM(DISTINCT ",
];

/// The text within a larger buffer, `at` bytes behind a multiple of sixteen,
/// with other text around it.
fn elsewhere<X>(text: &str, at: usize, before: &str, after: &str, f: impl FnOnce(&str) -> X) -> X {
    let mut room: Vec<u8> = Vec::with_capacity(text.len() + before.len() + after.len() + 64);
    let from = (16 - (room.as_ptr() as usize + before.len()) % 16) % 16 + at % 16;
    room.resize(from, b' ');
    room.extend_from_slice(before.as_bytes());
    let lo = room.len();
    room.extend_from_slice(text.as_bytes());
    let hi = room.len();
    room.extend_from_slice(after.as_bytes());
    f(&std::str::from_utf8(&room).unwrap()[lo..hi])
}

const SURROUNDINGS: &[(&str, &str)] = &[("", ""), ("ASK { ", " }"), ("\u{e9}", "\u{1f600}"), ("\n", "\n"), ("'", "'"), ("#", "\"\"\""), ("<", ">"), ("0", "0")];

pub fn total(cx: &mut Cx, text: &str, again: bool) {
    for &e in ENTRIES {
        let o = cx.run(e, text);
        match &o {
            Out::Ok(..) | Out::Err(_) => {}
            _ => {
                cx.fail("a parser must return a tree or an error", e, text, "a tree or an error".into(), o.brief());
                return;
            }
        }
        // once more, elsewhere in memory
        let places = if text.len() < 16 || again { 16 } else { 1 };
        let first = text.len() * 7 + e as usize * 5 + text.bytes().next().unwrap_or(0) as usize;
        for at in first..first + places {
            let (before, after) = SURROUNDINGS[at / 3 % SURROUNDINGS.len()];
            let p = elsewhere(text, at, before, after, |t| cx.run(e, t));
            if p != o {
                cx.fail("parsing the same text again, at another place in memory, gives another outcome", e, text, o.brief(), p.brief());
                return;
            }
        }
        if again {
            let t2 = text.to_string();
            let q = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || sut::run(e, &t2))
                .unwrap()
                .join();
            match q {
                Ok(q) if q == o => {}
                q => {
                    cx.fail("parsing the same text in another thread gives another outcome", e, text, o.brief(), format!("{:?}", q.map(|q| q.brief()).ok()));
                    return;
                }
            }
        }
    }
}

/// Outcome of every entry point on a text, one line each.
pub fn outcomes(text: &str) -> String {
    ENTRIES.iter().map(|&e| format!("{:?} {:?}\n", e, sut::run(e, text))).collect()
}

fn on_thread<X: Send + 'static>(f: impl FnOnce() -> X + Send + 'static) -> Option<X> {
    std::thread::Builder::new().stack_size(256 << 20).spawn(f).unwrap().join().ok()
}

/// The outcome in a process that parses nothing else, with another working
/// directory and environment.
fn in_fresh_process(text: &str) -> Option<String> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let mut ch = Command::new(std::env::current_exe().ok()?)
        .arg("outcomes")
        .env_clear()
        .env("LC_ALL", "tr_TR.UTF-8")
        .env("TZ", "Asia/Kolkata")
        .current_dir("/")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let mut h = ch.stdin.take()?;
    let t = text.to_string();
    let w = std::thread::spawn(move || {
        let _ = h.write_all(t.as_bytes());
    });
    let o = ch.wait_with_output().ok()?;
    let _ = w.join();
    // a process that could not be run or was ended says nothing
    if !o.status.success() {
        return None;
    }
    Some(String::from_utf8_lossy(&o.stdout).into_owned())
}

/// Several texts parsed one after another, some of them many times, must each
/// give the outcome they give alone.
fn session(i: u64, s: &mut Src, cx: &mut Cx) {
    cx.lab("session of several texts");
    let n = 2 + s.len(6);
    let mut texts: Vec<String> = vec![];
    for _ in 0..n {
        if !texts.is_empty() && s.chance(1, 4) {
            // shares most of its text with an earlier one
            let t = s.pick(&texts).clone();
            if s.chance(1, 2) {
                // as long as the earlier one
                let mut cs: Vec<char> = t.chars().collect();
                let at: Vec<usize> = (0..cs.len()).filter(|&k| cs[k].is_ascii_alphanumeric()).collect();
                if !at.is_empty() {
                    let k = *s.pick(&at);
                    cs[k] = *s.pick(&['x', 'y', '1', '2', 'A', 's']);
                }
                texts.push(cs.into_iter().collect());
                continue;
            }
            texts.push(mutate_chars(s, &t));
            continue;
        }
        let fu = *s.pick(&[0, 4, 8, 15, 30]);
        let toks = gen(s, cx, fu, |g| {
            any_request(g);
        });
        let t = if s.chance(1, 3) { mutated_text(s, cx, &toks) } else { render(s, cx, &toks) };
        texts.push(t);
    }
    let steps: Vec<(usize, Entry, u32)> = (0..2 * n + s.below(8) as usize)
        .map(|_| {
            let k = s.idx(texts.len());
            let e = *s.pick(ENTRIES);
            let r = *s.pick(&[1, 1, 1, 1, 2, 3, 40]);
            (k, e, if s.chance(1, 40) { *s.pick(&[300, 3000, 70_000]) } else { r })
        })
        .collect();
    // all texts read from one place in memory, written over each time
    let reuse = s.chance(1, 2);
    if reuse {
        cx.lab("session in one buffer");
    }
    cx.text = format!("{:?} {:?}{}", texts, steps, if reuse { " in one buffer" } else { "" });
    cx.nontrivial = true;
    let mut alone: Vec<Vec<Out>> = vec![];
    for t in &texts {
        let t2 = t.clone();
        cx.evals += ENTRIES.len() as u64;
        match on_thread(move || ENTRIES.iter().map(|&e| sut::run(e, &t2)).collect::<Vec<Out>>()) {
            Some(o) => alone.push(o),
            None => return,
        }
    }
    for (t, o) in texts.iter().zip(&alone) {
        for (e, o) in ENTRIES.iter().zip(o) {
            if !matches!(o, Out::Ok(..) | Out::Err(_)) {
                cx.fail("a parser must return a tree or an error", *e, t, "a tree or an error".into(), o.brief());
                return;
            }
        }
    }
    let (t2, s2, a2) = (texts.clone(), steps.clone(), alone.clone());
    let r = on_thread(move || {
        let mut calls = 0u64;
        let mut buf = String::with_capacity(t2.iter().map(|t| t.len()).max().unwrap_or(0));
        for (at, &(k, e, rep)) in s2.iter().enumerate() {
            let text: &str = if reuse {
                buf.clear();
                buf.push_str(&t2[k]);
                &buf
            } else {
                &t2[k]
            };
            let j = ENTRIES.iter().position(|x| *x == e).unwrap();
            let rep = if t2[k].len() > 200 { rep.min(300) } else { rep };
            for _ in 0..rep {
                calls += 1;
                let o = sut::run(e, text);
                if o != a2[k][j] {
                    return (calls, Some((at, k, e, a2[k][j].brief(), o.brief())));
                }
            }
        }
        (calls, None)
    });
    let Some((calls, bad)) = r else { return };
    cx.evals += calls;
    if let Some((at, k, e, want, got)) = bad {
        let hist: Vec<String> = steps[..=at].iter().map(|(k, e, r)| format!("{} x {:?} on text {}", r, e, k)).collect();
        cx.fail(
            "the outcome of a parse depends on the parses before it",
            e,
            &texts[k],
            want,
            format!("{} after [{}] of texts {:?}", got, hist.join(", "), texts),
        );
        return;
    }
    if (i / 20) % 16 == 0 {
        cx.lab("compared with a fresh process");
        for (t, o) in texts.iter().zip(&alone) {
            let here: String = ENTRIES.iter().zip(o).map(|(e, o)| format!("{:?} {:?}\n", e, o)).collect();
            if let Some(there) = in_fresh_process(t) {
                if here != there {
                    cx.fail("a parse in a fresh process with another environment gives another outcome", Entry::Stmt, t, there, here);
                    return;
                }
            }
        }
    }
}

fn c17(i: u64, s: &mut Src, cx: &mut Cx) {
    let again = i % 64 == 0;
    if i % 20 == 7 {
        session(i, s, cx);
        return;
    }
    let k = s.below(8);
    match k {
        0 => {
            cx.lab("arbitrary Unicode");
            let n = s.below(30);
            let mut w = String::new();
            for _ in 0..n {
                let c = match s.below(3) {
                    0 => s.below(0x80),
                    1 => s.below(0x800),
                    _ => s.below(0x110000),
                };
                w.push(char::from_u32(c).unwrap_or('\u{fffd}'));
            }
            cx.text = w.clone();
            cx.nontrivial = n >= 3;
            total(cx, &w, again);
        }
        1 => {
            cx.lab("token soup");
            let start = *s.pick(&["", "ASK {", "SELECT ", "DESCRIBE ", "CONSTRUCT {", "INSERT DATA {", "ASK { FILTER (", "ASK {} ", "PREFIX ", "DELETE ", "WHERE { "]);
            let w = format!("{}{}", start, soup(s, 24));
            cx.text = w.clone();
            cx.nontrivial = w.len() > 6;
            total(cx, &w, again);
        }
        2 => {
            cx.lab("every prefix of a well-formed text");
            let fu = *s.pick(&[8, 8, 15, 20]);
            let toks = gen(s, cx, fu, |g| {
                any_request(g);
            });
            let w = render(s, cx, &toks);
            cx.text = w.clone();
            cx.nontrivial = true;
            let mut cuts = 0;
            for (k, _) in w.char_indices() {
                cuts += 1;
                if cuts > 250 {
                    break;
                }
                total(cx, &w[..k], false);
                if cx.failed() {
                    return;
                }
            }
        }
        3 | 4 => {
            let fu = fuel(s);
            let toks = gen(s, cx, fu, |g| {
                any_request(g);
            });
            let w = mutated_text(s, cx, &toks);
            cx.text = w.clone();
            cx.nontrivial = w.len() > 6;
            total(cx, &w, again);
        }
        5 => {
            cx.lab("unclosed nesting");
            let n = *s.pick(&[3, 8, 20, 40, 80]);
            let mut w = (*s.pick(&["ASK {", "ASK { FILTER ", "SELECT ", "CONSTRUCT {", "INSERT DATA {", "ASK {} HAVING ", "ASK { ?s ", "ASK { ?s ?p "])).to_string();
            let o = *s.pick(OPENERS);
            let o2 = *s.pick(OPENERS);
            let mix = s.chance(1, 3);
            for _ in 0..n {
                w.push_str(if mix && s.chance(1, 2) { o2 } else { o });
            }
            if s.chance(1, 2) {
                w.push_str(&soup(s, 6));
            }
            cx.text = w.clone();
            cx.nontrivial = true;
            total(cx, &w, again);
        }
        6 => {
            cx.lab("text around multi-byte characters");
            let c = char::from_u32(*s.pick(&[0xe9u32, 0x20ac, 0x1f600, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0x80, 0xa0, 0x2028])).unwrap();
            let toks = gen(s, cx, 15, |g| {
                any_request(g);
            });
            let w = render(s, cx, &toks);
            cx.text = w.clone();
            cx.nontrivial = true;
            let mut n = 0;
            for (k, _) in w.char_indices() {
                n += 1;
                if n > 200 {
                    break;
                }
                let t = format!("{}{}{}", &w[..k], c, &w[k..]);
                total(cx, &t, false);
                if cx.failed() {
                    return;
                }
            }
        }
        _ => {
            cx.lab("well-formed");
            let fu = fuel(s);
            let toks = gen(s, cx, fu, |g| {
                any_request(g);
            });
            let w = render(s, cx, &toks);
            cx.text = w.clone();
            cx.nontrivial = true;
            total(cx, &w, again);
        }
    }
}

/// Well-formed texts, tokens apart, that together use every production.
const SEEDS: &[(Entry, &str)] = &[
    (Entry::Stmt, "BASE <b> PREFIX ex: <x> PREFIX : <y> ASK { }"),
    (Entry::Stmt, "SELECT DISTINCT ?x ( 1 AS ?y ) FROM <a> FROM NAMED a:b WHERE { ?s ?p ?o . }"),
    (Entry::Stmt, "SELECT REDUCED * { } GROUP BY ?x HAVING ( 1 ) ORDER BY DESC ( ?x ) ?y LIMIT 1 OFFSET 2 VALUES ?x { 1 UNDEF }"),
    (Entry::Stmt, "SELECT ?x { } OFFSET 3 LIMIT 4 VALUES ( ?x ?y ) { ( 1 UNDEF ) ( true 's' ) ( ) }"),
    (Entry::Stmt, "CONSTRUCT { ?s a ?o ; ?p 1 , 2 . } FROM <g> WHERE { } LIMIT 1"),
    (Entry::Stmt, "CONSTRUCT FROM NAMED <g> WHERE { ?s ?p ?o . a:b a [ ] } OFFSET 1"),
    (Entry::Stmt, "CONSTRUCT WHERE { }"),
    (Entry::Stmt, "DESCRIBE ?x a:b <c> FROM <g> { } LIMIT 1"),
    (Entry::Stmt, "DESCRIBE * WHERE { } ORDER BY ASC ( 1 )"),
    (Entry::Stmt, "DESCRIBE <x>"),
    (Entry::Stmt, "ASK FROM <a> WHERE { { } UNION { } UNION { } . OPTIONAL { } MINUS { } . }"),
    (Entry::Stmt, "ASK { GRAPH ?g { } SERVICE SILENT <s> { } SERVICE ?s { } GRAPH a:b { } }"),
    (Entry::Stmt, "ASK { ?s ?p ?o FILTER ( 1 ) ?s ?p ?o . BIND ( 1 AS ?x ) . }"),
    (Entry::Stmt, "ASK { FILTER STR ( 1 ) FILTER a:f ( 1 , 2 ) FILTER EXISTS { } FILTER NOT EXISTS { } }"),
    (Entry::Stmt, "ASK { VALUES ?x { <a> a:b 'c' 1.5 false UNDEF } VALUES ( ) { ( ) } }"),
    (Entry::Stmt, "ASK { { SELECT ?x WHERE { } LIMIT 1 VALUES ?x { 1 } } }"),
    (Entry::Stmt, "ASK { SELECT * { } GROUP BY ( 1 AS ?x ) ( 2 ) STR ( 1 ) a:f ( ) }"),
    (Entry::Stmt, "ASK { ?s ?p ?o , 1 ; a ?x ; ; ?p _:b . ( 1 ?x ( ) ) ?p [ a 1 ; ?p 2 ] ; . [ ?p 1 ] . }"),
    (Entry::Stmt, "ASK { 's' @en ?p 's' ^^ a:b . 1 ?p -2.5 . true ?p +1e3 . [ ] ?p ( ) . [ a b:c ] a 1 }"),
    (Entry::Stmt, "ASK { ?s a / b:c | ^ <d> ? / ( a * ) + ?o ; ! a ?o ; ! ( a | ^ b:c ) ?o ; ! ^ a ?o }"),
    (Entry::Stmt, "ASK { ?s ^ ( a / ! ( ) ) ?o , ( 1 [ a / a 2 ] ) ; ?p ?o }"),
    (Entry::Stmt, "ASK { FILTER ( ?x || 1 && true || ! false ) }"),
    (Entry::Stmt, "ASK { FILTER ( ?x + 1 * - 2 - ( 3 / ?y ) +4 -5 * 6 = 7 ) }"),
    (Entry::Stmt, "ASK { FILTER ( ?x IN ( 1 , ?y ) && ?x NOT IN ( ) || 1 <= 2 ) }"),
    (Entry::Stmt, "ASK { FILTER ( 's' @en != 's' ^^ <d> ) FILTER ( a:b < a:f ( DISTINCT 1 , 2 ) ) FILTER ( <f> ( ) > 'x' ) }"),
    (Entry::Stmt, "ASK { FILTER ( COUNT ( DISTINCT * ) + COUNT ( * ) + COUNT ( 1 ) + SUM ( DISTINCT ?x ) ) }"),
    (Entry::Stmt, "ASK { FILTER ( GROUP_CONCAT ( DISTINCT ?x ; SEPARATOR = ',' ) = SAMPLE ( ?x ) ) }"),
    (Entry::Stmt, "ASK { FILTER ( BOUND ( ?x ) && BNODE ( ) = BNODE ( 1 ) ) }"),
    (Entry::Stmt, "ASK { FILTER ( IF ( 1 , 2 , 3 ) = COALESCE ( 1 , 2 ) || CONCAT ( ) ) }"),
    (Entry::Stmt, "ASK { FILTER ( SUBSTR ( 1 , 2 , 3 ) = REPLACE ( 1 , 2 , 3 , 4 ) || REGEX ( 1 , 2 ) ) }"),
    (Entry::Stmt, "ASK { FILTER ( RAND ( ) = NOW ( ) ) FILTER CONTAINS ( 1 , 2 ) FILTER ISIRI ( ?x ) }"),
    (Entry::Stmt, "ASK { FILTER ( EXISTS { ?s ?p ?o } && NOT EXISTS { } ) }"),
    (Entry::Stmt, "ASK { } HAVING ( 1 ) STR ( 1 ) a:f ( ) ORDER BY ( 1 ) STR ( 1 ) a:f ( ) ?x ASC ( 1 )"),
    (Entry::Update, "PREFIX a: <b> LOAD SILENT <a> INTO GRAPH <b> ; CLEAR SILENT ALL ; DROP NAMED ; CREATE GRAPH a:b ;"),
    (Entry::Update, "LOAD <a> ; CLEAR DEFAULT ; DROP SILENT GRAPH <g> ; CREATE SILENT GRAPH <g>"),
    (Entry::Update, "ADD SILENT DEFAULT TO <g> ; MOVE GRAPH a:b TO DEFAULT ; COPY <a> TO GRAPH <b> ; BASE <x>"),
    (Entry::Update, "INSERT DATA { ?s ?p ?o . GRAPH <g> { ?s ?p ?o . } . ?s ?p 1 , 2 GRAPH ?g { } }"),
    (Entry::Update, "DELETE DATA { GRAPH <g> { } } ; DELETE WHERE { ?s ?p ?o }"),
    (Entry::Update, "WITH <g> DELETE { ?s ?p ?o } INSERT { ?s ?p ?o } USING <u> USING NAMED a:b WHERE { ?s ?p ?o }"),
    (Entry::Update, "INSERT { } USING <u> WHERE { } ; DELETE { } WHERE { } ; WITH a:b INSERT { } WHERE { }"),
    (Entry::SubConstruct, "{ ?s ?p ?o . a:b a 1 , 2 ; ?p 3 . } WHERE { }"),
    (Entry::SubTriples, "{ ?s ?p ?o . ( 1 ) a [ a 1 ] }"),
    (Entry::Ask, "ASK FROM NAMED <g> { ?s ?p ?o } LIMIT 1"),
    (Entry::Describe, "DESCRIBE ?x { ?s ?p ?o } LIMIT 1"),
];

fn vocabulary() -> &'static Vec<String> {
    static V: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    V.get_or_init(|| {
        let mut v: Vec<String> = lex::KEYWORDS.iter().filter(|k| **k != "A").map(|k| k.to_string()).collect();
        v.extend(POOL.iter().map(|p| p.0.to_string()));
        v.extend(FOREIGN.iter().map(|p| p.to_string()));
        v
    })
}

/// Words and marks of related languages that SPARQL 1.1 does not have.
const FOREIGN: &[&str] = &[
    ":=", "=>", "->", "<-", "==", "===", "<>", "::", ":-", "..", "...", "--", "++", "**", "//", "~", "%", "&", "\\", "`", "@", "??", "!!", "<<", ">>", "{|", "|}",
    "<<>>", "'", "\"", "AND", "OR", "XOR", "MOD", "DIV", "LIKE", "BETWEEN", "NULL", "LET", "ALL", "ON", "EXCEPT", "@prefix", "@base", "_", "0x1", "1_0", "1f", "%a", "^-", "|+",
];

const SEPARATORS: &[&str] = &[",", ";", ".", "|", "/", "=", "&&", "||", "+", "-", "*", "^", "^^", "AS", "IN"];
const ITEMS: &[&str] = &["?x", "1", "a:b", "'s'", "*", "( )", "( ?x )", "{ }", "DISTINCT ?x"];

/// The single edits of the seeds, numbered: inserting or replacing a token by
/// one of the vocabulary, dropping, doubling, swapping, cutting off; inserting a
/// separator with an item, or a whole clause; the neighbours of a token changing
/// places around another token.
fn single_edit(n: u64) -> Option<(Entry, String)> {
    static AT: std::sync::OnceLock<Vec<(u64, Vec<&'static str>)>> = std::sync::OnceLock::new();
    let v = vocabulary();
    let at = AT.get_or_init(|| {
        let mut sum = 0;
        SEEDS
            .iter()
            .map(|(_, t)| {
                let w: Vec<&str> = t.split(' ').collect();
                let from = sum;
                sum += (w.len() as u64 + 1) * (3 * vocabulary().len() + 4 + 2 * SEPARATORS.len() * ITEMS.len() + CLAUSES.len()) as u64;
                (from, w)
            })
            .collect()
    });
    let k = at.partition_point(|(from, _)| *from <= n) - 1;
    let (from, words) = &at[k];
    let pairs = SEPARATORS.len() * ITEMS.len();
    let (per, n) = ((3 * v.len() + 4 + 2 * pairs + CLAUSES.len()) as u64, n - from);
    let (pos, op) = ((n / per) as usize, (n % per) as usize);
    if pos > words.len() {
        return None;
    }
    let mut w: Vec<&str> = words.clone();
    if op >= 2 * v.len() + 4 + 2 * pairs + CLAUSES.len() {
        // the neighbours of a word change places, around another word
        if pos == 0 || pos + 1 >= w.len() {
            return Some((SEEDS[k].0, w.join(" ")));
        }
        w.swap(pos - 1, pos + 1);
        w[pos] = &v[op - (2 * v.len() + 4 + 2 * pairs + CLAUSES.len())];
    } else if op >= 2 * v.len() + 4 + 2 * pairs {
        w.splice(pos..pos, CLAUSES[op - (2 * v.len() + 4 + 2 * pairs)].split(' '));
    } else if op >= 2 * v.len() + 4 {
        // a separator and an item, either first
        let k = op - 2 * v.len() - 4;
        let (sep, item) = (SEPARATORS[k / 2 % SEPARATORS.len()], ITEMS[k / 2 / SEPARATORS.len()]);
        let two = if k % 2 == 0 { [sep, item] } else { [item, sep] };
        w.splice(pos..pos, two);
    } else if op < v.len() {
        w.insert(pos, &v[op]);
    } else if pos == words.len() {
        return Some((SEEDS[k].0, w.join(" ")));
    } else if op < 2 * v.len() {
        w[pos] = &v[op - v.len()];
    } else {
        match op - 2 * v.len() {
            0 => {
                w.remove(pos);
            }
            1 => w.insert(pos, w[pos]),
            2 => {
                if pos + 1 < w.len() {
                    w.swap(pos, pos + 1)
                }
            }
            _ => w.truncate(pos),
        }
    }
    Some((SEEDS[k].0, w.join(" ")))
}

fn c18(i: u64, s: &mut Src, cx: &mut Cx) {
    if i % 128 == 1 {
        sweep(i / 128, TOKEN_SHAPES, cx);
        return;
    }
    if i % 2 == 0 {
        if let Some((e, text)) = single_edit(i / 2) {
            cx.lab("every single edit of the seed texts");
            cx.text = text.clone();
            judge18(cx, e, &text);
            return;
        }
        cx.lab("two or three edits of a seed text");
        let (e, t) = *s.pick(SEEDS);
        let mut w: Vec<&str> = t.split(' ').collect();
        for _ in 0..2 + s.below(2) {
            let at = s.idx(w.len() + 1);
            let v: &str = s.pick(vocabulary());
            match s.below(5) {
                0 | 1 => w.insert(at, v),
                4 => {
                    w.splice(at..at, s.pick(CLAUSES).split(' '));
                }
                2 if at < w.len() => w[at] = v,
                _ if at < w.len() => {
                    w.remove(at);
                }
                _ => {}
            }
        }
        let text = w.join(" ");
        cx.text = text.clone();
        judge18(cx, e, &text);
        return;
    }
    let k = s.below(8);
    let mut e = Entry::Stmt;
    let text = match k {
        0 => {
            cx.lab("token soup");
            let start = *s.pick(&["", "ASK {", "SELECT ", "DESCRIBE ", "CONSTRUCT {", "INSERT DATA {", "ASK { FILTER (", "ASK {} ", "PREFIX ", "DELETE "]);
            if start.starts_with("INS") || start.starts_with("DEL") {
                e = Entry::Update;
            }
            format!("{}{}", start, soup(s, 16))
        }
        _ => {
            let fu = *s.pick(&[8, 8, 15, 15, 30, 60]);
            let toks = gen(s, cx, fu, |g| {
                e = match g.s.below(10) {
                    0 | 1 => {
                        g.update(false);
                        Entry::Update
                    }
                    2 => {
                        g.kw("ASK");
                        g.p("{");
                        g.triples_list(true, 1);
                        g.p("}");
                        Entry::Stmt
                    }
                    3 => {
                        expr_context(g, &mut |g| g.expr());
                        Entry::Stmt
                    }
                    4 => {
                        g.kw("ASK");
                        g.p("{");
                        g.var();
                        g.path();
                        g.var();
                        g.p("}");
                        Entry::Stmt
                    }
                    5 => {
                        g.kw("ASK");
                        g.p("{");
                        g.p("}");
                        g.fuel = 20;
                        g.group_by();
                        g.order_by();
                        g.limit_offset();
                        Entry::Stmt
                    }
                    _ => {
                        g.stmt();
                        Entry::Stmt
                    }
                }
            });
            mutated_text(s, cx, &toks)
        }
    };
    cx.text = text.clone();
    judge18(cx, e, &text);
}

fn judge18(cx: &mut Cx, e: Entry, text: &str) {
    let v = judge_any(cx, e, text, true);
    match v {
        Verdict::Accept(_) => cx.lab("still well-formed"),
        Verdict::Reject(at) => {
            cx.lab("outside the grammar");
            cx.nontrivial = at > 0;
            if at == text.len() {
                cx.lab("ends too early");
            }
        }
        Verdict::Unspecified(_) => cx.lab("undecided"),
    }
}

fn tail_law(cx: &mut Cx, e: Entry, text: &str) -> Option<(usize, String)> {
    let o = cx.run(e, text);
    match o {
        Out::Ok(r, t) => {
            let p = cx.run(e, &text[..r]);
            match &p {
                Out::Ok(r2, t2) if *t2 == t && lex::is_blank(&text[*r2..r]) => {}
                _ => {
                    cx.fail("the text before the remainder, parsed alone, gives another outcome", e, &text[..r], format!("whole, {} (as within {:?})", t, text), p.brief());
                }
            }
            Some((r, t))
        }
        Out::Alien(a) => {
            cx.fail("the remainder is not a suffix of the input", e, text, "a suffix".into(), a);
            None
        }
        Out::Err(_) => None,
        o => {
            cx.fail("a parse must yield a tree or an error", e, text, "a tree or an error".into(), o.brief());
            None
        }
    }
}

fn c19(s: &mut Src, cx: &mut Cx) {
    if s.chance(1, 2) {
        // a complete request followed by text that cannot extend it
        let fu = *s.pick(&[8, 8, 15, 30]);
        let mut e = Entry::Stmt;
        let toks = gen(s, cx, fu, |g| e = any_request(g));
        let words = layout::texts(&toks, s);
        let m = layout::mode(s);
        let q = layout::join(&words, m, s, false);
        let gap = if s.chance(1, 3) { String::new() } else { layout::trivia(s, true) };
        let junk = match s.below(5) {
            0 => {
                let t = pool_tok(s);
                t.s
            }
            3 | 4 => {
                // the last clause of the request once more, or part of it
                let kws: Vec<usize> = (0..toks.len()).filter(|&k| toks[k].k == K::Kw).collect();
                let a = match s.below(3) {
                    0 => toks.len() - 1 - s.idx(toks.len().min(6)),
                    1 if !kws.is_empty() => kws[kws.len() - 1 - s.idx(kws.len().min(3))],
                    _ => s.idx(toks.len()),
                };
                let b = if s.chance(3, 4) { toks.len() } else { span(&toks, a) };
                let w = layout::texts(&toks[a..b], s);
                layout::join(&w, Mode::Spaced, s, false)
            }
            1 => {
                let mut ts = gen(s, &mut Cx::default(), 8, |g| {
                    any_request(g);
                });
                let k = s.len(5);
                ts.drain(..k.min(ts.len()));
                let w = layout::texts(&ts, s);
                layout::join(&w, Mode::Spaced, s, false)
            }
            _ => format!("{}{}", s.pick(&["}", ")", "]", ",", ";", "=", "&&", "ASK", "SELECT", "|", "PREFIX", "}}", ">", "^", "@en"]), soup(s, 5)),
        };
        let text = format!("{}{}{}", q, gap, junk);
        let (at, _) = lex::skip(&text, q.len() + gap.len());
        let at0 = q.len() + lex::skip(&text[q.len()..], 0).0;
        cx.text = text.clone();
        cx.nontrivial = true;
        tail_law(cx, e, &text);
        if cx.failed() {
            return;
        }
        match (verdict(&q, e), verdict(&text, e)) {
            (Verdict::Accept(tree), Verdict::Reject(off)) if at == at0 && off == at0 && off < text.len() => {
                cx.lab("request followed by text that cannot extend it");
                let o = cx.run(e, &text);
                match &o {
                    Out::Ok(r, t) if *t == tree && *r >= q.len().min(*r) && lex::skip(&text, *r).0 == at0 => {}
                    _ => cx.fail("text after a complete request must be left as the remainder", e, &text, format!("remainder {:?} and {}", &text[at0..], tree), o.brief()),
                }
            }
            _ => cx.lab("request followed by other text"),
        }
        return;
    }
    let fu = fuel(s);
    let toks = gen(s, cx, fu, |g| {
        any_request(g);
    });
    let text = if s.chance(1, 4) {
        cx.lab("well-formed");
        let words = layout::texts(&toks, s);
        let m = layout::mode(s);
        layout::join(&words, m, s, false)
    } else {
        mutated_text(s, cx, &toks)
    };
    cx.text = text.clone();
    for &e in ENTRIES {
        if let Some((r, _)) = tail_law(cx, e, &text) {
            if r > 0 && e != Entry::Update {
                cx.nontrivial = true;
                cx.lab("accepted");
                if !lex::is_blank(&text[r..]) {
                    cx.lab("accepted with a remainder");
                }
            }
        }
        if cx.failed() {
            return;
        }
    }
}

// ---- effort ----------------------------------------------------------------------

/// (head, opening, middle, closing, tail): `opening` and `closing` are repeated.
const NEST: &[(&str, &str, &str, &str, &str)] = &[
    ("ASK ", "{", "", "}", ""),
    ("ASK {", "{?s ?p ?o ", "", "}", "}"),
    ("ASK {", "OPTIONAL {", "", "}", "}"),
    ("ASK {", "?s ?p ?o . OPTIONAL {", "?x ?y ?z", "}", "}"),
    ("ASK {", "MINUS {", "", "}", "}"),
    ("ASK {", "GRAPH ?g {", "", "}", "}"),
    ("ASK {", "SERVICE SILENT ?g {", "", "}", "}"),
    ("ASK {", "{} UNION {", "", "}", "}"),
    ("ASK {", "{", "", "} UNION {}", "}"),
    ("ASK {", "FILTER EXISTS {", "", "}", "}"),
    ("ASK {", "FILTER NOT EXISTS {", "", "}", "}"),
    ("ASK {", "SELECT * {", "", "}", "}"),
    ("ASK {", "SELECT * {", "", "} ORDER BY ?x", "}"),
    ("ASK {", "{SELECT (1 AS ?x) WHERE {", "", "} LIMIT 1 VALUES ?x {1}}", "}"),
    ("ASK { FILTER ", "(", "1", ")", "}"),
    ("ASK { FILTER (", "(", "?x", ") + 1", ")}"),
    ("ASK { FILTER (", "1 + (", "?x", ")", ")}"),
    ("ASK { FILTER (", "2 * (", "?x", ")", ")}"),
    ("ASK { FILTER (", "(", "?x", ") * 2", ")}"),
    ("ASK { FILTER (", "(", "?x", ") = 2", ")}"),
    ("ASK { FILTER (", "1 = (", "?x", ")", ")}"),
    ("ASK { FILTER (", "?x && (", "?x", ")", ")}"),
    ("ASK { FILTER (", "(", "?x", ") || ?x", ")}"),
    ("ASK { FILTER (", "!(", "?x", ")", ")}"),
    ("ASK { FILTER (", "-(", "?x", ")", ")}"),
    ("ASK { FILTER (", "+(", "1", ")", ")}"),
    ("ASK { FILTER (", "1 IN (", "?x", ")", ")}"),
    ("ASK { FILTER (", "1 NOT IN (2, ", "?x", ")", ")}"),
    ("ASK { FILTER (", "STR(", "?x", ")", ")}"),
    ("ASK { FILTER (", "CONTAINS(?y, ", "?x", ")", ")}"),
    ("ASK { FILTER (", "CONTAINS(", "?x", ", ?y)", ")}"),
    ("ASK { FILTER (", "IF(1, 2, ", "?x", ")", ")}"),
    ("ASK { FILTER (", "REGEX(", "?x", ", 'a')", ")}"),
    ("ASK { FILTER (", "REGEX('a', ", "?x", ")", ")}"),
    ("ASK { FILTER (", "REGEX('a', 'b', ", "?x", ")", ")}"),
    ("ASK { FILTER (", "SUBSTR(", "?x", ", 1)", ")}"),
    ("ASK { FILTER (", "REPLACE(?y, 'a', ", "?x", ")", ")}"),
    ("ASK { FILTER (", "REPLACE(?y, 'a', 'b', ", "?x", ")", ")}"),
    ("ASK { FILTER (", "COALESCE(", "?x", ", 1)", ")}"),
    ("ASK { FILTER (", "CONCAT(1, ", "?x", ")", ")}"),
    ("ASK { FILTER (", "COUNT(DISTINCT ", "?x", ")", ")}"),
    ("ASK { FILTER (", "COUNT(", "?x", ")", ")}"),
    ("ASK { FILTER (", "SUM(", "?x", ")", ")}"),
    ("ASK { FILTER (", "GROUP_CONCAT(", "?x", ")", ")}"),
    ("ASK { FILTER (", "GROUP_CONCAT(", "?x", " ; SEPARATOR = ',')", ")}"),
    ("ASK { FILTER (", "BNODE(", "?x", ")", ")}"),
    ("ASK { FILTER (", "a:b(", "?x", ")", ")}"),
    ("ASK { FILTER (", "<f>(DISTINCT 1, ", "?x", ")", ")}"),
    ("ASK { FILTER ", "a:b(", "?x", ")", "}"),
    ("ASK { FILTER (", "(EXISTS {FILTER", "(?x)", "})", ")}"),
    ("ASK { BIND (", "(", "1", ")", " AS ?x)}"),
    ("SELECT (", "(", "1", ")", " AS ?x) {}"),
    ("ASK {} HAVING ", "(", "1", ")", ""),
    ("ASK {} GROUP BY (", "(", "1", ")", " AS ?x)"),
    ("ASK {} GROUP BY ", "(", "1", ")", ""),
    ("ASK {} ORDER BY ", "(", "1", ")", ""),
    ("ASK {} ORDER BY DESC", "(", "1", ")", ""),
    ("ASK {} ORDER BY ", "a:b(", "1", ")", ""),
    ("ASK { ?s ?p ", "(", "1", ")", "}"),
    ("ASK { ", "(", "1", ")", " a 1}"),
    ("ASK { ", "(", "1", ")", "}"),
    ("ASK { ", "(1 ", "1", " 2)", "}"),
    ("ASK { ?s ?p ", "[ a ", "1", "]", "}"),
    ("ASK { ", "[ a:b ", "1", "]", "}"),
    ("ASK { ?s ?p ", "[ a:b (", "1", ")]", "}"),
    ("ASK { ?s ", "(", "a:b", ")", " ?o}"),
    ("ASK { ?s ", "^(", "a:b", ")*", " ?o}"),
    ("ASK { ?s ", "a:b/(", "a:b", ")", " ?o}"),
    ("ASK { ?s ", "(", "a:b", ")/a:b", " ?o}"),
    ("ASK { ?s ", "(", "a:b", ")|a:b", " ?o}"),
    ("ASK { ?s ", "a|(", "a:b", ")+", " ?o}"),
    ("CONSTRUCT { ?s ?p ", "(", "1", ")", "} {}"),
    ("CONSTRUCT { ", "[ a ", "1", "]", "} {}"),
    ("CONSTRUCT WHERE { ", "(", "1", ")", "}"),
    ("CONSTRUCT WHERE { ?s ?p ", "[ ?p ", "1", "]", "}"),
];
const NEST_UPDATE: &[(&str, &str, &str, &str, &str)] = &[
    ("INSERT DATA { ?s ?p ", "(", "1", ")", "}"),
    ("DELETE WHERE { ", "[ a ", "1", "]", "}"),
    ("DELETE { ?s ?p ", "(", "1", ")", "} INSERT { ?s ?p 1 } WHERE {}"),
    ("INSERT { GRAPH ?g { ?s ?p ", "[ a ", "1", "]", "} } WHERE {}"),
    ("INSERT {} WHERE ", "{", "", "}", ""),
    ("DELETE {} WHERE ", "{", "", "}", ""),
    ("WITH <g> DELETE {} INSERT {} WHERE {", "OPTIONAL {", "", "}", "}"),
];
/// (head, element, separator, tail)
const REPEAT: &[(&str, &str, &str, &str)] = &[
    ("ASK { ", "?s ?p ?o", " . ", "}"),
    ("ASK { ?s ", "a:b ?o", " ; ", "}"),
    ("ASK { ?s ?p ", "?o", " , ", "}"),
    ("ASK { ?s ?p ", "'x'", ",", "}"),
    ("ASK { ?s ?p ", "1 ; ; ", " ; ?p ", "}"),
    ("ASK { ?s ?p (", "1", " ", ")}"),
    ("ASK { ?s ?p ", "[]", " , ", "}"),
    ("ASK { ?s ", "a:b", "/", " ?o}"),
    ("ASK { ?s ", "a:b", "|", " ?o}"),
    ("ASK { ?s !(", "^a:b", "|", ") ?o}"),
    ("ASK { ", "{}", " ", "}"),
    ("ASK { ", "{}", " UNION ", "}"),
    ("ASK { ", "OPTIONAL {}", " . ", "}"),
    ("ASK { ", "OPTIONAL {} ?s ?p ?o", " . ", "}"),
    ("ASK { ", "FILTER(1)", " ", "}"),
    ("ASK { ", "BIND(1 AS ?x)", " . ", "}"),
    ("ASK { FILTER(", "1", " + ", ")}"),
    ("ASK { FILTER(", "1", " * ", ")}"),
    ("ASK { FILTER(", "1", " && ", ")}"),
    ("ASK { FILTER(", "1", " || ", ")}"),
    ("ASK { FILTER(1 IN (", "1", " , ", "))}"),
    ("ASK { FILTER(a:b(", "1", " , ", "))}"),
    ("ASK { FILTER(CONCAT(", "1", " , ", "))}"),
    ("ASK { VALUES ?x {", "1", " ", "}}"),
    ("ASK { VALUES (", "?x", " ", ") {}}"),
    ("ASK { VALUES (?x) {", "(1)", " ", "}}"),
    ("ASK { VALUES (?x) {(", "UNDEF", " ", ")}}"),
    ("SELECT ", "?x", " ", " {}"),
    ("SELECT ", "(1 AS ?x)", " ", " {}"),
    ("DESCRIBE ", "a:b", " ", ""),
    ("ASK ", "FROM <x>", " ", " {}"),
    ("ASK {} GROUP BY ", "?x", " ", ""),
    ("ASK {} HAVING ", "(1)", " ", ""),
    ("ASK {} ORDER BY ", "?x", " ", ""),
    ("ASK {} ORDER BY ", "DESC(?x)", " ", ""),
    ("", "PREFIX a: <x>", " ", " ASK {}"),
    ("CONSTRUCT { ", "?s ?p ?o", " . ", "} {}"),
    ("ASK { ?s ?p 'a", "\\n", "", "'}"),
    ("ASK { ?s ?p '''a", "''c", "b", "'''}"),
    ("ASK { ?s ?p \"", "\u{e9}", "", "\"}"),
    ("ASK { ?s ?p a:b", ".c", "", " }"),
    ("ASK { ?s ?p a:b", "%41", "", " }"),
    ("ASK { ?s ?p a", ".b", "", ":c }"),
    ("ASK { ?s ?p _:a", "..b", "", " }"),
    ("ASK { ?s ?p <", "\u{4e00}", "", ">}"),
    ("ASK { ?s ?p 1", "0", "", ".5}"),
    ("ASK { ?s ?p ?", "x", "", "}"),
    ("ASK { ?s ?p 'x'@en", "-a", "", "}"),
    ("ASK {", " ", "", "}"),
    ("ASK {", "# c\n", "", "}"),
    ("ASK {#", "c", "", "\n}"),
    ("ASK { ?s ?p ?o", " ", "", "}"),
    ("ASK {}", " ", "", ""),
];
const REPEAT_UPDATE: &[(&str, &str, &str, &str)] = &[
    ("", "CLEAR ALL", " ; ", ""),
    ("", "PREFIX a: <x> DROP DEFAULT", ";", ";"),
    ("INSERT DATA { ", "?s ?p ?o", " . ", "}"),
    ("INSERT DATA { ", "GRAPH <g> { ?s ?p ?o }", " ", "}"),
    ("INSERT DATA { ", "GRAPH <g> { ?s ?p ?o } . ?s ?p ?o", " ", "}"),
    ("DELETE {} ", "USING <x>", " ", " WHERE {}"),
];

pub const FAMILIES: usize = NEST.len() + NEST_UPDATE.len() + REPEAT.len() + REPEAT_UPDATE.len();

/// The text of an effort family at size k; (entry, text)
pub fn family(f: usize, k: usize) -> (Entry, bool, String) {
    let nest = |x: &(&str, &str, &str, &str, &str)| format!("{}{}{}{}{}", x.0, x.1.repeat(k), x.2, x.3.repeat(k), x.4);
    let rep = |x: &(&str, &str, &str, &str)| {
        let mut t = String::from(x.0);
        for i in 0..k {
            if i > 0 {
                t.push_str(x.2);
            }
            t.push_str(x.1);
        }
        t.push_str(x.3);
        t
    };
    let mut f = f;
    if f < NEST.len() {
        return (Entry::Stmt, true, nest(&NEST[f]));
    }
    f -= NEST.len();
    if f < NEST_UPDATE.len() {
        return (Entry::Update, true, nest(&NEST_UPDATE[f]));
    }
    f -= NEST_UPDATE.len();
    if f < REPEAT.len() {
        return (Entry::Stmt, false, rep(&REPEAT[f]));
    }
    f -= REPEAT.len();
    (Entry::Update, false, rep(&REPEAT_UPDATE[f]))
}

/// Contexts of `OPEN`.
const PAT: u8 = 0;
const EXP: u8 = 1;
const NODE: u8 = 2;
const PATH: u8 = 3;
const LEAF: [&str; 4] = ["", "?x", "1", "a:b"];

/// (context outside, opening, closing, context inside)
const OPEN: &[(u8, &str, &str, u8)] = &[
    (PAT, "{ ", "} ", PAT),
    (PAT, "OPTIONAL { ?s ?p ?o . ", "} ", PAT),
    (PAT, "OPTIONAL { ", "} . ", PAT),
    (PAT, "?s ?p ?o MINUS { ", "} ", PAT),
    (PAT, "GRAPH <g> { ", "} . ", PAT),
    (PAT, "SERVICE ?g { ", "} ", PAT),
    (PAT, "{} UNION { ", "} ", PAT),
    (PAT, "{ ", "} UNION {} ", PAT),
    (PAT, "{} UNION { ", "} UNION {} ", PAT),
    (PAT, "{ SELECT ?x { ", "} GROUP BY ?x } ", PAT),
    (PAT, "{ SELECT * WHERE { ", "} LIMIT 1 OFFSET 2 VALUES ?x { 1 } } ", PAT),
    (PAT, "{ SELECT ( ", " AS ?x) {} } ", EXP),
    (PAT, "{ SELECT * {} ORDER BY ( ", " ) } ", EXP),
    (PAT, "{ SELECT * {} ORDER BY DESC ( ", " ) } ", EXP),
    (PAT, "{ SELECT * {} HAVING ( ", " ) } ", EXP),
    (PAT, "{ SELECT * {} GROUP BY ( ", " AS ?x ) } ", EXP),
    (PAT, "FILTER( ", " ) ", EXP),
    (PAT, "FILTER a:b( ", " ) ", EXP),
    (PAT, "FILTER EXISTS { ", "} ", PAT),
    (PAT, "FILTER NOT EXISTS { ", "} ", PAT),
    (PAT, "BIND( ", " AS ?x) ", EXP),
    (PAT, "?s ?p ", " . ", NODE),
    (PAT, "?s ?p 1 ; a ", " ; . ", NODE),
    (PAT, "?s ?p 1, ", ", 2 . ", NODE),
    (PAT, "?s ( ", " ) ?o . ", PATH),
    (PAT, "?s a:b/^ ( ", " ) ?o . ", PATH),
    (PAT, "( 1 ", " ) ?p ?o . ", NODE),
    (PAT, "[ a ", " ] . ", NODE),
    (EXP, "( ", " )", EXP),
    (EXP, "1 + ( ", " )", EXP),
    (EXP, "( ", " ) - 1", EXP),
    (EXP, "?x * ( ", " ) / 2", EXP),
    (EXP, "! ( ", " )", EXP),
    (EXP, "- ( ", " )", EXP),
    (EXP, "?x && ( ", " )", EXP),
    (EXP, "( ", " ) || ?x", EXP),
    (EXP, "( ", " ) < 1", EXP),
    (EXP, "1 != ( ", " )", EXP),
    (EXP, "?x IN ( ", " )", EXP),
    (EXP, "?x NOT IN (1, ", " )", EXP),
    (EXP, "( ", " ) IN ()", EXP),
    (EXP, "a:b(1, ", " )", EXP),
    (EXP, "<f>( DISTINCT ", " )", EXP),
    (EXP, "EXISTS { ", "}", PAT),
    (EXP, "NOT EXISTS { ", "}", PAT),
    (EXP, "COALESCE( ", " , 1)", EXP),
    (EXP, "CONCAT(1, ", " )", EXP),
    (EXP, "BNODE( ", " )", EXP),
    (EXP, "IF( ", " , 1, 2)", EXP),
    (EXP, "IF(1, ", " , 2)", EXP),
    (EXP, "IF(1, 2, ", " )", EXP),
    (EXP, "SUBSTR( ", " , 1, 2)", EXP),
    (EXP, "SUBSTR(?x, ", " )", EXP),
    (EXP, "SUBSTR(?x, 1, ", " )", EXP),
    (EXP, "REGEX( ", " , ?x)", EXP),
    (EXP, "REGEX(?x, ", " )", EXP),
    (EXP, "REGEX(?x, ?y, ", " )", EXP),
    (EXP, "REPLACE( ", " , ?x, ?y)", EXP),
    (EXP, "REPLACE(?x, ", " , ?y, ?z)", EXP),
    (EXP, "REPLACE(?x, ?y, ?z, ", " )", EXP),
    (EXP, "COUNT( DISTINCT ", " )", EXP),
    (EXP, "GROUP_CONCAT( ", " ; SEPARATOR = ',' )", EXP),
    (NODE, "( ", " )", NODE),
    (NODE, "( 1 ", " 2 )", NODE),
    (NODE, "[ a ", " ]", NODE),
    (NODE, "[ ?p 1 ; a:b ", " ]", NODE),
    (NODE, "[ ?p 1 , ", " ; ]", NODE),
    (NODE, "[ ( ", " ) ?o ]", PATH),
    (PATH, "( ", " )", PATH),
    (PATH, "( ", " )*", PATH),
    (PATH, "^ ( ", " )", PATH),
    (PATH, "a:b/( ", " )", PATH),
    (PATH, "( ", " )+/a", PATH),
    (PATH, "( ", " )|!a:b", PATH),
    (PATH, "!(a:b|^a)|( ", " )?", PATH),
];

/// One opening out of a context; every function is as likely as the rest.
fn opening(s: &mut Src, from: u8) -> (String, String, u8) {
    use crate::gen::{AGG, ONE_ARG, TWO_ARG};
    if from == EXP && s.chance(1, 2) {
        let n = ONE_ARG.len() + AGG.len() + 2 * TWO_ARG.len();
        let mut k = s.idx(n);
        if k < ONE_ARG.len() {
            return (format!("{}( ", ONE_ARG[k]), " )".into(), EXP);
        }
        k -= ONE_ARG.len();
        if k < AGG.len() {
            return (format!("{}( ", AGG[k]), " )".into(), EXP);
        }
        k -= AGG.len();
        if k < TWO_ARG.len() {
            return (format!("{}( ", TWO_ARG[k]), " , ?x)".into(), EXP);
        }
        k -= TWO_ARG.len();
        return (format!("{}(?x, ", TWO_ARG[k]), " )".into(), EXP);
    }
    let c: Vec<_> = OPEN.iter().filter(|o| o.0 == from).collect();
    let o = s.pick(&c);
    (o.1.into(), o.2.into(), o.3)
}

/// A random cycle of openings: (head, openings, leaf, closings, tail)
fn cycle(s: &mut Src) -> (String, String, String, String, String) {
    let start = s.below(4) as u8;
    let (head, tail) = match start {
        PAT => *s.pick(&[("ASK { ", "}"), ("SELECT * { ", "} LIMIT 1"), ("CONSTRUCT {} WHERE { ", "}"), ("DESCRIBE ?x { ", "}")]),
        EXP => *s.pick(&[
            ("ASK { FILTER ( ", " ) }"),
            ("ASK { BIND ( ", " AS ?x) }"),
            ("SELECT ( ", " AS ?x) {}"),
            ("ASK {} HAVING ( ", " )"),
            ("ASK {} GROUP BY ( ", " )"),
            ("ASK {} ORDER BY ASC ( ", " ) ?x"),
            ("ASK {} ORDER BY a:b ( ", " )"),
        ]),
        NODE => *s.pick(&[("ASK { ?s ?p ", " }"), ("ASK { ?s a:b/a ", " . ?s ?p ?o }"), ("ASK { [ a ", " ] }")]),
        _ => *s.pick(&[("ASK { ?s ( ", " ) ?o }"), ("ASK { ?s a:b/( ", " ) ?o, 1 ; a 2 }")]),
    };
    let (mut o, mut c) = (String::new(), String::new());
    let mut at = start;
    let mut n = 0;
    loop {
        let (x, y, to) = opening(s, at);
        n += 1;
        // the way back to the start is short from every context that has one
        if n > 1 && to != start && at == start && s.chance(2, 3) {
            break;
        }
        o.push_str(&x);
        c.insert_str(0, &y);
        at = to;
        if at == start && (n > 4 || s.chance(1, 2)) {
            break;
        }
        if n > 12 {
            // never came back
            if at != start {
                return cycle_plain(start, head, tail);
            }
            break;
        }
    }
    if o.is_empty() {
        return cycle_plain(start, head, tail);
    }
    (head.into(), o, LEAF[start as usize].into(), c, tail.into())
}
fn cycle_plain(start: u8, head: &str, tail: &str) -> (String, String, String, String, String) {
    let (o, c) = [("{ ", "} "), ("( ", " )"), ("( ", " )"), ("( ", " )")][start as usize];
    (head.into(), o.into(), LEAF[start as usize].into(), c.into(), tail.into())
}

/// A generated element repeated: (entry, head, element, separator, tail)
fn repeated(s: &mut Src, cx: &mut Cx) -> (Entry, String, String, String, String) {
    let k = s.idx(22);
    let fu = *s.pick(&[0, 3, 6, 12]);
    let toks = gen(s, cx, fu, |g| {
        g.long = 0;
        g.deep = 0;
        match k {
            0 | 1 | 2 => g.triples(true),
            3 => g.plist_entry(),
            4 => g.graph_node(true),
            5 => g.graph_node(true),
            6 | 7 | 8 => g.expr(),
            9 | 10 | 11 => g.primary(),
            12 => g.path_part(),
            13 => g.path_part(),
            14 => g.pattern(),
            15 => g.group(),
            16 => g.data_value(),
            17 => g.expr_as_var(),
            18 => g.constraint(),
            19 => g.prologue(1),
            20 => g.update_op(),
            _ => g.triples(false),
        }
    });
    let words: Vec<String> = toks.iter().map(|t| t.s.clone()).collect();
    let el = words.join(" ");
    let (e, h, sep, t) = match k {
        0 | 1 => (Entry::Stmt, "ASK { ", " . ", " }"),
        2 => (Entry::Stmt, "SELECT * { OPTIONAL { ", " .\n", " . } }"),
        3 => (Entry::Stmt, "ASK { ?s ", " ; ", " }"),
        4 => (Entry::Stmt, "ASK { ?s ?p ", " , ", " }"),
        5 => (Entry::Stmt, "ASK { ?s ?p ( ", " ", " ) }"),
        6 => (Entry::Stmt, "ASK { FILTER COALESCE( ", " , ", " ) }"),
        7 => (Entry::Stmt, "ASK { FILTER a:b( ", " , ", " ) }"),
        8 => (Entry::Stmt, "ASK { FILTER ( 1 IN ( ", " , ", " ) ) }"),
        9 => (Entry::Stmt, "ASK { FILTER ( ", " || ", " ) }"),
        10 => (Entry::Stmt, "ASK { FILTER ( ", " + ", " ) }"),
        11 => (Entry::Stmt, "ASK { FILTER ( ", " * ", " ) }"),
        12 => (Entry::Stmt, "ASK { ?s ", " / ", " ?o }"),
        13 => (Entry::Stmt, "ASK { ?s ", " | ", " ?o }"),
        14 => (Entry::Stmt, "ASK { ", " ", " }"),
        15 => (Entry::Stmt, "ASK { ", " UNION ", " }"),
        16 => (Entry::Stmt, "ASK {} VALUES ?x { ", " ", " }"),
        17 => (Entry::Stmt, "SELECT ", " ", " {}"),
        18 => (Entry::Stmt, "ASK {} HAVING ", " ", ""),
        19 => (Entry::Stmt, "", "\n", " ASK {}"),
        20 => (Entry::Update, "", " ; ", ""),
        _ => (Entry::Update, "INSERT DATA { ", " . ", " }"),
    };
    (e, h.into(), el, sep.into(), t.into())
}

fn growing(s: &mut Src, cx: &mut Cx, e: Entry, sizes: &[usize], judge: bool, mut make: impl FnMut(&mut Src, usize) -> String) {
    let mut seen: Vec<(f64, f64)> = vec![];
    for &k in sizes {
        let text = make(s, k);
        if text.len() > 12_000 {
            break;
        }
        if judge {
            match verdict(&text, e) {
                Verdict::Accept(tree) => {
                    let o = cx.run(e, &text);
                    match &o {
                        Out::Ok(r, t) if lex::is_blank(&text[*r..]) && *t == tree => {}
                        _ => {
                            cx.fail("a well-formed nested or repeated text is not read whole into its tree", e, &text, tree, o.brief());
                            return;
                        }
                    }
                }
                v => {
                    cx.harness = Some(format!("grown text not accepted by the reference: {:?}\n{}", v, text));
                    return;
                }
            }
        } else {
            cx.run(e, &text);
        }
        let (n, w) = (text.len() as f64 + 40.0, sut::last_work() as f64 + 40.0);
        if judge {
            for &(n0, w0) in &seen {
                if n > 3.0 * n0 && n0 > 200.0 {
                    let g = (w / w0) / (n / n0).powi(2);
                    if g > cx.growth {
                        cx.growth = g;
                    }
                    if g > GROWTH {
                        cx.fail(
                            "the work of a parse grows faster than the square of the length",
                            e,
                            &text,
                            format!("at most {} times the work of the {} bytes long text times the squared ratio of the lengths", GROWTH, n0),
                            format!("work {} against {}, lengths {} against {}", w, w0, n, n0),
                        );
                        return;
                    }
                }
            }
        }
        seen.push((n, w));
        cx.text = text;
    }
    cx.nontrivial = true;
}

/// How much the work per squared length may grow between two sizes.
const GROWTH: f64 = 2.0;

fn c20(i: u64, s: &mut Src, cx: &mut Cx) {
    let f = (i as usize) % FAMILIES;
    let round = (i as usize) / FAMILIES;
    let nested = family(f, 1).1;
    if round >= 4 && s.chance(7, 8) {
        let bad = s.chance(1, 3);
        let junk = *s.pick(&["@", " }", " )", " ]", " ;", " .", " 1 1", " ?x", " <", " '", "{", " AS", "|", " WHERE", " ?x ?y"]);
        let place = s.below(3);
        if bad {
            cx.lab("damaged");
        }
        let spoil = |t: String| -> String {
            if !bad {
                return t;
            }
            let mut c = match place {
                0 => t.len() / 2,
                1 => t.len() - 1,
                _ => t.len() * 3 / 4,
            };
            while !t.is_char_boundary(c) {
                c -= 1;
            }
            format!("{}{}{}", &t[..c], junk, &t[c..])
        };
        if s.chance(2, 3) {
            cx.lab("random cycle of nestings");
            let (h, o, l, c, t) = cycle(s);
            let per = (o.matches(|c| c == '(' || c == '{' || c == '[').count()).max(1);
            let sizes: Vec<usize> = [4, 8, 16, 24, 32, 48, 64].iter().map(|d| (d / per).max(1)).collect();
            growing(s, cx, Entry::Stmt, &sizes, !bad, |_, k| spoil(format!("{}{}{}{}{}", h, o.repeat(k), l, c.repeat(k), t)));
        } else {
            cx.lab("generated element repeated");
            let (e, h, el, sep, t) = repeated(s, cx);
            growing(s, cx, e, &[4, 16, 64, 256, 1024], !bad, |_, k| {
                let mut w = h.clone();
                for i in 0..k {
                    if i > 0 {
                        w.push_str(&sep);
                    }
                    w.push_str(&el);
                }
                w.push_str(&t);
                spoil(w)
            });
        }
        return;
    }
    if s.chance(1, 4) && round >= 3 {
        // nesting composed of random openers around a well-formed text
        cx.lab("mixed nesting");
        let n = 8 + s.below(32);
        let mut close: Vec<&str> = vec![];
        let mut w = String::from("ASK {");
        let mut in_expr = false;
        for _ in 0..n {
            if !in_expr {
                let (o, c, ex) = *s.pick(&[
                    ("{ ", "}", false),
                    ("OPTIONAL { ?s ?p ?o . ", "}", false),
                    ("?s ?p ?o MINUS { ", "}", false),
                    ("GRAPH <g> { ", "}", false),
                    ("{} UNION { ", "}", false),
                    ("{ SELECT ?x { ", "} GROUP BY ?x }", false),
                    ("FILTER(", ")", true),
                    ("FILTER EXISTS { ", "}", false),
                    ("BIND(", " AS ?x)", true),
                ]);
                w.push_str(o);
                close.push(c);
                in_expr = ex;
            } else {
                let (o, c, ex) = *s.pick(&[
                    ("(", ")", true),
                    ("1 + (", ")", true),
                    ("! (", ")", true),
                    ("STR(", ")", true),
                    ("a:b(1, ", ")", true),
                    ("?x IN (", ")", true),
                    ("(", ") = 1", true),
                    ("EXISTS { ", "}", false),
                    ("COALESCE(", ", 1)", true),
                    ("IF(1, ", ", 2)", true),
                ]);
                w.push_str(o);
                close.push(c);
                in_expr = ex;
            }
        }
        if in_expr {
            w.push_str("?x");
        }
        match s.below(4) {
            0 => w.push_str(*s.pick(&["@", "}", ")", "1 1", ";", "?x ?y"])),
            1 => {}
            _ => {
                for c in close.iter().rev() {
                    w.push_str(c);
                }
                w.push('}');
            }
        }
        cx.text = w.clone();
        cx.nontrivial = true;
        cx.run(Entry::Stmt, &w);
        cx.run(Entry::Query, &w);
        return;
    }
    let sizes: &[usize] = if nested { &[4, 8, 12, 16, 20, 24, 28, 32, 36, 40, 48, 56, 64] } else { &[4, 16, 64, 256, 1024] };
    // round 0: well-formed; later rounds: damaged or re-laid out
    let damage = round % 4;
    cx.lab(if nested { "nested family" } else { "repeated family" });
    let bad = *s.pick(&["@", " }", " )", " ]", " ;", " .", " 1 1", " ?x", " <", " '", "{", " AS", "|", " WHERE"]);
    let deep_layout = *s.pick(&["", "\n", " # c\n", "  "]);
    let mut last = String::new();
    // (length, work) at the sizes seen so far
    let mut seen: Vec<(f64, f64)> = vec![];
    for &k in sizes {
        let (e, _, t) = family(f, k);
        let text = match damage {
            0 => t,
            1 => {
                // cut off somewhere in the closing half
                cx.lab("cut off");
                let lo = t.len() / 2;
                let mut c = lo + s.idx(t.len() - lo);
                while !t.is_char_boundary(c) {
                    c -= 1;
                }
                t[..c].to_string()
            }
            2 => {
                cx.lab("damaged in the middle or at the end");
                let mut c = if s.chance(1, 2) { t.len() / 2 } else { t.len() - 1 };
                while !t.is_char_boundary(c) {
                    c -= 1;
                }
                format!("{}{}{}", &t[..c], bad, &t[c..])
            }
            _ => {
                cx.lab("re-laid out");
                t.replace(' ', &format!(" {}", deep_layout))
            }
        };
        if damage == 0 {
            if let Verdict::Accept(tree) = verdict(&text, e) {
                let o = cx.run(e, &text);
                match &o {
                    Out::Ok(r, t) if lex::is_blank(&text[*r..]) && *t == tree => {}
                    _ => {
                        cx.fail("a well-formed nested or repeated text is not read whole into its tree", e, &text, tree, o.brief());
                        return;
                    }
                }
            } else {
                cx.harness = Some(format!("family text not accepted by the reference: {}", text));
                return;
            }
        } else {
            cx.run(e, &text);
        }
        // the work per squared length must not grow with the size; the meter
        // also enforces an absolute bound, see sut::limit
        let (n, w) = (text.len() as f64 + 40.0, sut::last_work() as f64 + 40.0);
        for &(n0, w0) in &seen {
            if n > 3.0 * n0 && n0 > 200.0 && (damage == 0 || damage == 3) {
                let g = (w / w0) / (n / n0).powi(2);
                if g > cx.growth {
                    cx.growth = g;
                }
                if g > GROWTH {
                    cx.fail(
                        "the work of a parse grows faster than the square of the length",
                        e,
                        &text,
                        format!("at most {} times the work of the {} bytes long text times the squared ratio of the lengths", GROWTH, n0),
                        format!("work {} against {}, lengths {} against {}", w, w0, n, n0),
                    );
                    return;
                }
            }
        }
        seen.push((n, w));
        last = text;
    }
    cx.text = last;
    cx.nontrivial = true;
}

// ---- agreement -------------------------------------------------------------------

fn c21(s: &mut Src, cx: &mut Cx) {
    if s.chance(1, 3) {
        if s.chance(1, 2) {
            same_subtrees(s, cx);
        } else {
            same_in_every_place(s, cx);
        }
        return;
    }
    let fu = fuel(s);
    let toks = gen(s, cx, fu, |g| {
        if g.s.chance(1, 4) {
            g.stmt()
        } else {
            g.query()
        }
    });
    let text = if s.chance(1, 2) {
        let words = layout::texts(&toks, s);
        let m = layout::mode(s);
        layout::join(&words, m, s, false)
    } else {
        mutated_text(s, cx, &toks)
    };
    let text = text[lex::skip(&text, 0).0..].to_string();
    cx.text = text.clone();
    let stmt = cx.run(Entry::Stmt, &text);
    let query = cx.run(Entry::Query, &text);
    let ask = cx.run(Entry::Ask, &text);
    let con = cx.run(Entry::Construct, &text);
    let des = cx.run(Entry::Describe, &text);
    for (e, o) in [(Entry::Stmt, &stmt), (Entry::Query, &query), (Entry::Ask, &ask), (Entry::Construct, &con), (Entry::Describe, &des)] {
        if !matches!(o, Out::Ok(..) | Out::Err(_)) {
            cx.fail("a parser must return a tree or an error", e, &text, "a tree or an error".into(), o.brief());
            return;
        }
    }
    let forms: Vec<(&str, Entry, &Out)> =
        vec![("Ask", Entry::Ask, &ask), ("Construct", Entry::Construct, &con), ("Describe", Entry::Describe, &des)];
    let ok: Vec<_> = forms.iter().filter(|f| matches!(f.2, Out::Ok(..))).collect();
    if ok.len() > 1 {
        cx.fail("one text is accepted as two query forms", ok[0].1, &text, "one form".into(), format!("{} and {}", ok[0].0, ok[1].0));
        return;
    }
    if let Out::Ok(qr, qt) = &query {
        cx.nontrivial = true;
        if qt.starts_with("Select(") {
            cx.lab("SELECT agreement");
            if let Some(f) = ok.first() {
                cx.fail("a SELECT query is also accepted as another form", f.1, &text, "an error".into(), f.2.brief());
                return;
            }
        } else {
            cx.lab("form agreement");
            match ok.first() {
                Some((name, _, Out::Ok(fr, ft))) if fr == qr && *qt == format!("{}({})", name, ft) => {}
                _ => {
                    cx.fail("the query parser and the parser of the form disagree", Entry::Query, &text, query.brief(), format!("ask {} / construct {} / describe {}", ask.brief(), con.brief(), des.brief()));
                    return;
                }
            }
        }
    } else if let Some(f) = ok.first() {
        cx.fail("accepted as a query form but not as a query", f.1, &text, f.2.brief(), query.brief());
        return;
    }
    // CONSTRUCT against its two sub-forms
    if let Some(Token0(end)) = first_kw(&text, "CONSTRUCT") {
        let (b, _) = lex::skip(&text, end);
        if b > end || text[end..].starts_with('{') {
            let tail = &text[b..];
            let sc = cx.run(Entry::SubConstruct, tail);
            let st = cx.run(Entry::SubTriples, tail);
            if matches!(sc, Out::Ok(..)) && matches!(st, Out::Ok(..)) {
                cx.fail("accepted as both sub-forms of CONSTRUCT", Entry::SubConstruct, tail, "one".into(), st.brief());
                return;
            }
            let want = match (&sc, &st) {
                (Out::Ok(r, t), _) => Some((r + b, format!("SubConstruct({})", t))),
                (_, Out::Ok(r, t)) => Some((r + b, format!("SubTriples({})", t))),
                _ => None,
            };
            cx.lab("sub-form agreement");
            match (&want, &con) {
                (Some((r, t)), Out::Ok(cr, ct)) if r == cr && t == ct => {}
                (None, Out::Err(_)) => {}
                _ => {
                    cx.fail("CONSTRUCT and its sub-forms disagree", Entry::Construct, &text, format!("{:?}", want), con.brief());
                    return;
                }
            }
        }
    }
    // statement against query
    let prologue_empty = match &stmt {
        Out::Ok(_, t) => t.contains("prologue: Prologue([])"),
        _ => true,
    };
    match (&stmt, &query) {
        (Out::Ok(sr, st), Out::Ok(qr, qt)) if prologue_empty => {
            cx.lab("statement agreement");
            let want = format!("SparqlQueryStatement {{ prologue: Prologue([]), query: {}, values: ", qt);
            if !st.starts_with(&want) {
                cx.fail("the statement and the query parser disagree", Entry::Stmt, &text, query.brief(), stmt.brief());
            } else if st[want.len()..].starts_with("None") && lex::skip(&text, *sr).0 != lex::skip(&text, *qr).0 {
                cx.fail("the statement and the query parser leave different remainders", Entry::Stmt, &text, query.brief(), stmt.brief());
            }
        }
        (Out::Ok(..), Out::Err(_)) if prologue_empty => {
            cx.fail("accepted as a statement without prologue but not as a query", Entry::Query, &text, stmt.brief(), query.brief());
        }
        (Out::Err(_), Out::Ok(r, _)) => {
            let (k, _) = lex::skip(&text, *r);
            let values = text[k..].len() >= 6 && text.is_char_boundary(k + 6) && text[k..k + 6].eq_ignore_ascii_case("values");
            if !values {
                cx.fail("accepted as a query but not as a statement", Entry::Stmt, &text, query.brief(), stmt.brief());
            }
        }
        _ => {}
    }
}

struct Token0(usize);
fn first_kw(text: &str, kw: &str) -> Option<Token0> {
    if text.is_empty() {
        return None;
    }
    match lex::token(text, 0) {
        Ok(t) if t.t == T::Kw(kw.to_string()) => Some(Token0(t.end)),
        _ => None,
    }
}

/// The places a construct may stand in; `@` is the construct.
const GROUP_PLACES: &[(Entry, &str)] = &[
    (Entry::Query, "ASK @"),
    (Entry::Query, "ASK FROM <a> WHERE @ LIMIT 1"),
    (Entry::Ask, "ASK @ ORDER BY ?x"),
    (Entry::Query, "SELECT * @"),
    (Entry::Stmt, "SELECT ?x FROM NAMED <a> WHERE @ GROUP BY ?x VALUES ?x { 1 }"),
    (Entry::Query, "DESCRIBE * @"),
    (Entry::Describe, "DESCRIBE <x> WHERE @ OFFSET 1"),
    (Entry::Construct, "CONSTRUCT { } @"),
    (Entry::SubConstruct, "{ ?s ?p ?o } WHERE @ LIMIT 1"),
    (Entry::Query, "ASK { SELECT * @ }"),
    (Entry::Query, "ASK { SELECT REDUCED ?x WHERE @ HAVING ( 1 ) VALUES ( ) { } }"),
    (Entry::Query, "ASK { @ }"),
    (Entry::Query, "ASK { ?s ?p ?o . OPTIONAL @ . }"),
    (Entry::Query, "ASK { MINUS @ ?s ?p ?o }"),
    (Entry::Query, "ASK { GRAPH ?g @ }"),
    (Entry::Query, "ASK { SERVICE SILENT <s> @ }"),
    (Entry::Query, "ASK { { } UNION @ UNION { } }"),
    (Entry::Query, "ASK { FILTER EXISTS @ }"),
    (Entry::Query, "SELECT ( ! NOT EXISTS @ AS ?x ) { }"),
    (Entry::Query, "ASK { } ORDER BY EXISTS @ ?y"),
    (Entry::Update, "DELETE { } WHERE @"),
    (Entry::Update, "WITH <g> DELETE { } INSERT { } USING <u> WHERE @ ; CLEAR ALL"),
    (Entry::Update, "INSERT { ?s ?p ?o } WHERE @"),
];
const EXPR_PLACES: &[(Entry, &str)] = &[
    (Entry::Query, "ASK { FILTER ( @ ) }"),
    (Entry::Query, "ASK { BIND ( @ AS ?x ) }"),
    (Entry::Query, "SELECT ?y ( @ AS ?x ) { }"),
    (Entry::Query, "ASK { { SELECT ( @ AS ?x ) { } } }"),
    (Entry::Query, "ASK { } HAVING ( @ ) ( 1 )"),
    (Entry::Query, "ASK { } GROUP BY ( @ )"),
    (Entry::Query, "ASK { } GROUP BY ?y ( @ AS ?x )"),
    (Entry::Query, "ASK { } ORDER BY ( @ )"),
    (Entry::Query, "ASK { } ORDER BY ?y DESC ( @ )"),
    (Entry::Query, "ASK { } ORDER BY ASC ( @ )"),
    (Entry::Query, "ASK { FILTER a:f ( @ ) }"),
    (Entry::Query, "ASK { FILTER a:f ( DISTINCT 1 , @ , 2 ) }"),
    (Entry::Query, "ASK { FILTER STR ( @ ) }"),
    (Entry::Query, "ASK { FILTER COALESCE ( 1 , @ ) }"),
    (Entry::Query, "ASK { FILTER IF ( @ , 1 , @ ) }"),
    (Entry::Query, "ASK { FILTER ( ?y IN ( @ , 1 ) ) }"),
    (Entry::Query, "ASK { FILTER ( 1 + ( @ ) * 2 ) }"),
    (Entry::Query, "SELECT ( SUM ( DISTINCT @ ) AS ?x ) { }"),
    (Entry::Query, "SELECT ( GROUP_CONCAT ( @ ; SEPARATOR = 'x' ) AS ?x ) { }"),
    (Entry::Update, "DELETE { } WHERE { FILTER ( @ ) }"),
];
const TEMPLATE_PLACES: &[(Entry, &str)] = &[
    (Entry::SubTriples, "WHERE { @ }"),
    (Entry::Query, "CONSTRUCT WHERE { @ } LIMIT 1"),
    (Entry::Construct, "CONSTRUCT { @ } { }"),
    (Entry::SubConstruct, "{ @ } FROM <a> WHERE { }"),
    (Entry::Update, "INSERT DATA { @ }"),
    (Entry::Update, "DELETE DATA { GRAPH <g> { } @ }"),
    (Entry::Update, "DELETE WHERE { GRAPH ?g { @ } }"),
    (Entry::Update, "DELETE { @ } INSERT { ?x ?y ?z } WHERE { }"),
    (Entry::Update, "INSERT { ?x ?y ?z . GRAPH <g> { @ } } WHERE { }"),
];
const VALUES_PLACES: &[(Entry, &str)] = &[
    (Entry::Stmt, "ASK { } @"),
    (Entry::Stmt, "SELECT * { } LIMIT 1 @"),
    (Entry::Query, "ASK { @ }"),
    (Entry::Query, "ASK { ?s ?p ?o @ . ?s ?p ?o }"),
    (Entry::Query, "ASK { SELECT * { } @ }"),
    (Entry::Query, "ASK { { SELECT * { @ } ORDER BY ?x @ } }"),
    (Entry::Update, "DELETE { } WHERE { @ }"),
];
const SELECT_PLACES: &[(Entry, &str)] = &[
    (Entry::Query, "@ { }"),
    (Entry::Query, "@ FROM <a> WHERE { ?s ?p ?o } ORDER BY ?x LIMIT 1"),
    (Entry::Query, "ASK { @ { } }"),
    (Entry::Query, "ASK { @ WHERE { ?s ?p ?o } GROUP BY ?x HAVING ( 1 ) ORDER BY ?x LIMIT 1 OFFSET 2 VALUES ?x { 1 } }"),
    (Entry::Query, "ASK { OPTIONAL { @ { } ORDER BY ?x } }"),
    (Entry::Query, "SELECT * { { @ { } LIMIT 1 } UNION { @ { } } }"),
    (Entry::Update, "INSERT { } WHERE { @ { } OFFSET 1 }"),
];

/// A construct yields the same subtree wherever it stands: the tree of a text is
/// the tree of the text with a placeholder, the placeholder's subtree exchanged.
fn same_in_every_place(s: &mut Src, cx: &mut Cx) {
    use nom_sparql::graph::*;
    use nom_sparql::parser::*;
    use nom_sparql::query::construct::sub_triples;
    use nom_sparql::query::SparqlQuery;
    let fu = fuel(s).min(60);
    let kind = s.below(5);
    let (label, places, blank): (&'static str, &[(Entry, &str)], &str) = match kind {
        0 => ("a group in every place", GROUP_PLACES, "{ ?qqa ?qqb ?qqc }"),
        1 => ("an expression in every place", EXPR_PLACES, "?qqa"),
        2 => ("a template in every place", TEMPLATE_PLACES, "?qqa ?qqb ?qqc"),
        3 => ("a VALUES block in every place", VALUES_PLACES, "VALUES ?qqa { 1 }"),
        _ => ("a SELECT clause in every place", SELECT_PLACES, "SELECT ?qqa"),
    };
    let toks = gen(s, cx, fu, |g| match kind {
        0 => g.group(),
        1 => g.expr(),
        2 => g.triples_list(false, 1),
        3 => g.values(),
        _ => g.select_clause(),
    });
    let w = layout::texts(&toks, s);
    let m = layout::mode(s);
    let piece = layout::join(&w, m, s, false);
    // a comment must not swallow what follows
    let piece = if piece.contains('#') { format!("{}\n", piece) } else { piece };
    cx.text = piece.clone();
    cx.nontrivial = toks.len() > 2;
    cx.lab(label);
    let subtree = |x: &str| -> Option<String> {
        let r = std::panic::catch_unwind(|| match kind {
            0 => match sparql_query(&format!("ASK {}", x)).ok()?.1 {
                SparqlQuery::Ask(q) => Some(format!("{:?}", q.where_clause)),
                _ => None,
            },
            1 => match sparql_query(&format!("ASK {{ FILTER ( {} ) }}", x)).ok()?.1 {
                SparqlQuery::Ask(q) => match q.where_clause {
                    GroupGraphPattern::GroupGraphPatternSub(g) => match &g.graph_pattern_and_triples[..] {
                        [GraphPatternAndTriples { graph_pattern: GraphPatternNotTriples::Filter(nom_sparql::expression::functions::Constraint::Bracketted(e)), .. }] => Some(format!("{:?}", e)),
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            },
            2 => Some(format!("{:?}", sub_triples(&format!("WHERE {{ {} }}", x)).ok()?.1.triples_template?)),
            3 => Some(format!("{:?}", sparql_query_stmt(&format!("ASK {{ }} {}", x)).ok()?.1.values?)),
            _ => match sparql_query(&format!("{} {{ }}", x)).ok()?.1 {
                SparqlQuery::Select(q) => Some(format!("{:?}", q.select_clause)),
                _ => None,
            },
        });
        r.unwrap_or(None)
    };
    cx.evals += 2;
    let (d0, d) = match (subtree(blank), subtree(&piece)) {
        (Some(a), Some(b)) => (a, b),
        (a, b) => {
            let p = cx.text.clone();
            cx.fail("a construct of the grammar is not read in the plainest place", places[0].0, &places[0].1.replace('@', &p), "a tree".into(), format!("{:?} {:?}", a, b));
            return;
        }
    };
    for &(e, shape) in places {
        let text = shape.replace('@', &piece);
        let (a, b) = (cx.run(e, &shape.replace('@', blank)), cx.run(e, &text));
        match (&a, &b) {
            (Out::Ok(_, t0), Out::Ok(r, t)) if lex::is_blank(&text[*r..]) => {
                let want = t0.replace(&d0, &d);
                if want != *t {
                    cx.fail("the same construct yields another subtree in this place", e, &text, want, t.clone());
                    return;
                }
            }
            _ => {
                cx.fail("a construct of the grammar is not read whole in this place", e, &text, a.brief(), b.brief());
                return;
            }
        }
    }
}

fn same_subtrees(s: &mut Src, cx: &mut Cx) {
    use nom_sparql::graph::*;
    use nom_sparql::parser::sparql_query_stmt;
    use nom_sparql::query::construct::ConstructQuery;
    use nom_sparql::query::SparqlQuery;
    let fu = fuel(s);
    let gt = gen(s, cx, fu, |g| g.group());
    let mt = gen(s, cx, fu.min(30), |g| g.modifiers());
    let vt = if s.chance(1, 2) { gen(s, cx, fu.min(30), |g| g.values()) } else { vec![] };
    let piece = |s: &mut Src, t: &[Tok]| {
        let w = layout::texts(t, s);
        let m = layout::mode(s);
        layout::join(&w, m, s, false)
    };
    let (g, m, v) = (piece(s, &gt), piece(s, &mt), piece(s, &vt));
    cx.text = format!("{} {} {}", g, m, v);
    cx.nontrivial = gt.len() > 2;
    cx.lab("one pattern in every form");
    let shapes = [
        format!("ASK {} {} {}", g, m, v),
        format!("SELECT * {} {} {}", g, m, v),
        format!("SELECT ?x WHERE {} {} {}", g, m, v),
        format!("DESCRIBE * {} {} {}", g, m, v),
        format!("DESCRIBE <x> WHERE {} {} {}", g, m, v),
        format!("CONSTRUCT {{}} {} {} {}", g, m, v),
        format!("CONSTRUCT {{ ?s ?p ?o }} WHERE {} {} {}", g, m, v),
        format!("ASK {{ SELECT * {} {} {} }}", g, m, v),
    ];
    let mut first: Option<(String, String)> = None;
    for (k, t) in shapes.iter().enumerate() {
        cx.evals += 1;
        let parts = match sparql_query_stmt(t) {
            Ok((rest, st)) if lex::is_blank(rest) => match &st.query {
                SparqlQuery::Ask(q) => match &q.where_clause {
                    GroupGraphPattern::SubSelect(b) if k == 7 => {
                        Some(format!("{:?} {:?} {:?}", b.where_clause, b.solution_modifier, b.values_clause))
                    }
                    w => Some(format!("{:?} {:?} {:?}", w, q.solution_modifier, st.values)),
                },
                SparqlQuery::Select(q) => Some(format!("{:?} {:?} {:?}", q.where_clause, q.solution_modifier, st.values)),
                SparqlQuery::Describe(q) => q
                    .where_clause
                    .as_ref()
                    .map(|w| format!("{:?} {:?} {:?}", w, q.solution_modifier, st.values)),
                SparqlQuery::Construct(ConstructQuery::SubConstruct(q)) => {
                    Some(format!("{:?} {:?} {:?}", q.where_clause, q.solution_modifier, st.values))
                }
                _ => None,
            },
            _ => None,
        };
        let parts = match parts {
            Some(p) => p,
            None => {
                let o = cx.run(Entry::Stmt, t);
                cx.fail("a pattern accepted by the grammar is not read whole in this form", Entry::Stmt, t, "whole text".into(), o.brief());
                return;
            }
        };
        match &first {
            None => first = Some((t.clone(), parts)),
            Some((t0, p0)) => {
                if *p0 != parts {
                    cx.fail("the same pattern, modifiers and VALUES give another subtree in another form", Entry::Stmt, t, format!("as in {:?}: {}", t0, p0), parts);
                    return;
                }
            }
        }
    }
}

/// The text with a small change, or none.
fn near(s: &mut Src, t: &str) -> String {
    let mut w: Vec<char> = t.chars().collect();
    let sub = ['-', '_', ' ', '.', ':', '*', '@', 'a', 'e', 'E', '0', '\u{e9}', '\u{2010}', '\u{200d}'];
    let at = s.idx(w.len() + 1);
    match s.below(9) {
        0 => return t.to_string(),
        1 => return t.to_uppercase(),
        2 => return t.to_lowercase(),
        3 => w.insert(at, *s.pick(&sub)),
        4 | 5 if at < w.len() => w[at] = *s.pick(&sub),
        4 | 5 => {
            if let Some(k) = w.iter().position(|c| "-_ ".contains(*c)) {
                w[k] = *s.pick(&sub);
            }
        }
        6 => {
            if let Some(k) = w.iter().position(|c| "-_ ".contains(*c)) {
                w[k] = *s.pick(&sub);
            }
        }
        7 if at < w.len() => {
            w.remove(at);
        }
        8 if w.len() > 1 => {
            let a = s.idx(w.len() - 1);
            w.swap(a, a + 1);
        }
        _ => w.reverse(),
    }
    w.into_iter().collect()
}

fn c22(i: u64, s: &mut Src, cx: &mut Cx) {
    use nom_sparql::arithmetic::Sign;
    use nom_sparql::clauses::LimitOffsetClause;
    use nom_sparql::data::*;
    use nom_sparql::expression::{Iri, PrefixedName};
    use nom_sparql::literal::*;
    use nom_sparql::node::*;
    use nom_sparql::path::PathMod;
    use nom_sparql::prologue::PrefixDecl;
    use nom_sparql::var::Var;
    use std::str::FromStr;
    fn text(s: &mut Src) -> String {
        match s.below(4) {
            0 => (*s.pick(&["", "a", "b", "en", "EN", "en-GB", "abc", "\u{e9}"])).to_string(),
            _ => soup(s, 6),
        }
    }
    if i % 16 == 0 {
        // every character as the text of a sign or path modifier
        cx.lab("character sweep");
        let b = (i / 16 * 2677) % SWEEP_BLOCKS;
        cx.text = format!("sweep of U+{:04X}..U+{:04X}", b as u32 * SWEEP_BLOCK, b as u32 * SWEEP_BLOCK + SWEEP_BLOCK - 1);
        cx.nontrivial = true;
        for cp in (b as u32 * SWEEP_BLOCK)..((b as u32 + 1) * SWEEP_BLOCK) {
            let c = match char::from_u32(cp) {
                Some(c) => c,
                None => continue,
            };
            cx.evals += 2;
            let w = c.to_string();
            if Sign::from_str(&w).is_ok() != matches!(c, '+' | '-') || PathMod::from_str(&w).is_ok() != matches!(c, '?' | '*' | '+') {
                let got = format!("{:?} {:?}", Sign::from_str(&w).ok(), PathMod::from_str(&w).ok());
                cx.fail("Sign and PathMod text", Entry::Query, &w, "only + - and ? * +".into(), got);
                return;
            }
        }
        return;
    }
    match s.below(8) {
        0 | 1 | 2 => {
            cx.lab("compatible_arg");
            // 0 simple, 1 typed, 2 language
            let langs = ["en", "fr", "EN", "en-GB", "", "e"];
            let mk = |s: &mut Src| -> (u32, String, String) {
                let k = s.below(3);
                let t = text(s);
                let l = match s.below(4) {
                    0 => text(s),
                    1 => (*s.pick(&["zh-Hant", "en-US", "de-DE-1996", "x-a-b", "EN-us", "i-klingon"])).to_string(),
                    _ => s.pick(&langs).to_string(),
                };
                (k, t, l)
            };
            let make = |k: u32, t: &str, l: &str| match k {
                0 => StringLiteral::Simple(t.into()),
                1 => StringLiteral::Typed(t.into()),
                _ => StringLiteral::Language((t.into(), l.into())),
            };
            let (mut ka, ta, la) = mk(s);
            let (mut kb, mut tb, mut lb) = mk(s);
            if s.chance(1, 2) {
                // tags (and texts) that are nearly the same
                ka = 2;
                kb = 2;
                lb = near(s, &la);
                if s.chance(1, 2) {
                    tb = if s.chance(1, 2) { ta.clone() } else { near(s, &ta) };
                }
            }
            let (a, b) = (make(ka, &ta, &la), make(kb, &tb, &lb));
            let want = match (ka, kb) {
                (2, 2) => la == lb,
                (2, _) => true,
                (_, 2) => false,
                _ => true,
            };
            cx.evals += 1;
            cx.text = format!("{:?} with {:?}", a, b);
            cx.nontrivial = true;
            let got = a.compatible_arg(&b);
            if got != want {
                let t = cx.text.clone();
                cx.fail("compatible_arg does not follow the rule", Entry::Query, &t, want.to_string(), got.to_string());
            }
        }
        3 => {
            cx.lab("Sign and PathMod text");
            let w = match s.below(3) {
                0 => (*s.pick(&["+", "-", "", "?", "*"])).to_string(),
                1 => {
                    let a = *s.pick(&["+", "-", "?", "*"]);
                    let b = *s.pick(&["+", "-", "?", "*", " ", "x", "\u{e9}"]);
                    format!("{}{}", a, b)
                }
                _ if s.chance(1, 3) => crate::dict::dict().word(s),
                _ => soup(s, 4),
            };
            cx.text = w.clone();
            cx.nontrivial = true;
            cx.evals += 2;
            let want_sign = match w.as_str() {
                "+" | "" => Some(Sign::POS),
                "-" => Some(Sign::NEG),
                _ => None,
            };
            let got = Sign::from_str(&w).ok();
            if got != want_sign {
                cx.fail("Sign text", Entry::Query, &w, format!("{:?}", want_sign), format!("{:?}", got));
            }
            for (v, t) in [(Sign::POS, "+"), (Sign::NEG, "-")] {
                if v.as_ref() != t || format!("{}", v) != t || Sign::from_str(v.as_ref()).ok() != Some(v) {
                    cx.fail("Sign text", Entry::Query, t, t.to_string(), format!("{}", v));
                }
            }
            if Sign::default() != Sign::POS {
                cx.fail("the default sign", Entry::Query, "", "+".into(), format!("{}", Sign::default()));
            }
            let want_mod = match w.as_str() {
                "?" => Some(PathMod::QuestionMark),
                "*" => Some(PathMod::Asterisk),
                "+" => Some(PathMod::Plus),
                _ => None,
            };
            let got = PathMod::from_str(&w).ok();
            if got != want_mod {
                cx.fail("PathMod text", Entry::Query, &w, format!("{:?}", want_mod), format!("{:?}", got));
            }
        }
        4 | 5 => {
            cx.lab("is_distinct of a parsed aggregate");
            use nom_sparql::arithmetic::*;
            use nom_sparql::call::BuiltInCall;
            use nom_sparql::expression::*;
            use nom_sparql::query::*;
            let distinct = s.chance(1, 2);
            let f = *s.pick(crate::gen::AGG);
            let star = f == "COUNT" && s.chance(1, 3);
            let toks = gen(s, cx, 8, |g| {
                if star {
                    g.p("*")
                } else {
                    g.expr()
                }
            });
            let w = layout::texts(&toks, s);
            let inner = layout::join(&w, Mode::Spaced, s, false);
            let sep = if f == "GROUP_CONCAT" && s.chance(1, 2) {
                let w = gen(s, cx, 8, |g| g.string());
                format!("; SEPARATOR = {}", w[0].s)
            } else {
                String::new()
            };
            let t = format!("SELECT ({}( {} {} {}) AS ?x) {{}}", f, if distinct { "DISTINCT" } else { "" }, inner, sep);
            cx.text = t.clone();
            cx.nontrivial = true;
            cx.evals += 1;
            let got = (|| {
                let (_, q) = nom_sparql::parser::sparql_query(&t).ok()?;
                let q = if let SparqlQuery::Select(q) = q { q } else { return None };
                let v = if let nom_sparql::query::select::SelectVars::VarOrExpressionAsVar(v) = q.select_clause.vars { v } else { return None };
                let e = if let nom_sparql::var::VarOrExpressionAsVar::ExpressionAsVar(e) = v.into_iter().next()? { e } else { return None };
                let r = e.expression.0.into_iter().next()?.0.into_iter().next()?;
                match r.lhs.lhs.lhs {
                    UnaryExpression::Default(PrimaryExpression::BuiltInCall(BuiltInCall::Aggregate(a))) => Some(a.is_distinct()),
                    _ => None,
                }
            })();
            if got != Some(distinct) {
                cx.fail("is_distinct", Entry::Query, &t, format!("{:?}", Some(distinct)), format!("{:?}", got));
            }
            // the same of an aggregate put together by hand
            use nom_sparql::aggregate::*;
            let n = s.below(8);
            let expr = || nom_sparql::parser::sparql_query(&t).ok().and_then(|(_, q)| match q {
                SparqlQuery::Select(q) => match q.select_clause.vars {
                    nom_sparql::query::select::SelectVars::VarOrExpressionAsVar(v) => match v.into_iter().next()? {
                        nom_sparql::var::VarOrExpressionAsVar::ExpressionAsVar(e) => Some(*e.expression),
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            });
            let expression = if s.chance(1, 2) { expr().unwrap_or(Expression(vec![])) } else { Expression(vec![]) };
            let d = DistinctExpression { distinct, expression };
            let separator = if s.chance(2, 3) { Some(text(s)) } else { None };
            let a = match n {
                0 => Aggregate::Sum(d),
                1 => Aggregate::Min(d),
                2 => Aggregate::Max(d),
                3 => Aggregate::Avg(d),
                4 => Aggregate::Sample(d),
                5 => Aggregate::Count(Count { distinct, target: CountTarget::All }),
                6 => Aggregate::Count(Count { distinct, target: CountTarget::Expr(Box::new(d.expression)) }),
                _ => Aggregate::GroupConcat(GroupConcat { expression: d, separator }),
            };
            cx.evals += 1;
            if a.is_distinct() != distinct {
                let t = format!("{:?}", a);
                cx.fail("is_distinct", Entry::Query, &t, distinct.to_string(), a.is_distinct().to_string());
            }
        }
        6 => {
            cx.lab("constructors");
            cx.nontrivial = true;
            let (a, b) = (text(s), text(s));
            let b = match s.below(4) {
                0 => near(s, &a),
                1 => a.clone(),
                _ => b,
            };
            let num = |s: &mut Src| match s.below(6) {
                0 | 1 => *s.pick(&[0, 0, 1, 2, 9, 10, 32, 64, 100, 255, 256, 1000, u32::MAX as u64, i64::MAX as u64, 1 << 63, u64::MAX - 1, u64::MAX]),
                2 => s.below(20) as u64,
                3 => s.below(1000) as u64,
                _ => s.below(u32::MAX) as u64 * 7919,
            };
            let n = num(s);
            let m = match s.below(6) {
                0 => n,
                1 => n.wrapping_add(1),
                2 => n.wrapping_sub(1),
                _ => num(s),
            };
            let om = if s.chance(1, 2) { Some(m) } else { None };
            cx.text = format!("{:?} {:?} {} {:?}", a, b, n, om);
            cx.evals += 9;
            let t = cx.text.clone();
            let mut ck = |ok: bool, what: &str| {
                if !ok {
                    cx.fail(what, Entry::Query, &t, "arguments stored unchanged".into(), "something else".into());
                }
            };
            let d = RdfLiteralDescriptor::LangTag(b.clone());
            ck(RdfLiteral::literal(&a) == RdfLiteral { literal: a.clone(), descriptor: None }, "RdfLiteral::literal");
            ck(RdfLiteral::new(&a, d.clone()) == RdfLiteral { literal: a.clone(), descriptor: Some(d) }, "RdfLiteral::new");
            ck(Iri::iri_ref(&a) == Iri::Iri(a.clone()), "Iri::iri_ref");
            let p = PrefixedName::PnameLN { pn_prefix: om.map(|_| b.clone()), pn_local: a.clone() };
            ck(Iri::prefixed_name(p.clone()) == Iri::PrefixedName(p), "Iri::prefixed_name");
            let pd = PrefixDecl::new(om.map(|_| b.clone()), a.clone());
            ck(pd.pname_ns == om.map(|_| b.clone()) && pd.iri_ref == a, "PrefixDecl::new");
            ck(
                LimitOffsetClause::limit_offset(n, om) == LimitOffsetClause::LimitOffset { limit: n, offset: om },
                "LimitOffsetClause::limit_offset",
            );
            ck(
                LimitOffsetClause::offset_limit(n, om) == LimitOffsetClause::OffsetLimit { offset: n, limit: om },
                "LimitOffsetClause::offset_limit",
            );
            let vals = vec![DataBlockValue::UnDef, DataBlockValue::BooleanLiteral(om.is_some())];
            let i1 = InlineDataOneVar::new(Var::QMark(a.clone()), vals.clone());
            ck(i1.var == Var::QMark(a.clone()) && i1.values == vals, "InlineDataOneVar::new");
            let i2 = InlineDataFull::new(vec![Var::Dollar(b.clone()), Var::QMark(a.clone())], vec![vals.clone(), vec![]]);
            ck(
                i2.vars == vec![Var::Dollar(b.clone()), Var::QMark(a.clone())] && i2.data_block_values == vec![vals, vec![]],
                "InlineDataFull::new",
            );
        }
        _ => {
            cx.lab("constructors of updates");
            cx.nontrivial = true;
            use nom_sparql::graph::GraphRefAll;
            use nom_sparql::operations::*;
            use nom_sparql::quads::*;
            use nom_sparql::var::VarOrIri;
            let (a, b) = (text(s), text(s));
            let silent = s.chance(1, 2);
            let gr = if s.chance(1, 2) { Some(Iri::Iri(b.clone())) } else { None };
            cx.text = format!("{:?} {:?} {}", a, gr, silent);
            cx.evals += 6;
            let t = cx.text.clone();
            let mut ck = |ok: bool, what: &str| {
                if !ok {
                    cx.fail(what, Entry::Query, &t, "arguments stored unchanged".into(), "something else".into());
                }
            };
            let i = Iri::Iri(a.clone());
            let l = LoadStatement::new(i.clone(), silent, gr.clone());
            ck(l.iri == i && l.silent == silent && l.graph_ref == gr, "LoadStatement::new");
            let r = GraphRefAll::GraphRef(i.clone());
            let c = ClearStatement::new(silent, r.clone());
            ck(c.silent == silent && c.graph_ref_all == r, "ClearStatement::new");
            let d = DropStatement::new(silent, r.clone());
            ck(d.silent == silent && d.graph_ref_all == r, "DropStatement::new");
            let k = CreateStatement::new(silent, i.clone());
            ck(k.silent == silent && k.graph_ref == i, "CreateStatement::new");
            let q = QuadsNotTriples::new(VarOrIri::Iri(i.clone()), None);
            ck(q.var_or_iri == VarOrIri::Iri(i.clone()) && q.triples_template.is_none(), "QuadsNotTriples::new");
            let e = QuadsEntry::new(q.clone(), Some(vec![]));
            ck(e.quads_not_triples == q && e.triples_template == Some(vec![]), "QuadsEntry::new");
            let qs = Quads::new(Some(vec![]), vec![e.clone()]);
            ck(qs.first_triple == Some(vec![]) && qs.entries == vec![e], "Quads::new");
            let verb = if silent { nom_sparql::var::Verb::A } else { nom_sparql::var::Verb::VarOrIri(VarOrIri::Iri(i)) };
            let v = nom_sparql::var::VerbList::new(verb.clone(), ObjectList(vec![]));
            ck(v.verb == verb && v.object_list == ObjectList(vec![]), "VerbList::new");
        }
    }
}

impl<'a> G<'a> {
    fn query_form_small(&mut self) {
        match self.s.below(5) {
            0 => {
                self.kw("DESCRIBE");
                self.iri();
            }
            1 => {
                self.kw("SELECT");
                self.p("*");
                self.p("{");
                self.p("}");
            }
            2 => {
                self.kw("CONSTRUCT");
                self.kw("WHERE");
                self.p("{");
                self.p("}");
            }
            _ => {
                self.kw("ASK");
                self.p("{");
                self.p("}");
            }
        }
        if self.s.chance(1, 3) {
            self.modifiers();
        }
    }
}

// ---- C23: comparison of trees ----------------------------------------------------

/// What one token stands for, apart from how it is written. Numbers by value
/// (the two zeros apart), keywords by upper case, everything else verbatim.
fn denotes(text: &str) -> Option<Vec<String>> {
    let lx = lex::lex(text);
    if lx.bad.is_some() || lx.unspecified.is_some() {
        return None;
    }
    let mut v = Vec::new();
    for t in &lx.toks {
        v.push(match &t.t {
            T::Num(n) => {
                let neg = n.text.starts_with('-');
                let exp = match &n.exp {
                    None => "none".to_string(),
                    Some(x) => {
                        let d = x.trim_start_matches(['+', '-']).trim_start_matches('0');
                        format!("{}{}", if x.starts_with('-') && !d.is_empty() { "-" } else { "" }, d)
                    }
                };
                // integers and decimals apart: their signs decide the shape of a sum
                let sign = if n.signed { "signed" } else { "plain" };
                if n.is_int {
                    let d = n.mantissa.trim_start_matches(['+', '-']).trim_start_matches('0');
                    format!("{} int {}{} exp {}", sign, if neg && !d.is_empty() { "-" } else { "" }, d, exp)
                } else {
                    let f: f64 = n.mantissa.parse().unwrap_or(f64::NAN);
                    format!("{} double {:x} exp {}", sign, if f == 0.0 { 0 } else { f.to_bits() }, exp)
                }
            }
            T::Kw(k) => format!("kw {}", k),
            x => format!("{:?}", x),
        });
    }
    Some(v)
}

const SIBLINGS: &[&[&str]] = &[
    &["=", "!=", "<", ">", "<=", ">="],
    &["||", "&&"],
    &["*", "/", "+", "-"],
    &["|", "/"],
    &["?", "*", "+"],
    &["!", "^", "-", "+"],
];
const KSIBLINGS: &[&[&str]] = &[
    &["ASC", "DESC"],
    &["DISTINCT", "REDUCED"],
    &["LIMIT", "OFFSET"],
    &["INSERT", "DELETE"],
    &["ADD", "MOVE", "COPY"],
    &["CLEAR", "DROP"],
    &["DEFAULT", "NAMED", "ALL"],
    &["TRUE", "FALSE", "UNDEF"],
    &["MINUS", "OPTIONAL", "UNION"],
    &["GRAPH", "SERVICE"],
    &["SUM", "MIN", "MAX", "AVG", "SAMPLE", "COUNT", "GROUP_CONCAT"],
];

/// A text of the same kind as `t` that stands for something else.
fn other_token(s: &mut Src, t: &Tok) -> Option<String> {
    let alter = |s: &mut Src, lo: usize, hi: usize| -> Option<String> {
        // the characters between lo and hi bytes from the ends
        let b = &t.s;
        if b.len() < lo + hi {
            return None;
        }
        let (head, mid, tail) = (&b[..lo], &b[lo..b.len() - hi], &b[b.len() - hi..]);
        let mut cs: Vec<char> = mid.chars().collect();
        let at = s.idx(cs.len() + 1);
        match s.below(6) {
            5 => {
                // at either end, or one more of the same
                let c = *s.pick(&['0', '0', '#', '/', ' ', '.', '_', 'a', '1', '-', ':']);
                match s.below(4) {
                    0 => cs.insert(0, c),
                    1 => cs.push(c),
                    2 if !cs.is_empty() => cs.insert(at.min(cs.len() - 1), cs[at.min(cs.len() - 1)]),
                    _ => cs = cs.into_iter().rev().collect(),
                }
            }
            0 => cs.insert(at, *s.pick(&['a', 'Z', '0', '_', '-', 'x', '\u{e9}'])),
            1 => cs.push(*s.pick(&['a', 'Z', '0', '_', 'x'])),
            2 if !cs.is_empty() => {
                cs.remove(at.min(cs.len() - 1));
            }
            3 if !cs.is_empty() => {
                let i = at.min(cs.len() - 1);
                cs[i] = *s.pick(&['b', 'Y', '1', '_', '7', '\u{f8}']);
            }
            _ => {
                let pos: Vec<usize> = (0..cs.len()).filter(|&k| cs[k].is_ascii_alphabetic() && (k == 0 || cs[k - 1] != '\\')).collect();
                if pos.is_empty() {
                    cs.push('q');
                } else {
                    let k = *s.pick(&pos);
                    cs[k] = (cs[k] as u8 ^ 0x20) as char;
                }
            }
        }
        let m: String = cs.into_iter().collect();
        Some(format!("{}{}{}", head, m, tail))
    };
    match t.k {
        K::Iri => alter(s, 1, 1),
        K::Var => {
            if s.chance(1, 4) {
                let c = if t.s.starts_with('?') { '$' } else { '?' };
                Some(format!("{}{}", c, &t.s[1..]))
            } else {
                alter(s, 1, 0)
            }
        }
        K::Bnode => alter(s, 2, 0),
        K::Lang => alter(s, 1, 0),
        K::Pname => alter(s, 0, 0),
        K::Str => {
            let q = if t.s.len() >= 6 && (t.s.starts_with("\"\"\"") || t.s.starts_with("'''")) { 3 } else { 1 };
            alter(s, q, q)
        }
        K::Num => {
            if s.chance(1, 4) {
                return Some(match t.s.as_bytes()[0] {
                    b'-' => t.s[1..].to_string(),
                    b'+' => format!("-{}", &t.s[1..]),
                    _ => format!("-{}", t.s),
                });
            }
            if s.chance(1, 4) {
                // with or without a fraction or an exponent
                let (m, x) = match t.s.find(['e', 'E']) {
                    Some(k) => (&t.s[..k], &t.s[k..]),
                    None => (t.s.as_str(), ""),
                };
                return Some(match s.below(6) {
                    0 => m.to_string(),
                    1 => format!("{}e0", m),
                    2 => format!("{}{}", m, s.pick(&["e1", "E00", "e+0", "e-0", "e-1"])),
                    3 if !m.contains('.') => format!("{}.0{}", m, x),
                    4 if m.contains('.') && !m.starts_with('.') => format!("{}{}", &m[..m.find('.').unwrap()], x),
                    _ => format!("{}{}", m, if x.starts_with('e') { x.replacen('e', "e-", 1).replace("e--", "e").replace("e-+", "e-") } else { "e+1".into() }),
                });
            }
            let mut cs: Vec<char> = t.s.chars().collect();
            let digits: Vec<usize> = (0..cs.len()).filter(|&k| cs[k].is_ascii_digit()).collect();
            let k = *s.pick(&digits);
            match s.below(3) {
                0 => cs[k] = (b'0' + s.below(10) as u8) as char,
                1 => cs.insert(k, (b'0' + s.below(10) as u8) as char),
                _ => {
                    let i = s.idx(cs.len() + 1);
                    cs.insert(i, '.');
                }
            }
            Some(cs.into_iter().collect())
        }
        K::Kw => {
            let u = t.s.to_ascii_uppercase();
            for list in KSIBLINGS.iter().chain([&crate::gen::ONE_ARG, &crate::gen::TWO_ARG, &crate::gen::NO_ARG]) {
                if list.contains(&u.as_str()) {
                    return Some(s.pick(list).to_string());
                }
            }
            None
        }
        K::P => {
            let lists: Vec<&&[&str]> = SIBLINGS.iter().filter(|l| l.contains(&t.s.as_str())).collect();
            if lists.is_empty() {
                return None;
            }
            let l = *s.pick(&lists);
            Some(s.pick(l).to_string())
        }
        K::A => None,
    }
}

fn zeros(t: &str) -> String {
    t.replace("-0.0", "0.0")
}

fn judge_rel(cx: &mut Cx, e: Entry, a: &str, b: &str, same: Option<bool>) {
    cx.evals += 2;
    let both = format!("{}\n and \n{}", a, b);
    match sut::relate(e, a, b) {
        Err(_) => cx.fail("reading, cloning or comparing the trees panics", e, &both, "a comparison".into(), "panic".into()),
        // whether a text is accepted is for the other properties to decide
        Ok(None) => cx.lab("one of the texts is not accepted"),
        Ok(Some(r)) => {
            let alike = zeros(&r.a) == zeros(&r.b);
            if r.own != [true; 4] {
                cx.fail("a tree differs from itself or from its clone", e, &both, "t == t, t == t.clone(), t.clone() == t, equal debug texts".into(), format!("{:?} {} {}", r.own, r.a, r.b));
            } else if r.eq[0] != r.eq[1] || r.eq[0] != r.eq[2] {
                cx.fail("a == b, b == a and !(a != b) disagree", e, &both, "one answer".into(), format!("{:?} {} {}", r.eq, r.a, r.b));
            } else if same == Some(true) && !r.eq[0] {
                cx.fail("texts of the same tokens yield unequal trees", e, &both, "equal trees".into(), format!("{} {}", r.a, r.b));
            } else if same == Some(false) && r.eq[0] {
                cx.fail("texts that say different things yield equal trees", e, &both, "unequal trees".into(), format!("{} {}", r.a, r.b));
            } else if same == Some(false) && alike {
                cx.fail("texts that say different things yield trees that read alike", e, &both, "different trees".into(), r.a.clone());
            } else if r.eq[0] != alike {
                cx.fail("equality of trees and their debug texts disagree", e, &both, "equal exactly when the debug texts are".into(), format!("equal: {}; {} and {}", r.eq[0], r.a, r.b));
            }
        }
    }
}

/// The tokens with the term at i replaced by one of another kind that stands, or
/// may be thought to stand, for the same.
fn kin(s: &mut Src, toks: &[Tok], i: usize) -> Option<Vec<Tok>> {
    const TYPE: &str = "<http://www.w3.org/1999/02/22-rdf-syntax-ns#type>";
    const NIL: &str = "<http://www.w3.org/1999/02/22-rdf-syntax-ns#nil>";
    const XSD: &str = "http://www.w3.org/2001/XMLSchema#";
    let t = &toks[i];
    let w = t.s.as_str();
    let next = |k: usize| toks.get(i + k).map(|t| t.s.as_str()).unwrap_or("");
    let mut n = 1;
    let quote = |w: &str| format!("\"{}\"", w.replace('\\', "").replace('"', ""));
    let typed = |s: &mut Src, w: &str, d: &str| {
        let d = if s.chance(1, 2) { format!("<{}{}>", XSD, d) } else { format!("xsd:{}", d) };
        vec![quote(w), "^^".to_string(), d]
    };
    let new: Vec<String> = match t.k {
        K::A => vec![(*s.pick(&[TYPE, TYPE, "rdf:type", "<a>", ":a", "a:"])).to_string()],
        K::Kw => match w.to_ascii_uppercase().as_str() {
            u @ "TRUE" | u @ "FALSE" => {
                let (v, d) = if u == "TRUE" { ("true", "1") } else { ("false", "0") };
                match s.below(4) {
                    0 => vec![quote(v)],
                    1 => typed(s, v, "boolean"),
                    _ => vec![d.to_string()],
                }
            }
            "UNDEF" => vec![(*s.pick(&["'UNDEF'", "<UNDEF>", "''", "<>", "0", ":", "UNDEF:"])).to_string()],
            _ if s.chance(1, 2) => Vec::new(),
            _ => {
                n = 0;
                vec![(*s.pick(&["DISTINCT", "REDUCED", "SILENT", "NAMED", "GRAPH", "NOT", "ASC", "DESC", "DEFAULT"])).to_string()]
            }
        },
        K::Num => match s.below(8) {
            0 => vec![quote(w)],
            1 => typed(s, w, "integer"),
            2 => vec![format!("{}.0", w)],
            3 => vec![format!("{}e0", w)],
            4 => vec![format!("+{}", w)],
            5 => vec![w.trim_start_matches('+').trim_start_matches('0').to_string()],
            6 => vec![(if s.chance(1, 2) { "TRUE" } else { "FALSE" }).to_string()],
            _ => vec![format!("0{}", w)],
        },
        K::Str => {
            let inner = w.trim_matches(|c| c == '"' || c == '\'');
            match s.below(6) {
                0 if matches!(next(1), "^^") => {
                    n = 3;
                    vec![w.to_string()]
                }
                0 if next(1).starts_with('@') => {
                    n = 2;
                    vec![w.to_string()]
                }
                0 | 1 | 2 => {
                    let d = if s.chance(1, 2) { format!("<{}string>", XSD) } else { "xsd:string".into() };
                    if next(1).starts_with('@') {
                        n = 2;
                    }
                    vec![w.to_string(), "^^".into(), d]
                }
                3 => vec![w.to_string(), "@en".into()],
                4 => vec![format!("<{}>", inner)],
                _ => vec![format!("{q}{q}{q}{}{q}{q}{q}", inner, q = if w.starts_with('"') { "\"" } else { "'" })],
            }
        }
        K::Iri if w == TYPE && s.chance(3, 4) => vec!["a".into()],
        K::Iri if w == NIL && s.chance(3, 4) => vec!["(".into(), ")".into()],
        K::Iri => {
            let inner = &w[1..w.len() - 1];
            match s.below(3) {
                0 => vec![quote(inner)],
                1 if inner.is_empty() => vec![":".into()],
                _ => vec![if inner.contains(':') { inner.to_string() } else { format!(":{}", inner) }],
            }
        }
        K::Pname => match s.below(4) {
            0 => vec![quote(w)],
            1 => vec![format!("<{}>", w.trim_matches(':'))],
            _ => vec![format!("<{}>", w)],
        },
        K::Var => vec![if s.chance(2, 3) { format!("_:{}", &w[1..]) } else { quote(&w[1..]) }],
        K::Bnode => match s.below(3) {
            0 => vec!["[".into(), "]".into()],
            1 => vec![format!("${}", &w[2..])],
            _ => vec![format!("?{}", &w[2..])],
        },
        K::P if (w == "(" && next(1) == ")") || (w == "[" && next(1) == "]") => {
            n = 2;
            match s.below(4) {
                0 => vec![NIL.to_string()],
                1 => vec!["_:b0".into()],
                _ if w == "(" => vec!["[".into(), "]".into()],
                _ => vec!["(".into(), ")".into()],
            }
        }
        _ => return None,
    };
    let mut out = toks[..i].to_vec();
    out.extend(new.into_iter().filter(|w| !w.is_empty()).map(|w| Tok { k: kind(&w), s: w }));
    out.extend_from_slice(&toks[(i + n).min(toks.len())..]);
    Some(out)
}

fn c23(s: &mut Src, cx: &mut Cx) {
    let fu = fuel(s);
    let mut e = Entry::Stmt;
    let toks = gen(s, cx, fu, |g| e = any_request(g));
    let words: Vec<String> = toks.iter().map(|t| t.s.clone()).collect();
    let base = layout::join(&words, Mode::Spaced, s, false);
    cx.text = base.clone();
    cx.nontrivial = toks.len() >= 6;
    if !matches!(verdict(&base, e), Verdict::Accept(_)) {
        cx.harness = Some(format!("generated text not accepted by the reference: {}", base));
        return;
    }
    // the same tokens otherwise written
    if s.chance(1, 4) {
        let again = layout::texts(&toks, s);
        let v = layout::join(&again, Mode::Wild, s, true);
        judge_rel(cx, e, &base, &v, Some(true));
    }
    let d0 = match denotes(&base) {
        Some(d) => d,
        None => return,
    };
    for _ in 0..4 {
        if cx.failed() {
            return;
        }
        let mut t = toks.clone();
        let how = s.below(9);
        match how {
            // the same otherwise said
            7 | 8 => {
                let from = s.idx(t.len());
                let found = (from..t.len()).chain(0..from).find(|&k| t[k].k != K::P || matches!(t[k].s.as_str(), "(" | "["));
                match found.and_then(|i| kin(s, &t, i)) {
                    Some(k) => t = k,
                    None => continue,
                }
            }
            // two neighbouring terms, or two parts at the same depth, change places
            6 => {
                let terms: Vec<usize> = (0..t.len()).filter(|&i| !matches!(t[i].k, K::P | K::Kw)).collect();
                if terms.len() < 2 {
                    continue;
                }
                let k = s.idx(terms.len() - 1);
                let (i, j) = (terms[k], terms[k + 1]);
                t.swap(i, j);
            }
            // two terms exchanged
            0 => {
                let terms: Vec<usize> = (0..t.len()).filter(|&i| !matches!(t[i].k, K::P | K::Kw)).collect();
                if terms.len() < 2 {
                    continue;
                }
                let (i, j) = (*s.pick(&terms), *s.pick(&terms));
                t.swap(i, j);
            }
            // any small change
            1 if s.chance(1, 2) => mutate_tokens(s, &mut t),
            // two neighbouring parts change places
            1 => {
                let i = s.idx(t.len());
                let e = items(s, &t, i);
                let f = if e < t.len() { items(s, &t, e) } else { e };
                t[i..f].rotate_left(e - i);
            }
            // one token exchanged for another of its kind
            _ => {
                let i = s.idx(t.len());
                let j = (i..t.len()).chain(0..i).find(|&k| t[k].k != K::P || SIBLINGS.iter().any(|l| l.contains(&t[k].s.as_str())));
                let i = match j {
                    Some(i) => i,
                    None => continue,
                };
                match other_token(s, &t[i]) {
                    Some(o) => t[i].s = o,
                    None => continue,
                }
            }
        }
        let w: Vec<String> = t.iter().map(|t| t.s.clone()).collect();
        let v = layout::join(&w, Mode::Spaced, s, false);
        if !matches!(verdict(&v, e), Verdict::Accept(_)) {
            continue;
        }
        // dots and semicolons that only separate leave no trace in the tree
        let d1 = match denotes(&v) {
            Some(d) => d,
            None => continue,
        };
        let same = if d0 == d1 {
            Some(true)
        } else if !matches!(how, 1 | 7 | 8) && d0.len() == d1.len() {
            let optional = |x: &String| x == "P(\".\")" || x == "P(\";\")" || x == "kw WHERE";
            // the sign of a number may also be an operator
            let value = |x: &str| x.trim_start_matches("signed ").trim_start_matches("plain ").to_string();
            let differ: Vec<_> = d0.iter().zip(&d1).filter(|(x, y)| value(x) != value(y)).collect();
            if differ.is_empty() || differ.iter().any(|(x, y)| optional(x) || optional(y)) {
                None
            } else {
                Some(false)
            }
        } else {
            None
        };
        cx.lab(match same {
            Some(true) => "pair: same tokens",
            Some(false) => "pair: one thing said differently",
            None => "pair: changed in structure",
        });
        judge_rel(cx, e, &base, &v, same);
    }
}

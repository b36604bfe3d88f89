//! Rendering of token lists with chosen blanks, comments and letter case.

use crate::dict::dict;
use crate::engine::Src;
use crate::gen::{Tok, K};
use crate::lex::{self, T};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    /// one space between tokens
    Spaced,
    /// no blank wherever two tokens cannot run together
    Tight,
    /// random blanks and comments
    Wild,
}

pub const COMMENTS: &[&str] = &[
    "#\n", "# x\n", "#{}\n", "# } . ?x \"\r\n", "#' \" <\n", "##\r", "# SELECT * WHERE { }\n", "#\u{e9}\u{1f600}\t\n", "#\\\n", "#;\n\n",
];
pub const BLANKS: &[&str] = &[" ", "\n", "\t", "\r", "\r\n", "  ", " \t ", "\n\n", " \r\n\t ", "     "];

/// May `next` follow the run of glued tokens without anything in between?
fn can_glue(run: &[String], next: &str) -> bool {
    let mut text = String::new();
    for r in run {
        text.push_str(r);
    }
    text.push_str(next);
    let lx = lex::lex(&text);
    if lx.bad.is_some() || lx.unspecified.is_some() || lx.toks.len() != run.len() + 1 {
        return false;
    }
    for (i, t) in lx.toks.iter().enumerate() {
        let want = if i < run.len() { run[i].as_str() } else { next };
        if &text[t.start..t.end] != want {
            return false;
        }
    }
    true
}

pub fn recase(t: &Tok, mode: u32, src: &mut Src) -> String {
    if t.k != K::Kw {
        return t.s.clone();
    }
    match mode {
        0 => t.s.to_ascii_uppercase(),
        1 => t.s.to_ascii_lowercase(),
        2 => {
            let mut o = t.s.to_ascii_lowercase();
            o[0..1].make_ascii_uppercase();
            o
        }
        _ => t
            .s
            .chars()
            .map(|c| if src.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
            .collect(),
    }
}

/// Token texts in a drawn letter case.
pub fn texts(toks: &[Tok], src: &mut Src) -> Vec<String> {
    let mode = src.below(4);
    toks.iter().map(|t| recase(t, mode, src)).collect()
}

pub fn trivia(src: &mut Src, comments: bool) -> String {
    let mut r = String::new();
    let n = 1 + src.below(3);
    for _ in 0..n {
        if comments && src.chance(1, 4) {
            if src.chance(1, 4) {
                comment(src, &mut r);
            } else {
                r.push_str(*src.pick(COMMENTS));
            }
        } else if src.chance(1, 24) {
            // many blanks
            let n = match src.below(40) {
                39 => *src.pick(&[1024, 4096, 5000]),
                38 => dict().size(src),
                _ => *src.pick(&[3, 7, 8, 9, 16, 33, 64, 100, 129, 256, 300]),
            };
            let c = *src.pick(&[' ', '\n', '\t', '\r']);
            let mixed = src.chance(1, 3);
            for _ in 0..n {
                r.push(if mixed { *src.pick(&[' ', '\n', '\t', '\r']) } else { c });
            }
        } else {
            r.push_str(*src.pick(BLANKS));
        }
    }
    r
}

/// A comment of drawn content.
fn comment(src: &mut Src, r: &mut String) {
    r.push('#');
    let n = match src.below(60) {
        59 => *src.pick(&[1024, 4096, 5000]),
        58 => dict().size(src),
        57 => *src.pick(&[64, 100, 128, 129, 255, 256, 300]),
        k => (k % 12) as usize,
    };
    let long = n > 60;
    for _ in 0..n {
        match if long { 6 } else { src.below(9) } {
            0 => {
                let w = dict().word(src);
                r.extend(w.chars().filter(|c| !matches!(c, '\n' | '\r')));
            }
            1 => r.push_str(*src.pick(lex::KEYWORDS)),
            2 => r.push_str(*src.pick(&["#", "\"", "'", "'''", "<", ">", "{", "}", "\\", "\\n", ".", ";", "?x", "<http://x#y>", "*/", "/*", "--", "//", "&#10;", "%0A"])),
            3 => {
                let c = char::from_u32(src.below(0x300)).unwrap_or('x');
                r.push(if matches!(c, '\n' | '\r') { ' ' } else { c });
            }
            4 => r.push(char::from_u32(src.below(0x110000)).filter(|c| !matches!(c, '\n' | '\r')).unwrap_or('y')),
            5 => r.push(*src.pick(&['\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}', '\u{feff}', '\u{0}', '\t', '\u{a0}'])),
            _ => r.push(*src.pick(&['c', ' ', 'x', '#', '-', '1'])),
        }
    }
    r.push_str(*src.pick(&["\n", "\r", "\r\n", "\n\n"]));
}

fn closes_empty(prev: &str, next: &str) -> bool {
    (prev == "(" && next == ")") || (prev == "[" && next == "]")
}

/// Joins token texts. `lead`: trivia may also stand before the first and after
/// the last token.
pub fn join(words: &[String], mode: Mode, src: &mut Src, lead: bool) -> String {
    let t = join_once(words, mode, src, lead);
    // gluing looks at few tokens at a time; what it rarely gets wrong is spaced
    if mode != Mode::Spaced && !faithful(&t, words) {
        return join_once(words, Mode::Spaced, src, lead);
    }
    t
}

fn join_once(words: &[String], mode: Mode, src: &mut Src, lead: bool) -> String {
    let mut out = String::new();
    let mut run: Vec<String> = Vec::new();
    if lead && mode == Mode::Wild && src.chance(1, 3) {
        out.push_str(&trivia(src, true));
    }
    for (i, w) in words.iter().enumerate() {
        if i > 0 {
            let prev = &words[i - 1];
            // a '<' operator is always followed by a blank: it could begin an IRI
            let op = prev == "<" || prev == "<=";
            let glue = match mode {
                Mode::Spaced => false,
                Mode::Tight => true,
                Mode::Wild => src.chance(1, 2),
            };
            let from = run.len().saturating_sub(4);
            if glue && !op && can_glue(&run[from..], w) {
                run.push(w.clone());
                out.push_str(w);
                continue;
            }
            let sep = match mode {
                Mode::Wild => trivia(src, !closes_empty(prev, w)),
                _ => " ".to_string(),
            };
            out.push_str(&sep);
            run.clear();
        }
        run.push(w.clone());
        out.push_str(w);
    }
    if lead && mode == Mode::Wild && src.chance(1, 3) {
        out.push_str(&trivia(src, true));
        if src.chance(1, 3) {
            // a last comment without a line end
            out.push_str("# end");
        }
    }
    out
}

pub fn mode(src: &mut Src) -> Mode {
    match src.below(4) {
        0 | 1 => Mode::Spaced,
        2 => Mode::Tight,
        _ => Mode::Wild,
    }
}

pub fn render(toks: &[Tok], src: &mut Src) -> String {
    let w = texts(toks, src);
    let m = mode(src);
    join(&w, m, src, true)
}

/// Did the text keep exactly these tokens?
pub fn faithful(text: &str, words: &[String]) -> bool {
    let lx = lex::lex(text);
    lx.bad.is_none()
        && lx.unspecified.is_none()
        && lx.toks.len() == words.len()
        && lx.toks.iter().zip(words).all(|(t, w)| &text[t.start..t.end] == w.as_str())
}

pub fn kind(t: &T) -> K {
    match t {
        T::Iri(_) => K::Iri,
        T::Pname(..) => K::Pname,
        T::Bnode(_) => K::Bnode,
        T::Var(..) => K::Var,
        T::Lang(_) => K::Lang,
        T::Num(_) => K::Num,
        T::Str(_) => K::Str,
        T::Kw(k) if k == "A" => K::A,
        T::Kw(_) => K::Kw,
        T::P(_) => K::P,
    }
}

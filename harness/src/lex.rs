//! Independent longest-match tokenizer for SPARQL 1.1 (W3C REC, section 19).
//! Shares nothing with the code under test.

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Iri(String),
    /// prefix (None = empty), local (None = PNAME_NS)
    Pname(Option<String>, Option<String>),
    Bnode(String),
    Var(char, String),
    Lang(String),
    Num(Num),
    Str(String),
    Kw(String), // upper case
    P(&'static str),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Num {
    pub text: String,
    pub signed: bool,
    pub mantissa: String,
    pub exp: Option<String>,
    pub is_int: bool,
}

#[derive(Clone, Debug)]
pub struct Token {
    pub t: T,
    pub start: usize,
    pub end: usize,
    /// a comment stands between this token and the previous one
    pub comment_before: bool,
}

#[derive(Debug, Clone)]
pub enum LexErr {
    /// no token can start at this offset
    Bad(usize),
    /// tokenization depends on conventions outside the grammar
    Unspecified(&'static str),
}

pub const KEYWORDS: &[&str] = &[
    "A", "ABS", "ADD", "ALL", "AS", "ASC", "ASK", "AVG", "BASE", "BIND", "BNODE", "BOUND", "BY", "CEIL", "CLEAR",
    "COALESCE", "CONCAT", "CONSTRUCT", "CONTAINS", "COPY", "COUNT", "CREATE", "DATA", "DATATYPE", "DAY", "DEFAULT",
    "DELETE", "DESC", "DESCRIBE", "DISTINCT", "DROP", "ENCODE_FOR_URI", "EXISTS", "FALSE", "FILTER", "FLOOR", "FROM",
    "GRAPH", "GROUP", "GROUP_CONCAT", "HAVING", "HOURS", "IF", "IN", "INSERT", "INTO", "IRI", "ISBLANK", "ISIRI",
    "ISLITERAL", "ISNUMERIC", "ISURI", "LANG", "LANGMATCHES", "LCASE", "LIMIT", "LOAD", "MAX", "MD5", "MIN", "MINUS",
    "MINUTES", "MONTH", "MOVE", "NAMED", "NOT", "NOW", "OFFSET", "OPTIONAL", "ORDER", "PREFIX", "RAND", "REDUCED",
    "REGEX", "REPLACE", "ROUND", "SAMETERM", "SAMPLE", "SECONDS", "SELECT", "SEPARATOR", "SERVICE", "SHA1", "SHA256",
    "SHA384", "SHA512", "SILENT", "STR", "STRAFTER", "STRBEFORE", "STRDT", "STRENDS", "STRLANG", "STRLEN", "STRSTARTS",
    "STRUUID", "SUBSTR", "SUM", "TIMEZONE", "TO", "TRUE", "TZ", "UCASE", "UNDEF", "UNION", "URI", "USING", "UUID",
    "VALUES", "WHERE", "WITH", "YEAR",
];

pub fn is_kw(s: &str) -> bool {
    let u = s.to_ascii_uppercase();
    // 'a' is the one case-sensitive keyword
    s != "A" && KEYWORDS.iter().any(|k| *k == u)
}

// --- character classes, straight from the grammar -------------------------

pub const PN_BASE_RANGES: &[(u32, u32)] = &[
    (0x41, 0x5A),
    (0x61, 0x7A),
    (0xC0, 0xD6),
    (0xD8, 0xF6),
    (0xF8, 0x2FF),
    (0x370, 0x37D),
    (0x37F, 0x1FFF),
    (0x200C, 0x200D),
    (0x2070, 0x218F),
    (0x2C00, 0x2FEF),
    (0x3001, 0xD7FF),
    (0xF900, 0xFDCF),
    (0xFDF0, 0xFFFD),
    (0x10000, 0xEFFFF),
];
pub const PN_EXTRA_RANGES: &[(u32, u32)] = &[(0xB7, 0xB7), (0x300, 0x36F), (0x203F, 0x2040)];

fn in_ranges(c: char, r: &[(u32, u32)]) -> bool {
    let c = c as u32;
    r.iter().any(|&(a, b)| a <= c && c <= b)
}
pub fn pn_base(c: char) -> bool {
    in_ranges(c, PN_BASE_RANGES)
}
pub fn pn_u(c: char) -> bool {
    pn_base(c) || c == '_'
}
pub fn digit(c: char) -> bool {
    ('0'..='9').contains(&c)
}
pub fn pn_char(c: char) -> bool {
    pn_u(c) || c == '-' || digit(c) || in_ranges(c, PN_EXTRA_RANGES)
}
pub fn var_start(c: char) -> bool {
    pn_u(c) || digit(c)
}
pub fn var_char(c: char) -> bool {
    pn_u(c) || digit(c) || in_ranges(c, PN_EXTRA_RANGES)
}
pub fn iri_char(c: char) -> bool {
    (c as u32) > 0x20 && !"<>\"{}|^`\\".contains(c)
}
pub const LOCAL_ESC: &str = "_~.-!$&'()*+,;=/?#@%";

struct C<'a> {
    s: &'a str,
}
impl<'a> C<'a> {
    fn at(&self, i: usize) -> Option<char> {
        self.s[i..].chars().next()
    }
}

/// end of PN_PREFIX starting at i, if any
fn pn_prefix(s: &str, i: usize) -> Option<usize> {
    let mut it = s[i..].char_indices();
    match it.next() {
        Some((_, c)) if pn_base(c) => {
            let mut end = i + c.len_utf8();
            for (o, c) in it {
                if pn_char(c) {
                    end = i + o + c.len_utf8();
                } else if c != '.' {
                    break;
                }
            }
            Some(end)
        }
        _ => None,
    }
}

/// length of a PLX at i
fn plx(s: &str, i: usize) -> Option<usize> {
    let b = s.as_bytes();
    if b.get(i) == Some(&b'%') {
        if b.len() >= i + 3 && b[i + 1].is_ascii_hexdigit() && b[i + 2].is_ascii_hexdigit() {
            return Some(3);
        }
        return None;
    }
    if b.get(i) == Some(&b'\\') {
        if let Some(c) = s[i + 1..].chars().next() {
            if LOCAL_ESC.contains(c) {
                return Some(2);
            }
        }
    }
    None
}

pub fn pn_local(s: &str, i: usize) -> Option<usize> {
    let c0 = s[i..].chars().next()?;
    let mut p;
    if pn_u(c0) || c0 == ':' || digit(c0) {
        p = i + c0.len_utf8();
    } else if let Some(k) = plx(s, i) {
        p = i + k;
    } else {
        return None;
    }
    let mut end = p;
    while p < s.len() {
        let c = s[p..].chars().next().unwrap();
        if pn_char(c) || c == ':' {
            p += c.len_utf8();
            end = p;
        } else if c == '.' {
            p += 1;
        } else if let Some(k) = plx(s, p) {
            p += k;
            end = p;
        } else {
            break;
        }
    }
    Some(end)
}

fn bnode_label(s: &str, i: usize) -> Option<usize> {
    let mut it = s[i..].char_indices();
    match it.next() {
        Some((_, c)) if pn_u(c) || digit(c) => {
            let mut end = i + c.len_utf8();
            for (o, c) in it {
                if pn_char(c) {
                    end = i + o + c.len_utf8();
                } else if c != '.' {
                    break;
                }
            }
            Some(end)
        }
        _ => None,
    }
}

/// number at i: (end, Num). Decimals may end in a bare dot (pinned by the
/// repository's tests), doubles as in the grammar.
fn number(s: &str, i: usize) -> Option<(usize, Num)> {
    let b = s.as_bytes();
    let mut p = i;
    let signed = matches!(b.get(p), Some(b'+') | Some(b'-'));
    if signed {
        p += 1;
    }
    let d0 = p;
    while p < b.len() && b[p].is_ascii_digit() {
        p += 1;
    }
    let int_digits = p - d0;
    let mut is_int = true;
    if p < b.len() && b[p] == b'.' {
        let mut q = p + 1;
        while q < b.len() && b[q].is_ascii_digit() {
            q += 1;
        }
        let frac = q - p - 1;
        if int_digits > 0 || frac > 0 {
            is_int = false;
            p = q;
        }
    }
    if p == d0 {
        return None;
    }
    let mantissa = s[i..p].to_string();
    let mut exp = None;
    if p < b.len() && (b[p] == b'e' || b[p] == b'E') {
        let mut q = p + 1;
        if q < b.len() && (b[q] == b'+' || b[q] == b'-') {
            q += 1;
        }
        let e0 = q;
        while q < b.len() && b[q].is_ascii_digit() {
            q += 1;
        }
        if q > e0 {
            exp = Some(s[p + 1..q].to_string());
            p = q;
        }
    }
    Some((p, Num { text: s[i..p].to_string(), signed, mantissa, is_int: is_int && exp.is_none(), exp }))
}

/// string literal at i: (end, content)
pub fn string(s: &str, i: usize) -> Option<(usize, String)> {
    let q = s.as_bytes()[i];
    let qs = q as char;
    let triple: String = std::iter::repeat(qs).take(3).collect();
    if s[i..].starts_with(&triple) {
        // longest match: a long string if it closes, else the empty short one
        let mut p = i + 3;
        loop {
            if s[p..].starts_with(&triple) {
                return Some((p + 3, s[i + 3..p].to_string()));
            }
            match s[p..].chars().next() {
                None => break,
                Some('\\') => match s[p + 1..].chars().next() {
                    Some(c) if "tbnrf\\\"'".contains(c) => p += 2,
                    _ => break,
                },
                Some(c) => p += c.len_utf8(),
            }
        }
        return Some((i + 2, String::new()));
    }
    let mut p = i + 1;
    loop {
        match s[p..].chars().next() {
            None => return None,
            Some('\\') => match s[p + 1..].chars().next() {
                Some(c) if "tbnrf\\\"'".contains(c) => p += 2,
                _ => return None,
            },
            Some(c) if c == qs => return Some((p + 1, s[i + 1..p].to_string())),
            Some(c) => p += c.len_utf8(),
        }
    }
}

fn iriref(s: &str, i: usize) -> Option<usize> {
    let mut p = i + 1;
    loop {
        match s[p..].chars().next() {
            Some('>') => return Some(p + 1),
            Some(c) if iri_char(c) => p += c.len_utf8(),
            _ => return None,
        }
    }
}

/// Skips blanks and comments; returns (offset, saw comment, comment ran to the end of input)
pub fn skip(s: &str, mut i: usize) -> (usize, bool) {
    let b = s.as_bytes();
    let mut com = false;
    while i < b.len() {
        match b[i] {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b'#' => {
                com = true;
                while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
                    i += 1;
                }
            }
            _ => break,
        }
    }
    (i, com)
}

pub fn is_blank(s: &str) -> bool {
    skip(s, 0).0 == s.len()
}

const PUNCT: &[&str] = &[
    "^^", "||", "&&", "!=", "<=", ">=", "{", "}", "(", ")", "[", "]", ",", ";", ".", "=", "<", ">", "!", "|", "/", "^",
    "?", "*", "+", "-",
];

/// One token at offset i (no leading blanks).
pub fn token(s: &str, i: usize) -> Result<Token, LexErr> {
    let c = C { s };
    let tk = |t: T, end: usize| Ok(Token { t, start: i, end, comment_before: false });
    let ch = c.at(i).unwrap();
    match ch {
        '<' => {
            if let Some(e) = iriref(s, i) {
                return tk(T::Iri(s[i + 1..e - 1].to_string()), e);
            }
        }
        '"' | '\'' => {
            return match string(s, i) {
                Some((e, v)) => tk(T::Str(v), e),
                None => Err(LexErr::Bad(i)),
            };
        }
        '?' | '$' => {
            let mut p = i + 1;
            match c.at(p) {
                Some(x) if var_start(x) => {
                    p += x.len_utf8();
                    while let Some(x) = c.at(p) {
                        if var_char(x) {
                            p += x.len_utf8();
                        } else {
                            break;
                        }
                    }
                    return tk(T::Var(ch, s[i + 1..p].to_string()), p);
                }
                _ => {
                    if ch == '$' {
                        return Err(LexErr::Bad(i));
                    }
                }
            }
        }
        '@' => {
            let b = s.as_bytes();
            let mut p = i + 1;
            while p < b.len() && b[p].is_ascii_alphabetic() {
                p += 1;
            }
            if p == i + 1 {
                return Err(LexErr::Bad(i));
            }
            loop {
                let mut q = p;
                if q < b.len() && b[q] == b'-' {
                    q += 1;
                    let q0 = q;
                    while q < b.len() && b[q].is_ascii_alphanumeric() {
                        q += 1;
                    }
                    if q > q0 {
                        p = q;
                        continue;
                    }
                }
                break;
            }
            return tk(T::Lang(s[i + 1..p].to_string()), p);
        }
        '_' => {
            if s[i..].starts_with("_:") {
                if let Some(e) = bnode_label(s, i + 2) {
                    return tk(T::Bnode(s[i + 2..e].to_string()), e);
                }
            }
            return Err(LexErr::Bad(i));
        }
        _ => {}
    }
    if digit(ch) || ch == '.' || ch == '+' || ch == '-' {
        if let Some((e, n)) = number(s, i) {
            return tk(T::Num(n), e);
        }
    }
    if ch == ':' || pn_base(ch) {
        let (pfx, colon) = if ch == ':' {
            (None, Some(i))
        } else {
            let e = pn_prefix(s, i).unwrap();
            (Some(s[i..e].to_string()), if s[e..].starts_with(':') { Some(e) } else { None })
        };
        if let Some(k) = colon {
            return match pn_local(s, k + 1) {
                Some(e) => tk(T::Pname(pfx, Some(s[k + 1..e].to_string())), e),
                None => tk(T::Pname(pfx, None), k + 1),
            };
        }
        // a word
        let b = s.as_bytes();
        let mut p = i;
        while p < b.len() && (b[p].is_ascii_alphanumeric() || b[p] == b'_') {
            p += 1;
        }
        let w = &s[i..p];
        if is_kw(w) {
            return tk(T::Kw(w.to_ascii_uppercase()), p);
        }
        // keywords may run together under longest-match tokenization
        for k in KEYWORDS {
            if w.len() > k.len() && w.is_char_boundary(k.len()) && w[..k.len()].eq_ignore_ascii_case(k) {
                return Err(LexErr::Unspecified("word starting with a keyword"));
            }
        }
        return Err(LexErr::Bad(i));
    }
    for p in PUNCT {
        if s[i..].starts_with(p) {
            return tk(T::P(p), i + p.len());
        }
    }
    Err(LexErr::Bad(i))
}

fn wordy_end(t: &T) -> bool {
    matches!(t, T::Kw(_) | T::Pname(..) | T::Bnode(_) | T::Var(..) | T::Lang(_) | T::Num(_))
}
fn wordy_start(t: &T) -> bool {
    matches!(t, T::Kw(_) | T::Pname(..) | T::Bnode(_) | T::Num(_))
}

pub struct Lexed {
    pub toks: Vec<Token>,
    /// offset where tokenization stopped because no token fits
    pub bad: Option<usize>,
    pub unspecified: Option<(&'static str, usize)>,
}

pub fn lex(s: &str) -> Lexed {
    let mut toks: Vec<Token> = Vec::new();
    let mut i = 0;
    let mut unspec: Option<(&'static str, usize)> = None;
    loop {
        let (j, com) = skip(s, i);
        if j >= s.len() {
            return Lexed { toks, bad: None, unspecified: unspec };
        }
        match token(s, j) {
            Err(LexErr::Bad(b)) => return Lexed { toks, bad: Some(b), unspecified: unspec },
            Err(LexErr::Unspecified(w)) => {
                return Lexed { toks, bad: Some(j), unspecified: unspec.or(Some((w, j))) };
            }
            Ok(mut t) => {
                t.comment_before = com;
                if unspec.is_none() {
                    if let Some(p) = toks.last() {
                        let glued = p.end == j;
                        let plus = matches!(&t.t, T::Num(n) if n.signed);
                        if glued && wordy_end(&p.t) && wordy_start(&t.t) && !plus {
                            // words that run together: the grammar's longest match
                            // admits some of them, implementations differ
                            unspec = Some(("adjacent words", p.start));
                        }
                        if glued && matches!((&p.t, &t.t), (T::Str(_), T::Str(_))) && p.end - p.start == 2 {
                            unspec = Some(("empty string running into a quote", p.start));
                        }
                    }
                }
                i = t.end;
                toks.push(t);
            }
        }
    }
}

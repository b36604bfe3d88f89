//! The code under test behind uniform entry points, with panics caught and
//! work metered.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Entry {
    Stmt,
    Query,
    Ask,
    Construct,
    SubConstruct,
    SubTriples,
    Describe,
    Update,
}
pub const ENTRIES: &[Entry] = &[
    Entry::Stmt,
    Entry::Query,
    Entry::Ask,
    Entry::Construct,
    Entry::SubConstruct,
    Entry::SubTriples,
    Entry::Describe,
    Entry::Update,
];

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    /// offset where the remainder starts, tree
    Ok(usize, String),
    Err(String),
    Incomplete(String),
    Panic(String),
    /// remainder is not a suffix of the input
    Alien(String),
}

impl Out {
    pub fn brief(&self) -> String {
        let cut = |s: &str| -> String {
            if s.len() > 4000 {
                let mut k = 4000;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                format!("{}...", &s[..k])
            } else {
                s.to_string()
            }
        };
        match self {
            Out::Ok(r, t) => format!("Ok(remainder at byte {}, {})", r, cut(t)),
            Out::Err(k) => format!("Err({})", cut(k)),
            Out::Incomplete(k) => format!("Err(Incomplete {})", k),
            Out::Panic(k) => format!("panic: {}", cut(k)),
            Out::Alien(k) => format!("remainder is not a suffix of the input: {}", cut(k)),
        }
    }
}

fn wrap<'a, X: std::fmt::Debug>(i: &'a str, f: impl Fn(&'a str) -> nom::IResult<&'a str, X>) -> Out {
    let r = catch_unwind(AssertUnwindSafe(|| {
        meter_start(i.len());
        let r = f(i);
        meter_stop();
        match r {
            Ok((rest, v)) => {
                let base = i.as_ptr() as usize;
                let p = rest.as_ptr() as usize;
                if p < base || p + rest.len() != base + i.len() {
                    Out::Alien(rest.to_string())
                } else {
                    Out::Ok(p - base, format!("{:?}", v))
                }
            }
            Err(nom::Err::Incomplete(n)) => Out::Incomplete(format!("{:?}", n)),
            Err(nom::Err::Error((at, _))) | Err(nom::Err::Failure((at, _)))
                if at.as_ptr() as usize + at.len() != i.as_ptr() as usize + i.len() || at.len() > i.len() =>
            {
                Out::Alien(format!("(of the error) {}", at))
            }
            Err(nom::Err::Error((at, k))) => Out::Err(format!("Error {:?} at {}", k, i.len().wrapping_sub(at.len()))),
            Err(nom::Err::Failure((at, k))) => Out::Err(format!("Failure {:?} at {}", k, i.len().wrapping_sub(at.len()))),
        }
    }));
    meter_stop();
    match r {
        Ok(o) => o,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            Out::Panic(m)
        }
    }
}

static DRY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// From now on `run` does not run the parser (to generate a case without it).
pub fn dry_run() {
    DRY.store(true, std::sync::atomic::Ordering::Relaxed);
}

pub fn run(e: Entry, i: &str) -> Out {
    if DRY.load(std::sync::atomic::Ordering::Relaxed) {
        return Out::Err("dry run".into());
    }
    use nom_sparql::parser::*;
    use nom_sparql::query::ask::ask_query;
    use nom_sparql::query::construct::*;
    use nom_sparql::query::describe::describe_query;
    match e {
        Entry::Stmt => wrap(i, sparql_query_stmt),
        Entry::Query => wrap(i, sparql_query),
        Entry::Ask => wrap(i, ask_query),
        Entry::Construct => wrap(i, construct_query),
        Entry::SubConstruct => wrap(i, sub_construct),
        Entry::SubTriples => wrap(i, sub_triples),
        Entry::Describe => wrap(i, describe_query),
        Entry::Update => wrap(i, nom_sparql::verif::update),
    }
}

/// How the trees of two texts compare.
#[derive(Debug, Clone)]
pub struct Rel {
    pub a: String,
    pub b: String,
    /// a == b, b == a, !(a != b)
    pub eq: [bool; 3],
    /// a == a, a == a.clone(), a.clone() == a, and both clones read like the original
    pub own: [bool; 4],
}

fn rel<'a, X: std::fmt::Debug + Clone + PartialEq>(a: &'a str, b: &'a str, f: impl Fn(&'a str) -> nom::IResult<&'a str, X>) -> Result<Option<Rel>, String> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let (x, y) = match (f(a), f(b)) {
            (Ok((_, x)), Ok((_, y))) => (x, y),
            _ => return None,
        };
        let (cx, cy) = (x.clone(), y.clone());
        let (da, db) = (format!("{:?}", x), format!("{:?}", y));
        #[allow(clippy::eq_op)]
        let own = [
            x == x && y == y,
            x == cx && y == cy,
            cx == x && cy == y,
            format!("{:?}", cx) == da && format!("{:?}", cy) == db,
        ];
        Some(Rel { eq: [x == y, y == x, !(x != y)], own, a: da, b: db })
    }));
    r.map_err(|_| "panic".to_string())
}

/// Both texts read by one entry point; `None` when one of them is not accepted.
pub fn relate(e: Entry, a: &str, b: &str) -> Result<Option<Rel>, String> {
    if DRY.load(std::sync::atomic::Ordering::Relaxed) {
        return Ok(None);
    }
    use nom_sparql::parser::*;
    use nom_sparql::query::ask::ask_query;
    use nom_sparql::query::construct::*;
    use nom_sparql::query::describe::describe_query;
    match e {
        Entry::Stmt => rel(a, b, sparql_query_stmt),
        Entry::Query => rel(a, b, sparql_query),
        Entry::Ask => rel(a, b, ask_query),
        Entry::Construct => rel(a, b, construct_query),
        Entry::SubConstruct => rel(a, b, sub_construct),
        Entry::SubTriples => rel(a, b, sub_triples),
        Entry::Describe => rel(a, b, describe_query),
        Entry::Update => rel(a, b, nom_sparql::verif::update),
    }
}

// ---- metering ---------------------------------------------------------------

pub struct Meter;
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    static LAST: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
    static FORCED: Cell<u64> = const { Cell::new(0) };
}
extern "C" {
    fn _exit(code: i32) -> !;
}
/// exit status of a process in which one parse went over its work limit
pub const OVER: i32 = 77;

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
}
#[inline]
fn note(size: usize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            let c = COUNT.with(|c| {
                c.set(c.get() + 1);
                c.get()
            });
            let b = BYTES.with(|b| {
                b.set(b.get() + size as u64);
                b.get()
            });
            if c + b / 64 > LIMIT.with(|l| l.get()) {
                unsafe { _exit(OVER) }
            }
        }
    });
}

/// Work = allocations + bytes requested / 64. Bound on the work of one parse
/// of `n` bytes; beyond it the process ends with status `OVER`.
pub fn limit(n: usize) -> u64 {
    let m = n as u64 + 40;
    FACTOR.load(std::sync::atomic::Ordering::Relaxed) * m * m
}
static FACTOR: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(800);
/// Strict for the properties on effort and termination; for all others a parse
/// is only stopped when it has become hopeless.
pub fn set_factor(strict: bool) {
    FACTOR.store(if strict { 8 } else { 800 }, std::sync::atomic::Ordering::Relaxed);
}

fn meter_start(n: usize) {
    COUNT.with(|c| c.set(0));
    BYTES.with(|c| c.set(0));
    let f = FORCED.with(|f| f.get());
    LIMIT.with(|l| l.set(if f > 0 { f } else { limit(n) }));
    ON.with(|o| o.set(true));
}
pub fn meter_stop() {
    ON.with(|o| {
        if o.get() {
            o.set(false);
            LAST.with(|l| l.set((COUNT.with(|c| c.get()), BYTES.with(|c| c.get()))));
        }
    });
}
/// (allocations, bytes) of the last metered parse on this thread
pub fn last_work() -> u64 {
    let (c, b) = LAST.with(|l| l.get());
    c + b / 64
}

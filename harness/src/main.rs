//! `nsv check <property>`: decides one property on the code in /repo.
//!
//! The supervisor starts a worker process that generates and judges a fixed
//! number of cases on several threads. A worker that dies is diagnosed by
//! re-running the cases that were in flight, one process each.

mod checks;
mod cov;
mod dict;
mod engine;
mod gen;
mod guide;
mod layout;
mod lex;
mod refparse;
mod sut;

use engine::{hash_str, mix, shrink, Src};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{exit, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[global_allocator]
static METER: sut::Meter = sut::Meter;

const THREADS: usize = 8;
const STACK: usize = 1 << 30;
/// CPU seconds after which one re-run case counts as not terminating
const CPU_LIMIT: u64 = 60;

struct Prop {
    id: &'static str,
    quick: u64,
    thorough: u64,
    /// cases of the guided search, percent of the random ones
    guided: u64,
    rule: &'static str,
}

const RULE_TEXT: &str = "a case is one generated text (token sequence drawn from the SPARQL 1.1 grammar, then laid out, or such a text mutated); non-trivial: at least 6 tokens; distinct: by text";

const PROPS: &[Prop] = &[
    Prop { id: "C01", quick: 1000_000, thorough: 20000_000, guided: 10, rule: RULE_TEXT },
    Prop { id: "C02", quick: 800_000, thorough: 16000_000, guided: 10, rule: RULE_TEXT },
    Prop { id: "C03", quick: 1200_000, thorough: 24000_000, guided: 10, rule: RULE_TEXT },
    Prop { id: "C04", quick: 1200_000, thorough: 24000_000, guided: 10, rule: RULE_TEXT },
    Prop { id: "C05", quick: 1200_000, thorough: 24000_000, guided: 10, rule: RULE_TEXT },
    Prop { id: "C06", quick: 1500_000, thorough: 30000_000, guided: 8, rule: RULE_TEXT },
    Prop { id: "C07", quick: 400_000, thorough: 8_000_000, guided: 10, rule: "a case is one text with a generated name, IRI, label or variable (well-formed, mutated, or one code point of the sweep put at each kind of position); non-trivial: the name has at least 2 characters or the case sweeps code points; distinct: by text" },
    Prop { id: "C08", quick: 3000_000, thorough: 60000_000, guided: 5, rule: "a case is one text with a generated string literal in a generated position; non-trivial: non-empty content or a tag or datatype; distinct: by text" },
    Prop { id: "C09", quick: 3000_000, thorough: 60000_000, guided: 5, rule: "a case is one text with a generated numeral or boolean in a generated position; non-trivial: by the generator (not a bare small integer); distinct: by text" },
    Prop { id: "C10", quick: 1000_000, thorough: 20000_000, guided: 10, rule: RULE_TEXT },
    Prop { id: "C11", quick: 2000_000, thorough: 40000_000, guided: 5, rule: RULE_TEXT },
    Prop { id: "C12", quick: 2500_000, thorough: 50000_000, guided: 5, rule: RULE_TEXT },
    Prop { id: "C13", quick: 1000_000, thorough: 20000_000, guided: 10, rule: RULE_TEXT },
    Prop { id: "C14", quick: 1000_000, thorough: 20000_000, guided: 10, rule: RULE_TEXT },
    Prop { id: "C15", quick: 350_000, thorough: 7000_000, guided: 10, rule: "a case is one generated request laid out several ways; non-trivial: at least 6 tokens; distinct: by text" },
    Prop { id: "C16", quick: 350_000, thorough: 7000_000, guided: 10, rule: "a case is one generated request with letter cases changed in several ways; non-trivial: at least 6 tokens; distinct: by text" },
    Prop { id: "C17", quick: 80_000, thorough: 1600_000, guided: 10, rule: "a case is one text (well-formed, damaged, token soup or arbitrary Unicode) given to every parser; non-trivial: at least 8 characters; distinct: by text" },
    Prop { id: "C18", quick: 2100_000, thorough: 36000_000, guided: 8, rule: "a case is one text, mostly outside the grammar by a small mutation; non-trivial: the reference decides it and it has at least 6 tokens; distinct: by text" },
    Prop { id: "C19", quick: 800_000, thorough: 16000_000, guided: 10, rule: "a case is one text whose parse succeeds, with generated text after it; non-trivial: at least 6 tokens; distinct: by text" },
    Prop { id: "C20", quick: 60_000, thorough: 1200_000, guided: 0, rule: "a case is one nested or repeated text family at one size, parsed at growing sizes under a hard work limit; non-trivial: at least 100 bytes; distinct: by text" },
    Prop { id: "C21", quick: 500_000, thorough: 10000_000, guided: 10, rule: "a case is one generated text given to several entry points, or one construct placed in several query forms; non-trivial: at least 6 tokens; distinct: by text" },
    Prop { id: "C22", quick: 2000_000, thorough: 40000_000, guided: 5, rule: "a case is one generated argument tuple for one helper; non-trivial: by the generator; distinct: by the written-out arguments" },
    Prop { id: "C23", quick: 300_000, thorough: 6000_000, guided: 10, rule: "a case is one generated request, compared with itself otherwise laid out and with up to four changed variants of it; non-trivial: at least 6 tokens; distinct: by text" },
];

fn prop(id: &str) -> &'static Prop {
    match PROPS.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            exit(2)
        }
    }
}

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64
}
fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}
fn cases(p: &Prop) -> u64 {
    if let Some(n) = std::env::var("NSV_CASES").ok().and_then(|s| s.parse().ok()) {
        return n;
    }
    if thorough() {
        p.thorough
    } else {
        p.quick
    }
}
fn verif_dir() -> String {
    std::env::var("NSV_DIR").unwrap_or_else(|_| "/verif".to_string())
}

// ---- one case ------------------------------------------------------------------

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn run_case(p: &str, i: u64, s: &mut Src) -> checks::Cx {
    sut::set_factor(p == "C17" || p == "C20");
    let mut cx = checks::Cx::default();
    let r = catch_unwind(AssertUnwindSafe(|| checks::case(p, i, s, &mut cx)));
    if r.is_err() {
        let m = LAST_PANIC.with(|l| l.borrow().clone());
        cx.harness = Some(format!("the check itself panicked: {}", m));
    }
    cx
}

/// The same kind of case for every member of a guided search; never a sweep, a
/// session or another case that does not depend on its choices.
fn guided_index(r: &mut engine::Rng) -> u64 {
    loop {
        let i = 3_000_000_000_000 + r.next() % 960;
        if i % 8 > 1 && i % 16 != 0 && i % 20 != 7 && i % 64 != 0 {
            return i;
        }
    }
}

fn case_seed(seed: u64, p: &str, i: u64) -> u64 {
    mix(mix(seed, hash_str(p)), i)
}

fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        sut::meter_stop();
        let m = format!("{}", info);
        let _ = LAST_PANIC.try_with(|l| {
            if let Ok(mut l) = l.try_borrow_mut() {
                *l = m;
            }
        });
    }));
}

fn on_big_stack<X: Send + 'static>(f: impl FnOnce() -> X + Send + 'static) -> X {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap()
}

// ---- JSON ----------------------------------------------------------------------

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push_str("...");
        t
    }
}

// ---- worker --------------------------------------------------------------------

#[derive(Default)]
struct Tally {
    cases: u64,
    evals: u64,
    unspecified: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, String)>,
    max_work: f64,
    max_growth: f64,
    max_len: usize,
    fail: Option<(u64, checks::Fail)>,
    /// the cases this thread ran
    ran: Vec<u64>,
    harness: Option<(u64, String)>,
}

fn worker(p: &'static Prop, seed: u64, lo: u64, hi: u64, slots: &str, out: &str) -> ! {
    quiet_panics();
    let next = Arc::new(AtomicU64::new(lo));
    let stop_at = Arc::new(AtomicU64::new(hi));
    let slots = Arc::new(std::fs::File::create(slots).unwrap());
    for t in 0..THREADS {
        slots.write_all_at(&u64::MAX.to_le_bytes(), 8 * t as u64).unwrap();
    }
    let progress: Arc<Vec<AtomicU64>> = Arc::new((0..THREADS).map(|_| AtomicU64::new(u64::MAX)).collect());
    let done = Arc::new(AtomicBool::new(false));
    {
        // no progress for long: leave, the supervisor diagnoses
        let progress = progress.clone();
        let done = done.clone();
        std::thread::spawn(move || {
            let mut last: Vec<(u64, Instant)> = progress.iter().map(|p| (p.load(Ordering::Relaxed), Instant::now())).collect();
            loop {
                std::thread::sleep(Duration::from_millis(500));
                if done.load(Ordering::Relaxed) {
                    return;
                }
                for (t, p) in progress.iter().enumerate() {
                    let v = p.load(Ordering::Relaxed);
                    if v != last[t].0 {
                        last[t] = (v, Instant::now());
                    } else if v != u64::MAX && last[t].1.elapsed() > Duration::from_secs(2 * CPU_LIMIT) {
                        std::process::exit(78);
                    }
                }
            }
        });
    }
    let all: Arc<Mutex<Vec<Tally>>> = Arc::new(Mutex::new(Vec::new()));
    let mut hs = vec![];
    for t in 0..THREADS {
        let next = next.clone();
        let stop_at = stop_at.clone();
        let slots = slots.clone();
        let progress = progress.clone();
        let all = all.clone();
        hs.push(
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || {
                    let mut ta = Tally::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= stop_at.load(Ordering::Relaxed) {
                            break;
                        }
                        slots.write_all_at(&i.to_le_bytes(), 8 * t as u64).unwrap();
                        progress[t].store(i, Ordering::Relaxed);
                        ta.ran.push(i);
                        let mut s = Src::random(case_seed(seed, p.id, i));
                        let cx = run_case(p.id, i, &mut s);
                        ta.cases += 1;
                        ta.evals += cx.evals;
                        if cx.unspecified {
                            ta.unspecified += 1;
                        }
                        ta.max_len = ta.max_len.max(cx.text.len());
                        if cx.nontrivial {
                            ta.nontrivial += 1;
                            ta.distinct.insert(hash_str(&cx.text));
                            if i % 97 == 0 && ta.samples.len() < 40 && cx.text.len() < 1200 {
                                ta.samples.push((i, cx.text.clone()));
                            }
                        }
                        for l in &cx.labels {
                            *ta.labels.entry(l).or_insert(0) += 1;
                        }
                        ta.max_growth = ta.max_growth.max(cx.growth);
                        if cx.max_work > ta.max_work {
                            ta.max_work = cx.max_work;
                        }
                        if let Some(h) = cx.harness {
                            if ta.harness.is_none() {
                                ta.harness = Some((i, h));
                            }
                        } else if let Some(f) = cx.fail {
                            if ta.fail.is_none() {
                                ta.fail = Some((i, f));
                            }
                            stop_at.fetch_min(i, Ordering::Relaxed);
                        }
                    }
                    progress[t].store(u64::MAX, Ordering::Relaxed);
                    slots.write_all_at(&u64::MAX.to_le_bytes(), 8 * t as u64).unwrap();
                    all.lock().unwrap().push(ta);
                })
                .unwrap(),
        );
    }
    for h in hs {
        h.join().unwrap();
    }
    done.store(true, Ordering::Relaxed);
    let mut sum = Tally::default();
    for t in all.lock().unwrap().drain(..) {
        sum.cases += t.cases;
        sum.evals += t.evals;
        sum.unspecified += t.unspecified;
        sum.nontrivial += t.nontrivial;
        sum.distinct.extend(t.distinct);
        for (k, v) in t.labels {
            *sum.labels.entry(k).or_insert(0) += v;
        }
        sum.samples.extend(t.samples);
        sum.max_work = sum.max_work.max(t.max_work);
        sum.max_growth = sum.max_growth.max(t.max_growth);
        sum.max_len = sum.max_len.max(t.max_len);
        if let Some((i, f)) = t.fail {
            if sum.fail.as_ref().map_or(true, |(j, _)| i < *j) {
                sum.fail = Some((i, f));
                sum.ran = t.ran.into_iter().filter(|&j| j <= i).collect();
            }
        }
        if let Some((i, f)) = t.harness {
            if sum.harness.as_ref().map_or(true, |(j, _)| i < *j) {
                sum.harness = Some((i, f));
            }
        }
    }
    sum.samples.sort();
    let mut o = String::new();
    let _ = writeln!(o, "cases {}", sum.cases);
    let _ = writeln!(o, "evals {}", sum.evals);
    let _ = writeln!(o, "unspecified {}", sum.unspecified);
    let _ = writeln!(o, "nontrivial {}", sum.nontrivial);
    let _ = writeln!(o, "distinct {}", sum.distinct.len());
    let _ = writeln!(o, "max_work {:.3}", sum.max_work);
    let _ = writeln!(o, "max_growth {:.3}", sum.max_growth);
    let _ = writeln!(o, "max_len {}", sum.max_len);
    for (k, v) in &sum.labels {
        let _ = writeln!(o, "label {} {}", v, k);
    }
    let step = (sum.samples.len() / 5).max(1);
    for (_, t) in sum.samples.iter().step_by(step).take(6) {
        let _ = writeln!(o, "sample {}", js(t));
    }
    if let Some((i, f)) = &sum.fail {
        let _ = writeln!(o, "fail {}", i);
        let _ = writeln!(o, "ran {}", list(&sum.ran));
        for (k, v) in [("what", &f.what), ("entry", &f.entry), ("text", &f.text), ("expected", &f.expected), ("got", &f.got)] {
            let _ = writeln!(o, "fail_{} {}", k, js(v));
        }
    }
    if let Some((i, h)) = &sum.harness {
        let _ = writeln!(o, "harness {} {}", i, js(&clip(h, 3000)));
    }
    std::fs::write(out, o).unwrap();
    exit(0)
}

// ---- guided search ---------------------------------------------------------------

/// One process of the guided search, on one thread.
fn guide_here(p: &'static Prop, seed: u64, stream: u64, n: u64, secs: u64, slot: String, out: String) -> ! {
    quiet_panics();
    if !cov::ready() {
        std::fs::write(&out, "cases 0\nnotready 1\n").unwrap();
        exit(0)
    }
    {
        // a case that makes no progress is the supervisor's to diagnose
        let slot = slot.clone();
        std::thread::spawn(move || {
            let mut last = (std::fs::read(&slot).unwrap_or_default(), Instant::now());
            loop {
                std::thread::sleep(Duration::from_secs(2));
                let now = std::fs::read(&slot).unwrap_or_default();
                if now != last.0 {
                    last = (now, Instant::now());
                } else if last.1.elapsed() > Duration::from_secs(2 * CPU_LIMIT) {
                    exit(78)
                }
            }
        });
    }
    let o = on_big_stack(move || {
        let t0 = Instant::now();
        let slots = std::fs::File::create(&slot).unwrap();
        let mut r = engine::Rng::new(mix(case_seed(seed, p.id, 0x67756964), stream));
        let mut g = guide::Search::new();
        let mut ta = Tally::default();
        let mut fail = None;
        let mut note = 0u64;
        while g.runs < n {
            if g.runs % 64 == 0 && t0.elapsed() > Duration::from_secs(secs) {
                break;
            }
            // random ones to begin with, and one in eight later on
            let fresh = g.runs < n / 10 || g.runs % 8 == 0;
            let recipe = g.recipe(&mut r, fresh, guided_index);
            note += 1;
            let mut b = Vec::with_capacity(32 + 4 * recipe.prefix.len());
            for x in [recipe.prefix.len() as u64, recipe.index, recipe.seed, note] {
                b.extend_from_slice(&x.to_le_bytes());
            }
            for x in &recipe.prefix {
                b.extend_from_slice(&x.to_le_bytes());
            }
            let _ = slots.write_all_at(&b, 0);
            let (cx, s) = g.run(p.id, &recipe, run_case);
            ta.cases += 1;
            ta.evals += cx.evals;
            if cx.unspecified {
                ta.unspecified += 1;
            }
            if cx.nontrivial {
                ta.nontrivial += 1;
                ta.distinct.insert(hash_str(&cx.text));
                if g.runs % 4999 == 0 && cx.text.len() < 600 {
                    ta.samples.push((g.runs, cx.text.clone()));
                }
            }
            if let Some(h) = cx.harness {
                if ta.harness.is_none() {
                    ta.harness = Some((recipe.index, h));
                }
            } else if let Some(f) = cx.fail {
                fail = Some((recipe.index, s.choices, f));
                break;
            }
        }
        let mut o = String::new();
        for (k, v) in [
            ("cases", ta.cases),
            ("evals", ta.evals),
            ("unspecified", ta.unspecified),
            ("nontrivial", ta.nontrivial),
            ("distinct", ta.distinct.len() as u64),
            ("features", g.features() as u64),
            ("pool", g.pool.len() as u64),
        ] {
            let _ = writeln!(o, "{} {}", k, v);
        }
        if let Some((_, t)) = ta.samples.last() {
            let _ = writeln!(o, "sample {}", js(t));
        }
        if let Some((i, c, f)) = fail {
            let _ = writeln!(o, "fail {}", i);
            let _ = writeln!(o, "ran {}", choices_arg(&c));
            for (k, v) in [("what", &f.what), ("entry", &f.entry), ("text", &f.text), ("expected", &f.expected), ("got", &f.got)] {
                let _ = writeln!(o, "fail_{} {}", k, js(v));
            }
        }
        if let Some((_, h)) = ta.harness {
            let _ = writeln!(o, "harness {}", js(&clip(&h, 3000)));
        }
        o
    });
    std::fs::write(&out, o).unwrap();
    exit(0)
}

/// The binary whose nom-sparql reports what it runs through.
fn cov_binary() -> Option<std::path::PathBuf> {
    let e = std::env::var("NSV_COV").map(std::path::PathBuf::from).ok().or_else(|| {
        let e = std::env::current_exe().ok()?;
        Some(e.parent()?.parent()?.join("cov/release/nsv"))
    })?;
    e.exists().then_some(e)
}

fn guided(p: &'static Prop, seed: u64, r: &mut Report) -> Option<Found> {
    let n = std::env::var("NSV_GUIDED").ok().and_then(|s| s.parse().ok()).unwrap_or(cases(p) * p.guided / 100);
    if n == 0 {
        return None;
    }
    let bin = match cov_binary() {
        Some(b) => b,
        None => {
            eprintln!("no instrumented binary: no guided search");
            return None;
        }
    };
    let secs = if thorough() { 600 } else { 60 };
    let tmp = format!("{}/nsv-g-{}-{}", std::env::temp_dir().display(), p.id, std::process::id());
    std::fs::create_dir_all(&tmp).unwrap();
    let kids: Vec<_> = (0..THREADS)
        .map(|k| {
            let (slot, out) = (format!("{}/slot{}", tmp, k), format!("{}/report{}", tmp, k));
            let mut c = Command::new(&bin);
            c.args(["guide", p.id, &seed.to_string(), &k.to_string(), &(n / THREADS as u64).to_string(), &secs.to_string(), &slot, &out]).stdin(Stdio::null());
            limit_cpu(&mut c, 0);
            (c.spawn().unwrap(), slot, out)
        })
        .collect();
    let mut found: Option<Found> = None;
    let mut sums: BTreeMap<&str, u64> = BTreeMap::new();
    for (mut kid, slot, out) in kids {
        let st = kid.wait().unwrap();
        match read_report(&out) {
            Some(g) if st.success() => {
                for k in ["cases", "evals", "unspecified", "nontrivial", "distinct"] {
                    *sums.entry(k).or_insert(0) += g.nums.get(k).and_then(|v| v.parse().ok()).unwrap_or(0);
                }
                for k in ["features", "pool"] {
                    let e = sums.entry(k).or_insert(0);
                    *e = (*e).max(g.nums.get(k).and_then(|v| v.parse().ok()).unwrap_or(0));
                }
                r.samples.extend(g.samples);
                if let Some(h) = &g.harness {
                    eprintln!("the guided search met a case the check cannot judge: {}", h);
                }
                if let (Some(i), None) = (g.fail, &found) {
                    let c: Vec<u32> = g.ran.iter().map(|&x| x as u32).collect();
                    found = shrink_choices(p, i, c, &g.seen);
                }
            }
            _ => {
                // it died: the case it was at
                let b = std::fs::read(&slot).unwrap_or_default();
                let words: Vec<u64> = b.chunks_exact(8).take(3).map(|x| u64::from_le_bytes(x.try_into().unwrap())).collect();
                if words.len() < 3 || found.is_some() {
                    continue;
                }
                let prefix: Vec<u32> = b[32..].chunks_exact(4).take(words[0] as usize).map(|x| u32::from_le_bytes(x.try_into().unwrap())).collect();
                let idx = words[1].to_string();
                let (_, c) = alone(&["gtrace", p.id, &idx, &words[2].to_string()], Some(&choices_arg(&prefix)));
                let c = parse_choices(c.trim());
                let (e, _) = alone(&["one", p.id, &idx, "-"], Some(&choices_arg(&c)));
                if e.died {
                    found = Some(shrink_dead(p, words[1], c, e.how));
                } else {
                    eprintln!("a process of the guided search ended with {}; its last case does not show why", st);
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    for (k, v) in sums {
        r.nums.insert(format!("guided_{}", k), v.to_string());
    }
    found
}

/// A failing case of the guided search, shrunk.
fn shrink_choices(p: &'static Prop, index: u64, c: Vec<u32>, seen: &BTreeMap<String, String>) -> Option<Found> {
    let (_, out) = alone_for(&["shrinkc", p.id, &index.to_string()], Some(&choices_arg(&c)), 150);
    let mut m = seen.clone();
    let mut choices = c;
    let mut again = false;
    for l in out.lines() {
        if let Some((k, v)) = l.split_once(' ') {
            if k == "choices" {
                choices = parse_choices(v);
                again = true;
            } else if let Some(k) = k.strip_prefix("fail_") {
                m.insert(k.to_string(), unjs(v));
            }
        }
    }
    let get = |k: &str| m.get(k).cloned().unwrap_or_default();
    if !again {
        eprintln!("a failure of the guided search did not come again in a process of its own: {} on {}", get("what"), get("text"));
        return None;
    }
    Some(Found { index, history: vec![], choices, what: get("what"), entry: get("entry"), text: get("text"), expected: get("expected"), got: get("got") })
}

// ---- supervisor ----------------------------------------------------------------

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}
fn limit_cpu(c: &mut Command, secs: u64) {
    unsafe {
        c.pre_exec(move || {
            let core = [0u64, 0u64];
            setrlimit(4, &core);
            if secs > 0 {
                let l = [secs, secs + 5];
                setrlimit(0, &l);
            }
            Ok(())
        });
    }
}

struct Ended {
    how: String,
    died: bool,
}

/// Runs `nsv one ...` on a case in its own process. Some(..) if it did not
/// come back with a verdict.
fn alone(args: &[&str], stdin: Option<&str>) -> (Ended, String) {
    alone_for(args, stdin, CPU_LIMIT)
}
fn alone_for(args: &[&str], stdin: Option<&str>, secs: u64) -> (Ended, String) {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(args).stdout(Stdio::piped()).stderr(Stdio::null());
    c.stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() });
    limit_cpu(&mut c, secs);
    let mut ch = c.spawn().unwrap();
    if let Some(t) = stdin {
        let mut h = ch.stdin.take().unwrap();
        let t = t.to_string();
        std::thread::spawn(move || {
            let _ = h.write_all(t.as_bytes());
        });
    }
    let o = ch.wait_with_output().unwrap();
    let st = o.status;
    let e = if let Some(sig) = st.signal() {
        let what = match sig {
            11 | 7 => "stack overflow or memory fault",
            6 => "abort",
            24 => "no end within the CPU limit",
            9 => "killed",
            _ => "signal",
        };
        // 9: perhaps the sandbox ran out of memory, no verdict
        Ended { how: format!("{} (signal {})", what, sig), died: sig != 9 }
    } else if st.code() == Some(sut::OVER) {
        Ended { how: "the parse went over its work limit".into(), died: true }
    } else {
        Ended { how: String::new(), died: false }
    };
    (e, String::from_utf8_lossy(&o.stdout).into_owned())
}

struct Found {
    index: u64,
    /// the run of cases that leads to the failure, if it takes more than one
    history: Vec<u64>,
    choices: Vec<u32>,
    what: String,
    entry: String,
    text: String,
    expected: String,
    got: String,
}

fn choices_arg(c: &[u32]) -> String {
    c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn write_replay(p: &Prop, seed: u64, f: &Found) -> String {
    let dir = format!("{}/replays", verif_dir());
    std::fs::create_dir_all(&dir).unwrap();
    let path = format!("{}/{}.json", dir, p.id);
    let o = format!(
        "{{\n \"property\": {},\n \"seed\": {},\n \"index\": {},\n \"history\": \"{}\",\n \"what\": {},\n \"entry\": {},\n \"text\": {},\n \"expected\": {},\n \"got\": {},\n \"choices\": \"{}\"\n}}\n",
        js(p.id), seed as i64, f.index, list(&f.history), js(&f.what), js(&f.entry), js(&f.text), js(&f.expected), js(&f.got), choices_arg(&f.choices)
    );
    std::fs::write(&path, o).unwrap();
    path
}

#[derive(Default)]
struct Report {
    nums: BTreeMap<String, String>,
    labels: Vec<(u64, String)>,
    samples: Vec<String>,
    fail: Option<u64>,
    /// what the worker saw at that case: what, entry, text, expected, got
    seen: BTreeMap<String, String>,
    /// the cases the thread that failed had run, that one included
    ran: Vec<u64>,
    harness: Option<String>,
}
/// the inverse of `js`
fn unjs(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.trim_matches('"').chars();
    if let Some(t) = s.strip_prefix('"').and_then(|t| t.strip_suffix('"')) {
        it = t.chars();
    }
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('r') => o.push('\r'),
            Some('t') => o.push('\t'),
            Some('u') => {
                let h: String = it.by_ref().take(4).collect();
                o.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('\u{fffd}'));
            }
            Some(c) => o.push(c),
            None => {}
        }
    }
    o
}
fn read_report(path: &str) -> Option<Report> {
    let s = std::fs::read_to_string(path).ok()?;
    let mut r = Report::default();
    for l in s.lines() {
        let (k, v) = l.split_once(' ')?;
        match k {
            "label" => {
                let (n, w) = v.split_once(' ')?;
                r.labels.push((n.parse().ok()?, w.to_string()));
            }
            "sample" => r.samples.push(v.to_string()),
            "fail" => r.fail = v.parse().ok(),
            "harness" => r.harness = Some(v.to_string()),
            "ran" => r.ran = v.split(',').filter_map(|x| x.parse().ok()).collect(),
            k if k.starts_with("fail_") => {
                r.seen.insert(k[5..].to_string(), unjs(v));
            }
            _ => {
                r.nums.insert(k.to_string(), v.to_string());
            }
        }
    }
    Some(r)
}

fn evidence(p: &Prop, seed: u64, r: &Report, extra: &[String], wall: f64, violations: u64) {
    let dir = format!("{}/evidence", verif_dir());
    std::fs::create_dir_all(&dir).unwrap();
    let n = |k: &str| r.nums.get(k).cloned().unwrap_or_else(|| "0".into());
    let mut samples = r.samples.clone();
    samples.extend(extra.iter().map(|s| js(s)));
    if samples.is_empty() {
        samples.push(js("(the run ended before a sample was kept)"));
    }
    let labels: Vec<String> = r.labels.iter().map(|(c, l)| format!("   {}: {}", js(l), c)).collect();
    let o = format!(
        "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [\n   {}\n  ],\n  \"parser_calls\": {},\n  \"nontrivial_cases\": {},\n  \"undecided_cases\": {},\n  \"longest_text_bytes\": {},\n  \"max_work_over_square\": {},\n  \"max_growth\": {},\n  \"guided_search\": {{\"cases\": {}, \"parser_calls\": {}, \"distinct_nontrivial\": {}, \"features_of_one_process\": {}, \"pool_of_one_process\": {}}},\n  \"classes\": {{\n{}\n  }}\n }},\n \"assumptions\": [\"the reference lexer, parser and renderer in /verif/harness read the SPARQL 1.1 grammar correctly\", \"texts on which implementations legitimately differ (see DESIGN.md) are counted as undecided and judged only for totality\"],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        js(p.id),
        if thorough() { "thorough" } else { "quick" },
        seed as i64,
        n("cases"),
        n("distinct"),
        js(p.rule),
        samples.join(",\n   "),
        n("evals"),
        n("nontrivial"),
        n("unspecified"),
        n("max_len"),
        n("max_work"),
        n("max_growth"),
        n("guided_cases"),
        n("guided_evals"),
        n("guided_distinct"),
        n("guided_features"),
        n("guided_pool"),
        labels.join(",\n"),
        wall,
        violations
    );
    std::fs::write(format!("{}/{}.json", dir, p.id), o).unwrap();
}

/// `nsv shrink`: prints the shrunk case, or nothing if it does not fail alone.
fn shrink_here(p: &'static Prop, mut s: Src, index: u64) {
    let out = on_big_stack(move || {
        let cx = run_case(p.id, index, &mut s);
        let start = s.choices.clone();
        let first = cx.fail?;
        let t0 = Instant::now();
        let mut fails = |c: &[u32]| -> bool {
            if t0.elapsed() > Duration::from_secs(60) {
                return false;
            }
            let mut s = Src::replay(c.to_vec());
            let cx = run_case(p.id, index, &mut s);
            cx.fail.is_some() && cx.harness.is_none()
        };
        let replays = fails(&start);
        let best = if replays { shrink(start.clone(), 6000, &mut fails) } else { start };
        let mut s = Src::replay(best.clone());
        let cx = run_case(p.id, index, &mut s);
        Some((best, cx.fail.unwrap_or(first)))
    });
    if let Some((c, f)) = out {
        println!("choices {}", choices_arg(&c));
        for (k, v) in [("what", &f.what), ("entry", &f.entry), ("text", &f.text), ("expected", &f.expected), ("got", &f.got)] {
            println!("fail_{} {}", k, js(v));
        }
    }
}

fn shrink_found(p: &'static Prop, seed: u64, index: u64, seen: &BTreeMap<String, String>, ran: &[u64]) -> Found {
    let get = |m: &BTreeMap<String, String>, k: &str| m.get(k).cloned().unwrap_or_default();
    let (e, out) = alone_for(&["shrink", p.id, &seed.to_string(), &index.to_string()], None, 150);
    let mut m = BTreeMap::new();
    let mut choices = None;
    for l in out.lines() {
        if let Some((k, v)) = l.split_once(' ') {
            if k == "choices" {
                choices = Some(parse_choices(v));
            } else if let Some(k) = k.strip_prefix("fail_") {
                m.insert(k.to_string(), unjs(v));
            }
        }
    }
    if let Some(choices) = choices {
        return Found { index, history: vec![], choices, what: get(&m, "what"), entry: get(&m, "entry"), text: get(&m, "text"), expected: get(&m, "expected"), got: get(&m, "got") };
    }
    if e.died || !e.how.is_empty() {
        // shrinking met a case that ends the process: leave the case as it is
        return Found { index, history: vec![], choices: vec![], what: get(seen, "what"), entry: get(seen, "entry"), text: get(seen, "text"), expected: get(seen, "expected"), got: get(seen, "got") };
    }
    // The outcome depends on what was parsed before: look for a run of cases,
    // in a process of its own, that ends in the failure.
    let t0 = Instant::now();
    let fails_after = |h: &[u64]| -> bool {
        let (_, out) = alone_for(&["range", p.id, &seed.to_string()], Some(&list(h)), 60);
        out.lines().last().map_or(false, |l| l == format!("FAIL {}", index))
    };
    let mut note = "; it did not fail again when its cases were run one after another";
    let mut history: Vec<u64> = vec![];
    let all: Vec<u64> = (0..=index).collect();
    for h in [ran, &all[..]] {
        if !fails_after(h) {
            continue;
        }
        note = "; it fails only after other parses (replay runs them)";
        let (mut bad, mut good) = (0, h.len() - 1);
        while good > bad + 1 && t0.elapsed() < Duration::from_secs(90) {
            let mid = bad + (good - bad) / 2;
            if fails_after(&h[mid..]) {
                bad = mid
            } else {
                good = mid
            }
        }
        history = h[bad..].to_vec();
        // drop what is not needed of it
        let mut size = history.len() / 2;
        while size >= 1 && t0.elapsed() < Duration::from_secs(150) {
            let mut at = 0;
            while at + size < history.len() && t0.elapsed() < Duration::from_secs(150) {
                let mut c = history.clone();
                c.drain(at..at + size);
                if fails_after(&c) {
                    history = c;
                } else {
                    at += size;
                }
            }
            size /= 2;
        }
        break;
    }
    Found { index, history, choices: vec![], what: format!("{}{}", get(seen, "what"), note), entry: get(seen, "entry"), text: get(seen, "text"), expected: get(seen, "expected"), got: get(seen, "got") }
}
fn list(h: &[u64]) -> String {
    h.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

/// A case whose process dies: shrink by running candidates one process each.
fn shrink_dead(p: &'static Prop, index: u64, start: Vec<u32>, how: String) -> Found {
    let idx = index.to_string();
    let mut how = how;
    let mut best = start.clone();
    let t0 = Instant::now();
    let dead = |c: &[u32]| -> Option<String> {
        let (e, _) = alone(&["one", p.id, &idx, "-"], Some(&choices_arg(c)));
        if e.died {
            Some(e.how)
        } else {
            None
        }
    };
    if !start.is_empty() && dead(&start).is_some() {
        let mut f = |c: &[u32]| -> bool {
            if t0.elapsed() > Duration::from_secs(40) {
                return false;
            }
            match dead(c) {
                Some(h) => {
                    how = h;
                    true
                }
                None => false,
            }
        };
        best = shrink(start, 250, &mut f);
    }
    let (_, out) = alone(&["text", p.id, &idx, "-"], Some(&choices_arg(&best)));
    Found {
        index,
        history: vec![],
        choices: best,
        what: "the process running the parser died".into(),
        entry: "see the case".into(),
        text: out,
        expected: "a tree or an error".into(),
        got: how,
    }
}

fn check(p: &'static Prop) -> ! {
    let t0 = Instant::now();
    let seed = env_seed();
    let n = cases(p);
    let tmp = format!("{}/nsv-{}-{}", std::env::temp_dir().display(), p.id, std::process::id());
    std::fs::create_dir_all(&tmp).unwrap();
    let (slots, out) = (format!("{}/slots", tmp), format!("{}/report", tmp));
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["worker", p.id, &seed.to_string(), "0", &n.to_string(), &slots, &out]).stdin(Stdio::null());
    limit_cpu(&mut c, 0);
    let st = c.status().unwrap();
    let report = read_report(&out);
    let in_flight: Vec<u64> = std::fs::read(&slots)
        .unwrap_or_default()
        .chunks_exact(8)
        .map(|b| u64::from_le_bytes(b.try_into().unwrap()))
        .filter(|&i| i != u64::MAX)
        .collect();
    let _ = std::fs::remove_dir_all(&tmp);

    let (known, new) = findings(p.id);
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", p.id, k);
    }

    let mut found: Option<Found> = None;
    let report = match report {
        Some(mut r) if st.success() => {
            if let Some(h) = &r.harness {
                eprintln!("error of the check: {}", h);
                if r.fail.is_none() {
                    evidence(p, seed, &r, &[], t0.elapsed().as_secs_f64(), 0);
                    exit(2);
                }
            }
            if let Some(i) = r.fail {
                found = Some(shrink_found(p, seed, i, &r.seen, &r.ran));
            } else {
                found = guided(p, seed, &mut r);
            }
            r
        }
        _ => {
            eprintln!("worker ended with {}; in flight: {:?}", st, in_flight);
            let mut fl = in_flight.clone();
            fl.sort();
            for i in fl {
                let (e, _) = alone(&["one", p.id, &i.to_string(), &seed.to_string()], None);
                if e.died {
                    // the choice sequence is recorded by generating without parsing
                    let (_, c) = alone(&["trace", p.id, &seed.to_string(), &i.to_string()], None);
                    found = Some(shrink_dead(p, i, parse_choices(c.trim()), e.how));
                    break;
                }
            }
            if let (None, Some(&to)) = (&found, in_flight.iter().max()) {
                // perhaps it takes the parses before it
                let (e, _) = alone_for(&["range", p.id, &seed.to_string()], Some(&list(&(0..=to).collect::<Vec<u64>>())), 200);
                if e.died && !e.how.starts_with("no end") {
                    found = Some(Found {
                        index: to,
                        history: vec![],
                        choices: vec![],
                        what: "a process running many parses one after another died".into(),
                        entry: "see the cases".into(),
                        text: String::new(),
                        expected: "a tree or an error for each".into(),
                        got: e.how,
                    });
                }
            }
            if found.is_none() {
                eprintln!("neither a single case nor the run of cases reproduces it: no verdict");
                exit(3);
            }
            let mut r = Report::default();
            let ran = in_flight.iter().max().copied().unwrap_or(0);
            r.nums.insert("cases".into(), ran.to_string());
            r
        }
    };
    if found.is_none() {
        if let Some(f) = new.into_iter().next() {
            found = Some(f);
        }
    }
    match found {
        None => {
            evidence(p, seed, &report, &[], t0.elapsed().as_secs_f64(), 0);
            let n = |k: &str| report.nums.get(k).cloned().unwrap_or_default();
            println!(
                "OK property={} cases={} parser_calls={} distinct_nontrivial={} undecided={} max_work={} guided_cases={} guided_features={} {:.1}s",
                p.id, n("cases"), n("evals"), n("distinct"), n("unspecified"), n("max_work"), n("guided_cases"), n("guided_features"), t0.elapsed().as_secs_f64()
            );
            exit(0)
        }
        Some(f) => {
            let path = write_replay(p, seed, &f);
            evidence(p, seed, &report, &[f.text.clone()], t0.elapsed().as_secs_f64(), 1);
            println!("case {}: {} [{}]", f.index, f.what, f.entry);
            println!("text: {}", clip(&f.text, 2000));
            println!("expected: {}", clip(&f.expected, 3000));
            println!("got: {}", clip(&f.got, 3000));
            println!("VIOLATION property={} replay={}", p.id, path);
            exit(1)
        }
    }
}

// ---- known findings --------------------------------------------------------------

/// Defects that are recorded rather than repaired. Each is tried on every run
/// of its property: (those listed in known-findings.txt, those that are not).
fn findings(p: &str) -> (Vec<String>, Vec<Found>) {
    let listed = std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())).unwrap_or_default();
    let (mut known, mut new) = (vec![], vec![]);
    for (key, prop, what) in FINDINGS {
        if *prop != p {
            continue;
        }
        let (e, out) = alone(&["finding", key], None);
        let fails = e.died || out.trim() != "ok";
        if !fails {
            continue;
        }
        if listed.lines().any(|l| l.starts_with("finding:") && l.split_whitespace().any(|w| w == format!("key={}", key))) {
            known.push(what.to_string());
        } else {
            new.push(Found {
                index: 0,
                history: vec![],
                choices: vec![],
                what: what.to_string(),
                entry: key.to_string(),
                text: key.to_string(),
                expected: "see known-findings.txt".into(),
                got: if e.died { e.how } else { out },
            });
        }
    }
    (known, new)
}

/// key, property, what fails
const FINDINGS: &[(&str, &str, &str)] = &[
    ("deep-groups", "C17", "SELECT * followed by 100000 times '{' overflows an 8 MB stack instead of yielding an error (recursive descent without a depth limit)"),
    ("display", "C22", "formatting a SparqlQuery with Display panics ('not implemented')"),
];

fn run_finding(key: &str) -> ! {
    match key {
        "deep-groups" => {
            let t = format!("SELECT * {}", "{".repeat(100_000));
            let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || nom_sparql::parser::sparql_query(&t).is_err()).unwrap();
            println!("{}", if h.join().is_ok() { "ok" } else { "panic" });
        }
        "display" => {
            let q = nom_sparql::parser::sparql_query("ASK { }").unwrap().1;
            let r = catch_unwind(AssertUnwindSafe(|| format!("{}", q)));
            println!("{}", if r.is_ok() { "ok" } else { "panic" });
        }
        _ => {}
    }
    exit(0)
}

fn parse_choices(s: &str) -> Vec<u32> {
    s.trim().split(',').filter_map(|x| x.trim().parse().ok()).collect()
}
fn stdin_text() -> String {
    let mut s = String::new();
    use std::io::Read;
    std::io::stdin().read_to_string(&mut s).unwrap();
    s
}

/// value of a string field in one of our own replay files
fn field(s: &str, k: &str) -> Option<String> {
    let i = s.find(&format!("\"{}\":", k))?;
    let r = s[i + k.len() + 3..].trim_start();
    if let Some(r) = r.strip_prefix('"') {
        Some(r[..r.find('"')?].to_string())
    } else {
        Some(r.split(|c: char| c == ',' || c == '\n').next()?.trim().to_string())
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let g = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    match g(0) {
        "check" => check(prop(g(1))),
        "worker" => {
            worker(prop(g(1)), g(2).parse().unwrap(), g(3).parse().unwrap(), g(4).parse().unwrap(), g(5), g(6))
        }
        // one <prop> <index> <seed|->: the case alone; "-" takes choices from stdin
        "one" | "text" | "trace" => {
            quiet_panics();
            let p = prop(g(1));
            if g(0) == "trace" {
                sut::dry_run();
                let (seed, i): (u64, u64) = (g(2).parse().unwrap(), g(3).parse().unwrap());
                let c = on_big_stack(move || {
                    let mut s = Src::random(case_seed(seed, p.id, i));
                    let _ = run_case(p.id, i, &mut s);
                    s.choices.clone()
                });
                println!("{}", choices_arg(&c));
                exit(0)
            }
            if g(0) == "text" {
                sut::dry_run();
            }
            let i: u64 = g(2).parse().unwrap();
            let mut s = if g(3) == "-" {
                Src::replay(parse_choices(&stdin_text()))
            } else {
                Src::random(case_seed(g(3).parse().unwrap(), p.id, i))
            };
            let cx = on_big_stack(move || run_case(p.id, i, &mut s));
            if g(0) == "text" {
                print!("{}", cx.text);
                exit(0)
            }
            println!("text: {}", cx.text);
            println!("labels: {:?} unspecified: {} work: {} growth: {}", cx.labels, cx.unspecified, cx.max_work, cx.growth);
            if let Some(h) = cx.harness {
                println!("harness: {}", h);
                exit(2)
            }
            if let Some(f) = cx.fail {
                println!("FAIL {} [{}]\ntext: {}\nexpected: {}\ngot: {}", f.what, f.entry, f.text, f.expected, f.got);
                exit(1)
            }
        }
        "shrink" => {
            quiet_panics();
            let (p, index) = (prop(g(1)), g(3).parse().unwrap());
            shrink_here(p, Src::random(case_seed(g(2).parse().unwrap(), p.id, index)), index);
        }
        // shrinkc <prop> <index>: the choices on stdin
        "shrinkc" => {
            quiet_panics();
            shrink_here(prop(g(1)), Src::replay(parse_choices(&stdin_text())), g(2).parse().unwrap());
        }
        // guide <prop> <seed> <stream> <cases> <seconds> <slot> <report>
        "guide" => guide_here(prop(g(1)), g(2).parse().unwrap(), g(3).parse().unwrap(), g(4).parse().unwrap(), g(5).parse().unwrap(), g(6).to_string(), g(7).to_string()),
        // gtrace <prop> <index> <seed>: choices of a guided case, prefix on stdin
        "gtrace" => {
            quiet_panics();
            sut::dry_run();
            let (p, i) = (prop(g(1)), g(2).parse().unwrap());
            let mut s = Src::guided(parse_choices(&stdin_text()), g(3).parse().unwrap());
            on_big_stack(move || {
                let _ = run_case(p.id, i, &mut s);
                println!("{}", choices_arg(&s.choices));
            });
        }
        // range <prop> <seed>: the cases listed on stdin one after another on
        // one thread; the last line is "FAIL <index>" if the last of them fails
        "range" => {
            quiet_panics();
            let p = prop(g(1));
            let seed: u64 = g(2).parse().unwrap();
            let h: Vec<u64> = stdin_text().trim().split(',').filter_map(|x| x.parse().ok()).collect();
            let to = h.last().copied().unwrap_or(0);
            let last = on_big_stack(move || {
                let mut last = None;
                for i in h {
                    let mut s = Src::random(case_seed(seed, p.id, i));
                    last = run_case(p.id, i, &mut s).fail;
                }
                last
            });
            if let Some(f) = last {
                println!("{} [{}]\ntext: {}\nexpected: {}\ngot: {}\nFAIL {}", f.what, f.entry, clip(&f.text, 2000), clip(&f.expected, 2000), clip(&f.got, 2000), to);
                exit(1)
            }
        }
        // outcomes of every parser on the text on stdin
        "outcomes" => {
            quiet_panics();
            let t = stdin_text();
            sut::set_factor(true);
            print!("{}", on_big_stack(move || checks::outcomes(&t)));
        }
        "finding" => run_finding(g(1)),
        "replay" => {
            quiet_panics();
            let s = std::fs::read_to_string(g(1)).unwrap();
            let p = prop(&field(&s, "property").unwrap());
            let c = field(&s, "choices").unwrap();
            let i = field(&s, "index").unwrap();
            let h = field(&s, "history").unwrap_or_default();
            if !h.is_empty() || c.is_empty() {
                let seed = field(&s, "seed").unwrap().parse::<i64>().unwrap() as u64;
                let h = if h.is_empty() { i.clone() } else { h };
                let (e, out) = alone_for(&["range", p.id, &seed.to_string()], Some(&h), 600);
                print!("{}", out);
                if e.died || out.lines().last().map_or(false, |l| l == format!("FAIL {}", i)) {
                    println!("VIOLATION property={} replay={}", p.id, g(1));
                    exit(1)
                }
                exit(0)
            }
            let (e, out) = alone(&["one", p.id, &i, "-"], Some(&c));
            print!("{}", out);
            if e.died {
                println!("{}", e.how);
            }
            if e.died || out.contains("\nFAIL ") {
                println!("VIOLATION property={} replay={}", p.id, g(1));
                exit(1)
            }
        }
        // parse <entry> <text>: debugging aid
        // the words and numbers of the code, for known_words.txt
        "words" => print!("{}", dict::dict().dump()),
        "parse" => {
            quiet_panics();
            let e = *sut::ENTRIES.iter().find(|e| format!("{:?}", e).eq_ignore_ascii_case(g(1))).unwrap();
            let t = g(2).to_string();
            on_big_stack(move || {
                println!("sut: {}", sut::run(e, &t).brief());
                println!("ref: {:?}", checks::verdict(&t, e));
            });
        }
        _ => {
            eprintln!("usage: nsv check <property> | replay <file> | one <property> <index> <seed> | parse <entry> <text>");
            exit(2)
        }
    }
}

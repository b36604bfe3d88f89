//! What of the code under test a case ran through. The counters and comparison
//! hooks are called only by a nom-sparql built with SanitizerCoverage (see
//! cov-wrapper.sh); in the plain build nothing calls them and `ready` is false.
//!
//! A feature is either a place in the code together with how often it was passed
//! (in powers of two), or a comparison together with how far its two sides were
//! apart. Used by one thread at a time, in processes that do nothing else.

use std::cell::UnsafeCell;

const BITS: usize = 18;
/// features of comparisons come first, those of counters behind them
const CMP: usize = 1 << BITS;

struct State {
    counters: Vec<(usize, usize)>,
    epoch: u32,
    seen: Vec<u32>,
    touched: Vec<u32>,
}
struct Shared(UnsafeCell<State>);
unsafe impl Sync for Shared {}
static S: Shared = Shared(UnsafeCell::new(State { counters: Vec::new(), epoch: 0, seen: Vec::new(), touched: Vec::new() }));

#[allow(clippy::mut_from_ref)]
fn st() -> &'static mut State {
    unsafe { &mut *S.0.get() }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(from: *mut u8, to: *mut u8) {
    let r = (from as usize, to as usize);
    if r.1 > r.0 && !st().counters.contains(&r) {
        st().counters.push(r);
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(_: *const usize, _: *const usize) {}

/// The table of the comparisons met since `begin`, for the hooks.
static mut EPOCH: u32 = 0;
static mut SEEN: *mut u32 = std::ptr::null_mut();

thread_local! {
    /// comparisons count on the thread that called `begin`
    static HERE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

#[inline(always)]
fn compare(a: u64, b: u64, pc: u64) {
    unsafe {
        if SEEN.is_null() || !HERE.get() {
            return;
        }
        let d = a.abs_diff(b);
        let far = if d <= 32 { d } else { 97 - d.leading_zeros() as u64 };
        let h = (pc ^ far << 40).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        let k = (h >> (64 - BITS)) as usize;
        if *SEEN.add(k) != EPOCH {
            note(k);
        }
    }
}
#[cold]
fn note(k: usize) {
    let s = st();
    s.seen[k] = s.epoch;
    s.touched.push(k as u32);
}

#[cfg(target_arch = "x86_64")]
macro_rules! hook {
    ($name:ident, $inner:ident, $t:ty) => {
        extern "C" fn $inner(a: $t, b: $t, pc: u64) {
            compare(a as u64, b as u64, pc)
        }
        /// hands on the address it was called from
        #[unsafe(naked)]
        #[no_mangle]
        pub extern "C" fn $name(_: $t, _: $t) {
            std::arch::naked_asm!("mov rdx, [rsp]", "jmp {}", sym $inner)
        }
    };
}
#[cfg(target_arch = "x86_64")]
hook!(__sanitizer_cov_trace_cmp1, cmp1, u8);
#[cfg(target_arch = "x86_64")]
hook!(__sanitizer_cov_trace_cmp2, cmp2, u16);
#[cfg(target_arch = "x86_64")]
hook!(__sanitizer_cov_trace_cmp4, cmp4, u32);
#[cfg(target_arch = "x86_64")]
hook!(__sanitizer_cov_trace_cmp8, cmp8, u64);
#[cfg(target_arch = "x86_64")]
hook!(__sanitizer_cov_trace_const_cmp1, ccmp1, u8);
#[cfg(target_arch = "x86_64")]
hook!(__sanitizer_cov_trace_const_cmp2, ccmp2, u16);
#[cfg(target_arch = "x86_64")]
hook!(__sanitizer_cov_trace_const_cmp4, ccmp4, u32);
#[cfg(target_arch = "x86_64")]
hook!(__sanitizer_cov_trace_const_cmp8, ccmp8, u64);
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_switch(_: u64, _: *const u64) {}

/// Whether the code under test reports what it runs through.
pub fn ready() -> bool {
    !st().counters.is_empty()
}
pub fn size() -> usize {
    CMP + 8 * st().counters.iter().map(|c| c.1 - c.0).sum::<usize>()
}
/// Whether the feature is a place in the code that was passed at least once.
pub fn is_place(f: u32) -> bool {
    f as usize >= CMP
}
pub fn begin() {
    let s = st();
    if s.seen.is_empty() {
        s.seen = vec![0; CMP];
        s.touched.reserve(CMP);
    }
    s.epoch = s.epoch.wrapping_add(1);
    if s.epoch == 0 {
        s.seen.iter_mut().for_each(|x| *x = 0);
        s.epoch = 1;
    }
    s.touched.clear();
    for &(a, b) in &s.counters {
        unsafe { std::ptr::write_bytes(a as *mut u8, 0, b - a) }
    }
    HERE.set(true);
    unsafe {
        EPOCH = s.epoch;
        SEEN = s.seen.as_mut_ptr();
    }
}
/// The features since `begin`.
pub fn end(out: &mut Vec<u32>) {
    let s = st();
    unsafe { SEEN = std::ptr::null_mut() }
    out.clear();
    out.extend_from_slice(&s.touched);
    let mut base = CMP;
    for &(a, b) in &s.counters {
        let n = b - a;
        let bytes = unsafe { std::slice::from_raw_parts(a as *const u8, n) };
        for (w, eight) in bytes.chunks(8).enumerate() {
            if eight.len() == 8 && u64::from_ne_bytes(eight.try_into().unwrap()) == 0 {
                continue;
            }
            for (k, &c) in eight.iter().enumerate() {
                if c == 0 {
                    continue;
                }
                let k = w * 8 + k;
                let bucket = match c {
                    1 => 0,
                    2 => 1,
                    3 => 2,
                    4..=7 => 3,
                    8..=15 => 4,
                    16..=31 => 5,
                    32..=127 => 6,
                    _ => 7,
                };
                out.push((base + k * 8) as u32);
                if bucket > 0 {
                    out.push((base + k * 8 + bucket) as u32);
                }
            }
        }
        base += n * 8;
    }
}

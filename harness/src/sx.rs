//! Interface of a harness to whoever runs it: the symbolic executor, or the native replay binary,
//! which answers from a recorded input vector.
#![allow(dead_code)]
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

mod raw {
    unsafe extern "C-unwind" {
        pub fn sx_sym(bits: u32) -> u64;
        pub fn sx_choose(n: u64) -> u64;
        pub fn sx_assume(c: bool);
        pub fn sx_check(c: bool, code: u32);
        pub fn sx_fail(code: u32) -> !;
        pub fn sx_catch(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u32;
        pub fn sx_cover(id: u32);
        pub fn sx_log(v: u64);
        pub fn sx_concrete(v: u64) -> u64;
        pub fn sx_hash_seed(s: u64);
        pub fn sx_print_begin();
        pub fn sx_print_end(put: extern "C-unwind" fn(u8));
    }
}

/// A fresh symbolic value of `bits` bits.
#[inline(never)]
pub fn sym(bits: u32) -> u64 {
    unsafe { raw::sx_sym(bits) }
}
/// A fresh value below n, one path per value.
#[inline(never)]
pub fn choose(n: u64) -> u64 {
    unsafe { raw::sx_choose(n) }
}
pub fn pick(n: usize) -> usize {
    choose(n as u64) as usize
}
pub fn flag() -> bool {
    choose(2) == 1
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { raw::sx_assume(c) }
}
/// Assertion: must hold for every value on the path.
#[inline(always)]
pub fn check(c: bool, code: u32) {
    unsafe { raw::sx_check(c, code) }
}
pub fn fail(code: u32) -> ! {
    unsafe { raw::sx_fail(code) }
}
/// The label must be reached by some path, or the check counts as vacuous.
pub fn cover(id: u32) {
    unsafe { raw::sx_cover(id) }
}
#[inline(always)]
pub fn log(v: u64) {
    unsafe { raw::sx_log(v) }
}
/// Split into one path per value.
pub fn concrete(v: u64) -> u64 {
    unsafe { raw::sx_concrete(v) }
}
/// Decide a condition: one path per truth value.
#[inline(always)]
pub fn decide(c: bool) -> bool {
    unsafe { raw::sx_concrete(c as u64) != 0 }
}
/// 0: every key hashes alike (tables iterate in insertion order); other values give permutations.
pub fn hash_seed(s: u64) {
    unsafe { raw::sx_hash_seed(s) }
}

struct Call<F, R> {
    f: Option<F>,
    r: Option<R>,
}
extern "C-unwind" fn tramp<F: FnOnce() -> R, R>(p: *mut u8) {
    let c = unsafe { &mut *(p as *mut Call<F, R>) };
    let f = c.f.take().unwrap();
    c.r = Some(f());
}
/// Run f; None if it panicked.
pub fn catch<F: FnOnce() -> R, R>(f: F) -> Option<R> {
    let mut c = Call { f: Some(f), r: None };
    let k = unsafe { raw::sx_catch(tramp::<F, R>, &mut c as *mut Call<F, R> as *mut u8) };
    if k == 0 { c.r.take() } else { None }
}

static mut SINK: Vec<u8> = vec![];
/// The executor calls this in place of the standard library's `_print`, where h_c27 is wanted.
#[unsafe(no_mangle)]
pub fn sx_sink(a: std::fmt::Arguments<'_>) {
    struct W;
    impl std::fmt::Write for W {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            unsafe { (*(&raw mut SINK)).extend_from_slice(s.as_bytes()) };
            Ok(())
        }
    }
    let _ = std::fmt::Write::write_fmt(&mut W, a);
}
extern "C-unwind" fn put(b: u8) {
    unsafe { (*(&raw mut SINK)).push(b) };
}
/// What f writes to the standard output, and its result unless it panicked.
pub fn printed<F: FnOnce() -> R, R>(f: F) -> (Option<R>, Vec<u8>) {
    unsafe { (*(&raw mut SINK)).clear() };
    unsafe { raw::sx_print_begin() };
    let r = catch(f);
    unsafe { raw::sx_print_end(put) };
    (r, unsafe { (*(&raw mut SINK)).clone() })
}

/// A symbolic printable or control ASCII character.
pub fn ascii() -> char {
    char::from(sym(7) as u8)
}
/// How often the long forms of a harness are doubled in size: the topmost bits of its argument.
static DOUBLED: AtomicUsize = AtomicUsize::new(0);
pub fn doubled(l: u64) {
    DOUBLED.store((l >> 60) as usize, Ordering::Relaxed);
}
pub fn long(n: usize) -> usize {
    n << DOUBLED.load(Ordering::Relaxed)
}
/// Whether `any_char` takes more characters beyond ASCII.
static WIDE: AtomicBool = AtomicBool::new(false);
pub fn wide(on: bool) {
    WIDE.store(on, Ordering::Relaxed);
}
pub fn is_wide() -> bool {
    WIDE.load(Ordering::Relaxed)
}
/// Letters, digits, white space, and what looks like them or like the signs of the grammar language but is not.
pub const MORE: [char; 17] = [
    'ß', 'Ж', '\u{1d4d0}', '\u{2167}', '\u{2003}', '\u{85}', '\u{a0}', '\u{2028}', '\u{3000}', '\u{663}', '\u{1F600}', '\u{feff}', '\u{200b}', '\u{301}', '\u{201c}', '\u{ff1b}', '\u{2192}',
];
/// A symbolic character: any ASCII, or one of a few representatives of the 2-, 3- and 4-byte classes
/// (a letter, a digit that is not one of ASCII, white space, something else).
pub fn any_char() -> char {
    if is_wide() {
        return match choose(18) {
            0 => ascii(),
            i => MORE[i as usize - 1],
        };
    }
    match choose(5) {
        0 => ascii(),
        1 => 'ß',
        2 => '\u{2003}',
        3 => '\u{663}',
        _ => '\u{1F600}',
    }
}
/// A symbolic character: any Unicode scalar value.
pub fn scalar() -> char {
    let v = sym(21) as u32;
    assume((v < 0x11_0000) & !((v >= 0xd800) & (v < 0xe000)));
    unsafe { char::from_u32_unchecked(v) }
}

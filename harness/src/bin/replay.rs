//! Runs a harness natively on recorded inputs: replay ENTRY ARG < lines of comma separated inputs.
//! One line of output per input line: "ok LOGHASH NLOG", "fail CODE", "panic LOC", "assume".
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};

struct St {
    inp: Vec<u64>,
    ix: usize,
    h: u64,
    n: u64,
    loc: String,
}
thread_local! {
    static ST: RefCell<St> = const { RefCell::new(St { inp: vec![], ix: 0, h: 0, n: 0, loc: String::new() }) };
}
struct Fail(u32);
struct Assume;

fn next() -> u64 {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let v = s.inp.get(s.ix).copied().unwrap_or(0);
        s.ix += 1;
        v
    })
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn sx_sym(bits: u32) -> u64 {
    let v = next();
    if bits >= 64 { v } else { v & ((1 << bits) - 1) }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn sx_choose(n: u64) -> u64 {
    next() % n.max(1)
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn sx_assume(c: bool) {
    if !c {
        resume_unwind(Box::new(Assume));
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn sx_check(c: bool, code: u32) {
    if !c {
        resume_unwind(Box::new(Fail(code)));
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn sx_fail(code: u32) -> ! {
    resume_unwind(Box::new(Fail(code)))
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn sx_catch(f: extern "C-unwind" fn(*mut u8), d: *mut u8) -> u32 {
    match catch_unwind(AssertUnwindSafe(|| f(d))) {
        Ok(()) => 0,
        Err(e) => {
            if e.is::<Fail>() || e.is::<Assume>() {
                resume_unwind(e);
            }
            1
        }
    }
}
unsafe extern "C" {
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn pread(fd: i32, buf: *mut u8, n: usize, at: i64) -> isize;
}
thread_local! {
    static OUT: std::cell::Cell<(i32, i32)> = const { std::cell::Cell::new((-1, -1)) };
}
/// The standard output goes to a file in memory from here on.
#[unsafe(no_mangle)]
pub extern "C-unwind" fn sx_print_begin() {
    let _ = std::io::stdout().flush();
    unsafe {
        let m = memfd_create(c"out".as_ptr() as *const u8, 0);
        let old = dup(1);
        if m < 0 || old < 0 || dup2(m, 1) < 0 {
            std::process::abort();
        }
        OUT.set((m, old));
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn sx_print_end(put: extern "C-unwind" fn(u8)) {
    let _ = std::io::stdout().flush();
    let (m, old) = OUT.get();
    let mut all = vec![];
    unsafe {
        dup2(old, 1);
        close(old);
        let mut b = [0u8; 256];
        loop {
            let n = pread(m, b.as_mut_ptr(), b.len(), all.len() as i64);
            if n <= 0 {
                break;
            }
            all.extend_from_slice(&b[..n as usize]);
        }
        close(m);
    }
    for b in all {
        put(b);
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn sx_cover(_: u32) {}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn sx_log(x: u64) {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.h = (s.h ^ x).wrapping_mul(0x100000001b3).rotate_left(23);
        s.n += 1;
        if std::env::var_os("SX_LOG").is_some() {
            eprintln!("log {}", x);
        }
    })
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn sx_concrete(v: u64) -> u64 {
    v
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn sx_hash_seed(_: u64) {}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = hpp_harness::ENTRIES.iter().find(|x| x.0 == a[1]).expect("no such entry").1;
    let arg: u64 = a[2].parse().unwrap();
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        ST.with(|s| s.borrow_mut().loc = l);
    }));
    let stdin = std::io::stdin();
    // keep a little stack, so that runaway recursion ends soon
    let out = std::io::stderr();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let inp: Vec<u64> = line.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        ST.with(|s| *s.borrow_mut() = St { inp, ix: 0, h: 0xcbf29ce484222325, n: 0, loc: String::new() });
        let r = catch_unwind(AssertUnwindSafe(|| f(arg)));
        let txt = match r {
            Ok(()) => ST.with(|s| {
                let s = s.borrow();
                format!("ok {:016x} {}", s.h, s.n)
            }),
            Err(e) => {
                if let Some(f) = e.downcast_ref::<Fail>() {
                    format!("fail {}", f.0)
                } else if e.is::<Assume>() {
                    "assume".into()
                } else {
                    ST.with(|s| format!("panic {}", s.borrow().loc))
                }
            }
        };
        // results go to stderr: the code under test may print to stdout
        let _ = writeln!(out.lock(), "@@ {}", txt);
    }
}

//! z3 (through its C API) behind a per-thread context, with a shared query cache.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_del_config(c: P);
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(cfg: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(_c: P, _e: c_int) {}

pub fn z3_version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Clone)]
pub enum Ans {
    Sat(std::sync::Arc<Vec<(u32, u64)>>),
    Unsat,
    Unknown,
}

pub struct Shared {
    pub cache: Vec<Mutex<HashMap<u128, Ans>>>,
    pub queries: AtomicU64,  // answered by z3
    pub q_sat: AtomicU64,
    pub q_unsat: AtomicU64,
    pub q_unknown: AtomicU64,
    pub q_retried: AtomicU64,
    pub cached: AtomicU64,   // answered from an earlier identical query
    pub by_model: AtomicU64, // one side witnessed by the path's current z3 model
    pub solver_ns: AtomicU64,
    pub max_ns: AtomicU64,
    pub dump: Mutex<Vec<(String, bool)>>,
    pub dump_every: u64,
    pub dump_max: usize,
    pub timeout_ms: u32,
}
impl Shared {
    pub fn new(timeout_ms: u32, dump_every: u64, dump_max: usize) -> Shared {
        Shared {
            cache: (0..64).map(|_| Mutex::new(HashMap::new())).collect(),
            queries: AtomicU64::new(0),
            q_sat: AtomicU64::new(0),
            q_unsat: AtomicU64::new(0),
            q_unknown: AtomicU64::new(0),
            q_retried: AtomicU64::new(0),
            cached: AtomicU64::new(0),
            by_model: AtomicU64::new(0),
            solver_ns: AtomicU64::new(0),
            max_ns: AtomicU64::new(0),
            dump: Mutex::new(vec![]),
            dump_every,
            dump_max,
            timeout_ms,
        }
    }
}

pub struct Solver {
    ctx: P,
    solver: P,
    bv: HashMap<u128, P>,
    bl: HashMap<u128, P>,
    vars: HashMap<(u32, u32), P>,
    sorts: HashMap<u32, P>,
    nums: HashMap<(u128, u32), P>,
    timeout_ms: u32,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        let mut s = Solver {
            ctx: std::ptr::null_mut(),
            solver: std::ptr::null_mut(),
            bv: HashMap::new(),
            bl: HashMap::new(),
            vars: HashMap::new(),
            sorts: HashMap::new(),
            nums: HashMap::new(),
            timeout_ms,
        };
        s.open();
        s
    }
    fn open(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            self.ctx = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.ctx, Some(on_err));
        }
        self.solver = self.make(0);
    }
    /// The incremental core; others for the query it does not answer soon: the core with another seed, the procedure for QF_BV.
    fn make(&self, kind: usize) -> P {
        unsafe {
            let name = |s: &str| {
                let s = CString::new(s).unwrap();
                Z3_mk_string_symbol(self.ctx, s.as_ptr())
            };
            let s = if kind == 1 { Z3_mk_solver_for_logic(self.ctx, name("QF_BV")) } else { Z3_mk_simple_solver(self.ctx) };
            Z3_solver_inc_ref(self.ctx, s);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            Z3_params_set_uint(self.ctx, p, name("timeout"), if kind == 0 { self.timeout_ms / 4 } else { self.timeout_ms });
            if kind == 2 {
                Z3_params_set_uint(self.ctx, p, name("random_seed"), 7);
            }
            Z3_solver_set_params(self.ctx, s, p);
            Z3_params_dec_ref(self.ctx, p);
            s
        }
    }
    fn close(&mut self) {
        unsafe {
            Z3_solver_dec_ref(self.ctx, self.solver);
            Z3_del_context(self.ctx);
        }
        self.bv.clear();
        self.bl.clear();
        self.vars.clear();
        self.sorts.clear();
        self.nums.clear();
    }
    fn sort(&mut self, w: u32) -> P {
        let c = self.ctx;
        *self.sorts.entry(w).or_insert_with(|| unsafe {
            let s = Z3_mk_bv_sort(c, w);
            Z3_inc_ref(c, s);
            s
        })
    }
    fn var(&mut self, id: u32, w: u32) -> P {
        if let Some(p) = self.vars.get(&(id, w)) {
            return *p;
        }
        let s = self.sort(w);
        let p = unsafe {
            let n = CString::new(format!("v{}_{}", id, w)).unwrap();
            let sym = Z3_mk_string_symbol(self.ctx, n.as_ptr());
            let p = Z3_mk_const(self.ctx, sym, s);
            Z3_inc_ref(self.ctx, p);
            p
        };
        self.vars.insert((id, w), p);
        p
    }
    fn num(&mut self, v: u128, w: u32) -> P {
        if let Some(p) = self.nums.get(&(v, w)) {
            return *p;
        }
        let s = self.sort(w);
        let p = unsafe {
            let p = if w <= 64 {
                Z3_mk_unsigned_int64(self.ctx, v as u64, s)
            } else {
                let t = CString::new(format!("{}", v)).unwrap();
                Z3_mk_numeral(self.ctx, t.as_ptr(), s)
            };
            // without a reference of its own it would end with the next call
            Z3_inc_ref(self.ctx, p);
            p
        };
        self.nums.insert((v, w), p);
        p
    }
    fn to_bool(&mut self, e: &Expr) -> P {
        debug_assert_eq!(e.w, 1);
        if let Some(p) = self.bl.get(&e.h) {
            return *p;
        }
        let c = self.ctx;
        let p = unsafe {
            match &e.kind {
                Kind::Const(0) => Z3_mk_false(c),
                Kind::Const(_) => Z3_mk_true(c),
                Kind::Un(Op::Not, x) => {
                    let x = self.to_bool(x);
                    Z3_mk_not(c, x)
                }
                Kind::Bin(Op::And, a, b) => {
                    let v = [self.to_bool(a), self.to_bool(b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Kind::Bin(Op::Or, a, b) => {
                    let v = [self.to_bool(a), self.to_bool(b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Kind::Bin(Op::Xor, a, b) => {
                    let (x, y) = (self.to_bool(a), self.to_bool(b));
                    Z3_mk_xor(c, x, y)
                }
                Kind::Bin(Op::Eq, a, b) => {
                    let (x, y) = if a.w == 1 {
                        (self.to_bool(a), self.to_bool(b))
                    } else {
                        (self.to_bv(a), self.to_bv(b))
                    };
                    Z3_mk_eq(c, x, y)
                }
                Kind::Bin(op @ (Op::Ult | Op::Ule | Op::Slt | Op::Sle), a, b) => {
                    let (x, y) = (self.to_bv(a), self.to_bv(b));
                    match op {
                        Op::Ult => Z3_mk_bvult(c, x, y),
                        Op::Ule => Z3_mk_bvule(c, x, y),
                        Op::Slt => Z3_mk_bvslt(c, x, y),
                        _ => Z3_mk_bvsle(c, x, y),
                    }
                }
                Kind::Ite(k, a, b) => {
                    let (k, x, y) = (self.to_bool(k), self.to_bool(a), self.to_bool(b));
                    Z3_mk_ite(c, k, x, y)
                }
                _ => {
                    let x = self.to_bv(e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        unsafe { Z3_inc_ref(c, p) };
        self.bl.insert(e.h, p);
        p
    }
    fn to_bv(&mut self, e: &Expr) -> P {
        if let Some(p) = self.bv.get(&e.h) {
            return *p;
        }
        let c = self.ctx;
        let p = unsafe {
            match &e.kind {
                Kind::Const(v) => self.num(*v, e.w),
                Kind::Var(id) => self.var(*id, e.w),
                Kind::Extract(lo, x) => {
                    let x = self.to_bv(x);
                    Z3_mk_extract(c, lo + e.w - 1, *lo, x)
                }
                Kind::Un(Op::ZExt, x) => {
                    let xx = self.to_bv(x);
                    Z3_mk_zero_ext(c, e.w - x.w, xx)
                }
                Kind::Un(Op::SExt, x) => {
                    let xx = self.to_bv(x);
                    Z3_mk_sign_ext(c, e.w - x.w, xx)
                }
                Kind::Ite(k, a, b) => {
                    let (k, x, y) = (self.to_bool(k), self.to_bv(a), self.to_bv(b));
                    Z3_mk_ite(c, k, x, y)
                }
                _ if e.w == 1 && !matches!(&e.kind, Kind::Bin(Op::Add | Op::Sub | Op::Mul, ..)) => {
                    let b = self.to_bool(e);
                    let (o, z) = (self.num(1, 1), self.num(0, 1));
                    Z3_mk_ite(c, b, o, z)
                }
                Kind::Un(Op::Not, x) => {
                    let x = self.to_bv(x);
                    Z3_mk_bvnot(c, x)
                }
                Kind::Bin(op, a, b) => {
                    let (x, y) = (self.to_bv(a), self.to_bv(b));
                    match op {
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::Concat => Z3_mk_concat(c, x, y),
                        _ => unreachable!("{:?}", op),
                    }
                }
                _ => unreachable!(),
            }
        };
        unsafe { Z3_inc_ref(c, p) };
        self.bv.insert(e.h, p);
        p
    }

    /// Ask z3 whether the conjunction of `cs` is satisfiable; `vars` are the (id,width) of interest.
    pub fn check(&mut self, sh: &Shared, cs: &[Expr], widths: &[u32]) -> Ans {
        // canonical key
        let mut hs: Vec<u128> = cs.iter().map(|e| e.h).collect();
        hs.sort_unstable();
        hs.dedup();
        let mut key = 0x1234_5678u128;
        for h in &hs {
            key = (key ^ h.rotate_left(17)).wrapping_mul(0x9E3779B97F4A7C15_F39CC0605CEDC835u128) ^ (key >> 71);
        }
        let shard = &sh.cache[(key >> 100) as usize & 63];
        if let Some(a) = shard.lock().unwrap().get(&key) {
            sh.cached.fetch_add(1, Relaxed);
            return a.clone();
        }
        let ans = self.check_z3(sh, cs, widths);
        shard.lock().unwrap().insert(key, ans.clone());
        ans
    }

    fn check_z3(&mut self, sh: &Shared, cs: &[Expr], widths: &[u32]) -> Ans {
        if self.bv.len() + self.bl.len() > 400_000 {
            self.close();
            self.open();
        }
        let t0 = Instant::now();
        let mut mask = 0u128;
        let n = sh.queries.fetch_add(1, Relaxed);
        let (mut r, mut err) = (0, 0);
        let mut s = self.solver;
        for i in 0..3 {
            if i > 0 {
                sh.q_retried.fetch_add(1, Relaxed);
                s = self.make(i);
            }
            unsafe { Z3_solver_reset(self.ctx, s) };
            for c in cs {
                mask |= c.mask;
                let p = self.to_bool(c);
                unsafe { Z3_solver_assert(self.ctx, s, p) };
            }
            r = unsafe { Z3_solver_check(self.ctx, s) };
            err = unsafe { Z3_get_error_code(self.ctx) };
            if (r == 1 || r == -1) && err == 0 {
                break;
            }
            if i > 0 && i < 2 {
                unsafe { Z3_solver_dec_ref(self.ctx, s) };
            }
        }
        let ans = if r == 1 {
            let mut out = vec![];
            unsafe {
                let m = Z3_solver_get_model(self.ctx, s);
                Z3_model_inc_ref(self.ctx, m);
                let mut mm = mask;
                while mm != 0 {
                    let id = mm.trailing_zeros();
                    mm &= mm - 1;
                    let v = self.var(id, widths[id as usize]);
                    let mut o: P = std::ptr::null_mut();
                    let mut val = 0u64;
                    if Z3_model_eval(self.ctx, m, v, true, &mut o) && Z3_get_numeral_uint64(self.ctx, o, &mut val) {
                        out.push((id, val));
                    } else {
                        panic!("z3 model evaluation failed");
                    }
                }
                Z3_model_dec_ref(self.ctx, m);
            }
            sh.q_sat.fetch_add(1, Relaxed);
            Ans::Sat(std::sync::Arc::new(out))
        } else if r == -1 && err == 0 {
            sh.q_unsat.fetch_add(1, Relaxed);
            Ans::Unsat
        } else {
            sh.q_unknown.fetch_add(1, Relaxed);
            Ans::Unknown
        };
        let dt = t0.elapsed().as_nanos() as u64;
        sh.solver_ns.fetch_add(dt, Relaxed);
        sh.max_ns.fetch_max(dt, Relaxed);
        if sh.dump_every > 0 && n % sh.dump_every == 0 && !matches!(ans, Ans::Unknown) {
            let mut d = sh.dump.lock().unwrap();
            if d.len() < sh.dump_max {
                let s = unsafe { CStr::from_ptr(Z3_solver_to_string(self.ctx, s)).to_string_lossy().into_owned() };
                d.push((s, matches!(ans, Ans::Sat(_))));
            }
        }
        if s != self.solver {
            unsafe { Z3_solver_dec_ref(self.ctx, s) };
        }
        if let Ans::Sat(mv) = &ans {
            // guard against translation slips: the model must satisfy what was asked
            let mut model = vec![0u64; 128];
            for (i, v) in mv.iter() {
                model[*i as usize] = *v;
            }
            for c in cs {
                if eval(c, &model) != 1 {
                    panic!("z3 model does not satisfy the query: {:?}", c);
                }
            }
        }
        ans
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        self.close();
    }
}

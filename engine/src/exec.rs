//! The symbolic machine: states, instruction semantics, forking, external functions.
use crate::expr::{self, Expr, Op};
use crate::ll::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ext {
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    AlignedAlloc,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Memchr,
    Strlen,
    PanicFmt,
    HashOne(u8), // 1 = usize key, 2 = 4-byte enum key, 0 = other
    RandomKeys,
    Print,
    Nop,
    Assume,
    Expect,
    Umin,
    Umax,
    Smin,
    Smax,
    Abs,
    Ucmp,
    Scmp,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitreverse,
    Fshl,
    Fshr,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    UaddSat,
    UsubSat,
    SaddSat,
    SsubSat,
    TlsAddr,
    Trap,
    IsConstant,
    ObjectSize,
    ReduceOr,
    ReduceAdd,
    PtrMask,
    Write,
    SxSym,
    SxChoose,
    SxAssume,
    SxCheck,
    SxFail,
    SxCatch,
    SxCover,
    SxLog,
    SxConcrete,
    SxHashSeed,
    SxPanicLine,
    SxIsSym,
    Unknown,
}

pub fn ext_of(n: &str) -> Ext {
    use Ext::*;
    match n {
        "malloc" => return Malloc,
        "calloc" => return Calloc,
        "realloc" => return Realloc,
        "free" => return Free,
        "posix_memalign" => return PosixMemalign,
        "aligned_alloc" => return AlignedAlloc,
        "memcmp" => return Memcmp,
        "bcmp" => return Bcmp,
        "memchr" => return Memchr,
        "strlen" => return Strlen,
        "memcpy" | "memmove" => return Memcpy,
        "memset" => return Memset,
        "write" | "writev" => return Write,
        "abort" => return Trap,
        "sx_sym" => return SxSym,
        "sx_choose" => return SxChoose,
        "sx_assume" => return SxAssume,
        "sx_check" => return SxCheck,
        "sx_fail" => return SxFail,
        "sx_catch" => return SxCatch,
        "sx_cover" => return SxCover,
        "sx_log" => return SxLog,
        "sx_concrete" => return SxConcrete,
        "sx_hash_seed" => return SxHashSeed,
        "sx_panic_line" => return SxPanicLine,
        "sx_is_sym" => return SxIsSym,
        "sx_print_begin" | "sx_print_end" => return Nop,
        _ => {}
    }
    if let Some(r) = n.strip_prefix("llvm.") {
        let table: &[(&str, Ext)] = &[
            ("memcpy", Memcpy),
            ("memmove", Memcpy),
            ("memset", Memset),
            ("assume", Assume),
            ("expect", Expect),
            ("umin.", Umin),
            ("umax.", Umax),
            ("smin.", Smin),
            ("smax.", Smax),
            ("abs.", Abs),
            ("ucmp", Ucmp),
            ("scmp", Scmp),
            ("ctlz", Ctlz),
            ("cttz", Cttz),
            ("ctpop", Ctpop),
            ("bswap", Bswap),
            ("bitreverse", Bitreverse),
            ("fshl", Fshl),
            ("fshr", Fshr),
            ("uadd.with", UaddO),
            ("usub.with", UsubO),
            ("umul.with", UmulO),
            ("sadd.with", SaddO),
            ("ssub.with", SsubO),
            ("smul.with", SmulO),
            ("uadd.sat", UaddSat),
            ("usub.sat", UsubSat),
            ("sadd.sat", SaddSat),
            ("ssub.sat", SsubSat),
            ("threadlocal", TlsAddr),
            ("trap", Trap),
            ("is.constant", IsConstant),
            ("objectsize", ObjectSize),
            ("lifetime", Nop),
            ("experimental.noalias", Nop),
            ("vector.reduce.or", ReduceOr),
            ("vector.reduce.add", ReduceAdd),
            ("ptrmask", PtrMask),
            ("dbg", Nop),
            ("prefetch", Nop),
            ("x86.sse2.pause", Nop),
        ];
        for (p, e) in table {
            if r.starts_with(p) {
                return *e;
            }
        }
        return Unknown;
    }
    if n.contains("9panicking9panic_fmt") {
        return PanicFmt;
    }
    if n.contains("8hash_one") {
        let after = &n[n.find("8hash_one").unwrap() + 9..];
        if after.starts_with("RjE") {
            return HashOne(1);
        }
        if after.contains("4sets9SetMember") || after.contains("4sets18SetMemberWithEmpty") {
            return HashOne(2);
        }
        return HashOne(0);
    }
    if n.contains("hashmap_random_keys") {
        return RandomKeys;
    }
    if n.contains("2io5stdio6__print") || n.contains("2io5stdio7__eprint") {
        return Print;
    }
    Unknown
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub block: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub stack_base: usize,
    pub ret: u32, // dst register in caller or MAX
    pub catch: bool,
}

#[derive(Clone, Debug)]
pub enum TraceEnt {
    Sym(Expr),
    Con(u64),
}

#[derive(Clone)]
pub struct State {
    pub cur: Frame,
    pub callers: Vec<Arc<Frame>>,
    pub mem: Mem,
    pub pc: Vec<Expr>,
    pub model: Vec<u64>,
    pub widths: Vec<u32>,
    pub trace: Vec<TraceEnt>,
    pub log: Vec<Val>,
    pub steps: u64,
    pub hash_seed: u64,
    pub covers: u128,
    pub panic_line: u64,
    pub panic_loc: String,
    pub forks: u32,
    pub tls: HashMap<u64, u64>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String, // check / panic / abort / hang / stack / mem
    pub code: u64,
    pub loc: String,
    pub inputs: Vec<u64>,
    pub count: u64,
}

#[derive(Clone, Debug)]
pub struct Sample {
    pub inputs: Vec<u64>,
    pub log: u64,
    pub nlog: u64,
    pub outcome: String,
}

pub struct Limits {
    pub max_steps: u64,
    pub max_depth: usize,
    pub max_bytes: u64,
}

pub struct Global_ {
    pub m: &'static Module,
    pub exts: Vec<Ext>,
    pub base: PArr,
    pub sh: Shared,
    pub lim: Limits,
    pub queue: Mutex<Vec<State>>,
    pub cv: Condvar,
    pub waiting: AtomicUsize,
    pub qlen: AtomicUsize,
    pub stop: AtomicBool,
    pub done: AtomicBool,
    pub nthreads: usize,
    pub paths: AtomicU64,
    pub killed: AtomicU64,
    pub steps: AtomicU64,
    pub forks: AtomicU64,
    pub checks: AtomicU64,
    pub checks_proved: AtomicU64,
    pub maxsteps_path: AtomicU64,
    pub viol: Mutex<HashMap<(String, u64, String), Vec<Violation>>>,
    pub viol_total: AtomicU64,
    pub errors: Mutex<HashMap<String, (u64, Vec<u64>)>>,
    pub covers: Mutex<HashMap<u32, u64>>,
    pub funcs: Vec<AtomicBool>,
    pub samples: Mutex<Vec<Sample>>,
    pub sample_every: u64,
    pub sample_max: usize,
    pub keep_per_kind: usize,
    pub replay: Option<Vec<u64>>,
    pub verbose: bool,
}

enum Flow {
    Next,
    Jump,           // control moved; refetch
    End(String),    // path ended: "ok" or killed
    Stuck(String),    // engine cannot continue
    Retry,          // state was constrained / forked, re-run instruction
}
use Flow::*;

pub struct Worker<'a> {
    pub g: &'a Global_,
    pub solver: Solver,
    pub local: Vec<State>,
    pub seen_funcs: HashSet<u32>,
    pub pool: Vec<Vec<Val>>,
}

type R<T> = Result<T, Flow>;

#[inline]
fn mkval(e: Expr) -> Val {
    if e.w <= 64 {
        if let Some(c) = expr::as_const(&e) {
            return Val::C(c as u64);
        }
    }
    Val::E(e)
}
#[inline]
fn to_e(v: &Val, w: u32) -> Expr {
    match v {
        Val::C(c) => expr::cst(*c as u128, w),
        Val::E(e) => {
            debug_assert_eq!(e.w, w);
            e.clone()
        }
        Val::A(_) => panic!("aggregate used as scalar"),
    }
}

fn bin_val(op: Op, w: u32, a: &Val, b: &Val) -> Val {
    if let (Val::C(x), Val::C(y)) = (a, b) {
        if w <= 64 {
            let (x, y) = (*x, *y);
            let m = expr::m64(w);
            let r = match op {
                Op::Add => x.wrapping_add(y) & m,
                Op::Sub => x.wrapping_sub(y) & m,
                Op::And => x & y,
                Op::Or => x | y,
                Op::Xor => x ^ y,
                Op::Mul => x.wrapping_mul(y) & m,
                Op::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        (x << y) & m
                    }
                }
                Op::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                _ => expr::fold(op, x as u128, y as u128, w) as u64,
            };
            return Val::C(r);
        }
    }
    mkval(expr::bin(op, &to_e(a, w), &to_e(b, w)))
}
fn icmp_val(p: Pred, w: u32, a: &Val, b: &Val) -> Val {
    if let (Val::C(x), Val::C(y)) = (a, b) {
        let (x, y) = (*x, *y);
        let (sx, sy) = (expr::sext64(x, w), expr::sext64(y, w));
        let r = match p {
            Pred::Eq => x == y,
            Pred::Ne => x != y,
            Pred::Ult => x < y,
            Pred::Ule => x <= y,
            Pred::Ugt => x > y,
            Pred::Uge => x >= y,
            Pred::Slt => sx < sy,
            Pred::Sle => sx <= sy,
            Pred::Sgt => sx > sy,
            Pred::Sge => sx >= sy,
        };
        return Val::C(r as u64);
    }
    let (a, b) = (to_e(a, w), to_e(b, w));
    mkval(match p {
        Pred::Eq => expr::bin(Op::Eq, &a, &b),
        Pred::Ne => expr::not(&expr::bin(Op::Eq, &a, &b)),
        Pred::Ult => expr::bin(Op::Ult, &a, &b),
        Pred::Ule => expr::bin(Op::Ule, &a, &b),
        Pred::Ugt => expr::bin(Op::Ult, &b, &a),
        Pred::Uge => expr::bin(Op::Ule, &b, &a),
        Pred::Slt => expr::bin(Op::Slt, &a, &b),
        Pred::Sle => expr::bin(Op::Sle, &a, &b),
        Pred::Sgt => expr::bin(Op::Slt, &b, &a),
        Pred::Sge => expr::bin(Op::Sle, &b, &a),
    })
}
fn cast_val(k: CastK, fw: u32, tw: u32, a: &Val) -> Val {
    if let Val::C(x) = a {
        if tw <= 64 && fw <= 64 {
            return Val::C(match k {
                CastK::Trunc => x & expr::m64(tw),
                CastK::ZExt => *x,
                CastK::SExt => expr::sext64(*x, fw) as u64 & expr::m64(tw),
            });
        }
    }
    let e = to_e(a, fw);
    mkval(match k {
        CastK::Trunc => expr::trunc(&e, tw),
        CastK::ZExt => expr::zext(&e, tw),
        CastK::SExt => expr::sext(&e, tw),
    })
}
fn ite_val(c: &Expr, a: &Val, b: &Val, ty: &Ty) -> Val {
    match (a, b) {
        (Val::A(x), Val::A(y)) => {
            Val::A(Arc::new(x.iter().zip(y.iter()).enumerate().map(|(i, (p, q))| ite_val(c, p, q, ty.elem(i))).collect()))
        }
        _ => {
            let w = ty.width();
            mkval(expr::ite(c, &to_e(a, w), &to_e(b, w)))
        }
    }
}

pub fn initial_mem(m: &Module) -> PArr {
    let mut p = PArr::new();
    for g in &m.globals {
        let mut o = Obj::new(0);
        o.data = g.data.clone();
        o.constant = g.constant;
        p.push(o);
    }
    p
}

pub fn new_state(g: &Global_, f: u32, args: Vec<u64>) -> State {
    let func = &g.m.funcs[f as usize];
    let mut regs = vec![Val::C(0); func.nregs as usize];
    for (i, a) in args.iter().enumerate() {
        if i < func.nparams as usize {
            regs[i] = Val::C(*a);
        }
    }
    State {
        cur: Frame { f, block: 0, ip: 0, regs, stack_base: 0, ret: u32::MAX, catch: false },
        callers: vec![],
        mem: Mem { globals: g.base.clone(), heap: PArr::new(), stack: PArr::new(), free: vec![], live_bytes: 0 },
        pc: vec![],
        model: vec![],
        widths: vec![],
        trace: vec![],
        log: vec![],
        steps: 0,
        hash_seed: 0,
        covers: 0,
        panic_line: 0,
        panic_loc: String::new(),
        forks: 0,
        tls: HashMap::new(),
    }
}

impl State {
    fn inputs(&self, model: &[u64]) -> Vec<u64> {
        self.trace
            .iter()
            .map(|t| match t {
                TraceEnt::Con(c) => *c,
                TraceEnt::Sym(e) => expr::eval(e, model) as u64,
            })
            .collect()
    }
}

impl<'a> Worker<'a> {
    pub fn new(g: &'a Global_) -> Worker<'a> {
        Worker { g, solver: Solver::new(g.sh.timeout_ms), local: vec![], seen_funcs: HashSet::new(), pool: vec![] }
    }

    #[inline]
    fn val<'s>(&self, s: &'s State, o: &'s Opd) -> &'s Val {
        match o {
            Opd::R(r) => &s.cur.regs[*r as usize],
            Opd::K(v) => v,
        }
    }

    /// constraints of pc sharing variables (transitively) with `c`, plus c
    fn slice(&self, s: &State, c: &Expr) -> Vec<Expr> {
        let mut mask = c.mask;
        let mut used = vec![false; s.pc.len()];
        let mut out = vec![c.clone()];
        loop {
            let mut ch = false;
            for (i, p) in s.pc.iter().enumerate() {
                if !used[i] && p.mask & mask != 0 {
                    used[i] = true;
                    mask |= p.mask;
                    out.push(p.clone());
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        out
    }

    /// Is pc ∧ c satisfiable? Returns an updated full model.
    fn sat(&mut self, s: &State, c: &Expr) -> R<Option<Vec<u64>>> {
        if let Some(k) = expr::as_const(c) {
            return Ok(if k == 1 { Some(s.model.clone()) } else { None });
        }
        let cs = self.slice(s, c);
        let ans = self.solver.check(&self.g.sh, &cs, &s.widths);
        match ans {
            Ans::Sat(m) => {
                let mut model = s.model.clone();
                for (i, v) in m.iter() {
                    while model.len() <= *i as usize {
                        model.push(0);
                    }
                    model[*i as usize] = *v;
                }
                Ok(Some(model))
            }
            Ans::Unsat => Ok(None),
            Ans::Unknown => Err(Stuck("solver gave no answer within its time limit".into())),
        }
    }

    /// Decide a symbolic condition: returns the branch taken by `s`; the other feasible side is
    /// returned as a fully constrained copy for the caller to redirect.
    fn branch(&mut self, s: &mut State, c: &Expr) -> R<(bool, Option<State>)> {
        if let Some(k) = expr::as_const(c) {
            return Ok((k == 1, None));
        }
        let nc = expr::not(c);
        for p in s.pc.iter() {
            if p.h == c.h {
                return Ok((true, None));
            }
            if p.h == nc.h {
                return Ok((false, None));
            }
        }
        let mv = expr::eval(c, &s.model) == 1;
        self.g.sh.by_model.fetch_add(1, Relaxed);
        let (here, there) = if mv { (c, &nc) } else { (&nc, c) };
        match self.sat(s, there)? {
            None => Ok((mv, None)),
            Some(m2) => {
                let mut o = s.clone();
                o.pc.push(there.clone());
                o.model = m2;
                o.forks += 1;
                s.pc.push(here.clone());
                s.forks += 1;
                self.g.forks.fetch_add(1, Relaxed);
                Ok((mv, Some(o)))
            }
        }
    }

    fn push_state(&mut self, o: State) {
        if let Some(_) = self.g.replay {
            return;
        }
        let idle = self.g.waiting.load(Relaxed);
        if idle > 0 && self.g.qlen.load(Relaxed) < idle * 2 {
            let mut q = self.g.queue.lock().unwrap();
            q.push(o);
            self.g.qlen.store(q.len(), Relaxed);
            drop(q);
            self.g.cv.notify_one();
        } else {
            self.local.push(o);
        }
    }

    fn conc_expr(&mut self, s: &mut State, e: &Expr) -> R<u64> {
        if let Some(c) = expr::as_const(e) {
            return Ok(c as u64);
        }
        let v = expr::eval(e, &s.model);
        let c = expr::bin(Op::Eq, e, &expr::cst(v, e.w));
        // the eq holds under the model, so the current state keeps it
        let (t, other) = self.branch(s, &c)?;
        debug_assert!(t);
        if let Some(o) = other {
            self.push_state(o);
        }
        Ok(v as u64)
    }

    /// Make the operand concrete in s, forking off the alternatives (which re-run the instruction).
    fn conc(&mut self, s: &mut State, o: &Opd) -> R<u64> {
        match o {
            Opd::K(Val::C(c)) => Ok(*c),
            Opd::R(r) => {
                let v = match &s.cur.regs[*r as usize] {
                    Val::C(c) => return Ok(*c),
                    Val::E(e) => e.clone(),
                    Val::A(_) => return Err(Stuck("aggregate where scalar expected".into())),
                };
                let c = self.conc_expr(s, &v)?;
                s.cur.regs[*r as usize] = Val::C(c);
                Ok(c)
            }
            Opd::K(Val::E(e)) => Ok(expr::as_const(e).unwrap() as u64),
            _ => Err(Stuck("conc".into())),
        }
    }

    fn chk(&self, s: &State, addr: u64, n: u64) -> Result<(u32, u32), String> {
        let id = (addr >> 32) as u32;
        let off = addr as u32;
        match s.mem.obj(id) {
            Some(o) if off as u64 + n <= o.data.len() as u64 => Ok((id, off)),
            Some(o) => Err(format!("access of {} bytes at offset {} of object of {} bytes", n, off, o.data.len())),
            None => Err(format!("access through invalid pointer {:#x}", addr)),
        }
    }
    fn load(&self, s: &State, addr: u64, ty: &Ty) -> Result<Val, String> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let w = ty.width();
                let n = (w + 7) / 8;
                let (id, off) = self.chk(s, addr, n as u64)?;
                let v = s.mem.obj(id).unwrap().read(off, n);
                if w % 8 != 0 {
                    return Ok(cast_val(CastK::Trunc, n * 8, w, &v));
                }
                Ok(v)
            }
            Ty::Vec(n, t) if t.width() % 8 != 0 => {
                let tot = ty.size() as u32;
                let (id, off) = self.chk(s, addr, tot as u64)?;
                let v = s.mem.obj(id).unwrap().read(off, tot);
                let e = to_e(&v, tot * 8);
                let w = t.width();
                Ok(Val::A(Arc::new((0..*n).map(|i| mkval(expr::extract(&e, i * w, w))).collect())))
            }
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for (i, t) in f.iter().enumerate() {
                    v.push(self.load(s, addr + ty.field_off(i), t)?);
                }
                Ok(Val::A(Arc::new(v)))
            }
            Ty::Array(n, t) => {
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load(s, addr + i * t.size(), t)?);
                }
                Ok(Val::A(Arc::new(v)))
            }
            Ty::Vec(n, t) => {
                let mut v = vec![];
                for i in 0..*n as u64 {
                    v.push(self.load(s, addr + i * t.size(), t)?);
                }
                Ok(Val::A(Arc::new(v)))
            }
            _ => Err("load type".into()),
        }
    }
    fn store(&self, s: &mut State, addr: u64, ty: &Ty, v: &Val) -> Result<(), String> {
        match (ty, v) {
            (Ty::Int(_) | Ty::Ptr | Ty::Float(_), _) => {
                let w = ty.width();
                let n = (w + 7) / 8;
                let (id, off) = self.chk(s, addr, n as u64)?;
                let o = s.mem.obj_mut(id).unwrap();
                match v {
                    Val::C(c) if n <= 8 => o.write_c(off, n, *c),
                    Val::C(c) => o.write_e(off, n, &expr::cst(*c as u128, n * 8)),
                    Val::E(e) => {
                        let e2 = if e.w < n * 8 { expr::zext(e, n * 8) } else { e.clone() };
                        o.write_e(off, n, &e2)
                    }
                    Val::A(_) => return Err("store aggregate as scalar".into()),
                }
                Ok(())
            }
            (Ty::Struct(f, _), Val::A(x)) => {
                for (i, t) in f.iter().enumerate() {
                    self.store(s, addr + ty.field_off(i), t, &x[i])?;
                }
                Ok(())
            }
            (Ty::Array(_, t), Val::A(x)) => {
                for (i, v) in x.iter().enumerate() {
                    self.store(s, addr + i as u64 * t.size(), t, v)?;
                }
                Ok(())
            }
            (Ty::Vec(_, t), Val::A(x)) => {
                if t.width() % 8 != 0 {
                    let w = t.width();
                    let mut acc: Option<Expr> = None;
                    for v in x.iter() {
                        let e = to_e(v, w);
                        acc = Some(match acc {
                            None => e,
                            Some(a) => expr::concat(&e, &a),
                        });
                    }
                    let e = acc.unwrap();
                    let n = (e.w + 7) / 8;
                    let v = mkval(expr::zext(&e, n * 8));
                    return self.store(s, addr, &Ty::Int(n * 8), &v);
                }
                for (i, v) in x.iter().enumerate() {
                    self.store(s, addr + i as u64 * t.size(), t, v)?;
                }
                Ok(())
            }
            _ => Err("store type".into()),
        }
    }

    /// Load through a symbolic address: enumerate the feasible addresses and build an ite chain.
    fn load_sym(&mut self, s: &mut State, e: &Expr, ty: &Ty) -> R<Option<Val>> {
        if !matches!(ty, Ty::Int(_) | Ty::Ptr) {
            return Ok(None);
        }
        let mut vals: Vec<(u64, Val)> = vec![];
        let mut tmp = s.clone();
        loop {
            let v = expr::eval(e, &tmp.model) as u64;
            match self.load(s, v, ty) {
                Ok(x) => vals.push((v, x)),
                Err(_) => return Ok(None), // let concretisation report it
            }
            if vals.len() > 300 {
                return Ok(None);
            }
            let ne = expr::not(&expr::bin(Op::Eq, e, &expr::cst(v as u128, 64)));
            match self.sat(&tmp, &ne)? {
                None => break,
                Some(m) => {
                    tmp.pc.push(ne);
                    tmp.model = m;
                }
            }
        }
        let w = ty.width();
        let mut acc = to_e(&vals[0].1, w);
        for (a, v) in vals.iter().skip(1) {
            let c = expr::bin(Op::Eq, e, &expr::cst(*a as u128, 64));
            acc = expr::ite(&c, &to_e(v, w), &acc);
        }
        Ok(Some(mkval(acc)))
    }

    fn violation(&mut self, s: &State, model: &[u64], kind: &str, code: u64, loc: &str) {
        self.g.viol_total.fetch_add(1, Relaxed);
        let key = (kind.to_string(), code, loc.to_string());
        let mut v = self.g.viol.lock().unwrap();
        let l = v.entry(key).or_insert_with(Vec::new);
        if l.len() < self.g.keep_per_kind {
            l.push(Violation { kind: kind.into(), code, loc: loc.into(), inputs: s.inputs(model), count: 1 });
        } else {
            l[0].count += 1;
        }
    }

    fn do_jump(&mut self, s: &mut State, e: &Edge) {
        if !e.moves.is_empty() {
            if e.moves.len() == 1 {
                let v = self.val(s, &e.moves[0].1).clone();
                s.cur.regs[e.moves[0].0 as usize] = v;
            } else {
                let vs: Vec<Val> = e.moves.iter().map(|(_, o)| self.val(s, o).clone()).collect();
                for (v, (d, _)) in vs.into_iter().zip(e.moves.iter()) {
                    s.cur.regs[*d as usize] = v;
                }
            }
        }
        s.cur.block = e.block;
        s.cur.ip = 0;
    }

    fn enter(&mut self, s: &mut State, f: u32, args: Vec<Val>, ret: u32, catch: bool) -> R<()> {
        if s.callers.len() >= self.g.lim.max_depth {
            return Err(Stuck("@stack".into()));
        }
        let func = &self.g.m.funcs[f as usize];
        if self.seen_funcs.insert(f) {
            self.g.funcs[f as usize].store(true, Relaxed);
        }
        let mut regs = self.pool.pop().unwrap_or_default();
        regs.clear();
        regs.extend(args);
        regs.resize(func.nregs as usize, Val::C(0));
        let fr = Frame { f, block: 0, ip: 0, regs, stack_base: s.mem.stack.len, ret, catch };
        let old = std::mem::replace(&mut s.cur, fr);
        s.callers.push(Arc::new(old));
        Ok(())
    }

    fn leave(&mut self, s: &mut State, v: Option<Val>) -> bool {
        // returns false when the entry function returned
        s.mem.stack.truncate(s.cur.stack_base);
        match s.callers.pop() {
            None => false,
            Some(a) => {
                let fr = Arc::try_unwrap(a).unwrap_or_else(|a| (*a).clone());
                let old = std::mem::replace(&mut s.cur, fr);
                if old.ret != u32::MAX {
                    let val = if old.catch { Val::C(0) } else { v.unwrap_or(Val::C(0)) };
                    s.cur.regs[old.ret as usize] = val;
                }
                let mut r = old.regs;
                if self.pool.len() < 64 {
                    r.clear();
                    self.pool.push(r);
                }
                true
            }
        }
    }

    fn do_panic(&mut self, s: &mut State, loc_ptr: u64) -> Flow {
        let mut loc = String::from("?");
        let mut line = 0;
        if let (Ok(Val::C(fp)), Ok(Val::C(n)), Ok(Val::C(l))) = (
            self.load(s, loc_ptr, &Ty::Ptr),
            self.load(s, loc_ptr + 8, &Ty::Int(64)),
            self.load(s, loc_ptr + 16, &Ty::Int(32)),
        ) {
            if let Ok((id, off)) = self.chk(s, fp, n) {
                let d = &s.mem.obj(id).unwrap().data[off as usize..(off as usize + n as usize)];
                loc = format!("{}:{}", String::from_utf8_lossy(d), l);
                line = l;
            }
        }
        s.panic_line = line;
        s.panic_loc = loc.clone();
        // unwind to the nearest catch (destructors of the discarded frames are not run)
        loop {
            let was_catch = s.cur.catch;
            let ret = s.cur.ret;
            s.mem.stack.truncate(s.cur.stack_base);
            match s.callers.pop() {
                None => return End(format!("@panic {}", loc)),
                Some(a) => {
                    s.cur = Arc::try_unwrap(a).unwrap_or_else(|a| (*a).clone());
                    if was_catch {
                        if ret != u32::MAX {
                            s.cur.regs[ret as usize] = Val::C(1);
                        }
                        s.cur.ip += 1;
                        return Jump;
                    }
                }
            }
        }
    }

    pub fn run(&mut self, mut s: State) {
        let m = self.g.m;
        if self.seen_funcs.insert(s.cur.f) {
            self.g.funcs[s.cur.f as usize].store(true, Relaxed);
        }
        loop {
            let func = &m.funcs[s.cur.f as usize];
            let block = &func.blocks[s.cur.block as usize];
            let mut ended: Option<Flow> = None;
            loop {
                let inst = &block[s.cur.ip as usize];
                s.steps += 1;
                if s.steps & 0xfff == 0 {
                    if self.g.stop.load(Relaxed) {
                        return;
                    }
                    if s.steps > self.g.lim.max_steps {
                        ended = Some(End("@hang".into()));
                        break;
                    }
                }
                let f = match self.step(&mut s, inst) {
                    Ok(f) => f,
                    Err(f) => f,
                };
                match f {
                    Next => s.cur.ip += 1,
                    Retry => {}
                    Jump => break,
                    f => {
                        ended = Some(f);
                        break;
                    }
                }
            }
            match ended {
                None => continue,
                Some(End(w)) => {
                    self.finish(s, w);
                    return;
                }
                Some(Stuck(w)) => {
                    if w == "@stack" {
                        self.finish(s, w);
                    } else {
                        let inputs = s.inputs(&s.model);
                        let at = format!("{} (in {})", w, m.funcs[s.cur.f as usize].name);
                        let mut e = self.g.errors.lock().unwrap();
                        let x = e.entry(at).or_insert((0, inputs));
                        x.0 += 1;
                        drop(e);
                        self.finish(s, "@error".into());
                    }
                    return;
                }
                _ => unreachable!(),
            }
        }
    }

    fn finish(&mut self, s: State, w: String) {
        self.g.steps.fetch_add(s.steps, Relaxed);
        self.g.maxsteps_path.fetch_max(s.steps, Relaxed);
        if w == "@killed" {
            self.g.killed.fetch_add(1, Relaxed);
            return;
        }
        let n = self.g.paths.fetch_add(1, Relaxed);
        if s.covers != 0 {
            let mut c = self.g.covers.lock().unwrap();
            for i in 0..128 {
                if s.covers >> i & 1 == 1 {
                    *c.entry(i).or_insert(0) += 1;
                }
            }
        }
        let model = s.model.clone();
        if let Some(loc) = w.strip_prefix("@panic ") {
            self.violation(&s, &model, "panic", 0, loc);
        } else if w == "@hang" {
            self.violation(&s, &model, "hang", 0, "");
        } else if w == "@stack" {
            self.violation(&s, &model, "stack", 0, "");
        } else if let Some(x) = w.strip_prefix("@abort ") {
            self.violation(&s, &model, "abort", 0, x);
        } else if let Some(x) = w.strip_prefix("@mem ") {
            self.violation(&s, &model, "mem", 0, x);
        }
        if w == "ok" || w.starts_with("@fail") {
            let take = n < 64 || n % self.g.sample_every == 0;
            if take || self.g.replay.is_some() {
                let mut h = 0xcbf29ce484222325u64;
                for v in &s.log {
                    let x = match v {
                        Val::C(c) => *c,
                        Val::E(e) => expr::eval(e, &model) as u64,
                        _ => 0,
                    };
                    h = (h ^ x).wrapping_mul(0x100000001b3).rotate_left(23);
                }
                let mut sm = self.g.samples.lock().unwrap();
                if sm.len() < self.g.sample_max {
                    sm.push(Sample { inputs: s.inputs(&model), log: h, nlog: s.log.len() as u64, outcome: w });
                }
            }
        }
    }

    fn step(&mut self, s: &mut State, inst: &'static Inst) -> R<Flow> {
        match inst {
            Inst::Bin { op, w, lanes, dst, a, b } => {
                let r = if *lanes == 0 {
                    let (x, y) = (self.val(s, a), self.val(s, b));
                    bin_val(*op, *w, x, y)
                } else {
                    match (self.val(s, a), self.val(s, b)) {
                        (Val::A(x), Val::A(y)) => {
                            Val::A(Arc::new(x.iter().zip(y.iter()).map(|(p, q)| bin_val(*op, *w, p, q)).collect()))
                        }
                        _ => return Err(Stuck("vector operand".into())),
                    }
                };
                s.cur.regs[*dst as usize] = r;
                Ok(Next)
            }
            Inst::ICmp { p, w, lanes, dst, a, b } => {
                let r = if *lanes == 0 {
                    icmp_val(*p, *w, self.val(s, a), self.val(s, b))
                } else {
                    match (self.val(s, a), self.val(s, b)) {
                        (Val::A(x), Val::A(y)) => {
                            Val::A(Arc::new(x.iter().zip(y.iter()).map(|(u, v)| icmp_val(*p, *w, u, v)).collect()))
                        }
                        _ => return Err(Stuck("vector operand".into())),
                    }
                };
                s.cur.regs[*dst as usize] = r;
                Ok(Next)
            }
            Inst::Cast { k, fw, tw, lanes, dst, a } => {
                let r = if *lanes == 0 {
                    cast_val(*k, *fw, *tw, self.val(s, a))
                } else {
                    match self.val(s, a) {
                        Val::A(x) => Val::A(Arc::new(x.iter().map(|u| cast_val(*k, *fw, *tw, u)).collect())),
                        _ => return Err(Stuck("vector operand".into())),
                    }
                };
                s.cur.regs[*dst as usize] = r;
                Ok(Next)
            }
            Inst::Copy { dst, a } => {
                s.cur.regs[*dst as usize] = self.val(s, a).clone();
                Ok(Next)
            }
            Inst::Bitcast { from, to, dst, a } => {
                let v = self.val(s, a).clone();
                let r = match (from, to) {
                    (Ty::Vec(n, t), to) => {
                        let w = t.width();
                        let x = match &v {
                            Val::A(x) => x,
                            _ => return Err(Stuck("bitcast".into())),
                        };
                        let tot = n * w;
                        if tot > 128 {
                            return Err(Stuck("wide bitcast".into()));
                        }
                        let mut allc = true;
                        let mut cv = 0u128;
                        for (i, e) in x.iter().enumerate() {
                            match e {
                                Val::C(c) => cv |= (*c as u128) << (i as u32 * w),
                                _ => allc = false,
                            }
                        }
                        let e = if allc {
                            expr::cst(cv, tot)
                        } else {
                            let mut acc: Option<Expr> = None;
                            for e in x.iter() {
                                let e = to_e(e, w);
                                acc = Some(match acc {
                                    None => e,
                                    Some(p) => expr::concat(&e, &p),
                                });
                            }
                            acc.unwrap()
                        };
                        match to {
                            Ty::Vec(n2, t2) => {
                                let w2 = t2.width();
                                Val::A(Arc::new((0..*n2).map(|i| mkval(expr::extract(&e, i * w2, w2))).collect()))
                            }
                            _ => mkval(e),
                        }
                    }
                    (f, Ty::Vec(n2, t2)) => {
                        let e = to_e(&v, f.width());
                        let w2 = t2.width();
                        Val::A(Arc::new((0..*n2).map(|i| mkval(expr::extract(&e, i * w2, w2))).collect()))
                    }
                    _ => v,
                };
                s.cur.regs[*dst as usize] = r;
                Ok(Next)
            }
            Inst::Select { dst, c, a, b, lanes, ty } => {
                if *lanes > 0 {
                    let r = match (self.val(s, c), self.val(s, a), self.val(s, b)) {
                        (Val::A(c), Val::A(x), Val::A(y)) => {
                            let t = ty.elem(0);
                            Val::A(Arc::new(
                                (0..c.len())
                                    .map(|i| match &c[i] {
                                        Val::C(1) => x[i].clone(),
                                        Val::C(_) => y[i].clone(),
                                        Val::E(e) => ite_val(e, &x[i], &y[i], t),
                                        _ => Val::C(0),
                                    })
                                    .collect(),
                            ))
                        }
                        _ => return Err(Stuck("vector select".into())),
                    };
                    s.cur.regs[*dst as usize] = r;
                    return Ok(Next);
                }
                let r = match self.val(s, c) {
                    Val::C(k) => {
                        if *k & 1 == 1 {
                            self.val(s, a).clone()
                        } else {
                            self.val(s, b).clone()
                        }
                    }
                    Val::E(e) => {
                        let e = e.clone();
                        if *ty == Ty::Ptr {
                            // keep pointers concrete: decide the condition now
                            let (av, bv) = (self.val(s, a).clone(), self.val(s, b).clone());
                            let (t, other) = self.branch(s, &e)?;
                            if let Some(mut o) = other {
                                o.cur.regs[*dst as usize] = if t { bv.clone() } else { av.clone() };
                                o.cur.ip += 1;
                                self.push_state(o);
                            }
                            if t {
                                av
                            } else {
                                bv
                            }
                        } else {
                            ite_val(&e, self.val(s, a), self.val(s, b), ty)
                        }
                    }
                    _ => return Err(Stuck("select cond".into())),
                };
                s.cur.regs[*dst as usize] = r;
                Ok(Next)
            }
            Inst::Alloca { dst, size, n } => {
                let k = self.conc(s, n)?;
                let p = s.mem.alloca(size * k);
                s.cur.regs[*dst as usize] = Val::C(p);
                Ok(Next)
            }
            Inst::Load { dst, ty, p } => {
                let addr = match self.val(s, p) {
                    Val::C(c) => *c,
                    Val::E(e) => {
                        let e = e.clone();
                        if let Some(v) = self.load_sym(s, &e, ty)? {
                            s.cur.regs[*dst as usize] = v;
                            return Ok(Next);
                        }
                        self.conc(s, p)?
                    }
                    _ => return Err(Stuck("load addr".into())),
                };
                match self.load(s, addr, ty) {
                    Ok(v) => {
                        s.cur.regs[*dst as usize] = v;
                        Ok(Next)
                    }
                    Err(e) => Ok(End(format!("@mem {} in {}", e, self.g.m.funcs[s.cur.f as usize].name))),
                }
            }
            Inst::Store { ty, v, p } => {
                let addr = self.conc(s, p)?;
                let v = self.val(s, v).clone();
                match self.store(s, addr, ty, &v) {
                    Ok(()) => Ok(Next),
                    Err(e) => Ok(End(format!("@mem {} in {}", e, self.g.m.funcs[s.cur.f as usize].name))),
                }
            }
            Inst::Gep { dst, base, off, idx } => {
                let mut conc = true;
                let mut acc = match self.val(s, base) {
                    Val::C(c) => c.wrapping_add(*off as u64),
                    _ => {
                        conc = false;
                        0
                    }
                };
                if conc {
                    for (o, w, sc) in idx {
                        match self.val(s, o) {
                            Val::C(c) => acc = acc.wrapping_add((expr::sext64(*c, *w) as u64).wrapping_mul(*sc)),
                            _ => {
                                conc = false;
                                break;
                            }
                        }
                    }
                }
                if conc {
                    s.cur.regs[*dst as usize] = Val::C(acc);
                    return Ok(Next);
                }
                let mut e = to_e(self.val(s, base), 64);
                e = expr::bin(Op::Add, &e, &expr::cst(*off as u64 as u128, 64));
                for (o, w, sc) in idx {
                    let i = to_e(self.val(s, o), *w);
                    let i = expr::sext(&i, 64);
                    let t = expr::bin(Op::Mul, &i, &expr::cst(*sc as u128, 64));
                    e = expr::bin(Op::Add, &e, &t);
                }
                s.cur.regs[*dst as usize] = mkval(e);
                Ok(Next)
            }
            Inst::ExtractValue { dst, a, path } => {
                let mut v = self.val(s, a).clone();
                for p in path {
                    v = match v {
                        Val::A(x) => x[*p as usize].clone(),
                        _ => return Err(Stuck("extractvalue".into())),
                    };
                }
                s.cur.regs[*dst as usize] = v;
                Ok(Next)
            }
            Inst::InsertValue { dst, a, v, path } => {
                let agg = self.val(s, a).clone();
                let nv = self.val(s, v).clone();
                fn ins(a: Val, v: Val, path: &[u32]) -> Val {
                    if path.is_empty() {
                        return v;
                    }
                    match a {
                        Val::A(x) => {
                            let mut y = (*x).clone();
                            let old = std::mem::replace(&mut y[path[0] as usize], Val::C(0));
                            y[path[0] as usize] = ins(old, v, &path[1..]);
                            Val::A(Arc::new(y))
                        }
                        _ => panic!("insertvalue into scalar"),
                    }
                }
                s.cur.regs[*dst as usize] = ins(agg, nv, path);
                Ok(Next)
            }
            Inst::ExtractElem { dst, a, i } => {
                let k = self.conc(s, i)? as usize;
                let v = match self.val(s, a) {
                    Val::A(x) => x[k].clone(),
                    _ => return Err(Stuck("extractelement".into())),
                };
                s.cur.regs[*dst as usize] = v;
                Ok(Next)
            }
            Inst::InsertElem { dst, a, v, i } => {
                let k = self.conc(s, i)? as usize;
                let nv = self.val(s, v).clone();
                let r = match self.val(s, a) {
                    Val::A(x) => {
                        let mut y = (**x).clone();
                        y[k] = nv;
                        Val::A(Arc::new(y))
                    }
                    _ => return Err(Stuck("insertelement".into())),
                };
                s.cur.regs[*dst as usize] = r;
                Ok(Next)
            }
            Inst::Shuffle { dst, a, b, mask } => {
                let r = match (self.val(s, a), self.val(s, b)) {
                    (Val::A(x), Val::A(y)) => Val::A(Arc::new(
                        mask.iter()
                            .map(|k| {
                                let k = *k as usize;
                                if k < x.len() {
                                    x[k].clone()
                                } else {
                                    y.get(k - x.len()).cloned().unwrap_or(Val::C(0))
                                }
                            })
                            .collect(),
                    )),
                    _ => return Err(Stuck("shuffle".into())),
                };
                s.cur.regs[*dst as usize] = r;
                Ok(Next)
            }
            Inst::AtomicRmw { op, ty, dst, p, v } => {
                let addr = self.conc(s, p)?;
                let w = ty.width();
                let old = self.load(s, addr, ty).map_err(|e| End(format!("@mem {}", e)))?;
                let nv = self.val(s, v).clone();
                let r = match op.as_str() {
                    "xchg" => nv,
                    "add" => bin_val(Op::Add, w, &old, &nv),
                    "sub" => bin_val(Op::Sub, w, &old, &nv),
                    "and" => bin_val(Op::And, w, &old, &nv),
                    "or" => bin_val(Op::Or, w, &old, &nv),
                    "xor" => bin_val(Op::Xor, w, &old, &nv),
                    o => return Err(Stuck(format!("atomicrmw {}", o))),
                };
                self.store(s, addr, ty, &r).map_err(|e| End(format!("@mem {}", e)))?;
                if *dst != u32::MAX {
                    s.cur.regs[*dst as usize] = old;
                }
                Ok(Next)
            }
            Inst::CmpXchg { ty, dst, p, c, n } => {
                let addr = self.conc(s, p)?;
                let w = ty.width();
                let old = self.load(s, addr, ty).map_err(|e| End(format!("@mem {}", e)))?;
                let eq = icmp_val(Pred::Eq, w, &old, self.val(s, c));
                match eq {
                    Val::C(k) => {
                        if k == 1 {
                            let nv = self.val(s, n).clone();
                            self.store(s, addr, ty, &nv).map_err(|e| End(format!("@mem {}", e)))?;
                        }
                        s.cur.regs[*dst as usize] = Val::A(Arc::new(vec![old, Val::C(k)]));
                    }
                    _ => return Err(Stuck("symbolic cmpxchg".into())),
                }
                Ok(Next)
            }
            Inst::Trap(m) => Ok(Stuck(m.clone())),
            Inst::Br(e) => {
                self.do_jump(s, e);
                Ok(Jump)
            }
            Inst::CondBr { c, t, f } => {
                match self.val(s, c) {
                    Val::C(k) => {
                        let e = if *k & 1 == 1 { t } else { f };
                        self.do_jump(s, e);
                    }
                    Val::E(e) => {
                        let e = e.clone();
                        let (taken, other) = self.branch(s, &e)?;
                        if let Some(mut o) = other {
                            self.do_jump(&mut o, if taken { f } else { t });
                            self.push_state(o);
                        }
                        self.do_jump(s, if taken { t } else { f });
                    }
                    _ => return Err(Stuck("br cond".into())),
                }
                Ok(Jump)
            }
            Inst::Switch { w, v, d, cases } => {
                match self.val(s, v) {
                    Val::C(k) => {
                        let k = *k;
                        let e = cases.iter().find(|x| x.0 == k).map(|x| &x.1).unwrap_or(d);
                        self.do_jump(s, e);
                    }
                    Val::E(e) => {
                        let e = e.clone();
                        // group by target of the case the model picks
                        let mv = expr::eval(&e, &s.model) as u64;
                        let pick = |k: u64| cases.iter().position(|x| x.0 == k);
                        let me = pick(mv);
                        let same = |a: &Edge, b: &Edge| a.block == b.block && a.moves.len() == 0 && b.moves.len() == 0;
                        // condition for taking the same edge
                        let cond = match me {
                            Some(i) => {
                                let mut c = expr::fls();
                                for (k, (val, ed)) in cases.iter().enumerate() {
                                    if k == i || same(ed, &cases[i].1) {
                                        let q = expr::bin(Op::Eq, &e, &expr::cst(*val as u128, *w));
                                        c = expr::bin(Op::Or, &c, &q);
                                    }
                                }
                                c
                            }
                            None => {
                                let mut c = expr::tru();
                                for (val, _) in cases.iter() {
                                    let q = expr::not(&expr::bin(Op::Eq, &e, &expr::cst(*val as u128, *w)));
                                    c = expr::bin(Op::And, &c, &q);
                                }
                                c
                            }
                        };
                        let (taken, other) = self.branch(s, &cond)?;
                        if let Some(o) = other {
                            // the other state re-executes the switch
                            self.push_state(o);
                        }
                        if !taken {
                            return Err(Stuck("switch model".into()));
                        }
                        let ed = match me {
                            Some(i) => &cases[i].1,
                            None => d,
                        };
                        self.do_jump(s, ed);
                    }
                    _ => return Err(Stuck("switch".into())),
                }
                Ok(Jump)
            }
            Inst::Ret(o) => {
                let v = o.as_ref().map(|o| self.val(s, o).clone());
                if !self.leave(s, v) {
                    return Ok(End("ok".into()));
                }
                s.cur.ip += 1;
                Ok(Jump)
            }
            Inst::Unreachable => Ok(End("@abort reached unreachable code".into())),
            Inst::Call { dst, callee, args, tys, ret } => {
                let f = match callee {
                    Callee::Func(f) => *f,
                    Callee::Ext(e) => return self.ext(s, *e, *dst, args, tys, ret),
                    Callee::Ind(o) => {
                        let a = self.conc(s, o)?;
                        if a >= EXT_BASE && a < EXT_BASE + (1 << 40) {
                            return self.ext(s, ((a - EXT_BASE) >> 4) as u32, *dst, args, tys, ret);
                        }
                        if a < FN_BASE || a >= FN_BASE + ((self.g.m.funcs.len() as u64) << 4) {
                            return Ok(End(format!("@mem call through invalid pointer {:#x}", a)));
                        }
                        ((a - FN_BASE) >> 4) as u32
                    }
                };
                let av: Vec<Val> = args.iter().map(|o| self.val(s, o).clone()).collect();
                self.enter(s, f, av, dst.unwrap_or(u32::MAX), false)?;
                Ok(Jump)
            }
        }
    }

    fn ext(&mut self, s: &mut State, ix: u32, dst: Option<u32>, args: &'static [Opd], tys: &'static [Ty], ret: &'static Ty) -> R<Flow> {
        let e = self.g.exts[ix as usize];
        macro_rules! set {
            ($v:expr) => {{
                let v = $v;
                if let Some(d) = dst {
                    s.cur.regs[d as usize] = v;
                }
                Ok(Next)
            }};
        }
        macro_rules! a {
            ($i:expr) => {
                self.val(s, &args[$i]).clone()
            };
        }
        macro_rules! memerr {
            ($r:expr) => {
                match $r {
                    Ok(v) => v,
                    Err(e) => return Ok(End(format!("@mem {} in {}", e, self.g.m.funcs[s.cur.f as usize].name))),
                }
            };
        }
        // element-wise intrinsics on vectors
        let lanes = tys.get(0).map(|t| t.lanes().0).unwrap_or(0);
        match e {
            Ext::Nop | Ext::Assume | Ext::Print => set!(Val::C(0)),
            Ext::Expect | Ext::TlsAddr => {
                let v = a!(0);
                set!(v)
            }
            Ext::IsConstant => set!(Val::C(0)),
            Ext::ObjectSize => set!(Val::C(u64::MAX)),
            Ext::Malloc | Ext::AlignedAlloc => {
                let n = self.conc(s, &args[if e == Ext::Malloc { 0 } else { 1 }])?;
                if n > self.g.lim.max_bytes {
                    return set!(Val::C(0));
                }
                let p = s.mem.malloc(n);
                set!(Val::C(p))
            }
            Ext::Calloc => {
                let n = self.conc(s, &args[0])?;
                let k = self.conc(s, &args[1])?;
                match n.checked_mul(k) {
                    Some(t) if t <= self.g.lim.max_bytes => {
                        let p = s.mem.malloc(t);
                        set!(Val::C(p))
                    }
                    _ => set!(Val::C(0)),
                }
            }
            Ext::PosixMemalign => {
                let o = self.conc(s, &args[0])?;
                let n = self.conc(s, &args[2])?;
                if n > self.g.lim.max_bytes {
                    return set!(Val::C(12));
                }
                let p = s.mem.malloc(n);
                memerr!(self.store(s, o, &Ty::Ptr, &Val::C(p)));
                set!(Val::C(0))
            }
            Ext::Realloc => {
                let p = self.conc(s, &args[0])?;
                let n = self.conc(s, &args[1])?;
                if n > self.g.lim.max_bytes {
                    return set!(Val::C(0));
                }
                let q = s.mem.malloc(n);
                if p != 0 {
                    let (id, _) = memerr!(self.chk(s, p, 0));
                    let old = s.mem.obj(id).unwrap().clone();
                    let k = old.data.len().min(n as usize);
                    let (d, sy) = old.slice(0, k as u32);
                    s.mem.obj_mut((q >> 32) as u32).unwrap().copy_from(0, &d, &sy);
                    memerr!(s.mem.free(p));
                }
                set!(Val::C(q))
            }
            Ext::Free => {
                let p = self.conc(s, &args[0])?;
                memerr!(s.mem.free(p));
                set!(Val::C(0))
            }
            Ext::Memcpy => {
                let d = self.conc(s, &args[0])?;
                let sr = self.conc(s, &args[1])?;
                let n = self.conc(s, &args[2])?;
                if n > 0 {
                    let (sid, so) = memerr!(self.chk(s, sr, n));
                    let (did, dof) = memerr!(self.chk(s, d, n));
                    let (b, sy) = s.mem.obj(sid).unwrap().slice(so, n as u32);
                    s.mem.obj_mut(did).unwrap().copy_from(dof, &b, &sy);
                }
                set!(Val::C(d))
            }
            Ext::Memset => {
                let d = self.conc(s, &args[0])?;
                let n = self.conc(s, &args[2])?;
                if n > 0 {
                    let (did, dof) = memerr!(self.chk(s, d, n));
                    match a!(1) {
                        Val::C(c) => {
                            let o = s.mem.obj_mut(did).unwrap();
                            for i in 0..n as usize {
                                o.data[dof as usize + i] = c as u8;
                            }
                            o.clear_sym(dof, n as u32);
                        }
                        Val::E(e) => {
                            let b = expr::trunc(&e, 8);
                            let o = s.mem.obj_mut(did).unwrap();
                            for i in 0..n as u32 {
                                o.write_e(dof + i, 1, &b);
                            }
                        }
                        _ => return Err(Stuck("memset".into())),
                    }
                }
                set!(Val::C(d))
            }
            Ext::Memcmp | Ext::Bcmp => {
                let p = self.conc(s, &args[0])?;
                let q = self.conc(s, &args[1])?;
                let n = self.conc(s, &args[2])?;
                if n == 0 {
                    return set!(Val::C(0));
                }
                let (pi, po) = memerr!(self.chk(s, p, n));
                let (qi, qo) = memerr!(self.chk(s, q, n));
                let (po_, qo_) = (s.mem.obj(pi).unwrap(), s.mem.obj(qi).unwrap());
                if po_.sym.is_none() && qo_.sym.is_none() {
                    let x = &po_.data[po as usize..(po as usize + n as usize)];
                    let y = &qo_.data[qo as usize..(qo as usize + n as usize)];
                    let r = match x.cmp(y) {
                        std::cmp::Ordering::Less => 0xffff_ffffu64,
                        std::cmp::Ordering::Equal => 0,
                        _ => 1,
                    };
                    return set!(Val::C(r));
                }
                let mut r = expr::cst(0, 32);
                let mut alleq = expr::tru();
                for i in (0..n as u32).rev() {
                    let x = to_e(&po_.read(po + i, 1), 8);
                    let y = to_e(&qo_.read(qo + i, 1), 8);
                    let eq = expr::bin(Op::Eq, &x, &y);
                    if e == Ext::Bcmp {
                        alleq = expr::bin(Op::And, &eq, &alleq);
                    } else {
                        let lt = expr::bin(Op::Ult, &x, &y);
                        let d = expr::ite(&lt, &expr::cst(0xffff_ffff, 32), &expr::cst(1, 32));
                        r = expr::ite(&eq, &r, &d);
                    }
                }
                if e == Ext::Bcmp {
                    r = expr::ite(&alleq, &expr::cst(0, 32), &expr::cst(1, 32));
                }
                set!(mkval(r))
            }
            Ext::Memchr => {
                let p = self.conc(s, &args[0])?;
                let n = self.conc(s, &args[2])?;
                let c = to_e(&a!(1), 32);
                let c = expr::trunc(&c, 8);
                let (pi, po) = if n > 0 { memerr!(self.chk(s, p, n)) } else { (0, 0) };
                let mut i = 0;
                while i < n {
                    let b = to_e(&s.mem.obj(pi).unwrap().read(po + i as u32, 1), 8);
                    let eq = expr::bin(Op::Eq, &b, &c);
                    let (t, other) = self.branch(s, &eq)?;
                    if let Some(o) = other {
                        self.push_state(o);
                    }
                    if t {
                        return set!(Val::C(p + i));
                    }
                    i += 1;
                }
                set!(Val::C(0))
            }
            Ext::Strlen => {
                let p = self.conc(s, &args[0])?;
                let mut i = 0;
                loop {
                    match memerr!(self.load(s, p + i, &Ty::Int(8))) {
                        Val::C(0) => break,
                        Val::C(_) => i += 1,
                        _ => return Err(Stuck("symbolic strlen".into())),
                    }
                }
                set!(Val::C(i))
            }
            Ext::Write => {
                let n = self.conc(s, &args[2])?;
                set!(Val::C(n))
            }
            Ext::Trap => Ok(End(format!("@abort in {}", self.g.m.funcs[s.cur.f as usize].name))),
            Ext::PanicFmt => {
                let p = self.conc(s, &args[args.len() - 1])?;
                Ok(self.do_panic(s, p))
            }
            Ext::RandomKeys => set!(Val::A(Arc::new(vec![Val::C(0x0123456789abcdef), Val::C(0x76543210fedcba98)]))),
            Ext::HashOne(k) => {
                const BASE: u64 = 0x5500_0000_0000_0000;
                let seed = s.hash_seed;
                if seed & 0xff == 0 || k == 0 || (k == 2 && seed & 0x100 == 0) {
                    // one hash for all keys: insertion order, rotated by the upper bits
                    return set!(Val::C(BASE | (seed >> 16 & 0xffff)));
                }
                let p = self.conc(s, &args[1])?;
                let ty = if k == 1 { Ty::Int(64) } else { Ty::Int(32) };
                let v = memerr!(self.load(s, p, &ty));
                let c = match v {
                    Val::C(c) => c,
                    Val::E(e) => self.conc_expr(s, &e)?,
                    _ => return Err(Stuck("hash key".into())),
                };
                let h = match seed & 0xff {
                    1 => c,
                    2 => !c,
                    3 => c.wrapping_mul(5).wrapping_add(3),
                    4 => !c.wrapping_mul(3),
                    n => c.wrapping_mul(2 * n + 1).wrapping_add(n * 7) ^ (n >> 2),
                };
                set!(Val::C(BASE | (h & 0xffff)))
            }
            Ext::Umin | Ext::Umax | Ext::Smin | Ext::Smax | Ext::UaddSat | Ext::UsubSat | Ext::SaddSat | Ext::SsubSat if lanes > 0 => {
                let w = tys[0].lanes().1;
                match (a!(0), a!(1)) {
                    (Val::A(x), Val::A(y)) => {
                        let mut v = vec![];
                        for (p, q) in x.iter().zip(y.iter()) {
                            v.push(arith2(e, w, p, q));
                        }
                        set!(Val::A(Arc::new(v)))
                    }
                    _ => Err(Stuck("vector intrinsic".into())),
                }
            }
            Ext::Umin | Ext::Umax | Ext::Smin | Ext::Smax | Ext::UaddSat | Ext::UsubSat | Ext::SaddSat | Ext::SsubSat => {
                let w = tys[0].width();
                let v = arith2(e, w, &a!(0), &a!(1));
                set!(v)
            }
            Ext::Abs => {
                let w = tys[0].width();
                let x = a!(0);
                let neg = icmp_val(Pred::Slt, w, &x, &Val::C(0));
                let m = bin_val(Op::Sub, w, &Val::C(0), &x);
                let v = match neg {
                    Val::C(1) => m,
                    Val::C(_) => x,
                    Val::E(c) => ite_val(&c, &m, &x, &tys[0]),
                    _ => return Err(Stuck("abs".into())),
                };
                set!(v)
            }
            Ext::Ucmp | Ext::Scmp => {
                let w = tys[0].width();
                let rw = ret.width();
                let (x, y) = (a!(0), a!(1));
                let lt = to_e(&icmp_val(if e == Ext::Ucmp { Pred::Ult } else { Pred::Slt }, w, &x, &y), 1);
                let eq = to_e(&icmp_val(Pred::Eq, w, &x, &y), 1);
                let r = expr::ite(&lt, &expr::cst(u128::MAX, rw), &expr::ite(&eq, &expr::cst(0, rw), &expr::cst(1, rw)));
                set!(mkval(r))
            }
            Ext::Ctlz | Ext::Cttz | Ext::Ctpop | Ext::Bswap | Ext::Bitreverse => {
                let w = tys[0].width();
                let v = a!(0);
                if lanes > 0 {
                    return Err(Stuck("vector bit intrinsic".into()));
                }
                let r = match &v {
                    Val::C(x) => {
                        let x = *x;
                        Val::C(match e {
                            Ext::Ctlz => (x.leading_zeros() as u64) - (64 - w as u64),
                            Ext::Cttz => {
                                if x == 0 {
                                    w as u64
                                } else {
                                    x.trailing_zeros() as u64
                                }
                            }
                            Ext::Ctpop => x.count_ones() as u64,
                            Ext::Bswap => x.swap_bytes() >> (64 - w),
                            _ => x.reverse_bits() >> (64 - w),
                        })
                    }
                    Val::E(x) => match e {
                        Ext::Bswap => {
                            let n = w / 8;
                            let mut acc: Option<Expr> = None;
                            for i in 0..n {
                                let b = expr::extract(x, i * 8, 8);
                                acc = Some(match acc {
                                    None => b,
                                    Some(p) => expr::concat(&p, &b),
                                });
                            }
                            mkval(acc.unwrap())
                        }
                        Ext::Cttz => {
                            let mut r = expr::cst(w as u128, w);
                            for i in (0..w).rev() {
                                r = expr::ite(&expr::extract(x, i, 1), &expr::cst(i as u128, w), &r);
                            }
                            mkval(r)
                        }
                        Ext::Ctlz => {
                            let mut r = expr::cst(w as u128, w);
                            for i in 0..w {
                                r = expr::ite(&expr::extract(x, i, 1), &expr::cst((w - 1 - i) as u128, w), &r);
                            }
                            mkval(r)
                        }
                        Ext::Ctpop => {
                            let mut r = expr::cst(0, w);
                            for i in 0..w {
                                r = expr::bin(Op::Add, &r, &expr::zext(&expr::extract(x, i, 1), w));
                            }
                            mkval(r)
                        }
                        _ => {
                            let mut acc: Option<Expr> = None;
                            for i in 0..w {
                                let b = expr::extract(x, i, 1);
                                acc = Some(match acc {
                                    None => b,
                                    Some(p) => expr::concat(&p, &b),
                                });
                            }
                            mkval(acc.unwrap())
                        }
                    },
                    _ => return Err(Stuck("bit intrinsic".into())),
                };
                set!(r)
            }
            Ext::Fshl | Ext::Fshr => {
                let w = tys[0].width();
                let k = (self.conc(s, &args[2])? % w as u64) as u32;
                let (x, y) = (to_e(&a!(0), w), to_e(&a!(1), w));
                if w > 64 {
                    return Err(Stuck("wide fshl".into()));
                }
                let c = expr::concat(&x, &y);
                let r = if e == Ext::Fshl { expr::extract(&c, w - k, w) } else { expr::extract(&c, k, w) };
                set!(mkval(r))
            }
            Ext::UaddO | Ext::UsubO | Ext::UmulO | Ext::SaddO | Ext::SsubO | Ext::SmulO => {
                let w = tys[0].width();
                let (x, y) = (a!(0), a!(1));
                if lanes > 0 {
                    return Err(Stuck("overflow intrinsic on a vector".into()));
                }
                let (op, signed) = match e {
                    Ext::UaddO => (Op::Add, false),
                    Ext::UsubO => (Op::Sub, false),
                    Ext::UmulO => (Op::Mul, false),
                    Ext::SaddO => (Op::Add, true),
                    Ext::SsubO => (Op::Sub, true),
                    _ => (Op::Mul, true),
                };
                let r = bin_val(op, w, &x, &y);
                let o = if let (true, Val::C(a), Val::C(b)) = (w <= 64, &x, &y) {
                    let o = if signed {
                        let (a, b) = (expr::sext64(*a, w) as i128, expr::sext64(*b, w) as i128);
                        let t = match op {
                            Op::Add => a + b,
                            Op::Sub => a - b,
                            _ => a * b,
                        };
                        t < -(1i128 << (w - 1)) || t >= (1i128 << (w - 1))
                    } else {
                        let (a, b) = (*a as u128, *b as u128);
                        match op {
                            Op::Add => a + b > expr::m(w),
                            Op::Sub => a < b,
                            _ => a * b > expr::m(w),
                        }
                    };
                    Val::C(o as u64)
                } else if w > 63 && (w > 64 || op != Op::Mul) {
                    let (ea, eb, er) = (to_e(&x, w), to_e(&y, w), to_e(&r, w));
                    let sign = |x: &Expr| expr::extract(x, w - 1, 1);
                    let c = match (op, signed) {
                        (Op::Add, false) => expr::bin(Op::Ult, &er, &ea),
                        (Op::Sub, false) => expr::bin(Op::Ult, &ea, &eb),
                        (Op::Add, true) => expr::bin(Op::And, &expr::not(&expr::bin(Op::Xor, &sign(&ea), &sign(&eb))), &expr::bin(Op::Xor, &sign(&ea), &sign(&er))),
                        (Op::Sub, true) => expr::bin(Op::And, &expr::bin(Op::Xor, &sign(&ea), &sign(&eb)), &expr::bin(Op::Xor, &sign(&ea), &sign(&er))),
                        (_, false) => {
                            let k = match (expr::as_const(&ea), expr::as_const(&eb)) {
                                (_, Some(k)) => Some((k, ea.clone())),
                                (Some(k), _) => Some((k, eb.clone())),
                                _ => None,
                            };
                            match k {
                                Some((0, _)) => expr::cst(0, 1),
                                Some((k, v)) => expr::bin(Op::Ult, &expr::cst(expr::m(w) / k, w), &v),
                                None => return Err(Stuck("wide multiplication".into())),
                            }
                        }
                        _ => return Err(Stuck("wide signed multiplication".into())),
                    };
                    mkval(c)
                } else {
                    let (ea, eb, er) = (to_e(&x, w), to_e(&y, w), to_e(&r, w));
                    let c = match (op, signed) {
                        (Op::Add, false) => expr::bin(Op::Ult, &er, &ea),
                        (Op::Sub, false) => expr::bin(Op::Ult, &ea, &eb),
                        (Op::Mul, false) => {
                            let p = expr::bin(Op::Mul, &expr::zext(&ea, 2 * w), &expr::zext(&eb, 2 * w));
                            expr::not(&expr::bin(Op::Eq, &expr::extract(&p, w, w), &expr::cst(0, w)))
                        }
                        (Op::Add, true) => {
                            let p = expr::bin(Op::Add, &expr::sext(&ea, w + 1), &expr::sext(&eb, w + 1));
                            expr::not(&expr::bin(Op::Eq, &p, &expr::sext(&er, w + 1)))
                        }
                        (Op::Sub, true) => {
                            let p = expr::bin(Op::Sub, &expr::sext(&ea, w + 1), &expr::sext(&eb, w + 1));
                            expr::not(&expr::bin(Op::Eq, &p, &expr::sext(&er, w + 1)))
                        }
                        _ => {
                            let p = expr::bin(Op::Mul, &expr::sext(&ea, 2 * w), &expr::sext(&eb, 2 * w));
                            expr::not(&expr::bin(Op::Eq, &p, &expr::sext(&er, 2 * w)))
                        }
                    };
                    mkval(c)
                };
                set!(Val::A(Arc::new(vec![r, o])))
            }
            Ext::ReduceOr | Ext::ReduceAdd => {
                let w = tys[0].lanes().1;
                match a!(0) {
                    Val::A(x) => {
                        let mut r = Val::C(0);
                        for v in x.iter() {
                            r = bin_val(if e == Ext::ReduceOr { Op::Or } else { Op::Add }, w, &r, v);
                        }
                        set!(r)
                    }
                    _ => Err(Stuck("reduce".into())),
                }
            }
            Ext::PtrMask => {
                let v = bin_val(Op::And, 64, &a!(0), &a!(1));
                set!(v)
            }
            // ---- harness interface
            Ext::SxSym => {
                let bits = self.conc(s, &args[0])? as u32;
                if let Some(r) = &self.g.replay {
                    let v = r.get(s.trace.len()).copied().unwrap_or(0) & expr::m64(bits);
                    s.trace.push(TraceEnt::Con(v));
                    return set!(Val::C(v));
                }
                let id = s.widths.len() as u32;
                if id >= 128 {
                    return Err(Stuck("more than 128 symbolic inputs on one path".into()));
                }
                s.widths.push(bits);
                s.model.push(0);
                let v = expr::var(id, bits);
                let e = expr::zext(&v, 64);
                s.trace.push(TraceEnt::Sym(e.clone()));
                set!(mkval(e))
            }
            Ext::SxChoose => {
                let n = self.conc(s, &args[0])?;
                if let Some(r) = &self.g.replay {
                    let v = r.get(s.trace.len()).copied().unwrap_or(0) % n.max(1);
                    s.trace.push(TraceEnt::Con(v));
                    return set!(Val::C(v));
                }
                if n == 0 {
                    return Ok(End("@killed".into()));
                }
                for v in (1..n).rev() {
                    let mut o = s.clone();
                    o.trace.push(TraceEnt::Con(v));
                    if let Some(d) = dst {
                        o.cur.regs[d as usize] = Val::C(v);
                    }
                    o.cur.ip += 1;
                    o.forks += 1;
                    self.g.forks.fetch_add(1, Relaxed);
                    self.push_state(o);
                }
                s.trace.push(TraceEnt::Con(0));
                set!(Val::C(0))
            }
            Ext::SxAssume => {
                match cond_of(&a!(0), &tys[0]) {
                    Val::C(1) => set!(Val::C(0)),
                    Val::C(_) => Ok(End("@killed".into())),
                    Val::E(c) => {
                        if expr::eval(&c, &s.model) == 1 {
                            s.pc.push(c);
                            return set!(Val::C(0));
                        }
                        match self.sat(s, &c)? {
                            None => Ok(End("@killed".into())),
                            Some(m) => {
                                s.model = m;
                                s.pc.push(c);
                                set!(Val::C(0))
                            }
                        }
                    }
                    _ => Err(Stuck("assume".into())),
                }
            }
            Ext::SxCheck => {
                let code = self.conc(s, &args[1])?;
                self.g.checks.fetch_add(1, Relaxed);
                match cond_of(&a!(0), &tys[0]) {
                    Val::C(1) => {
                        self.g.checks_proved.fetch_add(1, Relaxed);
                        set!(Val::C(0))
                    }
                    Val::C(_) => {
                        let model = s.model.clone();
                        self.violation(s, &model, "check", code, "");
                        Ok(End(format!("@fail {}", code)))
                    }
                    Val::E(c) => {
                        let nc = expr::not(&c);
                        match self.sat(s, &nc)? {
                            None => {
                                self.g.checks_proved.fetch_add(1, Relaxed);
                                set!(Val::C(0))
                            }
                            Some(m) => {
                                self.violation(s, &m, "check", code, "");
                                // continue on the side where it holds, if any
                                match self.sat(s, &c)? {
                                    None => Ok(End("@killed".into())),
                                    Some(m2) => {
                                        s.model = m2;
                                        s.pc.push(c);
                                        set!(Val::C(0))
                                    }
                                }
                            }
                        }
                    }
                    _ => Err(Stuck("check".into())),
                }
            }
            Ext::SxFail => {
                let code = self.conc(s, &args[0])?;
                self.g.checks.fetch_add(1, Relaxed);
                let model = s.model.clone();
                self.violation(s, &model, "check", code, "");
                Ok(End(format!("@fail {}", code)))
            }
            Ext::SxCatch => {
                let f = self.conc(s, &args[0])?;
                if f < FN_BASE || f >= FN_BASE + ((self.g.m.funcs.len() as u64) << 4) {
                    return Err(Stuck("sx_catch target".into()));
                }
                let fi = ((f - FN_BASE) >> 4) as u32;
                let d = a!(1);
                self.enter(s, fi, vec![d], dst.unwrap_or(u32::MAX), true)?;
                Ok(Jump)
            }
            Ext::SxCover => {
                let k = self.conc(s, &args[0])?;
                s.covers |= 1u128 << (k & 127);
                set!(Val::C(0))
            }
            Ext::SxLog => {
                let v = a!(0);
                s.log.push(v);
                set!(Val::C(0))
            }
            Ext::SxConcrete => {
                let v = self.conc(s, &args[0])?;
                set!(Val::C(v))
            }
            Ext::SxHashSeed => {
                let v = self.conc(s, &args[0])?;
                s.hash_seed = v;
                set!(Val::C(0))
            }
            Ext::SxPanicLine => {
                let v = s.panic_line;
                set!(Val::C(v))
            }
            Ext::SxIsSym => {
                let v = matches!(a!(0), Val::E(_));
                set!(Val::C(v as u64))
            }
            Ext::Unknown => Err(Stuck(format!("call of unmodelled external function {}", self.g.m.exts[ix as usize]))),
        }
    }
}

fn cond_of(v: &Val, ty: &Ty) -> Val {
    match v {
        Val::C(c) => Val::C((*c & 1) as u64),
        Val::E(e) => {
            if ty.width() == 1 {
                v.clone()
            } else {
                mkval(expr::extract(e, 0, 1))
            }
        }
        v => v.clone(),
    }
}

fn arith2(e: Ext, w: u32, x: &Val, y: &Val) -> Val {
    let pick = |p: Pred, a: &Val, b: &Val| -> Val {
        match icmp_val(p, w, a, b) {
            Val::C(1) => a.clone(),
            Val::C(_) => b.clone(),
            Val::E(c) => mkval(expr::ite(&c, &to_e(a, w), &to_e(b, w))),
            _ => unreachable!(),
        }
    };
    match e {
        Ext::Umin => pick(Pred::Ult, x, y),
        Ext::Umax => pick(Pred::Ugt, x, y),
        Ext::Smin => pick(Pred::Slt, x, y),
        Ext::Smax => pick(Pred::Sgt, x, y),
        Ext::UaddSat => {
            let r = bin_val(Op::Add, w, x, y);
            match icmp_val(Pred::Ult, w, &r, x) {
                Val::C(1) => mkval(expr::cst(u128::MAX, w)),
                Val::C(_) => r,
                Val::E(c) => mkval(expr::ite(&c, &expr::cst(u128::MAX, w), &to_e(&r, w))),
                _ => unreachable!(),
            }
        }
        Ext::UsubSat => {
            let r = bin_val(Op::Sub, w, x, y);
            match icmp_val(Pred::Ult, w, x, y) {
                Val::C(1) => mkval(expr::cst(0, w)),
                Val::C(_) => r,
                Val::E(c) => mkval(expr::ite(&c, &expr::cst(0, w), &to_e(&r, w))),
                _ => unreachable!(),
            }
        }
        _ => {
            // signed saturation
            let add = e == Ext::SaddSat;
            let (a, b) = (expr::sext(&to_e(x, w), w + 1), expr::sext(&to_e(y, w), w + 1));
            let r = expr::bin(if add { Op::Add } else { Op::Sub }, &a, &b);
            let max = expr::cst(expr::m(w - 1), w + 1);
            let min = expr::sext(&expr::cst(1u128 << (w - 1), w), w + 1);
            let t = expr::ite(&expr::bin(Op::Slt, &max, &r), &max, &expr::ite(&expr::bin(Op::Slt, &r, &min), &min, &r));
            mkval(expr::trunc(&t, w))
        }
    }
}

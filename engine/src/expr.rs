//! Bit-vector expression DAG with simplifying constructors.
//! Width 1 doubles as the boolean sort.
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    Not,
    And,
    Or,
    Xor,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    Concat,
    ZExt,
    SExt,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
}

#[derive(Debug)]
pub enum Kind {
    Const(u128),
    Var(u32),
    Extract(u32, Expr), // low bit
    Un(Op, Expr),
    Bin(Op, Expr, Expr),
    Ite(Expr, Expr, Expr),
}

#[derive(Debug)]
pub struct Node {
    pub kind: Kind,
    pub w: u32,
    pub h: u128,
    pub mask: u128, // variables occurring
    pub size: u32,
}

pub type Expr = Arc<Node>;

#[inline]
pub fn m(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn m64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}
pub fn sext64(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        let s = 64 - w;
        ((v << s) as i64) >> s
    }
}

fn mix(a: u128, b: u128) -> u128 {
    let x = (a ^ b.rotate_left(37)).wrapping_mul(0x9E3779B97F4A7C15_F39CC0605CEDC835u128);
    let y = x ^ (x >> 67);
    y.wrapping_mul(0xD6E8FEB86659FD93_A5A3564E27F88691u128).wrapping_add(b).rotate_left(61) ^ (y >> 59)
}

fn mk(kind: Kind, w: u32) -> Expr {
    let (h, mask, size) = match &kind {
        Kind::Const(c) => (mix(mix(1, w as u128), *c), 0, 1),
        Kind::Var(v) => (mix(mix(2, w as u128), *v as u128), 1u128 << (*v & 127), 1),
        Kind::Extract(lo, e) => (mix(mix(mix(3, w as u128), *lo as u128), e.h), e.mask, e.size.saturating_add(1)),
        Kind::Un(op, e) => (mix(mix(mix(4, w as u128), *op as u128), e.h), e.mask, e.size.saturating_add(1)),
        Kind::Bin(op, a, b) => (
            mix(mix(mix(mix(5, w as u128), *op as u128), a.h), b.h),
            a.mask | b.mask,
            a.size.saturating_add(b.size).saturating_add(1),
        ),
        Kind::Ite(c, a, b) => (
            mix(mix(mix(mix(6, w as u128), c.h), a.h), b.h),
            a.mask | b.mask | c.mask,
            a.size.saturating_add(b.size).saturating_add(c.size).saturating_add(1),
        ),
    };
    Arc::new(Node { kind, w, h, mask, size })
}

pub fn cst(v: u128, w: u32) -> Expr {
    mk(Kind::Const(v & m(w)), w)
}
pub fn var(id: u32, w: u32) -> Expr {
    assert!(id < 128, "more than 128 symbolic variables on one path");
    mk(Kind::Var(id), w)
}
pub fn as_const(e: &Expr) -> Option<u128> {
    match e.kind {
        Kind::Const(c) => Some(c),
        _ => None,
    }
}
pub fn tru() -> Expr {
    cst(1, 1)
}
pub fn fls() -> Expr {
    cst(0, 1)
}
fn same(a: &Expr, b: &Expr) -> bool {
    Arc::ptr_eq(a, b) || a.h == b.h
}

pub fn fold(op: Op, a: u128, b: u128, w: u32) -> u128 {
    let r = match op {
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m(w)
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m(w)
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sext128(a, w) >> s) as u128
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext128(a, w) < sext128(b, w)) as u128,
        Op::Sle => (sext128(a, w) <= sext128(b, w)) as u128,
        _ => unreachable!(),
    };
    match op {
        Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => r,
        _ => r & m(w),
    }
}

pub fn not(e: &Expr) -> Expr {
    match &e.kind {
        Kind::Const(c) => cst(!*c, e.w),
        Kind::Un(Op::Not, x) => x.clone(),
        Kind::Bin(Op::Ult, a, b) => mk(Kind::Bin(Op::Ule, b.clone(), a.clone()), 1),
        Kind::Bin(Op::Ule, a, b) => mk(Kind::Bin(Op::Ult, b.clone(), a.clone()), 1),
        Kind::Bin(Op::Slt, a, b) => mk(Kind::Bin(Op::Sle, b.clone(), a.clone()), 1),
        Kind::Bin(Op::Sle, a, b) => mk(Kind::Bin(Op::Slt, b.clone(), a.clone()), 1),
        _ => mk(Kind::Un(Op::Not, e.clone()), e.w),
    }
}

/// Upper bound of the unsigned value (cheap).
pub fn umax(e: &Expr) -> u128 {
    match &e.kind {
        Kind::Const(c) => *c,
        Kind::Un(Op::ZExt, x) => umax(x),
        Kind::Ite(_, a, b) if e.size < 200 => umax(a).max(umax(b)),
        Kind::Bin(Op::And, a, b) => {
            let x = as_const(a).unwrap_or(u128::MAX).min(as_const(b).unwrap_or(u128::MAX));
            x.min(m(e.w))
        }
        Kind::Bin(Op::LShr, a, b) => match as_const(b) {
            Some(k) if k < 128 => umax(a) >> k,
            _ => m(e.w),
        },
        Kind::Bin(Op::URem, _, b) => match as_const(b) {
            Some(k) if k > 0 => k - 1,
            _ => m(e.w),
        },
        _ => m(e.w),
    }
}

pub fn bin(op: Op, a: &Expr, b: &Expr) -> Expr {
    let w = a.w;
    debug_assert!(op == Op::Concat || a.w == b.w, "width mismatch {:?} {} {}", op, a.w, b.w);
    let rw = match op {
        Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
        Op::Concat => a.w + b.w,
        _ => w,
    };
    if op == Op::Concat {
        return concat(a, b);
    }
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return cst(fold(op, x, y, w), rw);
    }
    let ca = as_const(a);
    let cb = as_const(b);
    // constants to the right for commutative ops
    match op {
        Op::And | Op::Or | Op::Xor | Op::Add | Op::Mul | Op::Eq => {
            if ca.is_some() {
                return bin(op, b, a);
            }
            if cb.is_none() && a.h > b.h {
                return bin(op, b, a);
            }
        }
        _ => {}
    }
    match op {
        Op::And => {
            if cb == Some(0) {
                return b.clone();
            }
            if cb == Some(m(w)) || same(a, b) {
                return a.clone();
            }
            if let Some(c) = cb {
                // mask of low bits
                if c != 0 && (c & (c + 1)) == 0 {
                    let k = 128 - c.leading_zeros();
                    if umax(a) <= c {
                        return a.clone();
                    }
                    if k < w {
                        return zext(&extract(a, 0, k), w);
                    }
                }
                if let Kind::Bin(Op::And, x, y) = &a.kind {
                    if let Some(d) = as_const(y) {
                        return bin(Op::And, x, &cst(c & d, w));
                    }
                }
            }
            if w == 1 {
                if let Kind::Un(Op::Not, x) = &a.kind {
                    if same(x, b) {
                        return fls();
                    }
                }
                if let Kind::Un(Op::Not, x) = &b.kind {
                    if same(x, a) {
                        return fls();
                    }
                }
            }
        }
        Op::Or => {
            if cb == Some(0) || same(a, b) {
                return a.clone();
            }
            if cb == Some(m(w)) {
                return b.clone();
            }
            if w == 1 {
                if let Kind::Un(Op::Not, x) = &a.kind {
                    if same(x, b) {
                        return tru();
                    }
                }
                if let Kind::Un(Op::Not, x) = &b.kind {
                    if same(x, a) {
                        return tru();
                    }
                }
            }
            // zext(x) | (zext(y) << k) with x narrower than k  => concat
            if let Some(r) = or_as_concat(a, b) {
                return r;
            }
            if let Some(r) = or_as_concat(b, a) {
                return r;
            }
        }
        Op::Xor => {
            if cb == Some(0) {
                return a.clone();
            }
            if same(a, b) {
                return cst(0, w);
            }
            if cb == Some(m(w)) {
                return not(a);
            }
        }
        Op::Add => {
            if cb == Some(0) {
                return a.clone();
            }
            if let Some(c) = cb {
                if let Kind::Bin(Op::Add, x, y) = &a.kind {
                    if let Some(d) = as_const(y) {
                        return bin(Op::Add, x, &cst(c.wrapping_add(d), w));
                    }
                }
                if let Kind::Ite(k, x, y) = &a.kind {
                    if as_const(x).is_some() && as_const(y).is_some() {
                        return ite(k, &bin(Op::Add, x, b), &bin(Op::Add, y, b));
                    }
                }
            }
        }
        Op::Sub => {
            if cb == Some(0) {
                return a.clone();
            }
            if same(a, b) {
                return cst(0, w);
            }
            if let Some(c) = cb {
                return bin(Op::Add, a, &cst((0u128).wrapping_sub(c), w));
            }
            if let Kind::Bin(Op::Add, x, y) = &a.kind {
                if same(x, b) {
                    return y.clone();
                }
                if same(y, b) {
                    return x.clone();
                }
            }
        }
        Op::Mul => {
            if cb == Some(0) {
                return b.clone();
            }
            if cb == Some(1) {
                return a.clone();
            }
        }
        Op::UDiv => {
            if cb == Some(1) {
                return a.clone();
            }
            if let Some(c) = cb {
                if c.is_power_of_two() {
                    return bin(Op::LShr, a, &cst(c.trailing_zeros() as u128, w));
                }
            }
        }
        Op::URem => {
            if let Some(c) = cb {
                if c.is_power_of_two() {
                    return bin(Op::And, a, &cst(c - 1, w));
                }
            }
        }
        Op::Shl => {
            if cb == Some(0) {
                return a.clone();
            }
            if let Some(c) = cb {
                if c >= w as u128 {
                    return cst(0, w);
                }
                return concat(&extract(a, 0, w - c as u32), &cst(0, c as u32));
            }
        }
        Op::LShr => {
            if cb == Some(0) {
                return a.clone();
            }
            if let Some(c) = cb {
                if c >= w as u128 {
                    return cst(0, w);
                }
                return zext(&extract(a, c as u32, w - c as u32), w);
            }
        }
        Op::AShr => {
            if cb == Some(0) {
                return a.clone();
            }
        }
        Op::Eq => {
            if same(a, b) {
                return tru();
            }
            if w == 1 {
                if cb == Some(1) {
                    return a.clone();
                }
                if cb == Some(0) {
                    return not(a);
                }
            }
            if let Some(c) = cb {
                match &a.kind {
                    Kind::Un(Op::ZExt, x) => {
                        if c > m(x.w) {
                            return fls();
                        }
                        return bin(Op::Eq, x, &cst(c, x.w));
                    }
                    Kind::Un(Op::SExt, x) => {
                        let t = c & m(x.w);
                        if (sext128(t, x.w) as u128) & m(w) != c {
                            return fls();
                        }
                        return bin(Op::Eq, x, &cst(t, x.w));
                    }
                    Kind::Bin(Op::Add, x, y) => {
                        if let Some(d) = as_const(y) {
                            return bin(Op::Eq, x, &cst(c.wrapping_sub(d), w));
                        }
                    }
                    Kind::Bin(Op::Xor, x, y) => {
                        if let Some(d) = as_const(y) {
                            return bin(Op::Eq, x, &cst(c ^ d, w));
                        }
                    }
                    Kind::Bin(Op::Concat, x, y) => {
                        let hi = bin(Op::Eq, x, &cst(c >> y.w, x.w));
                        let lo = bin(Op::Eq, y, &cst(c, y.w));
                        return bin(Op::And, &hi, &lo);
                    }
                    Kind::Un(Op::Not, x) => {
                        return bin(Op::Eq, x, &cst(!c, w));
                    }
                    Kind::Ite(k, x, y) => {
                        let cx = as_const(x);
                        let cy = as_const(y);
                        if cx.is_some() || cy.is_some() {
                            let ex = bin(Op::Eq, x, b);
                            let ey = bin(Op::Eq, y, b);
                            return ite(k, &ex, &ey);
                        }
                    }
                    _ => {}
                }
                if c > umax(a) {
                    return fls();
                }
            } else if let (Kind::Un(Op::ZExt, x), Kind::Un(Op::ZExt, y)) = (&a.kind, &b.kind) {
                if x.w == y.w {
                    return bin(Op::Eq, x, y);
                }
            }
        }
        Op::Ult => {
            if same(a, b) || cb == Some(0) || ca == Some(m(w)) {
                return fls();
            }
            if let Some(c) = cb {
                if umax(a) < c {
                    return tru();
                }
                if c == 1 {
                    return bin(Op::Eq, a, &cst(0, w));
                }
                if let Kind::Un(Op::ZExt, x) = &a.kind {
                    return bin(Op::Ult, x, &cst(c, x.w));
                }
                if let Kind::Ite(k, x, y) = &a.kind {
                    if as_const(x).is_some() || as_const(y).is_some() {
                        return ite(k, &bin(Op::Ult, x, b), &bin(Op::Ult, y, b));
                    }
                }
            }
            if let Some(c) = ca {
                if umax(b) <= c {
                    return fls();
                }
                if let Kind::Un(Op::ZExt, x) = &b.kind {
                    return bin(Op::Ult, &cst(c, x.w), x);
                }
                if let Kind::Ite(k, x, y) = &b.kind {
                    if as_const(x).is_some() || as_const(y).is_some() {
                        return ite(k, &bin(Op::Ult, a, x), &bin(Op::Ult, a, y));
                    }
                }
            }
            if let (Kind::Un(Op::ZExt, x), Kind::Un(Op::ZExt, y)) = (&a.kind, &b.kind) {
                if x.w == y.w {
                    return bin(Op::Ult, x, y);
                }
            }
        }
        Op::Ule => {
            return not(&bin(Op::Ult, b, a));
        }
        Op::Slt => {
            if same(a, b) {
                return fls();
            }
            // both known non-negative
            if umax(a) <= m(w - 1) && umax(b) <= m(w - 1) {
                return bin(Op::Ult, a, b);
            }
        }
        Op::Sle => {
            return not(&bin(Op::Slt, b, a));
        }
        _ => {}
    }
    mk(Kind::Bin(op, a.clone(), b.clone()), rw)
}

fn or_as_concat(a: &Expr, b: &Expr) -> Option<Expr> {
    // a: zext(x), b: concat(y, 0_k) with k >= x.w
    let (x, w) = match &a.kind {
        Kind::Un(Op::ZExt, x) => (x, a.w),
        _ => return None,
    };
    match &b.kind {
        Kind::Bin(Op::Concat, y, z) => {
            if as_const(z) == Some(0) && z.w >= x.w {
                let lo = zext(x, z.w);
                let r = concat(y, &lo);
                debug_assert_eq!(r.w, w);
                return Some(r);
            }
            None
        }
        Kind::Un(Op::ZExt, inner) => {
            if let Kind::Bin(Op::Concat, y, z) = &inner.kind {
                if as_const(z) == Some(0) && z.w >= x.w {
                    let lo = zext(x, z.w);
                    return Some(zext(&concat(y, &lo), w));
                }
            }
            None
        }
        _ => None,
    }
}

pub fn concat(a: &Expr, b: &Expr) -> Expr {
    let w = a.w + b.w;
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return cst((x << b.w) | y, w);
    }
    if as_const(a) == Some(0) {
        return zext(b, w);
    }
    if let (Kind::Extract(l1, x), Kind::Extract(l2, y)) = (&a.kind, &b.kind) {
        if same(x, y) && *l1 == *l2 + b.w {
            return extract(x, *l2, w);
        }
    }
    // concat(extract(x, lo..), x') where x' is the low part itself
    if let Kind::Un(Op::ZExt, x) = &a.kind {
        let inner = concat(x, b);
        return zext(&inner, w);
    }
    if let Kind::Bin(Op::Concat, y, z) = &b.kind {
        // reassociate to the left: a.(y.z) = (a.y).z
        let ay = concat(a, y);
        return concat_raw(&ay, z);
    }
    concat_raw(a, b)
}
fn concat_raw(a: &Expr, b: &Expr) -> Expr {
    let w = a.w + b.w;
    if let (Kind::Extract(l1, x), Kind::Extract(l2, y)) = (&a.kind, &b.kind) {
        if same(x, y) && *l1 == *l2 + b.w {
            return extract(x, *l2, w);
        }
    }
    // merge constants at the tail
    if let (Kind::Bin(Op::Concat, p, q), Some(cb)) = (&a.kind, as_const(b)) {
        if let Some(cq) = as_const(q) {
            return concat_raw(p, &cst((cq << b.w) | cb, q.w + b.w));
        }
    }
    mk(Kind::Bin(Op::Concat, a.clone(), b.clone()), w)
}

pub fn extract(e: &Expr, lo: u32, w: u32) -> Expr {
    debug_assert!(lo + w <= e.w, "extract {}+{} of {}", lo, w, e.w);
    if lo == 0 && w == e.w {
        return e.clone();
    }
    match &e.kind {
        Kind::Const(c) => cst(c >> lo, w),
        Kind::Extract(l, x) => extract(x, l + lo, w),
        Kind::Un(Op::ZExt, x) => {
            if lo >= x.w {
                cst(0, w)
            } else if lo + w <= x.w {
                extract(x, lo, w)
            } else {
                zext(&extract(x, lo, x.w - lo), w)
            }
        }
        Kind::Un(Op::SExt, x) if lo + w <= x.w => extract(x, lo, w),
        Kind::Bin(Op::Concat, a, b) => {
            if lo >= b.w {
                extract(a, lo - b.w, w)
            } else if lo + w <= b.w {
                extract(b, lo, w)
            } else {
                concat(&extract(a, 0, lo + w - b.w), &extract(b, lo, b.w - lo))
            }
        }
        Kind::Bin(op @ (Op::And | Op::Or | Op::Xor), a, b) => {
            bin(*op, &extract(a, lo, w), &extract(b, lo, w))
        }
        Kind::Un(Op::Not, a) => not(&extract(a, lo, w)),
        Kind::Bin(op @ (Op::Add | Op::Sub | Op::Mul), a, b) if lo == 0 => {
            bin(*op, &extract(a, 0, w), &extract(b, 0, w))
        }
        Kind::Ite(c, a, b) => ite(c, &extract(a, lo, w), &extract(b, lo, w)),
        _ => mk(Kind::Extract(lo, e.clone()), w),
    }
}

pub fn zext(e: &Expr, w: u32) -> Expr {
    if w == e.w {
        return e.clone();
    }
    debug_assert!(w > e.w);
    match &e.kind {
        Kind::Const(c) => cst(*c, w),
        Kind::Un(Op::ZExt, x) => zext(x, w),
        Kind::Ite(c, a, b) if as_const(a).is_some() && as_const(b).is_some() && e.w > 1 => {
            ite(c, &zext(a, w), &zext(b, w))
        }
        _ => mk(Kind::Un(Op::ZExt, e.clone()), w),
    }
}
pub fn sext(e: &Expr, w: u32) -> Expr {
    if w == e.w {
        return e.clone();
    }
    match &e.kind {
        Kind::Const(c) => cst(sext128(*c, e.w) as u128, w),
        Kind::Un(Op::SExt, x) => sext(x, w),
        Kind::Un(Op::ZExt, x) => zext(x, w),
        _ => {
            if e.w == 1 {
                return ite(e, &cst(u128::MAX, w), &cst(0, w));
            }
            mk(Kind::Un(Op::SExt, e.clone()), w)
        }
    }
}
pub fn trunc(e: &Expr, w: u32) -> Expr {
    extract(e, 0, w)
}

pub fn ite(c: &Expr, a: &Expr, b: &Expr) -> Expr {
    match as_const(c) {
        Some(0) => return b.clone(),
        Some(_) => return a.clone(),
        None => {}
    }
    if same(a, b) {
        return a.clone();
    }
    if let Kind::Un(Op::Not, x) = &c.kind {
        return ite(x, b, a);
    }
    if a.w == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(0)) => return c.clone(),
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return bin(Op::Or, c, b),
            (Some(0), None) => return bin(Op::And, &not(c), b),
            (None, Some(0)) => return bin(Op::And, c, a),
            (None, Some(1)) => return bin(Op::Or, &not(c), a),
            _ => {}
        }
    }
    if let Kind::Ite(c2, x, _) = &a.kind {
        if same(c, c2) {
            return ite(c, x, b);
        }
    }
    if let Kind::Ite(c2, _, y) = &b.kind {
        if same(c, c2) {
            return ite(c, a, y);
        }
    }
    mk(Kind::Ite(c.clone(), a.clone(), b.clone()), a.w)
}

pub fn eval(e: &Expr, model: &[u64]) -> u128 {
    if e.size < 64 {
        eval_plain(e, model)
    } else {
        let mut memo = HashMap::new();
        eval_memo(e, model, &mut memo)
    }
}
fn un_eval(op: Op, v: u128, iw: u32, w: u32) -> u128 {
    match op {
        Op::Not => !v & m(w),
        Op::ZExt => v,
        Op::SExt => (sext128(v, iw) as u128) & m(w),
        _ => unreachable!(),
    }
}
fn eval_plain(e: &Expr, model: &[u64]) -> u128 {
    match &e.kind {
        Kind::Const(c) => *c,
        Kind::Var(v) => (model.get(*v as usize).copied().unwrap_or(0) as u128) & m(e.w),
        Kind::Extract(lo, x) => (eval_plain(x, model) >> lo) & m(e.w),
        Kind::Un(op, x) => un_eval(*op, eval_plain(x, model), x.w, e.w),
        Kind::Bin(Op::Concat, a, b) => (eval_plain(a, model) << b.w) | eval_plain(b, model),
        Kind::Bin(op, a, b) => fold(*op, eval_plain(a, model), eval_plain(b, model), a.w),
        Kind::Ite(c, a, b) => {
            if eval_plain(c, model) != 0 {
                eval_plain(a, model)
            } else {
                eval_plain(b, model)
            }
        }
    }
}
fn eval_memo(e: &Expr, model: &[u64], memo: &mut HashMap<u128, u128>) -> u128 {
    if e.size < 8 {
        return eval_plain(e, model);
    }
    if let Some(v) = memo.get(&e.h) {
        return *v;
    }
    let r = match &e.kind {
        Kind::Const(_) | Kind::Var(_) => eval_plain(e, model),
        Kind::Extract(lo, x) => (eval_memo(x, model, memo) >> lo) & m(e.w),
        Kind::Un(op, x) => un_eval(*op, eval_memo(x, model, memo), x.w, e.w),
        Kind::Bin(Op::Concat, a, b) => (eval_memo(a, model, memo) << b.w) | eval_memo(b, model, memo),
        Kind::Bin(op, a, b) => fold(*op, eval_memo(a, model, memo), eval_memo(b, model, memo), a.w),
        Kind::Ite(c, a, b) => {
            if eval_memo(c, model, memo) != 0 {
                eval_memo(a, model, memo)
            } else {
                eval_memo(b, model, memo)
            }
        }
    };
    memo.insert(e.h, r);
    r
}

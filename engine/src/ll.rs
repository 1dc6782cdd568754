//! Parser for textual LLVM IR (the subset rustc emits) and lowering to a register machine.
use crate::expr::{self, m64};
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),          // concrete, width <= 64
    E(expr::Expr),   // symbolic, or wider than 64 bits
    A(Arc<Vec<Val>>), // struct / array / vector
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Struct(Vec<Ty>, bool),
    Array(u64, Box<Ty>),
    Vec(u32, Box<Ty>),
    Float(u32),
    Other,
}
impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Array(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(w) => ((*n as u64 * w as u64) + 7) / 8,
                _ => *n as u64 * t.size(),
            },
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Array(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Array(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i],
            Ty::Array(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            _ => 0,
        }
    }
    /// (lanes, width): lanes 0 for scalars
    pub fn lanes(&self) -> (u32, u32) {
        match self {
            Ty::Vec(n, t) => (*n, t.width()),
            t => (0, t.width()),
        }
    }
    pub fn zero(&self) -> Val {
        match self {
            Ty::Int(w) if *w > 64 => Val::E(expr::cst(0, *w)),
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) | Ty::Void | Ty::Other => Val::C(0),
            Ty::Struct(f, _) => Val::A(Arc::new(f.iter().map(|t| t.zero()).collect())),
            Ty::Array(n, t) => Val::A(Arc::new((0..*n).map(|_| t.zero()).collect())),
            Ty::Vec(n, t) => Val::A(Arc::new((0..*n).map(|_| t.zero()).collect())),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub block: u32,
    pub moves: Vec<(u32, Opd)>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ext(u32),
    Ind(Opd),
}
#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: expr::Op, w: u32, lanes: u32, dst: u32, a: Opd, b: Opd },
    ICmp { p: Pred, w: u32, lanes: u32, dst: u32, a: Opd, b: Opd },
    Cast { k: CastK, fw: u32, tw: u32, lanes: u32, dst: u32, a: Opd },
    Bitcast { from: Ty, to: Ty, dst: u32, a: Opd },
    Copy { dst: u32, a: Opd },
    Select { dst: u32, c: Opd, a: Opd, b: Opd, lanes: u32, ty: Ty },
    Alloca { dst: u32, size: u64, n: Opd },
    Load { dst: u32, ty: Ty, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Gep { dst: u32, base: Opd, off: i64, idx: Vec<(Opd, u32, u64)> },
    Call { dst: Option<u32>, callee: Callee, args: Vec<Opd>, tys: Vec<Ty>, ret: Ty },
    ExtractValue { dst: u32, a: Opd, path: Vec<u32> },
    InsertValue { dst: u32, a: Opd, v: Opd, path: Vec<u32> },
    ExtractElem { dst: u32, a: Opd, i: Opd },
    InsertElem { dst: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { dst: u32, a: Opd, b: Opd, mask: Vec<i64> },
    AtomicRmw { op: String, ty: Ty, dst: u32, p: Opd, v: Opd },
    CmpXchg { ty: Ty, dst: u32, p: Opd, c: Opd, n: Opd },
    Trap(String),
    Br(Edge),
    CondBr { c: Opd, t: Edge, f: Edge },
    Switch { w: u32, v: Opd, d: Edge, cases: Vec<(u64, Edge)> },
    Ret(Option<Opd>),
    Unreachable,
}

pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub nparams: u32,
    pub blocks: Vec<Vec<Inst>>,
    pub id: u32,
    pub ninsts: u32,
}

pub struct Global {
    pub name: String,
    pub size: u64,
    pub data: Vec<u8>,
    pub constant: bool,
}

pub struct Module {
    pub globals: Vec<Global>,
    pub funcs: Vec<Func>,
    pub exts: Vec<String>,
    pub fname: HashMap<String, u32>,
}

pub const FN_BASE: u64 = 0x3000_0000_0000_0000;
pub const EXT_BASE: u64 = 0x3800_0000_0000_0000;
pub fn gaddr(i: usize) -> u64 {
    ((i as u64) + 1) << 32
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Word(String),
    Local(String),
    Global(String),
    Int(i128),
    Flt(String),
    Str(Vec<u8>),  // c"..."
    Quoted(String),
    P(char),
    Meta,
    Attr,
}

fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let g = c == b'@';
                i += 1;
                let name;
                if i < b.len() && b[i] == b'"' {
                    let st = i + 1;
                    i = st;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                    i += 1;
                } else {
                    let st = i;
                    while i < b.len() && idc(b[i]) {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                }
                out.push(if g { Tok::Global(name) } else { Tok::Local(name) });
            }
            b'!' => {
                i += 1;
                while i < b.len() && (idc(b[i]) || b[i] == b'\\') {
                    i += 1;
                }
                out.push(Tok::Meta);
            }
            b'#' => {
                i += 1;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                out.push(Tok::Attr);
            }
            b'"' => {
                let st = i + 1;
                i = st;
                while b[i] != b'"' {
                    i += 1;
                }
                out.push(Tok::Quoted(s[st..i].to_string()));
                i += 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                i += 2;
                let mut v = Vec::new();
                while b[i] != b'"' {
                    if b[i] == b'\\' {
                        if b[i + 1] == b'\\' {
                            v.push(b'\\');
                            i += 2;
                        } else {
                            v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                            i += 3;
                        }
                    } else {
                        v.push(b[i]);
                        i += 1;
                    }
                }
                i += 1;
                out.push(Tok::Str(v));
            }
            b'0'..=b'9' | b'-' | b'+' => {
                let st = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || ((b[i] == b'+' || b[i] == b'-') && b[i - 1] == b'e')) {
                    i += 1;
                }
                let t = &s[st..i];
                match t.parse::<i128>() {
                    Ok(v) => out.push(Tok::Int(v)),
                    Err(_) => match t.parse::<u128>() {
                        Ok(v) => out.push(Tok::Int(v as i128)),
                        Err(_) => out.push(Tok::Flt(t.to_string())),
                    },
                }
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' => {
                let st = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'.') {
                    i += 1;
                }
                out.push(Tok::Word(s[st..i].to_string()));
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

struct Ctx {
    types: HashMap<String, Ty>,
    globals: HashMap<String, usize>,
    funcs: HashMap<String, u32>,
    exts: HashMap<String, u32>,
    ext_names: Vec<String>,
    aliases: HashMap<String, String>,
}

struct Ps<'a> {
    t: &'a [Tok],
    i: usize,
    cx: &'a Ctx,
    line: &'a str,
}

fn is_ty_word(w: &str) -> bool {
    (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
        || matches!(w, "ptr" | "void" | "float" | "double" | "half" | "bfloat" | "x86_fp80" | "fp128" | "metadata" | "label" | "token")
}

impl<'a> Ps<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn err(&self, m: &str) -> ! {
        panic!("IR parse error: {} at token {} of: {}", m, self.i, self.line)
    }
    fn next(&mut self) -> Tok {
        let t = self.t.get(self.i).cloned();
        self.i += 1;
        match t {
            Some(t) => t,
            None => self.err("unexpected end"),
        }
    }
    fn is_p(&self, c: char) -> bool {
        matches!(self.peek(), Some(Tok::P(x)) if *x == c)
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::Word(x)) if x == w)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) {
        if !self.eat_p(c) {
            self.err(&format!("expected {:?}, found {:?}", c, self.peek()));
        }
    }
    fn skip_balanced(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }
    fn at_type(&self) -> bool {
        match self.peek() {
            Some(Tok::Word(w)) => is_ty_word(w),
            Some(Tok::P(c)) => matches!(c, '{' | '[' | '<'),
            Some(Tok::Local(n)) => self.cx.types.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> Ty {
        let t = match self.next() {
            Tok::Word(w) => {
                if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) {
                    Ty::Int(w[1..].parse().unwrap())
                } else {
                    match w.as_str() {
                        "ptr" => {
                            if self.is_w("addrspace") {
                                self.i += 1;
                                self.skip_balanced();
                            }
                            Ty::Ptr
                        }
                        "void" => Ty::Void,
                        "float" => Ty::Float(32),
                        "double" => Ty::Float(64),
                        "half" | "bfloat" => Ty::Float(16),
                        "x86_fp80" | "fp128" => Ty::Float(128),
                        "metadata" | "label" | "token" => Ty::Other,
                        _ => self.err(&format!("type word {}", w)),
                    }
                }
            }
            Tok::P('{') => {
                let mut f = vec![];
                while !self.eat_p('}') {
                    f.push(self.ty());
                    self.eat_p(',');
                }
                Ty::Struct(f, false)
            }
            Tok::P('[') => {
                let n = self.int();
                if !self.eat_w("x") {
                    self.err("x");
                }
                let t = self.ty();
                self.expect(']');
                Ty::Array(n as u64, Box::new(t))
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let mut f = vec![];
                    while !self.eat_p('}') {
                        f.push(self.ty());
                        self.eat_p(',');
                    }
                    self.expect('>');
                    Ty::Struct(f, true)
                } else {
                    let n = self.int();
                    if !self.eat_w("x") {
                        self.err("x");
                    }
                    let t = self.ty();
                    self.expect('>');
                    Ty::Vec(n as u32, Box::new(t))
                }
            }
            Tok::Local(n) => self.cx.types.get(&n).cloned().unwrap_or(Ty::Other),
            t => self.err(&format!("type {:?}", t)),
        };
        t
    }
    fn int(&mut self) -> i128 {
        match self.next() {
            Tok::Int(v) => v,
            t => self.err(&format!("int {:?}", t)),
        }
    }
    /// skip attribute words until something that starts a value
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Word(w)) => {
                    if matches!(
                        w.as_str(),
                        "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr"
                            | "sub" | "add" | "xor" | "trunc" | "splat" | "bitcast" | "asm" | "ptrtoaddr" | "none"
                    ) {
                        return;
                    }
                    let al = w == "align";
                    self.i += 1;
                    if al && matches!(self.peek(), Some(Tok::Int(_))) {
                        self.i += 1;
                    } else if self.is_p('(') {
                        self.skip_balanced();
                    }
                }
                Some(Tok::Quoted(_)) => {
                    self.i += 1;
                    if self.eat_p('=') {
                        self.i += 1;
                    }
                }
                Some(Tok::Attr) => self.i += 1,
                _ => return,
            }
        }
    }
    fn sym_addr(&self, n: &str) -> u64 {
        if let Some(g) = self.cx.globals.get(n) {
            return gaddr(*g);
        }
        if let Some(f) = self.cx.funcs.get(n) {
            return FN_BASE + ((*f as u64) << 4);
        }
        if let Some(f) = self.cx.exts.get(n) {
            return EXT_BASE + ((*f as u64) << 4);
        }
        if let Some(a) = self.cx.aliases.get(n) {
            return self.sym_addr(&a.clone());
        }
        self.err(&format!("unknown symbol @{}", n))
    }
    fn cval(&mut self, ty: &Ty) -> Val {
        // constant of type ty
        let tok = self.next();
        match tok {
            Tok::Int(v) => match ty {
                Ty::Int(w) if *w > 64 => Val::E(expr::cst(v as u128, *w)),
                Ty::Int(w) => Val::C(v as u64 & m64(*w)),
                Ty::Ptr => Val::C(v as u64),
                Ty::Float(_) => Val::C(0),
                _ => self.err("int const"),
            },
            Tok::Flt(_) => Val::C(0),
            Tok::Global(n) => Val::C(self.sym_addr(&n)),
            Tok::Str(b) => Val::A(Arc::new(b.into_iter().map(|x| Val::C(x as u64)).collect())),
            Tok::Word(w) => match w.as_str() {
                "null" | "false" => Val::C(0),
                "true" => Val::C(1),
                "undef" | "poison" | "zeroinitializer" | "none" => ty.zero(),
                "splat" => {
                    self.expect('(');
                    let t = self.ty();
                    let v = self.cval(&t);
                    self.expect(')');
                    match ty {
                        Ty::Vec(n, _) => Val::A(Arc::new(vec![v; *n as usize])),
                        _ => self.err("splat"),
                    }
                }
                "getelementptr" => {
                    while !self.is_p('(') {
                        self.i += 1;
                        if self.is_p('(') && matches!(self.t.get(self.i - 1), Some(Tok::Word(w)) if w == "inrange") {
                            self.skip_balanced();
                        }
                    }
                    self.expect('(');
                    let et = self.ty();
                    self.expect(',');
                    let _pt = self.ty();
                    let base = match self.cval(&Ty::Ptr) {
                        Val::C(b) => b,
                        _ => self.err("gep base"),
                    };
                    let mut off = 0i64;
                    let mut cur = et.clone();
                    let mut first = true;
                    while self.eat_p(',') {
                        let t = self.ty();
                        let v = match self.cval(&t) {
                            Val::C(v) => expr::sext64(v, t.width()),
                            _ => self.err("gep idx"),
                        };
                        if first {
                            off += v * et.size() as i64;
                            first = false;
                        } else {
                            off += cur.field_off(v as usize) as i64;
                            cur = cur.elem(v as usize).clone();
                        }
                    }
                    self.expect(')');
                    Val::C(base.wrapping_add(off as u64))
                }
                "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "ptrtoaddr" => {
                    self.expect('(');
                    let t = self.ty();
                    let v = self.cval(&t);
                    if !self.eat_w("to") {
                        self.err("to");
                    }
                    let t2 = self.ty();
                    self.expect(')');
                    match (v, &t2) {
                        (Val::C(x), Ty::Int(w)) if *w <= 64 => Val::C(x & m64(*w)),
                        (Val::C(x), Ty::Ptr) => Val::C(x),
                        (Val::C(x), Ty::Int(w)) => Val::E(expr::cst(x as u128, *w)),
                        _ => self.err("const cast"),
                    }
                }
                "add" | "sub" | "xor" => {
                    while !self.is_p('(') {
                        self.i += 1;
                    }
                    self.expect('(');
                    let t = self.ty();
                    let a = self.cval(&t);
                    self.expect(',');
                    let t2 = self.ty();
                    let b = self.cval(&t2);
                    self.expect(')');
                    match (a, b) {
                        (Val::C(a), Val::C(b)) => Val::C(
                            match w.as_str() {
                                "add" => a.wrapping_add(b),
                                "sub" => a.wrapping_sub(b),
                                _ => a ^ b,
                            } & m64(t.width()),
                        ),
                        _ => self.err("const bin"),
                    }
                }
                _ => self.err(&format!("const word {}", w)),
            },
            Tok::P('{') | Tok::P('[') => {
                let close = if tok == Tok::P('{') { '}' } else { ']' };
                let mut v = vec![];
                while !self.eat_p(close) {
                    let t = self.ty();
                    v.push(self.cval(&t));
                    self.eat_p(',');
                }
                Val::A(Arc::new(v))
            }
            Tok::P('<') => {
                let packed = self.eat_p('{');
                let mut v = vec![];
                loop {
                    if packed && self.eat_p('}') {
                        self.expect('>');
                        break;
                    }
                    if !packed && self.eat_p('>') {
                        break;
                    }
                    let t = self.ty();
                    v.push(self.cval(&t));
                    self.eat_p(',');
                }
                Val::A(Arc::new(v))
            }
            t => self.err(&format!("const {:?}", t)),
        }
    }
}

struct FB<'a> {
    regs: HashMap<String, u32>,
    cx: &'a Ctx,
}
impl<'a> FB<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn opd(&mut self, p: &mut Ps, ty: &Ty) -> Opd {
        p.skip_attrs();
        if let Some(Tok::Local(n)) = p.peek() {
            let r = self.reg(&n.clone());
            p.i += 1;
            return Opd::R(r);
        }
        Opd::K(p.cval(ty))
    }
    fn topd(&mut self, p: &mut Ps) -> (Ty, Opd) {
        let t = p.ty();
        let o = self.opd(p, &t);
        (t, o)
    }
}

pub fn put_const(v: &Val, ty: &Ty, out: &mut [u8]) {
    match (v, ty) {
        (Val::C(x), _) => {
            let n = ty.size() as usize;
            let b = x.to_le_bytes();
            for i in 0..n.min(8) {
                out[i] = b[i];
            }
        }
        (Val::E(e), _) => {
            let c = expr::as_const(e).unwrap();
            let b = c.to_le_bytes();
            let n = ty.size() as usize;
            out[..n.min(16)].copy_from_slice(&b[..n.min(16)]);
        }
        (Val::A(v), Ty::Struct(f, _)) => {
            for (i, x) in v.iter().enumerate() {
                let o = ty.field_off(i) as usize;
                put_const(x, &f[i], &mut out[o..]);
            }
        }
        (Val::A(v), Ty::Array(_, t)) | (Val::A(v), Ty::Vec(_, t)) => {
            let s = t.size() as usize;
            for (i, x) in v.iter().enumerate() {
                put_const(x, t, &mut out[i * s..]);
            }
        }
        _ => panic!("put_const {:?}", ty),
    }
}

fn bin_op(w: &str) -> Option<expr::Op> {
    use expr::Op::*;
    Some(match w {
        "add" => Add,
        "sub" => Sub,
        "mul" => Mul,
        "udiv" => UDiv,
        "urem" => URem,
        "sdiv" => SDiv,
        "srem" => SRem,
        "shl" => Shl,
        "lshr" => LShr,
        "ashr" => AShr,
        "and" => And,
        "or" => Or,
        "xor" => Xor,
        _ => return None,
    })
}

pub fn parse_module(text: &str) -> Module {
    // logical lines
    let mut top: Vec<String> = vec![];
    let mut bodies: Vec<(String, Vec<String>)> = vec![];
    let mut in_fn = false;
    for line in text.lines() {
        if in_fn {
            if line.starts_with('}') {
                in_fn = false;
                continue;
            }
            let body = &mut bodies.last_mut().unwrap().1;
            if line.trim().is_empty() || line.trim_start().starts_with(';') {
                continue;
            }
            let cont = line.starts_with("    ") || line.starts_with("  ]");
            if cont && !body.is_empty() {
                let l = body.last_mut().unwrap();
                l.push(' ');
                l.push_str(line.trim());
            } else {
                body.push(line.to_string());
            }
        } else if line.starts_with("define") {
            bodies.push((line.to_string(), vec![]));
            in_fn = true;
        } else if !line.is_empty() && !line.starts_with(';') {
            top.push(line.to_string());
        }
    }
    let mut cx = Ctx {
        types: HashMap::new(),
        globals: HashMap::new(),
        funcs: HashMap::new(),
        exts: HashMap::new(),
        ext_names: vec![],
        aliases: HashMap::new(),
    };
    let mut gl: Vec<(String, Vec<Tok>, usize, String)> = vec![];
    for l in &top {
        if l.starts_with('@') {
            let toks = lex(l);
            let name = match &toks[0] {
                Tok::Global(n) => n.clone(),
                _ => panic!(),
            };
            if toks.iter().take(8).any(|t| *t == Tok::Word("alias".into())) {
                let tgt = toks.iter().rev().find_map(|t| if let Tok::Global(n) = t { Some(n.clone()) } else { None }).unwrap();
                cx.aliases.insert(name, tgt);
                continue;
            }
            cx.globals.insert(name.clone(), gl.len());
            gl.push((name, toks, 2, l.clone()));
        } else if l.starts_with('%') {
            let toks = lex(l);
            if let Tok::Local(n) = &toks[0] {
                // %x = type {...}
                if toks.get(3) == Some(&Tok::Word("opaque".into())) {
                    cx.types.insert(n.clone(), Ty::Other);
                } else {
                    let t = {
                        let mut p = Ps { t: &toks, i: 3, cx: &cx, line: l };
                        p.ty()
                    };
                    cx.types.insert(n.clone(), t);
                }
            }
        } else if l.starts_with("declare") {
            let toks = lex(l);
            let n = toks.iter().find_map(|t| if let Tok::Global(n) = t { Some(n.clone()) } else { None }).unwrap();
            let k = cx.ext_names.len() as u32;
            cx.exts.insert(n.clone(), k);
            cx.ext_names.push(n);
        }
    }
    let mut heads = vec![];
    for (k, (h, _)) in bodies.iter().enumerate() {
        let toks = lex(h.trim_end_matches('{'));
        let gi = toks.iter().position(|t| matches!(t, Tok::Global(_))).unwrap();
        let n = match &toks[gi] {
            Tok::Global(n) => n.clone(),
            _ => unreachable!(),
        };
        cx.funcs.insert(n.clone(), k as u32);
        heads.push((n, toks, gi));
    }
    // globals
    let mut globals = vec![];
    for (name, toks, st, line) in &gl {
        let mut p = Ps { t: toks, i: *st, cx: &cx, line };
        let mut external = false;
        let mut constant = false;
        // skip linkage words until 'global' / 'constant'
        loop {
            match p.next() {
                Tok::Word(w) if w == "global" => break,
                Tok::Word(w) if w == "constant" => {
                    constant = true;
                    break;
                }
                Tok::Word(w) => {
                    if w == "external" || w == "extern_weak" {
                        external = true;
                    }
                    if p.is_p('(') {
                        p.skip_balanced();
                    }
                }
                _ => {}
            }
        }
        let ty = p.ty();
        let size = ty.size();
        let mut data = vec![0u8; size as usize];
        if !external && p.i < toks.len() && !p.is_p(',') {
            let v = p.cval(&ty);
            put_const(&v, &ty, &mut data);
        }
        globals.push(Global { name: name.clone(), size, data, constant });
    }
    // functions
    let mut funcs = vec![];
    for (k, (name, toks, gi)) in heads.iter().enumerate() {
        let mut fb = FB { regs: HashMap::new(), cx: &cx };
        let mut p = Ps { t: toks, i: gi + 1, cx: &cx, line: &bodies[k].0 };
        p.expect('(');
        let mut np = 0;
        let mut unnamed = 0;
        while !p.eat_p(')') {
            if p.eat_p('.') {
                continue;
            }
            if let Some(Tok::Word(w)) = p.peek() {
                if w.starts_with("...") {
                    p.i += 1;
                    continue;
                }
            }
            let _t = p.ty();
            p.skip_attrs();
            let n = match p.peek() {
                Some(Tok::Local(n)) => {
                    let n = n.clone();
                    p.i += 1;
                    if let Ok(k) = n.parse::<u32>() {
                        unnamed = k + 1;
                    }
                    n
                }
                _ => {
                    unnamed += 1;
                    format!("{}", unnamed - 1)
                }
            };
            let r = fb.reg(&n);
            assert_eq!(r, np);
            np += 1;
            p.eat_p(',');
        }
        let f = parse_body(&mut fb, name, k as u32, np, &bodies[k].1, unnamed);
        funcs.push(f);
    }
    let fname = cx.funcs.clone();
    Module { globals, funcs, exts: cx.ext_names, fname }
}

fn label_of(l: &str) -> String {
    // "name:   ; preds" or "\"quoted\":"
    if l.starts_with('"') {
        let e = l[1..].find('"').unwrap();
        l[1..1 + e].to_string()
    } else {
        l[..l.find(':').unwrap()].to_string()
    }
}

fn parse_body(fb: &mut FB, name: &str, id: u32, np: u32, body: &[String], unnamed: u32) -> Func {
    // split in blocks
    let mut blocks: Vec<(String, Vec<&String>)> = vec![];
    for l in body {
        if !l.starts_with(' ') {
            blocks.push((label_of(l), vec![]));
        } else {
            if blocks.is_empty() {
                blocks.push((format!("{}", unnamed), vec![]));
            }
            blocks.last_mut().unwrap().1.push(l);
        }
    }
    let bidx: HashMap<String, u32> = blocks.iter().enumerate().map(|(i, b)| (b.0.clone(), i as u32)).collect();
    // phis first: block -> [(dst, ty, {pred -> opd})]
    let mut phis: Vec<Vec<(u32, HashMap<u32, Opd>)>> = vec![vec![]; blocks.len()];
    for (bi, (_, ls)) in blocks.iter().enumerate() {
        for l in ls {
            let t = l.trim_start();
            if !t.starts_with('%') || !t.contains(" = phi ") {
                break;
            }
            let toks = lex(t);
            let cx = fb.cx;
            let mut p = Ps { t: &toks, i: 0, cx, line: l };
            let dst = match p.next() {
                Tok::Local(n) => fb.reg(&n),
                _ => p.err("phi dst"),
            };
            p.expect('=');
            p.i += 1;
            while !p.at_type() {
                p.i += 1;
            }
            let ty = p.ty();
            let mut inc = HashMap::new();
            loop {
                p.expect('[');
                let v = fb.opd(&mut p, &ty);
                p.expect(',');
                let b = match p.next() {
                    Tok::Local(n) => *bidx.get(&n).unwrap_or_else(|| panic!("no block {} in {}", n, name)),
                    _ => p.err("phi block"),
                };
                p.expect(']');
                inc.insert(b, v);
                if !p.eat_p(',') {
                    break;
                }
                if !p.is_p('[') {
                    break;
                }
            }
            phis[bi].push((dst, inc));
        }
    }
    let edge = |from: u32, to: u32, phis: &Vec<Vec<(u32, HashMap<u32, Opd>)>>| -> Edge {
        Edge {
            block: to,
            moves: phis[to as usize]
                .iter()
                .map(|(d, inc)| (*d, inc.get(&from).cloned().unwrap_or(Opd::K(Val::C(0)))))
                .collect(),
        }
    };
    let mut out = vec![];
    let mut total = 0;
    for (bi, (_, ls)) in blocks.iter().enumerate() {
        let mut insts = vec![];
        for l in ls {
            let t = l.trim_start();
            let toks = lex(t);
            let cx = fb.cx;
            let mut p = Ps { t: &toks, i: 0, cx, line: l };
            let mut dst = None;
            if matches!(toks[0], Tok::Local(_)) && toks.get(1) == Some(&Tok::P('=')) {
                if let Tok::Local(n) = &toks[0] {
                    dst = Some(fb.reg(n));
                }
                p.i = 2;
            }
            let mut w = match p.next() {
                Tok::Word(w) => w,
                t => p.err(&format!("opcode {:?}", t)),
            };
            if matches!(w.as_str(), "tail" | "musttail" | "notail") {
                w = match p.next() {
                    Tok::Word(w) => w,
                    _ => p.err("call"),
                };
            }
            let skip_flags = |p: &mut Ps| {
                while !p.at_type() {
                    p.i += 1;
                }
            };
            let label = |p: &mut Ps| -> u32 {
                if !p.eat_w("label") {
                    p.err("label");
                }
                match p.next() {
                    Tok::Local(n) => *bidx.get(&n).unwrap_or_else(|| panic!("no block {}", n)),
                    _ => p.err("label"),
                }
            };
            if w == "phi" {
                continue;
            }
            if let Some(op) = bin_op(&w) {
                skip_flags(&mut p);
                let ty = p.ty();
                let a = fb.opd(&mut p, &ty);
                p.expect(',');
                let b = fb.opd(&mut p, &ty);
                let (lanes, wd) = ty.lanes();
                insts.push(Inst::Bin { op, w: wd, lanes, dst: dst.unwrap(), a, b });
                continue;
            }
            match w.as_str() {
                "icmp" => {
                    let mut pred = None;
                    while !p.at_type() {
                        if let Tok::Word(x) = p.next() {
                            pred = match x.as_str() {
                                "eq" => Some(Pred::Eq),
                                "ne" => Some(Pred::Ne),
                                "ult" => Some(Pred::Ult),
                                "ule" => Some(Pred::Ule),
                                "ugt" => Some(Pred::Ugt),
                                "uge" => Some(Pred::Uge),
                                "slt" => Some(Pred::Slt),
                                "sle" => Some(Pred::Sle),
                                "sgt" => Some(Pred::Sgt),
                                "sge" => Some(Pred::Sge),
                                _ => pred,
                            };
                        }
                    }
                    let ty = p.ty();
                    let a = fb.opd(&mut p, &ty);
                    p.expect(',');
                    let b = fb.opd(&mut p, &ty);
                    let (lanes, wd) = ty.lanes();
                    insts.push(Inst::ICmp { p: pred.unwrap(), w: wd, lanes, dst: dst.unwrap(), a, b });
                }
                "zext" | "sext" | "trunc" => {
                    skip_flags(&mut p);
                    let ty = p.ty();
                    let a = fb.opd(&mut p, &ty);
                    if !p.eat_w("to") {
                        p.err("to");
                    }
                    let t2 = p.ty();
                    let k = match w.as_str() {
                        "zext" => CastK::ZExt,
                        "sext" => CastK::SExt,
                        _ => CastK::Trunc,
                    };
                    let (lanes, fw) = ty.lanes();
                    let (_, tw) = t2.lanes();
                    insts.push(Inst::Cast { k, fw, tw, lanes, dst: dst.unwrap(), a });
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "addrspacecast" => {
                    let ty = p.ty();
                    let a = fb.opd(&mut p, &ty);
                    if !p.eat_w("to") {
                        p.err("to");
                    }
                    let t2 = p.ty();
                    if w == "bitcast" {
                        insts.push(Inst::Bitcast { from: ty, to: t2, dst: dst.unwrap(), a });
                    } else {
                        let (lanes, fw) = ty.lanes();
                        let (_, tw) = t2.lanes();
                        if fw == tw {
                            insts.push(Inst::Copy { dst: dst.unwrap(), a });
                        } else {
                            let k = if tw < fw { CastK::Trunc } else { CastK::ZExt };
                            insts.push(Inst::Cast { k, fw, tw, lanes, dst: dst.unwrap(), a });
                        }
                    }
                }
                "freeze" => {
                    let (_, a) = fb.topd(&mut p);
                    insts.push(Inst::Copy { dst: dst.unwrap(), a });
                }
                "select" => {
                    skip_flags(&mut p);
                    let (ct, c) = fb.topd(&mut p);
                    p.expect(',');
                    let (ty, a) = fb.topd(&mut p);
                    p.expect(',');
                    let (_, b) = fb.topd(&mut p);
                    let (lanes, _) = ct.lanes();
                    insts.push(Inst::Select { dst: dst.unwrap(), c, a, b, lanes, ty });
                }
                "alloca" => {
                    p.eat_w("inalloca");
                    let ty = p.ty();
                    let mut n = Opd::K(Val::C(1));
                    if p.is_p(',') {
                        let save = p.i;
                        p.i += 1;
                        if p.at_type() {
                            let (_, o) = fb.topd(&mut p);
                            n = o;
                        } else {
                            p.i = save;
                        }
                    }
                    insts.push(Inst::Alloca { dst: dst.unwrap(), size: ty.size(), n });
                }
                "load" => {
                    p.eat_w("atomic");
                    p.eat_w("volatile");
                    let ty = p.ty();
                    p.expect(',');
                    let (_, ptr) = fb.topd(&mut p);
                    insts.push(Inst::Load { dst: dst.unwrap(), ty, p: ptr });
                }
                "store" => {
                    p.eat_w("atomic");
                    p.eat_w("volatile");
                    let (ty, v) = fb.topd(&mut p);
                    p.expect(',');
                    let (_, ptr) = fb.topd(&mut p);
                    insts.push(Inst::Store { ty, v, p: ptr });
                }
                "getelementptr" => {
                    while !p.at_type() {
                        p.i += 1;
                        if p.is_p('(') {
                            p.skip_balanced();
                        }
                    }
                    let et = p.ty();
                    p.expect(',');
                    let (bt, base) = fb.topd(&mut p);
                    if bt != Ty::Ptr {
                        insts.push(Inst::Trap("vector gep".into()));
                        continue;
                    }
                    let mut off = 0i64;
                    let mut idx = vec![];
                    let mut cur = et.clone();
                    let mut first = true;
                    while p.eat_p(',') {
                        if !p.at_type() {
                            break;
                        }
                        let (t, o) = fb.topd(&mut p);
                        if first {
                            first = false;
                            let s = et.size();
                            match o {
                                Opd::K(Val::C(v)) => off += expr::sext64(v, t.width()).wrapping_mul(s as i64),
                                o => idx.push((o, t.width(), s)),
                            }
                        } else {
                            match (&cur.clone(), o) {
                                (_, Opd::K(Val::C(v))) => {
                                    let v = expr::sext64(v, t.width());
                                    match &cur {
                                        Ty::Array(_, e) => {
                                            off += v * e.size() as i64;
                                        }
                                        _ => off += cur.field_off(v as usize) as i64,
                                    }
                                    let nc = cur.elem(v as usize).clone();
                                    cur = nc;
                                }
                                (Ty::Array(_, e), o) => {
                                    idx.push((o, t.width(), e.size()));
                                    let nc = (**e).clone();
                                    cur = nc;
                                }
                                _ => p.err("gep"),
                            }
                        }
                    }
                    insts.push(Inst::Gep { dst: dst.unwrap(), base, off, idx });
                }
                "call" | "invoke" => {
                    // skip cc / attrs until type
                    loop {
                        if p.at_type() {
                            break;
                        }
                        match p.next() {
                            Tok::Word(w) => {
                                if w == "align" {
                                    p.i += 1;
                                } else if p.is_p('(') {
                                    p.skip_balanced();
                                }
                            }
                            _ => {}
                        }
                    }
                    let ret = p.ty();
                    if p.is_p('(') {
                        p.skip_balanced();
                    }
                    if p.is_w("asm") {
                        insts.push(Inst::Trap("inline asm".into()));
                        continue;
                    }
                    let callee = match p.peek() {
                        Some(Tok::Global(n)) => {
                            let mut n = n.clone();
                            p.i += 1;
                            if let Some(a) = cx.aliases.get(&n) {
                                n = a.clone();
                            }
                            if let Some(f) = cx.funcs.get(&n) {
                                Callee::Func(*f)
                            } else {
                                Callee::Ext(*cx.exts.get(&n).unwrap_or_else(|| panic!("unknown callee {}", n)))
                            }
                        }
                        _ => Callee::Ind(fb.opd(&mut p, &Ty::Ptr)),
                    };
                    p.expect('(');
                    let mut args = vec![];
                    let mut tys = vec![];
                    while !p.eat_p(')') {
                        let ty = p.ty();
                        if ty == Ty::Other {
                            // metadata argument: skip to , or )
                            let mut d = 0;
                            loop {
                                match p.peek() {
                                    Some(Tok::P(',')) | Some(Tok::P(')')) if d == 0 => break,
                                    Some(Tok::P('(')) | Some(Tok::P('{')) => d += 1,
                                    Some(Tok::P(')')) | Some(Tok::P('}')) => d -= 1,
                                    None => p.err("metadata"),
                                    _ => {}
                                }
                                p.i += 1;
                            }
                            args.push(Opd::K(Val::C(0)));
                        } else {
                            args.push(fb.opd(&mut p, &ty));
                        }
                        tys.push(ty);
                        p.eat_p(',');
                    }
                    insts.push(Inst::Call { dst: if ret == Ty::Void { None } else { dst }, callee, args, tys, ret });
                    if w == "invoke" {
                        while !p.is_w("to") {
                            p.i += 1;
                        }
                        p.i += 1;
                        let b = label(&mut p);
                        insts.push(Inst::Br(edge(bi as u32, b, &phis)));
                    }
                }
                "br" => {
                    if p.is_w("label") {
                        let b = label(&mut p);
                        insts.push(Inst::Br(edge(bi as u32, b, &phis)));
                    } else {
                        let (_, c) = fb.topd(&mut p);
                        p.expect(',');
                        let a = label(&mut p);
                        p.expect(',');
                        let b = label(&mut p);
                        insts.push(Inst::CondBr { c, t: edge(bi as u32, a, &phis), f: edge(bi as u32, b, &phis) });
                    }
                }
                "switch" => {
                    let (ty, v) = fb.topd(&mut p);
                    p.expect(',');
                    let d = label(&mut p);
                    p.expect('[');
                    let mut cases = vec![];
                    while !p.eat_p(']') {
                        let t = p.ty();
                        let c = match p.cval(&t) {
                            Val::C(c) => c,
                            Val::E(e) => expr::as_const(&e).unwrap() as u64,
                            _ => p.err("case"),
                        };
                        p.expect(',');
                        let b = label(&mut p);
                        cases.push((c, edge(bi as u32, b, &phis)));
                    }
                    insts.push(Inst::Switch { w: ty.width(), v, d: edge(bi as u32, d, &phis), cases });
                }
                "ret" => {
                    if p.is_w("void") {
                        insts.push(Inst::Ret(None));
                    } else {
                        let (_, v) = fb.topd(&mut p);
                        insts.push(Inst::Ret(Some(v)));
                    }
                }
                "unreachable" => insts.push(Inst::Unreachable),
                "extractvalue" => {
                    let (_, a) = fb.topd(&mut p);
                    let mut path = vec![];
                    while p.eat_p(',') {
                        if let Some(Tok::Int(_)) = p.peek() {
                            path.push(p.int() as u32);
                        } else {
                            break;
                        }
                    }
                    insts.push(Inst::ExtractValue { dst: dst.unwrap(), a, path });
                }
                "insertvalue" => {
                    let (_, a) = fb.topd(&mut p);
                    p.expect(',');
                    let (_, v) = fb.topd(&mut p);
                    let mut path = vec![];
                    while p.eat_p(',') {
                        if let Some(Tok::Int(_)) = p.peek() {
                            path.push(p.int() as u32);
                        } else {
                            break;
                        }
                    }
                    insts.push(Inst::InsertValue { dst: dst.unwrap(), a, v, path });
                }
                "extractelement" => {
                    let (_, a) = fb.topd(&mut p);
                    p.expect(',');
                    let (_, i) = fb.topd(&mut p);
                    insts.push(Inst::ExtractElem { dst: dst.unwrap(), a, i });
                }
                "insertelement" => {
                    let (_, a) = fb.topd(&mut p);
                    p.expect(',');
                    let (_, v) = fb.topd(&mut p);
                    p.expect(',');
                    let (_, i) = fb.topd(&mut p);
                    insts.push(Inst::InsertElem { dst: dst.unwrap(), a, v, i });
                }
                "shufflevector" => {
                    let (_, a) = fb.topd(&mut p);
                    p.expect(',');
                    let (_, b) = fb.topd(&mut p);
                    p.expect(',');
                    let mt = p.ty();
                    let mv = p.cval(&mt);
                    let mask = match mv {
                        Val::A(v) => v.iter().map(|x| match x { Val::C(c) => *c as i64, _ => 0 }).collect(),
                        _ => p.err("mask"),
                    };
                    insts.push(Inst::Shuffle { dst: dst.unwrap(), a, b, mask });
                }
                "atomicrmw" => {
                    p.eat_w("volatile");
                    let op = match p.next() {
                        Tok::Word(w) => w,
                        _ => p.err("rmw"),
                    };
                    let (_, ptr) = fb.topd(&mut p);
                    p.expect(',');
                    let (ty, v) = fb.topd(&mut p);
                    insts.push(Inst::AtomicRmw { op, ty, dst: dst.unwrap_or(u32::MAX), p: ptr, v });
                }
                "cmpxchg" => {
                    p.eat_w("weak");
                    p.eat_w("volatile");
                    let (_, ptr) = fb.topd(&mut p);
                    p.expect(',');
                    let (ty, c) = fb.topd(&mut p);
                    p.expect(',');
                    let (_, n) = fb.topd(&mut p);
                    insts.push(Inst::CmpXchg { ty, dst: dst.unwrap(), p: ptr, c, n });
                }
                "fence" => {}
                "landingpad" | "resume" => {
                    insts.push(Inst::Trap(w.clone()));
                }
                _ => {
                    insts.push(Inst::Trap(format!("unsupported instruction {}", w)));
                }
            }
        }
        total += insts.len() as u32;
        out.push(insts);
    }
    let nregs = fb.regs.len() as u32;
    let _ = Rc::new(0);
    Func { name: name.to_string(), nregs, nparams: np, blocks: out, id, ninsts: total }
}

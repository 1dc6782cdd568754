//! Copy-on-write object memory.
use crate::expr::{self, Expr};
use crate::ll::Val;
use std::collections::BTreeMap;
use std::sync::Arc;

#[derive(Clone)]
pub struct SB {
    pub e: Expr,
    pub k: u8,
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Box<BTreeMap<u32, SB>>>,
    pub constant: bool,
}

impl Obj {
    pub fn new(size: usize) -> Obj {
        Obj { data: vec![0; size], sym: None, constant: false }
    }
    #[inline]
    fn has_sym(&self, off: u32, n: u32) -> bool {
        match &self.sym {
            None => false,
            Some(m) => m.range(off..off + n).next().is_some(),
        }
    }
    /// Read n bytes as an integer of width 8*n.
    pub fn read(&self, off: u32, n: u32) -> Val {
        let o = off as usize;
        if !self.has_sym(off, n) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n as usize].copy_from_slice(&self.data[o..o + n as usize]);
                return Val::C(u64::from_le_bytes(b));
            }
            let mut b = [0u8; 16];
            b[..n as usize].copy_from_slice(&self.data[o..o + n as usize]);
            return Val::E(expr::cst(u128::from_le_bytes(b), n * 8));
        }
        let m = self.sym.as_ref().unwrap();
        if let Some(f) = m.get(&off) {
            if f.k == 0 && f.e.w == n * 8 {
                let mut ok = true;
                for i in 1..n {
                    match m.get(&(off + i)) {
                        Some(s) if s.k as u32 == i && Arc::ptr_eq(&s.e, &f.e) => {}
                        _ => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok {
                    return Val::E(f.e.clone());
                }
            }
        }
        let mut acc: Option<Expr> = None;
        for i in (0..n).rev() {
            let byte = match m.get(&(off + i)) {
                Some(s) => expr::extract(&s.e, s.k as u32 * 8, 8),
                None => expr::cst(self.data[o + i as usize] as u128, 8),
            };
            acc = Some(match acc {
                None => byte,
                Some(a) => expr::concat(&a, &byte),
            });
        }
        let e = acc.unwrap();
        if n <= 8 {
            if let Some(c) = expr::as_const(&e) {
                return Val::C(c as u64);
            }
        }
        Val::E(e)
    }
    pub fn write_c(&mut self, off: u32, n: u32, v: u64) {
        let o = off as usize;
        self.data[o..o + n as usize].copy_from_slice(&v.to_le_bytes()[..n as usize]);
        self.clear_sym(off, n);
    }
    pub fn clear_sym(&mut self, off: u32, n: u32) {
        if let Some(m) = &mut self.sym {
            if m.len() > 0 {
                let ks: Vec<u32> = m.range(off..off + n).map(|x| *x.0).collect();
                for k in ks {
                    m.remove(&k);
                }
                if m.is_empty() {
                    self.sym = None;
                }
            }
        }
    }
    /// e.w must be 8*n
    pub fn write_e(&mut self, off: u32, n: u32, e: &Expr) {
        debug_assert_eq!(e.w, 8 * n);
        if let Some(c) = expr::as_const(e) {
            let o = off as usize;
            self.data[o..o + n as usize].copy_from_slice(&c.to_le_bytes()[..n as usize]);
            self.clear_sym(off, n);
            return;
        }
        let m = self.sym.get_or_insert_with(|| Box::new(BTreeMap::new()));
        for i in 0..n {
            // keep concrete bytes concrete
            let b = if e.size < 40 { Some(expr::extract(e, i * 8, 8)) } else { None };
            if let Some(c) = b.as_ref().and_then(expr::as_const) {
                self.data[(off + i) as usize] = c as u8;
                m.remove(&(off + i));
            } else {
                m.insert(off + i, SB { e: e.clone(), k: i as u8 });
            }
        }
    }
    pub fn copy_from(&mut self, off: u32, src: &[u8], ssym: &[(u32, SB)]) {
        let n = src.len() as u32;
        self.data[off as usize..off as usize + src.len()].copy_from_slice(src);
        self.clear_sym(off, n);
        if !ssym.is_empty() {
            let m = self.sym.get_or_insert_with(|| Box::new(BTreeMap::new()));
            for (k, s) in ssym {
                m.insert(off + k, s.clone());
            }
        }
    }
    pub fn slice(&self, off: u32, n: u32) -> (Vec<u8>, Vec<(u32, SB)>) {
        let d = self.data[off as usize..(off + n) as usize].to_vec();
        let s = match &self.sym {
            None => vec![],
            Some(m) => m.range(off..off + n).map(|(k, s)| (*k - off, s.clone())).collect(),
        };
        (d, s)
    }
}

const CH: usize = 32;
#[derive(Clone)]
pub struct PArr {
    chunks: Vec<Arc<Vec<Option<Arc<Obj>>>>>,
    pub len: usize,
}
impl PArr {
    pub fn new() -> PArr {
        PArr { chunks: vec![], len: 0 }
    }
    pub fn push(&mut self, o: Obj) -> usize {
        let i = self.len;
        if i / CH >= self.chunks.len() {
            self.chunks.push(Arc::new(vec![None; CH]));
        }
        Arc::make_mut(&mut self.chunks[i / CH])[i % CH] = Some(Arc::new(o));
        self.len += 1;
        i
    }
    pub fn truncate(&mut self, n: usize) {
        while self.len > n {
            self.len -= 1;
            let i = self.len;
            Arc::make_mut(&mut self.chunks[i / CH])[i % CH] = None;
        }
    }
    #[inline]
    pub fn get(&self, i: usize) -> Option<&Arc<Obj>> {
        self.chunks.get(i / CH).and_then(|c| c[i % CH].as_ref())
    }
    #[inline]
    pub fn get_mut(&mut self, i: usize) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(i / CH)?;
        let c = Arc::make_mut(c);
        c[i % CH].as_mut().map(|a| Arc::make_mut(a))
    }
    pub fn set(&mut self, i: usize, o: Option<Obj>) {
        Arc::make_mut(&mut self.chunks[i / CH])[i % CH] = o.map(Arc::new);
    }
}

pub const HEAP: u32 = 0x0800_0000;
pub const STACK: u32 = 0x1000_0000;

#[derive(Clone)]
pub struct Mem {
    pub globals: PArr,
    pub heap: PArr,
    pub stack: PArr,
    pub free: Vec<u32>,
    pub live_bytes: u64,
}

impl Mem {
    #[inline]
    pub fn obj(&self, id: u32) -> Option<&Arc<Obj>> {
        if id >= STACK {
            self.stack.get((id - STACK) as usize)
        } else if id >= HEAP {
            self.heap.get((id - HEAP) as usize)
        } else if id > 0 {
            self.globals.get(id as usize - 1)
        } else {
            None
        }
    }
    #[inline]
    pub fn obj_mut(&mut self, id: u32) -> Option<&mut Obj> {
        if id >= STACK {
            self.stack.get_mut((id - STACK) as usize)
        } else if id >= HEAP {
            self.heap.get_mut((id - HEAP) as usize)
        } else if id > 0 {
            self.globals.get_mut(id as usize - 1)
        } else {
            None
        }
    }
    pub fn malloc(&mut self, size: u64) -> u64 {
        self.live_bytes += size;
        let o = Obj::new(size as usize);
        let i = match self.free.pop() {
            Some(i) => {
                self.heap.set(i as usize, Some(o));
                i
            }
            None => self.heap.push(o) as u32,
        };
        ((HEAP + i) as u64) << 32
    }
    pub fn alloca(&mut self, size: u64) -> u64 {
        let i = self.stack.push(Obj::new(size as usize)) as u32;
        ((STACK + i) as u64) << 32
    }
    pub fn free(&mut self, p: u64) -> Result<(), String> {
        if p == 0 {
            return Ok(());
        }
        let id = (p >> 32) as u32;
        if id < HEAP || id >= STACK || p as u32 != 0 {
            return Err(format!("free of non-heap pointer {:x}", p));
        }
        let i = id - HEAP;
        match self.heap.get(i as usize) {
            None => return Err("double free".into()),
            Some(o) => self.live_bytes -= o.data.len() as u64,
        }
        self.heap.set(i as usize, None);
        self.free.push(i);
        Ok(())
    }
}

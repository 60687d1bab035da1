//! Per-path memory: concrete addresses, byte-granular concrete-or-symbolic contents, copy-on-write objects.
use crate::expr::*;
use crate::ir::*;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj { pub size: u64, pub data: Vec<u8>, pub sym: Vec<u32>, pub ro: bool }
impl Obj {
    pub fn new(size: u64) -> Obj { Obj { size, data: vec![], sym: vec![], ro: false } }
    fn grow(&mut self, n: usize) { if self.data.len() < n { let t = (n * 2).min(self.size as usize).max(n); self.data.resize(t, 0); } }
    fn grow_sym(&mut self, n: usize) { if self.sym.len() < n { let t = (n * 2).min(self.size as usize).max(n); self.sym.resize(t, 0); } }
    #[inline]
    pub fn has_sym(&self, o: usize, n: usize) -> bool { if o >= self.sym.len() { return false; } let e = (o + n).min(self.sym.len()); self.sym[o..e].iter().any(|x| *x != 0) }
    pub fn byte(&self, o: usize) -> E {
        if o < self.sym.len() && self.sym[o] != 0 { return self.sym[o] - 1; }
        cst(self.cbyte(o) as u128, 8)
    }
    #[inline]
    pub fn cbyte(&self, o: usize) -> u8 { if o < self.data.len() { self.data[o] } else { 0 } }
    pub fn set_byte(&mut self, o: usize, e: E) {
        if let Some(c) = as_const(e) { self.set_c(o, c, 1); } else { self.grow_sym(o + 1); self.sym[o] = e + 1; }
    }
    #[inline]
    pub fn set_c(&mut self, o: usize, v: u128, n: usize) {
        self.grow(o + n);
        let b = v.to_le_bytes();
        self.data[o..o + n].copy_from_slice(&b[..n]);
        if o < self.sym.len() { let e = (o + n).min(self.sym.len()); for x in &mut self.sym[o..e] { *x = 0; } }
    }
    #[inline]
    pub fn get_c(&self, o: usize, n: usize) -> u128 {
        let mut b = [0u8; 16];
        if o < self.data.len() { let e = (o + n).min(self.data.len()); b[..e - o].copy_from_slice(&self.data[o..e]); }
        u128::from_le_bytes(b)
    }
}
#[derive(Clone)]
pub struct Mem {
    pub globals: Rc<FxMap<u32, Rc<Obj>>>,
    pub heap: Vec<Option<Rc<Obj>>>,
    pub heap_free: Vec<u32>,
    pub stack: Vec<Option<Rc<Obj>>>,
}
pub fn split(addr: u64) -> (u64, u32, u64) { (addr >> 60, ((addr >> 32) & 0x0fff_ffff) as u32, (addr & 0xffff_ffff).wrapping_sub(BASE_OFF)) }
impl Mem {
    pub fn malloc(&mut self, size: u64) -> u64 {
        let o = Rc::new(Obj::new(size));
        let id = if let Some(i) = self.heap_free.pop() { self.heap[i as usize] = Some(o); i } else { self.heap.push(Some(o)); (self.heap.len() - 1) as u32 };
        (KIND_HEAP << 60) | ((id as u64) << 32) | BASE_OFF
    }
    pub fn free(&mut self, addr: u64) -> Result<(), String> {
        let (k, id, off) = split(addr);
        if k != KIND_HEAP || off != 0 { return Err(format!("free of non-heap pointer {:#x}", addr)); }
        match self.heap.get_mut(id as usize) { Some(s @ Some(_)) => { *s = None; self.heap_free.push(id); Ok(()) } _ => Err("double free".into()) }
    }
    pub fn alloca(&mut self, size: u64) -> u64 {
        self.stack.push(Some(Rc::new(Obj::new(size))));
        (KIND_STACK << 60) | (((self.stack.len() - 1) as u64) << 32) | BASE_OFF
    }
}

//! Independent description of the file layout: a parser and a builder which share no code with the crate.
use crate::rt::*;
pub struct Rd<'a> { pub b: &'a [u8], pub p: usize }
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self { Rd { b, p: 0 } }
    pub fn take(&mut self, n: usize) -> &'a [u8] { check(n <= self.b.len() - self.p, 80); let r = &self.b[self.p..self.p + n]; self.p += n; r }
    pub fn le(&mut self, n: usize) -> u64 { let mut v = 0u64; for (i, x) in self.take(n).iter().enumerate() { v |= (*x as u64) << (8 * i); } v }
    pub fn f64(&mut self) -> f64 { f64::from_bits(self.le(8)) }
    pub fn end(&self) -> bool { self.p == self.b.len() }
}
pub struct Seg<'a> { pub ty: u64, pub comp: u64, pub data: &'a [u8] }
pub struct Mesh<'a> { pub name: &'a [u8], pub segs: Vec<Seg<'a>> }
/// Parses the layout of version 0.2; every byte has to belong to something.
pub fn parse(b: &[u8]) -> Vec<Mesh<'_>> {
    let mut r = Rd::new(b);
    check(r.take(3) == b"TMF", 81);
    let v = [r.le(2), r.le(2), r.le(2), r.le(2)];
    check(v == [0, 2, 0, 2], 82);
    let n = split(r.le(4));
    let mut res = vec![];
    for _ in 0..n {
        let l = split(r.le(2)) as usize;
        let name = r.take(l);
        let k = split(r.le(2));
        let mut segs = vec![];
        for _ in 0..k {
            let ty = split(r.le(1));
            let l = split(r.le(4)) as usize;
            let comp = r.le(1);
            check(comp == 0, 83);
            segs.push(Seg { ty, comp, data: r.take(l) });
        }
        res.push(Mesh { name, segs });
    }
    check(r.end(), 84);
    res
}
/// Bit array, most significant bit first.
pub struct Bits<'a> { d: &'a [u8], p: usize }
impl<'a> Bits<'a> {
    pub fn new(d: &'a [u8]) -> Self { Bits { d, p: 0 } }
    pub fn get(&mut self, n: u64) -> u64 {
        let mut v = 0u64;
        for _ in 0..n {
            check(self.p / 8 < self.d.len(), 85);
            v = v << 1 | (self.d[self.p / 8] >> (7 - self.p % 8) & 1) as u64;
            self.p += 1;
        }
        v
    }
    /// Nothing but padding is left.
    pub fn end(&self) -> bool { (self.p + 7) / 8 == self.d.len() }
}
/// Indices of an index array payload of version 0.2.
pub fn indices(d: &[u8]) -> Vec<u64> {
    let mut r = Rd::new(d);
    let p = split(r.le(1));
    check(p <= 32, 86);
    let n = split(r.le(8));
    let min = r.le(8);
    let mut b = Bits::new(r.take(d.len() - 17));
    let v = (0..n).map(|_| b.get(p).wrapping_add(min)).collect();
    check(b.end(), 87);
    v
}
/// Builder.
#[derive(Default, Clone)]
pub struct Wr(pub Vec<u8>);
impl Wr {
    pub fn le(&mut self, v: u64, n: usize) -> &mut Self { for i in 0..n { self.0.push((v >> (8 * i)) as u8); } self }
    pub fn raw(&mut self, b: &[u8]) -> &mut Self { self.0.extend_from_slice(b); self }
    pub fn f64(&mut self, v: f64) -> &mut Self { self.le(v.to_bits(), 8) }
    /// Header of a file readable from version 0.`minor` on, written by any version.
    pub fn file(minor: u64, meshes: u64) -> Wr { let mut w = Wr::default(); w.raw(b"TMF").le(u16s() as u64, 2).le(u16s() as u64, 2).le(0, 2).le(minor, 2).le(meshes, 4); w }
    pub fn mesh(&mut self, name: &[u8], segs: u64) -> &mut Self { self.le(name.len() as u64, 2).raw(name).le(segs, 2) }
    pub fn seg(&mut self, minor: u64, ty: u64, comp: u64, data: &[u8]) -> &mut Self {
        if minor > 1 { self.le(ty, 1).le(data.len() as u64, 4); } else { self.le(ty, 2).le(data.len() as u64, 8); }
        self.le(comp, 1).raw(data)
    }
}
/// Packs fields (value, width), most significant bit first.
pub fn pack(f: &[(u64, u32)]) -> Vec<u8> {
    let mut o: Vec<u8> = vec![];
    let mut p = 0;
    for (v, n) in f {
        for i in (0..*n).rev() {
            if p % 8 == 0 { o.push(0); }
            *o.last_mut().unwrap() |= ((v >> i & 1) as u8) << (7 - p % 8);
            p += 1;
        }
    }
    o
}

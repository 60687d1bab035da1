//! Hash-consed bit-vector expression DAG with a simplifier.
//! All values are bit-vectors (width <= 128); floats are carried as their IEEE bit patterns.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    Shl, LShr, AShr, And, Or, Xor,
    Concat, Extract, SExt,
    Eq, Ult, Slt, Ite,
    FAdd, FSub, FMul, FDiv, FSqrt,
    FLt, FLe, FEq,
    FToU, FToS, UToF, SToF, FExt, FTrunc,
    FRoundUp, FRoundDown, FRoundZero, FRoundEven, FRoundAway,
    /// library function number `k`, only over few input bits (decided through its truth table)
    FMath,
}
use Op::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u32, pub a: E, pub b: E, pub c: E, pub k: u128 }

pub struct Arena {
    pub n: Vec<Node>,
    kz: Vec<u128>, // known-zero bits
    map: FxMap<Node, E>,
    varsets: Vec<Option<std::rc::Rc<Vec<u32>>>>,
    fp: Vec<bool>,
    pub nvars: u32,
    pub var_w: Vec<u32>,
    pub var_e: Vec<E>,
    math: Vec<bool>,
    pub var_name: Vec<String>,
}

static mut ARENA: *mut Arena = std::ptr::null_mut();
pub fn ar() -> &'static mut Arena {
    unsafe {
        if ARENA.is_null() {
            ARENA = Box::leak(Box::new(Arena { n: vec![], kz: vec![], map: Default::default(), varsets: vec![], fp: vec![], nvars: 0, var_w: vec![], var_e: vec![], math: vec![], var_name: vec![] }));
        }
        &mut *ARENA
    }
}
pub fn node(e: E) -> Node { ar().n[e as usize] }
pub fn width(e: E) -> u32 { ar().n[e as usize].w }
pub fn is_fp(e: E) -> bool { ar().fp[e as usize] }
pub fn is_math(e: E) -> bool { ar().math[e as usize] }
pub fn kz(e: E) -> u128 { ar().kz[e as usize] }
#[inline]
pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
#[inline]
pub fn sext_to_i128(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

fn intern(n: Node) -> E {
    let a = ar();
    if let Some(e) = a.map.get(&n) { return *e; }
    let e = a.n.len() as E;
    let kz = match n.op {
        Const => !n.k & mask(n.w),
        Concat => { let wl = a.n[n.b as usize].w; (a.kz[n.a as usize] << wl) | a.kz[n.b as usize] }
        Extract => (a.kz[n.a as usize] >> n.k) & mask(n.w),
        And => a.kz[n.a as usize] | a.kz[n.b as usize],
        Or | Xor => a.kz[n.a as usize] & a.kz[n.b as usize],
        Ite => a.kz[n.b as usize] & a.kz[n.c as usize],
        URem | UDiv => {
            // result <= a
            let z = a.kz[n.a as usize];
            lead(z, n.w)
        }
        Add => {
            let z = lead(a.kz[n.a as usize], n.w) & lead(a.kz[n.b as usize], n.w);
            (z << 1) & z & mask(n.w) & if z == 0 { 0 } else { !0 }
        }
        LShr => lead(a.kz[n.a as usize], n.w),
        _ => 0,
    };
    let isfp = matches!(n.op, FAdd | FSub | FMul | FDiv | FSqrt | FLt | FLe | FEq | FToU | FToS | UToF | SToF | FExt | FTrunc | FRoundUp | FRoundDown | FRoundZero | FRoundEven | FRoundAway | FMath)
        || (nargs(&n) > 0 && a.fp[n.a as usize]) || (nargs(&n) > 1 && a.fp[n.b as usize]) || (nargs(&n) > 2 && a.fp[n.c as usize]);
    a.n.push(n);
    a.kz.push(kz);
    a.fp.push(isfp);
    let m = n.op == FMath || (nargs(&n) > 0 && a.math[n.a as usize]) || (nargs(&n) > 1 && a.math[n.b as usize]) || (nargs(&n) > 2 && a.math[n.c as usize]);
    a.math.push(m);
    a.varsets.push(None);
    a.map.insert(n, e);
    e
}
fn lead(z: u128, w: u32) -> u128 {
    // keep only the leading run of known-zero bits
    let zz = !(z << (128 - w)).leading_ones().min(w);
    let _ = zz;
    let lo = (z << (128 - w)).leading_ones().min(w);
    mask(w) & !mask(w - lo)
}
pub fn nargs(n: &Node) -> usize {
    match n.op {
        Const | Var => 0,
        Extract | SExt | FSqrt | FToU | FToS | UToF | SToF | FExt | FTrunc | FRoundUp | FRoundDown | FRoundZero | FRoundEven | FRoundAway | FMath => 1,
        Ite => 3,
        _ => 2,
    }
}
/// number of significant low bits (upper bits known zero)
pub fn bits(e: E) -> u32 { let w = width(e); w - (kz(e) << (128 - w)).leading_ones().min(w) }
pub fn umax(e: E) -> u128 { mask(width(e)) & !kz(e) }

pub fn cst(v: u128, w: u32) -> E { intern(Node { op: Const, w, a: 0, b: 0, c: 0, k: v & mask(w) }) }
pub fn new_var(w: u32, name: String) -> E {
    let a = ar();
    let id = a.nvars;
    a.nvars += 1;
    a.var_w.push(w);
    a.var_name.push(name);
    let e = intern(Node { op: Var, w, a: 0, b: 0, c: 0, k: id as u128 });
    ar().var_e.push(e);
    e
}
pub fn as_const(e: E) -> Option<u128> { let n = &ar().n[e as usize]; if n.op == Const { Some(n.k) } else { None } }
fn n2(op: Op, w: u32, a: E, b: E) -> E { intern(Node { op, w, a, b, c: 0, k: 0 }) }

pub fn concat(hi: E, lo: E) -> E {
    let (h, l) = (node(hi), node(lo));
    let w = h.w + l.w;
    assert!(w <= 128, "concat too wide");
    if h.op == Concat { return concat(h.a, concat(h.b, lo)); }
    // merge hi with head of lo
    let (lh, rest) = if l.op == Concat { (l.a, Some(l.b)) } else { (lo, None) };
    let lhn = node(lh);
    if h.op == Const && lhn.op == Const {
        let m = cst((h.k << lhn.w) | lhn.k, h.w + lhn.w);
        return match rest { None => m, Some(r) => n2(Concat, w, m, r) };
    }
    let base = |n: &Node, e: E| -> Option<(E, u128)> { if n.op == Extract { Some((n.a, n.k)) } else if n.op != Const { Some((e, 0)) } else { None } };
    if h.op == Extract {
        if let Some((b, lo0)) = base(&lhn, lh) {
            if b == h.a && h.k == lo0 + lhn.w as u128 {
                let m = extract(b, lo0 as u32, h.w + lhn.w);
                return match rest { None => m, Some(r) => concat(m, r) };
            }
        }
    }
    if h.op == Ite && lhn.op == Ite && h.a == lhn.a {
        let m = ite(h.a, concat(h.b, lhn.b), concat(h.c, lhn.c));
        return match rest { None => m, Some(r) => concat(m, r) };
    }
    n2(Concat, w, hi, lo)
}
pub fn extract(e: E, lo: u32, w: u32) -> E {
    let n = node(e);
    debug_assert!(lo + w <= n.w, "extract {} {} of {}", lo, w, n.w);
    if lo == 0 && w == n.w { return e; }
    match n.op {
        Const => return cst(n.k >> lo, w),
        Extract => return extract(n.a, lo + n.k as u32, w),
        Concat => {
            let wl = width(n.b);
            if lo + w <= wl { return extract(n.b, lo, w); }
            if lo >= wl { return extract(n.a, lo - wl, w); }
            let l = extract(n.b, lo, wl - lo);
            let h = extract(n.a, 0, lo + w - wl);
            return concat(h, l);
        }
        And | Or | Xor => {
            let a = extract(n.a, lo, w);
            let b = extract(n.b, lo, w);
            return bitop(n.op, a, b);
        }
        SExt => {
            let wi = width(n.a);
            if lo + w <= wi { return extract(n.a, lo, w); }
            if lo < wi { return sext(extract(n.a, lo, wi - lo), w); }
            return sext(extract(n.a, wi - 1, 1), w);
        }
        Ite => {
            if as_const(n.b).is_some() || as_const(n.c).is_some() || matches!(node(n.b).op, Concat) || matches!(node(n.c).op, Concat) {
                let a = extract(n.b, lo, w);
                let b = extract(n.c, lo, w);
                return ite(n.a, a, b);
            }
        }
        Add | Sub | Mul if lo == 0 => {
            let a = extract(n.a, 0, w);
            let b = extract(n.b, 0, w);
            return match n.op { Add => add(a, b), Sub => sub(a, b), _ => mul(a, b) };
        }
        _ => {}
    }
    if (kz(e) >> lo) & mask(w) == mask(w) { return cst(0, w); }
    intern(Node { op: Extract, w, a: e, b: 0, c: 0, k: lo as u128 })
}
pub fn zext(e: E, w: u32) -> E { let we = width(e); if we == w { e } else { concat(cst(0, w - we), e) } }
pub fn sext(e: E, w: u32) -> E {
    let n = node(e);
    if n.w == w { return e; }
    if n.op == Const { return cst(sext_to_i128(n.k, n.w) as u128, w); }
    if (kz(e) >> (n.w - 1)) & 1 == 1 { return zext(e, w); }
    if n.op == SExt { return sext(n.a, w); }
    intern(Node { op: SExt, w, a: e, b: 0, c: 0, k: 0 })
}
pub fn trunc(e: E, w: u32) -> E { extract(e, 0, w) }
pub fn not(e: E) -> E { bitop(Xor, e, cst(!0, width(e))) }

fn segs(e: E, out: &mut Vec<(E, u32)>) {
    // low to high
    let n = node(e);
    if n.op == Concat { segs(n.b, out); segs(n.a, out); } else { out.push((e, n.w)); }
}
fn runs(k: u128, w: u32) -> u32 {
    let x = k ^ (k << 1);
    (x & mask(w)).count_ones() + 1
}
pub fn bitop(op: Op, a: E, b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b), "bitop width");
    if a == b { return if op == Xor { cst(0, w) } else { a }; }
    let (mut a, mut b) = (a, b);
    if as_const(a).is_some() || (as_const(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
    let (na, nb) = (node(a), node(b));
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        return cst(match op { And => x & y, Or => x | y, _ => x ^ y }, w);
    }
    if let Some(k) = as_const(b) {
        match op {
            And => { if k == 0 { return b; } if k == mask(w) { return a; } }
            Or => { if k == 0 { return a; } if k == mask(w) { return b; } }
            _ => { if k == 0 { return a; } }
        }
        if op == Xor && na.op == Xor { if let Some(k2) = as_const(na.b) { return bitop(Xor, na.a, cst(k ^ k2, w)); } }
        if op == Xor && na.op == Ite && (as_const(na.b).is_some() && as_const(na.c).is_some()) { return ite(na.a, bitop(Xor, na.b, b), bitop(Xor, na.c, b)); }
        if op == And && (k | kz(a)) & mask(w) == mask(w) { return a; }
        if op == And && (k & !kz(a)) == 0 { return cst(0, w); }
    }
    if w == 1 && op != Xor {
        // x & !x
        if node(a).op == Xor && node(a).a == b && as_const(node(a).b) == Some(1) || node(b).op == Xor && node(b).a == a && as_const(node(b).b) == Some(1) {
            return cst(if op == And { 0 } else { 1 }, 1);
        }
        // absorb
        for (x, y) in [(a, b), (b, a)] {
            let ny = node(y);
            if ny.op == op && (ny.a == x || ny.b == x) { return y; }
        }
        return n2(op, w, a, b);
    }
    let split_ok = |n: &Node| n.op == Concat || (n.op == Const && op != Xor && runs(n.k, n.w) <= 8) || (n.op == Const && op == Xor && runs(n.k, n.w) <= 2 && runs(n.k, n.w) > 1);
    if na.op == Concat || nb.op == Concat || split_ok(&nb) || split_ok(&na) {
        let mut sa = vec![]; let mut sb = vec![];
        segs(a, &mut sa); segs(b, &mut sb);
        let mut cuts: Vec<u32> = vec![];
        let mut p = 0; for (_, w) in &sa { p += w; cuts.push(p); }
        p = 0; for (_, w) in &sb { p += w; cuts.push(p); }
        // cuts in constant segments
        for s in [&sa, &sb] {
            let mut p = 0;
            for (e, sw) in s.iter() {
                if let Some(k) = as_const(*e) {
                    if runs(k, *sw) <= 8 {
                        for i in 1..*sw { if (k >> i) & 1 != (k >> (i - 1)) & 1 { cuts.push(p + i); } }
                    }
                }
                p += sw;
            }
        }
        cuts.sort(); cuts.dedup();
        if cuts.len() > 1 {
            let mut res: Option<E> = None;
            let mut p = 0;
            for c in cuts {
                let pw = c - p;
                let x = extract(a, p, pw);
                let y = extract(b, p, pw);
                let r = bit_leaf(op, x, y);
                res = Some(match res { None => r, Some(l) => concat(r, l) });
                p = c;
            }
            return res.unwrap();
        }
    }
    bit_leaf(op, a, b)
}
fn bit_leaf(op: Op, a: E, b: E) -> E {
    let w = width(a);
    if a == b { return if op == Xor { cst(0, w) } else { a }; }
    let (mut a, mut b) = (a, b);
    if as_const(a).is_some() || (as_const(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
    if let Some(k) = as_const(b) {
        if let Some(x) = as_const(a) { return cst(match op { And => x & k, Or => x | k, _ => x ^ k }, w); }
        match op {
            And => { if k == 0 { return b; } if k == mask(w) { return a; } }
            Or => { if k == 0 { return a; } if k == mask(w) { return b; } }
            _ => { if k == 0 { return a; } }
        }
        let na = node(a);
        if op == Xor && na.op == Xor { if let Some(k2) = as_const(na.b) { return bit_leaf(Xor, na.a, cst(k ^ k2, w)); } }
    }
    n2(op, w, a, b)
}
pub fn and(a: E, b: E) -> E { bitop(And, a, b) }
pub fn or(a: E, b: E) -> E { bitop(Or, a, b) }
pub fn xor(a: E, b: E) -> E { bitop(Xor, a, b) }

pub fn shl(a: E, b: E) -> E {
    let w = width(a);
    if let Some(k) = as_const(b) {
        if k == 0 { return a; }
        if k >= w as u128 { return cst(0, w); }
        let k = k as u32;
        return concat(extract(a, 0, w - k), cst(0, k));
    }
    if as_const(a) == Some(0) { return a; }
    n2(Shl, w, a, b)
}
pub fn lshr(a: E, b: E) -> E {
    let w = width(a);
    if let Some(k) = as_const(b) {
        if k == 0 { return a; }
        if k >= w as u128 { return cst(0, w); }
        let k = k as u32;
        return concat(cst(0, k), extract(a, k, w - k));
    }
    if as_const(a) == Some(0) { return a; }
    n2(LShr, w, a, b)
}
pub fn ashr(a: E, b: E) -> E {
    let w = width(a);
    if (kz(a) >> (w - 1)) & 1 == 1 { return lshr(a, b); }
    if let Some(k) = as_const(b) {
        if k == 0 { return a; }
        let k = (k.min(w as u128 - 1)) as u32;
        return sext(extract(a, k, w - k), w);
    }
    n2(AShr, w, a, b)
}
pub fn add(a: E, b: E) -> E {
    let w = width(a);
    let (mut a, mut b) = (a, b);
    if as_const(a).is_some() || (as_const(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
    if let Some(k) = as_const(b) {
        if k == 0 { return a; }
        if let Some(x) = as_const(a) { return cst(x.wrapping_add(k), w); }
        let na = node(a);
        if na.op == Add { if let Some(k2) = as_const(na.b) { return add(na.a, cst(k.wrapping_add(k2), w)); } }
        if na.op == Ite && as_const(na.b).is_some() && as_const(na.c).is_some() { return ite(na.a, add(na.b, b), add(na.c, b)); }
    }
    if w > 1 && (kz(a) | kz(b)) & mask(w) == mask(w) { return or(a, b); }
    if w == 1 { return xor(a, b); }
    let nb = node(b); let na = node(a);
    if nb.op == Sub && nb.b == a { return nb.a; }
    if na.op == Sub && na.b == b { return na.a; }
    if na.op == Add && as_const(na.b).is_some() { return add(add(na.a, b), na.b); }
    if nb.op == Add && as_const(nb.b).is_some() { return add(add(nb.a, a), nb.b); }
    n2(Add, w, a, b)
}
pub fn sub(a: E, b: E) -> E {
    let w = width(a);
    if a == b { return cst(0, w); }
    if let Some(k) = as_const(b) { return add(a, cst((!k).wrapping_add(1), w)); }
    let na = node(a);
    if na.op == Add { if na.a == b { return na.b; } if na.b == b { return na.a; }
        if let Some(k) = as_const(na.b) { return add(sub(na.a, b), cst(k, w)); } }
    let nb = node(b);
    if nb.op == Add { if let Some(k) = as_const(nb.b) { return add(sub(a, nb.a), cst((!k).wrapping_add(1), w)); } }
    if w == 1 { return xor(a, b); }
    n2(Sub, w, a, b)
}
pub fn mul(a: E, b: E) -> E {
    let w = width(a);
    let (mut a, mut b) = (a, b);
    if as_const(a).is_some() || (as_const(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
    if let Some(k) = as_const(b) {
        if k == 0 { return b; }
        if k == 1 { return a; }
        if let Some(x) = as_const(a) { return cst(x.wrapping_mul(k), w); }
        if k.is_power_of_two() { return shl(a, cst(k.trailing_zeros() as u128, w)); }
        let na = node(a);
        if na.op == Ite && as_const(na.b).is_some() && as_const(na.c).is_some() { return ite(na.a, mul(na.b, b), mul(na.c, b)); }
    }
    if w == 1 { return and(a, b); }
    n2(Mul, w, a, b)
}
pub fn udiv(a: E, b: E) -> E {
    let w = width(a);
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) { return cst(if y == 0 { mask(w) } else { x / y }, w); }
    if let Some(k) = as_const(b) {
        if k == 1 { return a; }
        if k > umax(a) { return cst(0, w); }
        if k.is_power_of_two() { return lshr(a, cst(k.trailing_zeros() as u128, w)); }
        let bt = bits(a);
        if bt < w && bt >= 1 { return zext(n2(UDiv, bt, extract(a, 0, bt), cst(k, bt)), w); }
    }
    n2(UDiv, w, a, b)
}
pub fn urem(a: E, b: E) -> E {
    let w = width(a);
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) { return cst(if y == 0 { x } else { x % y }, w); }
    if let Some(k) = as_const(b) {
        if k == 1 { return cst(0, w); }
        if k > umax(a) { return a; }
        if k.is_power_of_two() { return and(a, cst(k - 1, w)); }
        let bt = bits(a);
        if bt < w && bt >= 1 { return zext(n2(URem, bt, extract(a, 0, bt), cst(k, bt)), w); }
    }
    n2(URem, w, a, b)
}
pub fn sdiv(a: E, b: E) -> E {
    let w = width(a);
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        let (x, y) = (sext_to_i128(x, w), sext_to_i128(y, w));
        if y != 0 { return cst(x.wrapping_div(y) as u128, w); }
    }
    if (kz(a) >> (w - 1)) & 1 == 1 && (kz(b) >> (w - 1)) & 1 == 1 { return udiv(a, b); }
    n2(SDiv, w, a, b)
}
pub fn srem(a: E, b: E) -> E {
    let w = width(a);
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) {
        let (x, y) = (sext_to_i128(x, w), sext_to_i128(y, w));
        if y != 0 { return cst(x.wrapping_rem(y) as u128, w); }
    }
    if (kz(a) >> (w - 1)) & 1 == 1 && (kz(b) >> (w - 1)) & 1 == 1 { return urem(a, b); }
    n2(SRem, w, a, b)
}
pub fn eq(a: E, b: E) -> E {
    if a == b { return cst(1, 1); }
    let w = width(a);
    let (mut a, mut b) = (a, b);
    if as_const(a).is_some() || (as_const(b).is_none() && a > b) { std::mem::swap(&mut a, &mut b); }
    let na = node(a); let nb = node(b);
    if nb.op == Const {
        let k = nb.k;
        if na.op == Const { return cst((na.k == k) as u128, 1); }
        if k & kz(a) != 0 { return cst(0, 1); }
        if w == 1 { return if k == 1 { a } else { not(a) }; }
        match na.op {
            Concat => {
                let wl = width(na.b);
                let h = eq(na.a, cst(k >> wl, na.w - wl));
                if as_const(h) == Some(0) { return h; }
                let l = eq(na.b, cst(k, wl));
                return and(h, l);
            }
            Add => { if let Some(c) = as_const(na.b) { return eq(na.a, cst(k.wrapping_sub(c), w)); } }
            Xor => { if let Some(c) = as_const(na.b) { return eq(na.a, cst(k ^ c, w)); } }
            SExt => {
                let wi = width(na.a);
                let kk = k & mask(wi);
                if (sext_to_i128(kk, wi) as u128) & mask(w) != k { return cst(0, 1); }
                return eq(na.a, cst(kk, wi));
            }
            Ite => {
                let x = eq(na.b, b); let y = eq(na.c, b);
                if as_const(x).is_some() || as_const(y).is_some() { return ite(na.a, x, y); }
            }
            Sub if k == 0 => return eq(na.a, na.b),
            _ => {}
        }
    } else {
        if na.op == Concat && nb.op == Concat && width(na.b) == width(nb.b) {
            let h = eq(na.a, nb.a);
            if as_const(h) == Some(0) { return h; }
            return and(h, eq(na.b, nb.b));
        }
        // compare through known-zero top parts
        let m = bits(a).max(bits(b));
        if m < w && m > 0 { return eq(extract(a, 0, m), extract(b, 0, m)); }
        if na.op == Add && nb.op == Add && na.b == nb.b { return eq(na.a, nb.a); }
        if w == 1 { return not(xor(a, b)); }
    }
    n2(Eq, 1, a, b)
}
pub fn ult(a: E, b: E) -> E {
    let w = width(a);
    if a == b { return cst(0, 1); }
    match (as_const(a), as_const(b)) {
        (Some(x), Some(y)) => return cst((x < y) as u128, 1),
        (_, Some(y)) => {
            if y == 0 { return cst(0, 1); }
            if umax(a) < y { return cst(1, 1); }
            if y == 1 { return eq(a, cst(0, w)); }
            if y == mask(w) { return not(eq(a, b)); }
        }
        (Some(x), _) => {
            if umax(b) <= x { return cst(0, 1); }
            if x == 0 { return not(eq(b, cst(0, w))); }
        }
        _ => {}
    }
    let m = bits(a).max(bits(b));
    if m < w && m > 0 { return ult(extract(a, 0, m), extract(b, 0, m)); }
    // strip equal low parts / power of two comparisons
    if let Some(y) = as_const(b) {
        if y.is_power_of_two() && w > 1 {
            let t = y.trailing_zeros();
            return eq(extract(a, t, w - t), cst(0, w - t));
        }
        let na = node(a);
        if na.op == Concat && width(na.b) < w {
            let wl = width(na.b);
            if y & mask(wl) == 0 { return ult(na.a, cst(y >> wl, w - wl)); }
        }
        if na.op == Ite { if let (Some(p), Some(q)) = (as_const(na.b), as_const(na.c)) { return ite(na.a, cst((p < y) as u128, 1), cst((q < y) as u128, 1)); } }
    }
    if let Some(x) = as_const(a) {
        let nb = node(b);
        if nb.op == Ite { if let (Some(p), Some(q)) = (as_const(nb.b), as_const(nb.c)) { return ite(nb.a, cst((x < p) as u128, 1), cst((x < q) as u128, 1)); } }
        if (x + 1).is_power_of_two() {
            let t = (x + 1).trailing_zeros();
            if t < w { return not(eq(extract(b, t, w - t), cst(0, w - t))); }
        }
    }
    n2(Ult, 1, a, b)
}
pub fn ule(a: E, b: E) -> E { not(ult(b, a)) }
pub fn slt(a: E, b: E) -> E {
    let w = width(a);
    if a == b { return cst(0, 1); }
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) { return cst((sext_to_i128(x, w) < sext_to_i128(y, w)) as u128, 1); }
    let nn = |e: E| (kz(e) >> (w - 1)) & 1 == 1;
    if nn(a) && nn(b) { return ult(a, b); }
    if as_const(b) == Some(0) { return extract(a, w - 1, 1); }
    if as_const(a) == Some(mask(w)) { return not(extract(b, w - 1, 1)); }
    if nn(a) { if let Some(y) = as_const(b) { if sext_to_i128(y, w) < 0 { return cst(0, 1); } } }
    if nn(b) { if let Some(x) = as_const(a) { if sext_to_i128(x, w) < 0 { return cst(1, 1); } } }
    n2(Slt, 1, a, b)
}
pub fn sle(a: E, b: E) -> E { not(slt(b, a)) }
pub fn ite(c: E, a: E, b: E) -> E {
    if a == b { return a; }
    match as_const(c) { Some(1) => return a, Some(_) => return b, None => {} }
    let nc = node(c);
    if nc.op == Xor && as_const(nc.b) == Some(1) { return ite(nc.a, b, a); }
    let w = width(a);
    if w == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), _) => return or(c, b),
            (Some(0), _) => return and(not(c), b),
            (_, Some(1)) => return or(not(c), a),
            (_, Some(0)) => return and(c, a),
            _ => {}
        }
    }
    let na = node(a); let nb = node(b);
    if na.op == Ite && na.a == c { return ite(c, na.b, b); }
    if nb.op == Ite && nb.a == c { return ite(c, a, nb.c); }
    // factor a common constant-zero prefix
    let m = bits(a).max(bits(b));
    if m < w && m > 0 { return zext(ite(c, extract(a, 0, m), extract(b, 0, m)), w); }
    intern(Node { op: Ite, w, a: c, b: a, c: b, k: 0 })
}

// ---------- floating point (IEEE bit patterns) ----------
pub fn f_consts(w: u32) -> (u128, u128, u128) {
    // (abs mask, inf bits, canonical nan)
    if w == 32 { (0x7fff_ffff, 0x7f80_0000, 0x7fc0_0000) } else { (0x7fff_ffff_ffff_ffff, 0x7ff0_0000_0000_0000, 0x7ff8_0000_0000_0000) }
}
pub fn never_nan(e: E) -> bool {
    let n = node(e);
    match n.op {
        Const => { let (m, i, _) = f_consts(n.w); (n.k & m) <= i }
        UToF | SToF => true,
        Ite => never_nan(n.b) && never_nan(n.c),
        FExt | FTrunc | FRoundUp | FRoundDown | FRoundZero | FRoundEven | FRoundAway => never_nan(n.a),
        _ => false,
    }
}
pub fn f_isnan(e: E) -> E {
    if never_nan(e) { return cst(0, 1); }
    let w = width(e);
    let n = node(e);
    match n.op {
        FExt | FTrunc | FRoundUp | FRoundDown | FRoundZero | FRoundEven | FRoundAway => return f_isnan(n.a),
        Ite => return ite(n.a, f_isnan(n.b), f_isnan(n.c)),
        _ => {}
    }
    let (_, i, _) = f_consts(w);
    let m = extract(e, 0, w - 1);
    ult(cst(i, w - 1), m)
}
pub fn canon(v: u128, w: u32) -> u128 {
    let (m, i, q) = f_consts(w);
    if v & m > i { q } else { v }
}
pub fn ev_f2(op: Op, w: u32, a: u128, b: u128) -> u128 {
    if w == 32 {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        let r = match op { FAdd => x + y, FSub => x - y, FMul => x * y, FDiv => x / y, _ => unreachable!() };
        canon(r.to_bits() as u128, 32)
    } else {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        let r = match op { FAdd => x + y, FSub => x - y, FMul => x * y, FDiv => x / y, _ => unreachable!() };
        canon(r.to_bits() as u128, 64)
    }
}
pub fn ev_fcmp(op: Op, w: u32, a: u128, b: u128) -> u128 {
    (if w == 32 {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        match op { FLt => x < y, FLe => x <= y, _ => x == y }
    } else {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        match op { FLt => x < y, FLe => x <= y, _ => x == y }
    }) as u128
}
pub fn ev_f1(op: Op, w: u32, wa: u32, a: u128) -> u128 {
    match op {
        FSqrt => if w == 32 { canon(f32::from_bits(a as u32).sqrt().to_bits() as u128, 32) } else { canon(f64::from_bits(a as u64).sqrt().to_bits() as u128, 64) },
        FToU => { let x = if wa == 32 { f32::from_bits(a as u32) as f64 } else { f64::from_bits(a as u64) }; (x as u128) & mask(w) }
        FToS => { let x = if wa == 32 { f32::from_bits(a as u32) as f64 } else { f64::from_bits(a as u64) }; (x as i128 as u128) & mask(w) }
        UToF => if w == 32 { (a as f32).to_bits() as u128 } else { (a as f64).to_bits() as u128 },
        SToF => { let x = sext_to_i128(a, wa); if w == 32 { (x as f32).to_bits() as u128 } else { (x as f64).to_bits() as u128 } }
        FExt => canon((f32::from_bits(a as u32) as f64).to_bits() as u128, 64),
        FTrunc => canon((f64::from_bits(a as u64) as f32).to_bits() as u128, 32),
        FRoundUp | FRoundDown | FRoundZero | FRoundEven | FRoundAway => {
            if w == 32 {
                let x = f32::from_bits(a as u32);
                canon(match op { FRoundUp => x.ceil(), FRoundDown => x.floor(), FRoundZero => x.trunc(), FRoundEven => x.round_ties_even(), _ => x.round() }.to_bits() as u128, 32)
            } else {
                let x = f64::from_bits(a as u64);
                canon(match op { FRoundUp => x.ceil(), FRoundDown => x.floor(), FRoundZero => x.trunc(), FRoundEven => x.round_ties_even(), _ => x.round() }.to_bits() as u128, 64)
            }
        }
        _ => unreachable!(),
    }
}
pub fn f2(op: Op, a: E, b: E) -> E {
    let w = width(a);
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) { return cst(ev_f2(op, w, x, y), w); }
    let (mut a, mut b) = (a, b);
    if (op == FAdd || op == FMul) && a > b { std::mem::swap(&mut a, &mut b); }
    n2(op, w, a, b)
}
pub fn fcmp(op: Op, a: E, b: E) -> E {
    let w = width(a);
    if let (Some(x), Some(y)) = (as_const(a), as_const(b)) { return cst(ev_fcmp(op, w, x, y), 1); }
    if a == b { return if op == FLt { cst(0, 1) } else { not(f_isnan(a)) }; }
    // push through ite with constant arms
    let na = node(a); let nb = node(b);
    if na.op == Ite && as_const(na.b).is_some() && as_const(na.c).is_some() && as_const(b).is_some() { return ite(na.a, fcmp(op, na.b, b), fcmp(op, na.c, b)); }
    if nb.op == Ite && as_const(nb.b).is_some() && as_const(nb.c).is_some() && as_const(a).is_some() { return ite(nb.a, fcmp(op, a, nb.b), fcmp(op, a, nb.c)); }
    let (mut a, mut b) = (a, b);
    if op == FEq && a > b { std::mem::swap(&mut a, &mut b); }
    n2(op, 1, a, b)
}
pub fn f1(op: Op, a: E, w: u32) -> E {
    let wa = width(a);
    if let Some(x) = as_const(a) { return cst(ev_f1(op, w, wa, x), w); }
    if op == FTrunc { let n = node(a); if n.op == FExt { return n.a; } }
    if op == FExt || op == FTrunc {
        let n = node(a);
        if n.op == Ite && (as_const(n.b).is_some() || as_const(n.c).is_some()) { return ite(n.a, f1(op, n.b, w), f1(op, n.c, w)); }
    }
    intern(Node { op, w, a, b: 0, c: 0, k: 0 })
}

pub const MATH: [&str; 12] = ["asin", "acos", "sin", "cos", "tan", "atan", "exp", "exp2", "log", "log10", "cbrt", "log2"];
extern "C" { fn asinf(x: f32) -> f32; fn acosf(x: f32) -> f32; fn sinf(x: f32) -> f32; fn cosf(x: f32) -> f32; fn log2f(x: f32) -> f32; }
pub fn ev_math(k: u32, w: u32, x: u128) -> u128 {
    let n = MATH[k as usize];
    let r = if w == 32 {
        let x = f32::from_bits(x as u32);
        (unsafe { match n { "asin" => asinf(x), "acos" => acosf(x), "sin" => sinf(x), "cos" => cosf(x), "log2" => log2f(x), "tan" => x.tan(), "atan" => x.atan(), "exp" => x.exp(), "exp2" => x.exp2(), "log" => x.ln(), "log10" => x.log10(), _ => x.cbrt() } }).to_bits() as u128
    } else {
        let x = f64::from_bits(x as u64);
        (match n { "asin" => x.asin(), "acos" => x.acos(), "sin" => x.sin(), "cos" => x.cos(), "log2" => x.log2(), "tan" => x.tan(), "atan" => x.atan(), "exp" => x.exp(), "exp2" => x.exp2(), "log" => x.ln(), "log10" => x.log10(), _ => x.cbrt() }).to_bits() as u128
    };
    canon(r, w)
}
pub fn fmath(k: u32, a: E) -> E {
    let w = width(a);
    if let Some(x) = as_const(a) { return cst(ev_math(k, w, x), w); }
    intern(Node { op: FMath, w, a, b: 0, c: 0, k: k as u128 })
}
/// Number of input bits an expression depends on (at most).
pub fn support(e: E) -> u32 { vars(e).iter().map(|v| ar().var_w[*v as usize]).sum() }
pub const TABLE_BITS: u32 = 12;
/// rebuild a node through the simplifier with new children
pub fn rebuild(n: &Node, a: E, b: E, c: E) -> E {
    match n.op {
        Const | Var => unreachable!(),
        Add => add(a, b), Sub => sub(a, b), Mul => mul(a, b), UDiv => udiv(a, b), SDiv => sdiv(a, b), URem => urem(a, b), SRem => srem(a, b),
        Shl => shl(a, b), LShr => lshr(a, b), AShr => ashr(a, b),
        And | Or | Xor => bitop(n.op, a, b),
        Concat => concat(a, b), Extract => extract(a, n.k as u32, n.w), SExt => sext(a, n.w),
        Eq => eq(a, b), Ult => ult(a, b), Slt => slt(a, b), Ite => ite(a, b, c),
        FAdd | FSub | FMul | FDiv => f2(n.op, a, b),
        FLt | FLe | FEq => fcmp(n.op, a, b),
        FMath => fmath(n.k as u32, a),
        _ => f1(n.op, a, n.w),
    }
}
pub fn ev_node(n: &Node, wa: u32, wb: u32, a: u128, b: u128, c: u128) -> u128 {
    let w = n.w;
    let r = match n.op {
        Const | Var => unreachable!(),
        Add => a.wrapping_add(b), Sub => a.wrapping_sub(b), Mul => a.wrapping_mul(b),
        UDiv => if b == 0 { !0 } else { a / b },
        URem => if b == 0 { a } else { a % b },
        SDiv => { let (x, y) = (sext_to_i128(a, w), sext_to_i128(b, w)); if y == 0 { if x < 0 { 1 } else { !0 } } else { x.wrapping_div(y) as u128 } }
        SRem => { let (x, y) = (sext_to_i128(a, w), sext_to_i128(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        Shl => if b >= w as u128 { 0 } else { a << b },
        LShr => if b >= w as u128 { 0 } else { a >> b },
        AShr => { let k = b.min(w as u128 - 1).min(127); (sext_to_i128(a, w) >> k) as u128 }
        And => a & b, Or => a | b, Xor => a ^ b,
        Concat => (a << wb) | b,
        Extract => a >> n.k,
        SExt => sext_to_i128(a, wa) as u128,
        Eq => (a == b) as u128, Ult => (a < b) as u128,
        Slt => (sext_to_i128(a, wa) < sext_to_i128(b, wa)) as u128,
        Ite => if a == 1 { b } else { c },
        FAdd | FSub | FMul | FDiv => ev_f2(n.op, w, a, b),
        FLt | FLe | FEq => ev_fcmp(n.op, wa, a, b),
        FMath => ev_math(n.k as u32, w, a),
        _ => ev_f1(n.op, w, wa, a),
    };
    r & mask(w)
}
pub fn vars(e: E) -> std::rc::Rc<Vec<u32>> {
    if let Some(v) = &ar().varsets[e as usize] { return v.clone(); }
    let n = node(e);
    let r = match n.op {
        Const => std::rc::Rc::new(vec![]),
        Var => std::rc::Rc::new(vec![n.k as u32]),
        _ => {
            let k = nargs(&n);
            let mut best = vars(n.a);
            for i in 1..k {
                let x = vars(if i == 1 { n.b } else { n.c });
                if x.is_empty() || std::rc::Rc::ptr_eq(&x, &best) { continue; }
                if best.is_empty() { best = x; continue; }
                let mut m: Vec<u32> = best.iter().chain(x.iter()).cloned().collect();
                m.sort(); m.dedup();
                if m.len() != best.len() { best = std::rc::Rc::new(m); }
            }
            best
        }
    };
    ar().varsets[e as usize] = Some(r.clone());
    r
}
pub fn show(e: E, depth: u32) -> String {
    let n = node(e);
    match n.op {
        Const => format!("{:#x}:{}", n.k, n.w),
        Var => format!("{}:{}", ar().var_name[n.k as usize], n.w),
        _ if depth == 0 => "..".into(),
        Extract => format!("{}[{}..{}]", show(n.a, depth - 1), n.k, n.k as u32 + n.w),
        _ => {
            let mut s = format!("({:?}:{}", n.op, n.w);
            for i in 0..nargs(&n) { s += " "; s += &show([n.a, n.b, n.c][i], depth - 1); }
            s + ")"
        }
    }
}

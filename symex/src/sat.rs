//! Bit-blasting of the expression DAG (including IEEE-754 operations) to a gate graph, and a CDCL SAT solver over it.
//! Hard queries are handed to kissat. Every satisfying assignment is validated natively by the caller.
use crate::expr::*;
use crate::expr::E;
use std::io::Write as _;
use std::rc::Rc;

pub type L = u32; // node * 2 + negated
pub const F0: L = 0;
pub const T1: L = 1;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum G { Const, In, And(L, L), Xor(L, L), Mux(L, L, L), Maj(L, L, L) }
type B = Vec<L>; // little endian

pub struct Gates { g: Vec<G>, map: FxMap<G, u32>, pub memo: FxMap<E, Rc<B>>, pub varbits: FxMap<u32, Rc<B>>, tabs: FxMap<E, Rc<Vec<u64>>>, tab_words: usize, pub tables: u64 }
#[inline] fn ng(a: L) -> L { a ^ 1 }
impl Gates {
    pub fn new() -> Gates { Gates { g: vec![G::Const], map: Default::default(), memo: Default::default(), varbits: Default::default(), tabs: Default::default(), tab_words: 0, tables: 0 } }
    fn mk(&mut self, g: G) -> L { if let Some(n) = self.map.get(&g) { return n * 2; } let n = self.g.len() as u32; self.g.push(g); self.map.insert(g, n); n * 2 }
    fn input(&mut self) -> L { let n = self.g.len() as u32; self.g.push(G::In); n * 2 }
    pub fn and(&mut self, a: L, b: L) -> L {
        if a == F0 || b == F0 || a == ng(b) { return F0; }
        if a == T1 || a == b { return b; }
        if b == T1 { return a; }
        // one-level absorption
        for (x, y) in [(a, b), (b, a)] {
            if let G::And(p, q) = self.g[(x >> 1) as usize] {
                if x & 1 == 0 { if p == y || q == y { return x; } if p == ng(y) || q == ng(y) { return F0; } }
                else { if p == ng(y) || q == ng(y) { return y; } if p == y { return self.and(y, ng(q)); } if q == y { return self.and(y, ng(p)); } }
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(G::And(a, b))
    }
    pub fn or(&mut self, a: L, b: L) -> L { ng(self.and(ng(a), ng(b))) }
    pub fn xor(&mut self, a: L, b: L) -> L {
        if a == b { return F0; }
        if a == ng(b) { return T1; }
        if a < 2 { return b ^ (a & 1); }
        if b < 2 { return a ^ (b & 1); }
        let s = (a & 1) ^ (b & 1);
        let (a, b) = (a & !1, b & !1);
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.mk(G::Xor(a, b)) ^ s
    }
    pub fn mux(&mut self, s: L, a: L, b: L) -> L {
        if s == T1 || a == b { return a; }
        if s == F0 { return b; }
        if s & 1 == 1 { return self.mux(ng(s), b, a); }
        if a == T1 || a == s { return self.or(s, b); }
        if a == F0 || a == ng(s) { return self.and(ng(s), b); }
        if b == T1 || b == ng(s) { return self.or(ng(s), a); }
        if b == F0 || b == s { return self.and(s, a); }
        if a == ng(b) { return self.xor(s, b); }
        if a & 1 == 1 { return ng(self.mk(G::Mux(s, ng(a), ng(b)))); }
        self.mk(G::Mux(s, a, b))
    }
    fn maj(&mut self, a: L, b: L, c: L) -> L {
        if a == b { return a; } if a == c { return a; } if b == c { return b; }
        if a == ng(b) { return c; } if a == ng(c) { return b; } if b == ng(c) { return a; }
        if a == F0 { return self.and(b, c); } if a == T1 { return self.or(b, c); }
        if b == F0 { return self.and(a, c); } if b == T1 { return self.or(a, c); }
        if c == F0 { return self.and(a, b); } if c == T1 { return self.or(a, b); }
        let mut v = [a, b, c]; v.sort();
        if v[0] & 1 == 1 { let mut u = [ng(v[0]), ng(v[1]), ng(v[2])]; u.sort(); return ng(self.mk(G::Maj(u[0], u[1], u[2]))); }
        self.mk(G::Maj(v[0], v[1], v[2]))
    }
    // ---------------------------------------------------------------- words
    fn k(&self, v: u128, w: usize) -> B { (0..w).map(|i| ((v >> i) & 1) as L).collect() }
    fn notv(&self, a: &B) -> B { a.iter().map(|x| ng(*x)).collect() }
    fn addc(&mut self, a: &[L], b: &[L], mut c: L) -> (B, L) {
        let mut r = Vec::with_capacity(a.len());
        for i in 0..a.len() { let x = self.xor(a[i], b[i]); r.push(self.xor(x, c)); c = self.maj(a[i], b[i], c); }
        (r, c)
    }
    fn add(&mut self, a: &B, b: &B) -> B { self.addc(a, b, F0).0 }
    fn subv(&mut self, a: &B, b: &B) -> B { let n = self.notv(b); self.addc(a, &n, T1).0 }
    /// (a - b, a >= b)
    fn subge(&mut self, a: &B, b: &B) -> (B, L) { let n = self.notv(b); self.addc(a, &n, T1) }
    fn ult(&mut self, a: &B, b: &B) -> L { let mut c = T1; for i in 0..a.len() { c = self.maj(a[i], ng(b[i]), c); } ng(c) }
    fn ule(&mut self, a: &B, b: &B) -> L { ng(self.ult(b, a)) }
    fn eqv(&mut self, a: &B, b: &B) -> L { let mut r = T1; for i in 0..a.len() { let x = self.xor(a[i], b[i]); r = self.and(r, ng(x)); } r }
    fn orr(&mut self, a: &[L]) -> L { if a.is_empty() { return F0; } if a.len() == 1 { return a[0]; } let (x, y) = a.split_at(a.len() / 2); let (p, q) = (self.orr(x), self.orr(y)); self.or(p, q) }
    fn andr(&mut self, a: &[L]) -> L { let n: B = a.iter().map(|x| ng(*x)).collect(); ng(self.orr(&n)) }
    fn muxv(&mut self, s: L, a: &[L], b: &[L]) -> B { (0..a.len()).map(|i| self.mux(s, a[i], b[i])).collect() }
    fn maskv(&mut self, s: L, a: &B) -> B { a.iter().map(|x| self.and(s, *x)).collect() }
    fn zx(&self, a: &[L], w: usize) -> B { let mut r = a.to_vec(); r.resize(w, F0); r }
    fn sx(&self, a: &[L], w: usize) -> B { let mut r = a.to_vec(); let s = *a.last().unwrap(); while r.len() < w { r.push(s); } r.truncate(w); r }
    fn neg(&mut self, a: &B) -> B { let n = self.notv(a); let z = vec![F0; a.len()]; self.addc(&n, &z, T1).0 }
    fn shl_b(&mut self, a: &B, s: &[L], fill: L) -> B {
        let w = a.len(); let mut r = a.clone(); let mut big = F0;
        for (i, b) in s.iter().enumerate() { if i < 20 && (1usize << i) < w { let k = 1usize << i; let sh: B = (0..w).map(|j| if j < k { fill } else { r[j - k] }).collect(); r = self.muxv(*b, &sh, &r); } else { big = self.or(big, *b); } }
        let z = vec![fill; w]; self.muxv(big, &z, &r)
    }
    fn shr_b(&mut self, a: &B, s: &[L], fill: L) -> B { let mut v = a.clone(); v.reverse(); let mut r = self.shl_b(&v, s, fill); r.reverse(); r }
    /// right shift collecting lost bits into the lowest bit
    fn shr_sticky(&mut self, a: &B, s: &[L]) -> B {
        let w = a.len(); let mut r = a.clone(); let mut st = F0; let mut big = F0;
        for (i, b) in s.iter().enumerate() {
            if i < 20 && (1usize << i) < w { let k = 1usize << i; let lost = self.orr(&r[..k].to_vec()); let l = self.and(*b, lost); st = self.or(st, l); let sh: B = (0..w).map(|j| if j + k < w { r[j + k] } else { F0 }).collect(); r = self.muxv(*b, &sh, &r); } else { big = self.or(big, *b); }
        }
        let any = self.orr(&r.clone()); let l = self.and(big, any); st = self.or(st, l);
        let z = vec![F0; w]; r = self.muxv(big, &z, &r);
        r[0] = self.or(r[0], st);
        r
    }
    /// normalise: shift left until the top bit is set; returns (shifted, count)
    fn norm(&mut self, a: &B) -> (B, B) {
        let w = a.len(); let mut n = 0; while (1usize << n) < w { n += 1; }
        let mut r = a.clone(); let mut c = vec![F0; n];
        for i in (0..n).rev() {
            let k = 1usize << i;
            if k >= w { continue; }
            let top = self.orr(&r[w - k..].to_vec()); let z = ng(top);
            let sh: B = (0..w).map(|j| if j < k { F0 } else { r[j - k] }).collect();
            r = self.muxv(z, &sh, &r); c[i] = z;
        }
        (r, c)
    }
    fn mulv(&mut self, a: &[L], b: &[L], w: usize) -> B {
        // choose as multiplier the operand with more constant zero bits
        let cz = |x: &[L]| x.iter().filter(|l| **l == F0).count();
        let (a, b) = if cz(a) > cz(b) { (b, a) } else { (a, b) };
        let mut acc = vec![F0; w];
        for i in 0..b.len().min(w) {
            if b[i] == F0 { continue; }
            let n = a.len().min(w - i);
            let pp: B = (0..n).map(|j| self.and(a[j], b[i])).collect();
            let hi = (i + n + 1).min(w);
            let x: B = acc[i..hi].to_vec();
            let y = self.zx(&pp, hi - i);
            let s = self.add(&x, &y);
            let mut c: B = s;
            acc.splice(i..hi, c.drain(..));
        }
        acc
    }
    fn udivrem(&mut self, a: &B, b: &B) -> (B, B) {
        let w = a.len();
        let mut r = vec![F0; w + 1]; let mut q = vec![F0; w];
        let bb = self.zx(b, w + 1);
        for i in (0..w).rev() {
            r.pop(); r.insert(0, a[i]);
            let (d, ge) = self.subge(&r, &bb);
            r = self.muxv(ge, &d, &r); q[i] = ge;
        }
        r.pop();
        // division by zero: q = all ones, r = a (restoring division yields exactly this)
        (q, r)
    }
    // ---------------------------------------------------------------- floats
    fn fmt(w: usize) -> (usize, usize) { if w == 32 { (8, 24) } else { (11, 53) } }
    fn f_parts(&mut self, a: &B) -> FP {
        let (eb, sb) = Self::fmt(a.len());
        let frac = a[..sb - 1].to_vec(); let ex = a[sb - 1..sb - 1 + eb].to_vec(); let s = a[sb - 1 + eb];
        let emax = self.andr(&ex); let enz = self.orr(&ex); let fnz = self.orr(&frac);
        let nan = self.and(emax, fnz); let inf = self.and(emax, ng(fnz)); let zero = self.and(ng(enz), ng(fnz));
        let mut sig = frac; sig.push(enz);
        // biased exponent with subnormals at 1
        let mut e1 = ex; e1[0] = self.or(e1[0], ng(enz));
        FP { s, e1, sig, nan, inf, zero, eb, sb }
    }
    /// normalised significand and exponent (biased, signed, width eb+3)
    fn f_norm(&mut self, p: &FP) -> (B, B) {
        let w = p.eb + 3;
        let (m, lz) = self.norm(&p.sig);
        let e = self.zx(&p.e1, w); let l = self.zx(&lz, w);
        let e = self.subv(&e, &l);
        (m, e)
    }
    /// round a normalised value: sig has >= sb+2 bits, leading bit first set (or value zero is handled by the caller); e = biased exponent, signed, width eb+3
    fn round(&mut self, eb: usize, sb: usize, s: L, e: &B, sig: &B) -> B {
        let we = e.len();
        // keep sb+1 bits + sticky
        let n = sig.len();
        let st = self.orr(&sig[..n - sb - 1].to_vec());
        let mut m: B = vec![st]; m.extend_from_slice(&sig[n - sb - 1..]); // sb+2 bits: sticky, guard, sb bits
        // subnormal: shift right by 1 - e when e < 1
        let one = self.k(1, we);
        let sh = self.subv(&one, e);
        let sub = { let neg = e[we - 1]; let z = self.orr(e); self.or(neg, ng(z)) };
        let sh = self.maskv(sub, &sh);
        let m = self.shr_sticky(&m, &sh[..we - 1]);
        let ef = self.maskv(ng(sub), e);
        // overflow before rounding: e >= 2^eb - 1 and positive
        let mx = self.k((1 << eb) - 1, we);
        let lt = self.ult(&ef, &mx);
        let ovf = ng(lt);
        let mut packed: B = m[2..2 + sb - 1].to_vec();
        packed.extend_from_slice(&ef[..eb]);
        let rest = self.or(m[0], m[2]);
        let inc = self.and(m[1], rest);
        let z = vec![F0; packed.len()];
        let (p, _) = self.addc(&packed, &z, inc);
        let mut inf = vec![F0; sb - 1]; inf.extend(vec![T1; eb]);
        let mut r = self.muxv(ovf, &inf, &p);
        r.push(s);
        r
    }
    fn qnan(&self, w: usize) -> B { self.k(f_consts(w as u32).2, w) }
    fn fadd(&mut self, a: &B, b: &B) -> B {
        let w = a.len(); let (eb, sb) = Self::fmt(w);
        let am = a[..w - 1].to_vec(); let bm = b[..w - 1].to_vec();
        let swap = self.ult(&am, &bm);
        let x = self.muxv(swap, b, a); let y = self.muxv(swap, a, b);
        let (p, q) = (self.f_parts(&x), self.f_parts(&y));
        let nan = { let i = self.and(p.inf, q.inf); let d = self.xor(p.s, q.s); let i = self.and(i, d); let n = self.or(p.nan, q.nan); self.or(n, i) };
        let d = self.subv(&p.e1, &q.e1);
        let mut sa = vec![F0; 3]; sa.extend_from_slice(&p.sig); sa.push(F0);
        let mut sbv = vec![F0; 3]; sbv.extend_from_slice(&q.sig);
        let mut sbv = self.shr_sticky(&sbv, &d); sbv.push(F0);
        let diff = self.xor(p.s, q.s);
        let yb: B = sbv.iter().map(|l| *l).collect();
        let yb: B = yb.into_iter().map(|l| self.xor(l, diff)).collect();
        let (sum, _) = self.addc(&sa, &yb, diff); // width sb+4
        // limited normalisation: shift = min(lz, e1)
        let n = sum.len();
        let (full, lz) = self.norm(&sum);
        let we = eb + 1;
        let ea = self.zx(&p.e1, we); let lzw = self.zx(&lz, we);
        let lim = self.ult(&ea, &lzw); // lz > e1
        let lowshift = self.shl_b(&sum, &p.e1.clone(), F0);
        let m = self.muxv(lim, &lowshift, &full);
        let ep = { let z = vec![F0; we]; self.addc(&ea, &z, T1).0 };
        let e = self.subv(&ep, &lzw);
        let ef = self.maskv(ng(lim), &e);
        let frac = m[n - sb..n - 1].to_vec();
        let guard = m[n - sb - 1];
        let st = self.orr(&m[..n - sb - 1].to_vec());
        let rest = self.or(st, frac[0]);
        let inc = self.and(guard, rest);
        let mut packed = frac; packed.extend_from_slice(&ef[..eb]);
        let z = vec![F0; packed.len()];
        let (r, _) = self.addc(&packed, &z, inc);
        // overflow: exponent reached 2^eb - 1 before rounding
        let mx = self.k((1 << eb) - 1, we);
        let lt = self.ult(&ef, &mx); let ovf = ng(lt);
        let isz = { let o = self.orr(&sum); ng(o) };
        let anyinf = self.or(p.inf, q.inf);
        let toinf = self.or(ovf, anyinf);
        let mut inf = vec![F0; sb - 1]; inf.extend(vec![T1; eb]);
        let r = self.muxv(toinf, &inf, &r);
        let r = self.maskv(ng(isz), &r);
        let both = self.and(p.s, q.s);
        let s = self.mux(isz, both, p.s);
        let mut r = r; r.push(s);
        let qn = self.qnan(w);
        self.muxv(nan, &qn, &r)
    }
    fn finish(&mut self, w: usize, s: L, nan: L, inf: L, zero: L, r: &B) -> B {
        let (eb, sb) = Self::fmt(w);
        let mut iv = vec![F0; sb - 1]; iv.extend(vec![T1; eb]); iv.push(s);
        let mut zv = vec![F0; w - 1]; zv.push(s);
        let r = self.muxv(inf, &iv, r);
        let r = self.muxv(zero, &zv, &r);
        let qn = self.qnan(w);
        self.muxv(nan, &qn, &r)
    }
    fn fmul(&mut self, a: &B, b: &B) -> B {
        let w = a.len(); let (eb, sb) = Self::fmt(w);
        let (p, q) = (self.f_parts(a), self.f_parts(b));
        let s = self.xor(p.s, q.s);
        let (ma, ea) = self.f_norm(&p); let (mb, ebx) = self.f_norm(&q);
        let we = eb + 3;
        let prod = self.mulv(&ma, &mb, 2 * sb);
        let top = prod[2 * sb - 1];
        let sh: B = { let mut v = vec![F0]; v.extend_from_slice(&prod[..2 * sb - 1]); v };
        let m = self.muxv(top, &prod, &sh);
        let bias = (1u128 << (eb - 1)) - 1;
        let nb = self.k((1u128 << we) - bias, we);
        let e = self.addc(&ea, &ebx, top).0; let e = self.add(&e, &nb);
        let r = self.round(eb, sb, s, &e, &m);
        let zi = { let x = self.and(p.zero, q.inf); let y = self.and(p.inf, q.zero); self.or(x, y) };
        let nan = { let x = self.or(p.nan, q.nan); self.or(x, zi) };
        let inf = self.or(p.inf, q.inf); let zero = self.or(p.zero, q.zero);
        self.finish(w, s, nan, inf, zero, &r)
    }
    fn fdiv(&mut self, a: &B, b: &B) -> B {
        let w = a.len(); let (eb, sb) = Self::fmt(w);
        let (p, q) = (self.f_parts(a), self.f_parts(b));
        let s = self.xor(p.s, q.s);
        let (ma, ea) = self.f_norm(&p); let (mb, ebx) = self.f_norm(&q);
        let we = eb + 3;
        let ge = self.ule(&mb, &ma);
        // dividend: ma if ma>=mb else 2*ma, width sb+1
        let x = self.zx(&ma, sb + 1); let x2: B = { let mut v = vec![F0]; v.extend_from_slice(&ma); v };
        let num = self.muxv(ge, &x, &x2);
        let den = self.zx(&mb, sb + 1);
        let mut r = self.subv(&num, &den); // first quotient bit is 1
        let mut qb = vec![T1];
        for _ in 0..sb {
            r.pop(); r.insert(0, F0);
            let (d, g) = self.subge(&r, &den);
            r = self.muxv(g, &d, &r); qb.push(g);
        }
        let st = self.orr(&r);
        qb.push(st); qb.reverse(); // sb+2 bits, sticky lowest
        let bias = (1u128 << (eb - 1)) - 1;
        let kb = self.k(bias - 1, we);
        let e = self.subv(&ea, &ebx); let e = self.addc(&e, &kb, ge).0;
        let r = self.round(eb, sb, s, &e, &qb);
        let bad = { let x = self.and(p.zero, q.zero); let y = self.and(p.inf, q.inf); self.or(x, y) };
        let nan = { let x = self.or(p.nan, q.nan); self.or(x, bad) };
        let inf = self.or(p.inf, q.zero); let zero = self.or(p.zero, q.inf);
        self.finish(w, s, nan, inf, zero, &r)
    }
    fn fsqrt(&mut self, a: &B) -> B {
        let w = a.len(); let (eb, sb) = Self::fmt(w);
        let p = self.f_parts(a);
        let (m, e) = self.f_norm(&p);
        let we = eb + 3;
        let bias = (1u128 << (eb - 1)) - 1;
        // unbiased exponent u = e - bias; odd if (e + bias) odd; bias is odd -> u odd iff e even
        let odd = ng(e[0]);
        let nb = self.k((1u128 << we) - bias, we);
        let u = self.add(&e, &nb);
        let h = self.sx(&u[1..].to_vec(), we); // floor(u/2)
        let kb = self.k(bias, we);
        let er = self.add(&h, &kb);
        // radicand: m (value in [1,2)) or 2m, as fixed point with 2*(sb+1) bits so that root has sb+1 bits
        let nbits = 2 * (sb + 1);
        let mut v: B = vec![F0; nbits];
        // place so that value in [1,4): two integer bits at the top
        for i in 0..sb { let idx = nbits - 2 - (sb - 1) + i; let x = m[i]; let keep = self.and(ng(odd), x); v[idx] = self.or(v[idx], keep); let mv = self.and(odd, x); let o = v[idx + 1]; v[idx + 1] = self.or(o, mv); }
        let rw = sb + 4;
        let mut rem = vec![F0; rw]; let mut root: B = vec![]; // root little endian
        for i in (0..sb + 1).rev() {
            // rem = rem*4 + next two bits
            let mut r2 = vec![v[2 * i], v[2 * i + 1]]; r2.extend_from_slice(&rem[..rw - 2]);
            // trial = root*4 + 1
            let mut tr = vec![T1, F0]; tr.extend_from_slice(&root); let tr = self.zx(&tr, rw.max(tr.len())); let tr = tr[..rw].to_vec();
            let (d, ge) = self.subge(&r2, &tr);
            rem = self.muxv(ge, &d, &r2);
            root.insert(0, ge);
        }
        let st = self.orr(&rem);
        let mut sig = vec![st]; sig.extend_from_slice(&root);
        let r = self.round(eb, sb, F0, &er, &sig);
        let neg = self.and(p.s, ng(p.zero));
        let nan = self.or(p.nan, neg);
        self.finish(w, p.s, nan, p.inf, p.zero, &r)
    }
    fn fext(&mut self, a: &B) -> B {
        let p = self.f_parts(a);
        let (m, e) = self.f_norm(&p);
        let mut r = vec![F0; 29]; r.extend_from_slice(&m[..23]);
        let e = self.sx(&e, 11); let kb = self.k(1023 - 127, 11);
        let e = self.add(&e, &kb);
        r.extend_from_slice(&e); r.push(p.s);
        self.finish(64, p.s, p.nan, p.inf, p.zero, &r)
    }
    fn ftrunc(&mut self, a: &B) -> B {
        let p = self.f_parts(a);
        let we = 14;
        let e = self.zx(&p.e1, we); let kb = self.k((1u128 << we) - (1023 - 127), we);
        let e = self.add(&e, &kb);
        // f64 subnormals are far below the f32 range: unnormalised significand is fine (they round to zero through the sticky shift)
        let r = self.round(8, 24, p.s, &e, &p.sig);
        self.finish(32, p.s, p.nan, p.inf, p.zero, &r)
    }
    fn itof(&mut self, a: &B, w: usize, signed: bool) -> B {
        let (eb, sb) = Self::fmt(w);
        let s = if signed { *a.last().unwrap() } else { F0 };
        let n = self.neg(a);
        let m = self.muxv(s, &n, a);
        let m = if m.len() < sb + 2 { let mut v = vec![F0; sb + 2 - m.len()]; v.extend_from_slice(&m); v } else { m };
        let nlen = a.len();
        let (m, lz) = self.norm(&m);
        let we = eb + 3;
        let bias = (1u128 << (eb - 1)) - 1;
        let kb = self.k(bias + nlen as u128 - 1, we);
        let l = self.zx(&lz, we);
        let e = self.subv(&kb, &l);
        let r = self.round(eb, sb, s, &e, &m);
        let z = { let o = self.orr(a); ng(o) };
        self.maskv(ng(z), &r)
    }
    /// round towards zero; the caller guards the range
    fn ftou(&mut self, a: &B, w: usize) -> B {
        let (eb, sb) = Self::fmt(a.len());
        let p = self.f_parts(a);
        let bias = (1u128 << (eb - 1)) - 1;
        // value = sig * 2^(e1 - bias - (sb-1)); integer part via left shift by (e1 - bias) of sig placed below the point
        let we = eb + 1;
        let e = self.zx(&p.e1, we); let nb = self.k((1u128 << we) - bias, we);
        let sh = self.add(&e, &nb); // unbiased, signed
        let neg = sh[we - 1];
        let mut v = p.sig.clone(); v.resize(sb - 1 + w, F0);
        let mut need = 0; while (1usize << need) <= w { need += 1; }
        let r = self.shl_b(&v, &sh[..need.min(we - 1)], F0);
        let r = r[sb - 1..].to_vec();
        let r = self.maskv(ng(neg), &r);
        let ns = ng(p.s);
        self.maskv(ns, &r)
    }
    fn fround(&mut self, op: Op, a: &B) -> B {
        let w = a.len(); let (eb, sb) = Self::fmt(w);
        let p = self.f_parts(a);
        let bias = (1u128 << (eb - 1)) - 1;
        let mag = a[..w - 1].to_vec();
        let ex = a[sb - 1..w - 1].to_vec();
        let kb = self.k(bias, eb); let ks = self.k(bias + sb as u128 - 1, eb);
        let lt1 = self.ult(&ex, &kb); // |x| < 1
        let big = { let l = self.ult(&ex, &ks); ng(l) };
        // fraction mask: ones >> e, e = ex - bias in 0..sb-1
        let sh = self.subv(&ex, &kb);
        let ones = self.zx(&vec![T1; sb - 1], w - 1);
        let mut need = 0; while (1usize << need) < sb { need += 1; }
        let fm = self.shr_b(&ones, &sh[..need], F0);
        let fr = { let v: B = (0..w - 1).map(|i| self.and(mag[i], fm[i])).collect(); self.orr(&v) };
        let clear = |g: &mut Gates, v: &B| -> B { (0..w - 1).map(|i| g.and(v[i], ng(fm[i]))).collect() };
        let one: B = self.k(bias << (sb - 1), w - 1);
        let zero = vec![F0; w - 1];
        let (r, small): (B, B) = match op {
            Op::FRoundZero => (clear(self, &mag), zero),
            Op::FRoundUp | Op::FRoundDown => {
                let dir = if op == Op::FRoundUp { ng(p.s) } else { p.s };
                let up = self.and(dir, fr);
                let add = { let m = fm.clone(); self.maskv(up, &m) };
                let v = self.add(&mag, &add); // mag + mask, then clear: rounds up when any fraction bit is set
                let r = clear(self, &v);
                let nz = ng(p.zero);
                let u = self.and(dir, nz);
                let s = self.maskv(u, &one);
                (r, s)
            }
            _ => {
                // half = top bit of the mask
                let half: B = (0..w - 1).map(|i| { let nx = if i + 1 < w - 1 { fm[i + 1] } else { F0 }; self.and(fm[i], ng(nx)) }).collect();
                let v = if op == Op::FRoundAway { self.add(&mag, &half) } else {
                    // half - 1 + lsb : lower mask bits plus lsb of the integer part
                    let low: B = (0..w - 1).map(|i| self.and(fm[i], ng(half[i]))).collect();
                    // integer lsb is the bit just above the mask
                    let mut lsbv: B = (0..w - 1).map(|i| { let below = if i == 0 { T1 } else { fm[i - 1] }; let x = self.and(below, ng(fm[i])); self.and(x, mag[i]) }).collect();
                    // for 1 <= |x| < 2 the integer lsb is the hidden bit (always 1)
                    let e0 = self.eqv(&ex, &kb);
                    for i in sb - 1..w - 1 { lsbv[i] = F0; }
                    let l = self.orr(&lsbv[..sb - 1].to_vec());
                    let l = self.or(l, e0);
                    self.addc(&mag, &low, l).0
                };
                let r = clear(self, &v);
                let km1 = self.k(bias - 1, eb);
                let eh = self.eqv(&ex, &km1); // 0.5 <= |x| < 1
                let c = if op == Op::FRoundAway { eh } else { let fnz = self.orr(&mag[..sb - 1].to_vec()); self.and(eh, fnz) };
                let s = self.maskv(c, &one);
                (r, s)
            }
        };
        let r = self.muxv(lt1, &small, &r);
        let r = self.muxv(big, &mag, &r);
        let mut r = r; r.push(p.s);
        let qn = self.qnan(w);
        self.muxv(p.nan, &qn, &r)
    }
    fn fcmp(&mut self, op: Op, a: &B, b: &B) -> L {
        let w = a.len();
        let (p, q) = (self.f_parts(a), self.f_parts(b));
        let nan = self.or(p.nan, q.nan);
        let bothz = self.and(p.zero, q.zero);
        let am = a[..w - 1].to_vec(); let bm = b[..w - 1].to_vec();
        let eqb = { let e = self.eqv(a, b); self.or(e, bothz) };
        let r = match op {
            Op::FEq => eqb,
            _ => {
                let l1 = self.ult(&am, &bm); let l2 = self.ult(&bm, &am);
                let same = self.mux(p.s, l2, l1);
                let ds = self.xor(p.s, q.s);
                let lt = self.mux(ds, p.s, same);
                let lt = self.and(lt, ng(bothz));
                if op == Op::FLt { lt } else { self.or(lt, eqb) }
            }
        };
        self.and(r, ng(nan))
    }
    // ---------------------------------------------------------------- expressions
    pub fn blast(&mut self, e: E) -> Rc<B> {
        if let Some(r) = self.memo.get(&e) { return r.clone(); }
        let n = node(e);
        let w = n.w as usize;
        let k = nargs(&n);
        if w <= 64 && matches!(n.op, Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FSqrt | Op::FLt | Op::FLe | Op::FEq | Op::FToU | Op::FToS | Op::UToF | Op::SToF | Op::FExt | Op::FTrunc | Op::FRoundUp | Op::FRoundDown | Op::FRoundZero | Op::FRoundEven | Op::FRoundAway | Op::FMath | Op::Ult | Op::Slt | Op::Eq | Op::Shl | Op::LShr | Op::AShr | Op::Add | Op::Sub | Op::Ite) && is_fp(e) && support(e) <= TABLE_BITS {
            if let Some(r) = self.tabled(e) { return r; }
        }
        let a = if k > 0 { self.blast(n.a) } else { Rc::new(vec![]) };
        let b = if k > 1 { self.blast(n.b) } else { Rc::new(vec![]) };
        let c = if k > 2 { self.blast(n.c) } else { Rc::new(vec![]) };
        let r: B = match n.op {
            Op::Const => self.k(n.k, w),
            Op::Var => { let v: B = (0..w).map(|_| self.input()).collect(); self.varbits.insert(n.k as u32, Rc::new(v.clone())); v }
            _ => self.op(&n, &a, &b, &c),
        };
        assert_eq!(r.len(), w, "{:?}", n.op);
        let r = Rc::new(r);
        self.memo.insert(e, r.clone());
        r
    }
    /// Truth table of an expression over the bits of its few variables (the first variable in the lowest bits).
    fn table(&mut self, e: E) -> Option<Rc<Vec<u64>>> {
        if let Some(t) = self.tabs.get(&e) { return Some(t.clone()); }
        let n = node(e);
        let vs = vars(e);
        let ws: Vec<u32> = vs.iter().map(|v| ar().var_w[*v as usize]).collect();
        let total: u32 = ws.iter().sum();
        let size = 1usize << total;
        // where each assignment of this support falls in the table of a child
        let index = |c: E| -> Option<Vec<u32>> {
            let cv = vars(c);
            if cv.len() == vs.len() { return None; }
            let mut r = vec![0u32; size];
            let mut off = 0;
            for v in cv.iter() {
                let i = vs.iter().position(|x| x == v).unwrap();
                let at: u32 = ws[..i].iter().sum();
                let m = (1u32 << ws[i]) - 1;
                for (k, x) in r.iter_mut().enumerate() { *x |= ((k as u32 >> at) & m) << off; }
                off += ws[i];
            }
            Some(r)
        };
        let k = nargs(&n);
        let mut ch: Vec<(Rc<Vec<u64>>, Option<Vec<u32>>)> = vec![];
        if n.op != Op::Const && n.op != Op::Var {
            for i in 0..k { let c = [n.a, n.b, n.c][i]; if width(c) > 64 { return None; } ch.push((self.table(c)?, index(c))); }
        }
        let get = |i: usize, x: usize| -> u128 { if i >= k { return 0; } let (t, m) = &ch[i]; t[match m { Some(m) => m[x] as usize, None => x }] as u128 };
        let (wa, wb) = (if k > 0 { width(n.a) } else { 0 }, if k > 1 { width(n.b) } else { 0 });
        let r: Vec<u64> = match n.op {
            Op::Const => vec![n.k as u64],
            Op::Var => (0..size as u64).collect(),
            _ => (0..size).map(|x| ev_node(&n, wa, wb, get(0, x), get(1, x), get(2, x)) as u64).collect(),
        };
        self.tab_words += r.len();
        if self.tab_words > 1 << 26 { self.tabs.clear(); self.tab_words = 0; }
        let r = Rc::new(r);
        self.tabs.insert(e, r.clone());
        Some(r)
    }
    /// Encodes an expression over few input bits as a decision diagram of its truth table.
    fn tabled(&mut self, e: E) -> Option<Rc<B>> {
        let t = self.table(e)?;
        let mut ins: B = vec![];
        for v in vars(e).iter() { let b = match self.varbits.get(v) { Some(b) => b.clone(), None => { let w = ar().var_w[*v as usize]; let ve = ar().var_e[*v as usize]; let _ = w; self.blast(ve) } }; ins.extend_from_slice(&b); }
        let w = width(e) as usize;
        let mut r: B = vec![];
        let mut memo: FxMap<(u32, Vec<u64>), L> = Default::default();
        for bit in 0..w {
            let words = (t.len() + 63) / 64;
            let mut f = vec![0u64; words];
            for (i, x) in t.iter().enumerate() { if x >> bit & 1 == 1 { f[i / 64] |= 1 << (i % 64); } }
            r.push(self.diagram(&f, ins.len() as u32, &ins, &mut memo));
        }
        let r = Rc::new(r);
        self.memo.insert(e, r.clone());
        self.tables += 1;
        Some(r)
    }
    fn diagram(&mut self, f: &[u64], n: u32, ins: &B, memo: &mut FxMap<(u32, Vec<u64>), L>) -> L {
        let full = if n >= 6 { !0u64 } else { (1u64 << (1u32 << n)) - 1 };
        if f.iter().all(|x| *x == 0) { return F0; }
        if f.iter().all(|x| *x == full) { return T1; }
        if let Some(l) = memo.get(&(n, f.to_vec())) { return *l; }
        let (lo, hi) = if n > 6 { let h = f.len() / 2; (f[..h].to_vec(), f[h..].to_vec()) } else { let h = 1u32 << (n - 1); let m = (1u64 << h) - 1; (vec![f[0] & m], vec![(f[0] >> h) & m]) };
        let a = self.diagram(&hi, n - 1, ins, memo);
        let b = self.diagram(&lo, n - 1, ins, memo);
        let r = self.mux(ins[n as usize - 1], a, b);
        memo.insert((n, f.to_vec()), r);
        r
    }
    pub fn op(&mut self, n: &Node, a: &B, b: &B, c: &B) -> B {
        let w = n.w as usize;
        match n.op {
            Op::Const | Op::Var | Op::FMath => unreachable!(),
            Op::Add => self.add(a, b), Op::Sub => self.subv(a, b), Op::Mul => self.mulv(a, b, w),
            Op::UDiv => self.udivrem(a, b).0, Op::URem => self.udivrem(a, b).1,
            Op::SDiv | Op::SRem => {
                let (sa, sb) = (a[w - 1], b[w - 1]);
                let na = self.neg(a); let nb = self.neg(b);
                let x = self.muxv(sa, &na, a); let y = self.muxv(sb, &nb, b);
                let (q, r) = self.udivrem(&x, &y);
                if n.op == Op::SDiv { let s = self.xor(sa, sb); let nq = self.neg(&q); self.muxv(s, &nq, &q) } else { let nr = self.neg(&r); self.muxv(sa, &nr, &r) }
            }
            Op::Shl => self.shl_b(a, b, F0), Op::LShr => self.shr_b(a, b, F0), Op::AShr => { let f = a[w - 1]; self.shr_b(a, b, f) }
            Op::And => (0..w).map(|i| self.and(a[i], b[i])).collect(), Op::Or => (0..w).map(|i| self.or(a[i], b[i])).collect(), Op::Xor => (0..w).map(|i| self.xor(a[i], b[i])).collect(),
            Op::Concat => { let mut r = b.clone(); r.extend_from_slice(a); r }
            Op::Extract => a[n.k as usize..n.k as usize + w].to_vec(),
            Op::SExt => self.sx(a, w),
            Op::Eq => vec![self.eqv(a, b)], Op::Ult => vec![self.ult(a, b)],
            Op::Slt => { let mut x = a.clone(); let mut y = b.clone(); let l = x.len() - 1; x[l] = ng(x[l]); y[l] = ng(y[l]); vec![self.ult(&x, &y)] }
            Op::Ite => self.muxv(a[0], b, c),
            Op::FAdd => self.fadd(a, b), Op::FSub => { let mut y = b.clone(); y[w - 1] = ng(y[w - 1]); self.fadd(a, &y) }
            Op::FMul => self.fmul(a, b), Op::FDiv => self.fdiv(a, b), Op::FSqrt => self.fsqrt(a),
            Op::FLt | Op::FLe | Op::FEq => vec![self.fcmp(n.op, a, b)],
            Op::FToU => self.ftou(a, w),
            Op::FToS => { let mut m = a.clone(); let l = m.len() - 1; let s = m[l]; m[l] = F0; let u = self.ftou(&m, w); let nu = self.neg(&u); self.muxv(s, &nu, &u) }
            Op::UToF => self.itof(a, w, false), Op::SToF => self.itof(a, w, true),
            Op::FExt => self.fext(a), Op::FTrunc => self.ftrunc(a),
            Op::FRoundUp | Op::FRoundDown | Op::FRoundZero | Op::FRoundEven | Op::FRoundAway => self.fround(n.op, a),
        }
    }
    /// evaluate the whole gate graph up to a node (self-test)
    pub fn simulate(&self, ins: &FxMap<u32, bool>) -> Vec<bool> {
        let mut v: Vec<bool> = Vec::with_capacity(self.g.len());
        for i in 0..self.g.len() {
            let g = |l: L| -> bool { v[(l >> 1) as usize] ^ (l & 1 == 1) };
            let x = match self.g[i] { G::Const => false, G::In => ins[&(i as u32)], G::And(a, b) => g(a) & g(b), G::Xor(a, b) => g(a) ^ g(b), G::Mux(s, a, b) => if g(s) { g(a) } else { g(b) }, G::Maj(a, b, c) => (g(a) & g(b)) | (g(a) & g(c)) | (g(b) & g(c)) };
            v.push(x);
        }
        v
    }
    pub fn len(&self) -> usize { self.g.len() }
}
struct FP { s: L, e1: B, sig: B, nan: L, inf: L, zero: L, eb: usize, sb: usize }

// ==================================================================== CDCL
#[derive(Clone, Copy)]
struct W { c: u32, b: L }
pub struct Sat {
    pub gates: Gates,
    enc: Vec<bool>,
    ca: Vec<u32>, // clause arena: [len, lbd|learnt<<31, lits...]
    learnts: Vec<u32>,
    wasted: usize,
    watches: Vec<Vec<W>>,
    val: Vec<i8>, // per literal: 1 true, -1 false
    level: Vec<u32>, reason: Vec<u32>,
    trail: Vec<L>, lim: Vec<usize>, qh: usize,
    act: Vec<f64>, inc: f64, heap: Vec<u32>, hpos: Vec<i32>, phase: Vec<bool>, seen: Vec<u8>,
    in_cone: Vec<u32>, stamp: u32,
    pub conflicts: u64, pub kissat_calls: u64, pub internal_calls: u64,
    pub light: bool, pub budget: u64, pub run_deadline: Option<std::time::Instant>,
    pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub time: f64, pub max_time: f64, pub max_cone: usize,
    pub timeout_s: f64, pub seed: u32,
}
const NOREASON: u32 = u32::MAX;
pub enum SRes { Sat(Vec<(u32, u128)>), Unsat, Unknown(String) }
impl Sat {
    pub fn new(timeout_s: f64, seed: u32) -> Sat {
        let mut s = Sat { gates: Gates::new(), enc: vec![], ca: vec![], learnts: vec![], wasted: 0, watches: vec![], val: vec![], level: vec![], reason: vec![], trail: vec![], lim: vec![], qh: 0, act: vec![], inc: 1.0, heap: vec![], hpos: vec![], phase: vec![], seen: vec![], in_cone: vec![], stamp: 0,
            conflicts: 0, kissat_calls: 0, internal_calls: 0, light: false, budget: 8000, run_deadline: None, queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, max_time: 0.0, max_cone: 0, timeout_s, seed };
        s.grow();
        s.assign_root(T1);
        s
    }
    fn grow(&mut self) {
        let n = self.gates.g.len();
        if self.enc.len() < n {
            self.enc.resize(n, false); self.watches.resize(2 * n, vec![]); self.val.resize(2 * n, 0); self.level.resize(n, 0); self.reason.resize(n, NOREASON);
            self.act.resize(n, 0.0); self.hpos.resize(n, -1); self.phase.resize(n, false); self.seen.resize(n, 0); self.in_cone.resize(n, 0);
        }
    }
    fn assign_root(&mut self, l: L) { if self.val[l as usize] == 0 { self.enq(l, NOREASON); } }
    #[inline] fn enq(&mut self, l: L, r: u32) { self.val[l as usize] = 1; self.val[(l ^ 1) as usize] = -1; let v = (l >> 1) as usize; self.level[v] = self.lim.len() as u32; self.reason[v] = r; self.trail.push(l); }
    fn add_clause(&mut self, ls: &[L], learnt: bool, lbd: u32) -> u32 {
        let c = self.ca.len() as u32;
        self.ca.push(ls.len() as u32); self.ca.push(lbd | if learnt { 1 << 31 } else { 0 });
        self.ca.extend_from_slice(ls);
        self.watches[(ls[0] ^ 1) as usize].push(W { c, b: ls[1] }); self.watches[(ls[1] ^ 1) as usize].push(W { c, b: ls[0] });
        if learnt { self.learnts.push(c); }
        c
    }
    /// add a definitional clause at decision level 0
    fn def(&mut self, ls: &[L]) {
        debug_assert!(self.lim.is_empty());
        let mut v: Vec<L> = vec![];
        for l in ls { match self.val[*l as usize] { 1 => return, -1 => {} _ => if !v.contains(l) { v.push(*l) } } }
        for l in &v { if v.contains(&(l ^ 1)) { return; } }
        match v.len() { 0 => panic!("inconsistent gate definitions"), 1 => self.enq(v[0], NOREASON), _ => { self.add_clause(&v, false, 0); } }
    }
    fn encode(&mut self, i: usize) {
        self.enc[i] = true;
        let o = (i as u32) * 2; let no = o ^ 1;
        match self.gates.g[i] {
            G::Const | G::In => {}
            G::And(a, b) => { self.def(&[no, a]); self.def(&[no, b]); self.def(&[o, ng(a), ng(b)]); }
            G::Xor(a, b) => { self.def(&[no, a, b]); self.def(&[no, ng(a), ng(b)]); self.def(&[o, ng(a), b]); self.def(&[o, a, ng(b)]); }
            G::Mux(s, a, b) => { self.def(&[no, ng(s), a]); self.def(&[o, ng(s), ng(a)]); self.def(&[no, s, b]); self.def(&[o, s, ng(b)]); self.def(&[no, a, b]); self.def(&[o, ng(a), ng(b)]); }
            G::Maj(a, b, c) => { self.def(&[no, a, b]); self.def(&[no, a, c]); self.def(&[no, b, c]); self.def(&[o, ng(a), ng(b)]); self.def(&[o, ng(a), ng(c)]); self.def(&[o, ng(b), ng(c)]); }
        }
    }
    fn cone(&mut self, roots: &[L]) -> Vec<u32> {
        self.grow();
        self.stamp += 1;
        let mut st: Vec<u32> = roots.iter().map(|l| l >> 1).collect();
        let mut out = vec![];
        while let Some(v) = st.pop() {
            if self.in_cone[v as usize] == self.stamp { continue; }
            self.in_cone[v as usize] = self.stamp;
            out.push(v);
            match self.gates.g[v as usize] { G::Const | G::In => {} G::And(a, b) | G::Xor(a, b) => { st.push(a >> 1); st.push(b >> 1); } G::Mux(a, b, c) | G::Maj(a, b, c) => { st.push(a >> 1); st.push(b >> 1); st.push(c >> 1); } }
        }
        out
    }
    fn hlt(&self, a: u32, b: u32) -> bool { let (x, y) = (self.act[a as usize], self.act[b as usize]); x > y || (x == y && a > b) }
    fn hup(&mut self, mut i: usize) { let x = self.heap[i]; while i > 0 { let p = (i - 1) / 2; if self.hlt(x, self.heap[p]) { self.heap[i] = self.heap[p]; self.hpos[self.heap[i] as usize] = i as i32; i = p; } else { break; } } self.heap[i] = x; self.hpos[x as usize] = i as i32; }
    fn hdown(&mut self, mut i: usize) { let x = self.heap[i]; let n = self.heap.len(); loop { let mut c = 2 * i + 1; if c >= n { break; } if c + 1 < n && self.hlt(self.heap[c + 1], self.heap[c]) { c += 1; } if self.hlt(self.heap[c], x) { self.heap[i] = self.heap[c]; self.hpos[self.heap[i] as usize] = i as i32; i = c; } else { break; } } self.heap[i] = x; self.hpos[x as usize] = i as i32; }
    fn hins(&mut self, v: u32) { if self.hpos[v as usize] >= 0 { return; } self.heap.push(v); let i = self.heap.len() - 1; self.hpos[v as usize] = i as i32; self.hup(i); }
    fn hpop(&mut self) -> Option<u32> { if self.heap.is_empty() { return None; } let r = self.heap[0]; self.hpos[r as usize] = -1; let l = self.heap.pop().unwrap(); if !self.heap.is_empty() { self.heap[0] = l; self.hpos[l as usize] = 0; self.hdown(0); } Some(r) }
    fn bump(&mut self, v: u32) {
        self.act[v as usize] += self.inc;
        if self.act[v as usize] > 1e100 { for a in self.act.iter_mut() { *a *= 1e-100; } self.inc *= 1e-100; }
        let p = self.hpos[v as usize]; if p >= 0 { self.hup(p as usize); }
    }
    fn propagate(&mut self) -> u32 {
        while self.qh < self.trail.len() {
            let p = self.trail[self.qh]; self.qh += 1;
            let fl = p ^ 1;
            let mut ws = std::mem::take(&mut self.watches[p as usize]);
            let (mut i, mut j) = (0, 0);
            let n = ws.len();
            let mut confl = NOREASON;
            while i < n {
                let w = ws[i]; i += 1;
                if self.val[w.b as usize] == 1 { ws[j] = w; j += 1; continue; }
                let c = w.c as usize;
                let len = self.ca[c] as usize;
                if len == 0 { continue; }
                let ls = c + 2;
                if self.ca[ls] == fl { self.ca.swap(ls, ls + 1); }
                let first = self.ca[ls];
                if first != w.b && self.val[first as usize] == 1 { ws[j] = W { c: w.c, b: first }; j += 1; continue; }
                let mut found = false;
                for k in 2..len { let l = self.ca[ls + k]; if self.val[l as usize] != -1 { self.ca[ls + 1] = l; self.ca[ls + k] = fl; self.watches[(l ^ 1) as usize].push(W { c: w.c, b: first }); found = true; break; } }
                if found { continue; }
                ws[j] = W { c: w.c, b: first }; j += 1;
                if self.val[first as usize] == -1 { confl = w.c; while i < n { ws[j] = ws[i]; j += 1; i += 1; } self.qh = self.trail.len(); break; }
                self.enq(first, w.c);
            }
            ws.truncate(j);
            self.watches[p as usize] = ws;
            if confl != NOREASON { return confl; }
        }
        NOREASON
    }
    fn cancel(&mut self, lv: usize) {
        if self.lim.len() <= lv { return; }
        let t = self.lim[lv];
        for i in (t..self.trail.len()).rev() { let l = self.trail[i]; self.val[l as usize] = 0; self.val[(l ^ 1) as usize] = 0; let v = l >> 1; self.phase[v as usize] = l & 1 == 0; if self.in_cone[v as usize] == self.stamp { self.hins(v); } }
        self.trail.truncate(t); self.lim.truncate(lv); self.qh = t;
    }
    fn analyze(&mut self, mut confl: u32) -> (Vec<L>, usize, u32) {
        let mut learnt = vec![0];
        let mut cnt = 0; let mut p: L = u32::MAX; let mut idx = self.trail.len();
        let mut clear: Vec<u32> = vec![];
        loop {
            let c = confl as usize; let len = self.ca[c] as usize;
            for k in 0..len {
                let q = self.ca[c + 2 + k];
                if q == p { continue; }
                let v = q >> 1;
                if self.seen[v as usize] == 0 && self.level[v as usize] > 0 {
                    self.seen[v as usize] = 1; clear.push(v); self.bump(v);
                    if self.level[v as usize] as usize >= self.lim.len() { cnt += 1; } else { learnt.push(q); }
                }
            }
            loop { idx -= 1; if self.seen[(self.trail[idx] >> 1) as usize] == 1 { break; } }
            p = self.trail[idx]; confl = self.reason[(p >> 1) as usize]; self.seen[(p >> 1) as usize] = 0; cnt -= 1;
            if cnt == 0 { break; }
        }
        learnt[0] = p ^ 1;
        // simple minimisation
        let keep: Vec<L> = learnt[1..].iter().cloned().filter(|l| {
            let r = self.reason[(l >> 1) as usize];
            if r == NOREASON { return true; }
            let c = r as usize; let len = self.ca[c] as usize;
            (0..len).any(|k| { let q = self.ca[c + 2 + k]; (q >> 1) != (l >> 1) && self.seen[(q >> 1) as usize] == 0 && self.level[(q >> 1) as usize] > 0 })
        }).collect();
        learnt.truncate(1); learnt.extend(keep);
        for v in clear { self.seen[v as usize] = 0; }
        let mut bt = 0;
        if learnt.len() > 1 { let mut m = 1; for i in 2..learnt.len() { if self.level[(learnt[i] >> 1) as usize] > self.level[(learnt[m] >> 1) as usize] { m = i; } } learnt.swap(1, m); bt = self.level[(learnt[1] >> 1) as usize] as usize; }
        let mut lv: Vec<u32> = learnt.iter().map(|l| self.level[(l >> 1) as usize]).collect(); lv.sort(); lv.dedup();
        (learnt, bt, lv.len() as u32)
    }
    fn reduce(&mut self) {
        // at level 0: drop the worse half of the learnt clauses
        let mut l = std::mem::take(&mut self.learnts);
        l.sort_by_key(|c| (self.ca[*c as usize + 1] & 0x7fff_ffff, self.ca[*c as usize]));
        let keep = l.len() / 2;
        for (i, c) in l.iter().enumerate() {
            let c = *c as usize;
            let lbd = self.ca[c + 1] & 0x7fff_ffff;
            let locked = self.reason[(self.ca[c + 2] >> 1) as usize] == c as u32 && self.val[self.ca[c + 2] as usize] == 1;
            if i < keep || lbd <= 2 || locked { self.learnts.push(c as u32); continue; }
            self.wasted += self.ca[c] as usize + 2;
            for k in 0..2 { let w = self.ca[c + 2 + k] ^ 1; self.watches[w as usize].retain(|x| x.c != c as u32); }
            self.ca[c] = 0;
        }
    }
    /// CDCL under assumptions. None = budget exhausted.
    fn search(&mut self, assumps: &[L], cone: &[u32], budget: u64, deadline: std::time::Instant) -> Option<bool> {
        self.cancel(0);
        if self.propagate() != NOREASON { panic!("inconsistent at level 0") }
        // rebuild the heap for this cone
        for v in &self.heap { self.hpos[*v as usize] = -1; }
        self.heap.clear();
        for v in cone { self.hins(*v); }
        let mut confs = 0u64; let mut restart = 100u64; let mut rc = 0u64; let mut nred = 4000 + self.learnts.len();
        let (mut lu, mut lv) = (1u64, 1u64);
        let mut it = 0u64;
        loop {
            it += 1;
            if it & 0x1ff == 0 && std::time::Instant::now() > deadline { self.cancel(0); return None; }
            let c = self.propagate();
            if c != NOREASON {
                confs += 1; rc += 1; self.conflicts += 1;
                if self.lim.is_empty() { panic!("gate definitions unsatisfiable") }
                // conflict below assumption level?
                let (l, bt, lbd) = self.analyze(c);
                self.cancel(bt);
                if l.len() == 1 { self.cancel(0); if self.val[l[0] as usize] == -1 { panic!("root conflict") } if self.val[l[0] as usize] == 0 { self.enq(l[0], NOREASON); } } else { let cr = self.add_clause(&l, true, lbd); self.enq(l[0], cr); }
                self.inc /= 0.95;
                if confs > budget { self.cancel(0); return None; }
            } else {
                if rc >= restart {
                    rc = 0; self.cancel(0);
                    // luby
                    if (lu & lu.wrapping_neg()) == lv { lu += 1; lv = 1; } else { lv *= 2; }
                    restart = 100 * lv;
                    if self.learnts.len() > nred { self.reduce(); nred += 500; }
                    continue;
                }
                let mut next = None;
                let mut done_assumps = true;
                while self.lim.len() < assumps.len() {
                    let p = assumps[self.lim.len()];
                    match self.val[p as usize] { 1 => { self.lim.push(self.trail.len()); } -1 => { self.cancel(0); return Some(false); } _ => { next = Some(p); done_assumps = false; break; } }
                }
                if done_assumps {
                    while let Some(v) = self.hpop() { if self.val[(v * 2) as usize] == 0 { next = Some(v * 2 + if self.phase[v as usize] { 0 } else { 1 }); break; } }
                    if next.is_none() { return Some(true); }
                }
                self.lim.push(self.trail.len());
                self.enq(next.unwrap(), NOREASON);
            }
        }
    }
    pub fn lits(&mut self, cons: &[E]) -> Vec<L> { cons.iter().map(|e| self.gates.blast(*e)[0]).collect() }
    pub fn check(&mut self, cons: &[E]) -> SRes {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let r = self.check1(cons, t0);
        match r { SRes::Sat(_) => self.sat += 1, SRes::Unsat => self.unsat += 1, _ => self.unknown += 1 }
        let dt = t0.elapsed().as_secs_f64(); self.time += dt; if dt > self.max_time { self.max_time = dt; }
        r
    }
    fn check1(&mut self, cons: &[E], t0: std::time::Instant) -> SRes {
        let mut roots = self.lits(cons);
        roots.sort(); roots.dedup();
        if roots.contains(&F0) { return SRes::Unsat; }
        roots.retain(|l| *l != T1);
        for i in 1..roots.len() { if roots[i] == roots[i - 1] ^ 1 { return SRes::Unsat; } }
        self.cancel(0);
        let cone = self.cone(&roots);
        if cone.len() > self.max_cone { self.max_cone = cone.len(); }
        let mut vs: Vec<u32> = vec![];
        for e in cons { vs.extend(vars(*e).iter()); }
        vs.sort(); vs.dedup();
        let mut deadline = t0 + std::time::Duration::from_secs_f64(self.timeout_s);
        if let Some(d) = self.run_deadline { deadline = deadline.min(d); }
        if std::time::Instant::now() > deadline { return SRes::Unknown("run time limit".into()); }
        // internal solver first
        self.internal_calls += 1;
        for v in &cone { if !self.enc[*v as usize] { self.encode(*v as usize); } }
        match self.search(&roots, &cone, if self.light { 60 } else { self.budget }, deadline) {
            Some(true) => {
                let m = self.extract(&vs, &|s: &Sat, l: L| s.val[l as usize] == 1);
                self.cancel(0);
                return SRes::Sat(m);
            }
            Some(false) => return SRes::Unsat,
            None => { if self.light { return SRes::Unknown("light query".into()); } }
        }
        self.kissat(&roots, &cone, &vs, deadline)
    }
    fn extract(&self, vs: &[u32], f: &dyn Fn(&Sat, L) -> bool) -> Vec<(u32, u128)> {
        vs.iter().map(|v| { let mut x = 0u128; if let Some(b) = self.gates.varbits.get(v) { for (i, l) in b.iter().enumerate() { if f(self, *l) { x |= 1 << i; } } } (*v, x) }).collect()
    }
    pub fn cnf(&self, roots: &[L], cone: &[u32]) -> (String, FxMap<u32, i32>) {
        let mut id: FxMap<u32, i32> = Default::default();
        for (i, v) in cone.iter().enumerate() { id.insert(*v, i as i32 + 1); }
        let mut body = String::new(); let mut n = 0;
        let lit = |l: L| -> i32 { let v = id[&(l >> 1)]; if l & 1 == 1 { -v } else { v } };
        use std::fmt::Write;
        let mut cl = |ls: &[L]| { for l in ls { let _ = write!(body, "{} ", lit(*l)); } body += "0\n"; n += 1; };
        for r in roots { cl(&[*r]); }
        for v in cone {
            let o = v * 2; let no = o ^ 1;
            match self.gates.g[*v as usize] {
                G::Const => cl(&[no]), G::In => {}
                G::And(a, b) => { cl(&[no, a]); cl(&[no, b]); cl(&[o, ng(a), ng(b)]); }
                G::Xor(a, b) => { cl(&[no, a, b]); cl(&[no, ng(a), ng(b)]); cl(&[o, ng(a), b]); cl(&[o, a, ng(b)]); }
                G::Mux(s, a, b) => { cl(&[no, ng(s), a]); cl(&[o, ng(s), ng(a)]); cl(&[no, s, b]); cl(&[o, s, ng(b)]); cl(&[no, a, b]); cl(&[o, ng(a), ng(b)]); }
                G::Maj(a, b, c) => { cl(&[no, a, b]); cl(&[no, a, c]); cl(&[no, b, c]); cl(&[o, ng(a), ng(b)]); cl(&[o, ng(a), ng(c)]); cl(&[o, ng(b), ng(c)]); }
            }
        }
        (format!("p cnf {} {}\n{}", cone.len(), n, body), id)
    }
    fn kissat(&mut self, roots: &[L], cone: &[u32], vs: &[u32], deadline: std::time::Instant) -> SRes {
        self.kissat_calls += 1;
        let left = deadline.saturating_duration_since(std::time::Instant::now()).as_secs().max(1);
        let (txt, id) = self.cnf(roots, cone);
        let child = std::process::Command::new("kissat").arg("-q").arg(format!("--time={}", left)).arg(format!("--seed={}", self.seed)).arg("--relaxed").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn();
        let Ok(mut child) = child else { return SRes::Unknown("kissat could not be started".into()) };
        let mut si = child.stdin.take().unwrap();
        let h = std::thread::spawn(move || { let _ = si.write_all(txt.as_bytes()); });
        let out = child.wait_with_output();
        let _ = h.join();
        let Ok(out) = out else { return SRes::Unknown("kissat failed".into()) };
        let o = String::from_utf8_lossy(&out.stdout);
        if o.contains("s UNSATISFIABLE") { return SRes::Unsat; }
        if !o.contains("s SATISFIABLE") { return SRes::Unknown("kissat time limit".into()); }
        let mut tv: Vec<bool> = vec![false; cone.len() + 1];
        for l in o.lines() { if let Some(r) = l.strip_prefix("v ") { for t in r.split_whitespace() { if let Ok(x) = t.parse::<i32>() { if x > 0 { tv[x as usize] = true; } } } } }
        let m = self.extract(vs, &|_s, l| id.get(&(l >> 1)).map(|v| tv[*v as usize] ^ (l & 1 == 1)).unwrap_or(false));
        SRes::Sat(m)
    }
}

/// Differential self-test of the gate encodings against the native evaluator. Returns the number of comparisons, or the first mismatch.
pub fn selftest(rounds: u32, seed: u64) -> Result<u64, String> {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut rnd = move || { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x };
    let mut total = 0u64;
    let ops2 = [Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::SDiv, Op::URem, Op::SRem, Op::Shl, Op::LShr, Op::AShr, Op::Ult, Op::Slt, Op::Eq, Op::FAdd, Op::FSub, Op::FMul, Op::FDiv, Op::FLt, Op::FLe, Op::FEq];
    let ops1 = [Op::FSqrt, Op::FExt, Op::FTrunc, Op::FRoundUp, Op::FRoundDown, Op::FRoundZero, Op::FRoundEven, Op::FRoundAway, Op::UToF, Op::SToF, Op::FToU, Op::FToS];
    let mut cases: Vec<(Op, u32, u32)> = vec![]; // op, arg width, result width
    for o in ops2 { let f = matches!(o, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FLt | Op::FLe | Op::FEq); let b = matches!(o, Op::Ult | Op::Slt | Op::Eq | Op::FLt | Op::FLe | Op::FEq); for w in if f { vec![32u32, 64] } else { vec![5, 8, 32, 64] } { cases.push((o, w, if b { 1 } else { w })); } }
    for o in ops1 {
        match o { Op::FExt => cases.push((o, 32, 64)), Op::FTrunc => cases.push((o, 64, 32)),
            Op::UToF | Op::SToF => for a in [8u32, 16, 32, 64] { for r in [32, 64] { cases.push((o, a, r)); } },
            Op::FToU | Op::FToS => for a in [32u32, 64] { for r in [8, 32, 64, 65] { cases.push((o, a, r)); } },
            _ => for w in [32u32, 64] { cases.push((o, w, w)); } }
    }
    for (op, wa, wr) in cases {
        let mut g = Gates::new();
        let one = nargs(&Node { op, w: wr, a: 0, b: 0, c: 0, k: 0 }) == 1;
        let a: B = (0..wa).map(|_| g.input()).collect();
        let b: B = if one { vec![] } else { (0..wa).map(|_| g.input()).collect() };
        let n = Node { op, w: wr, a: 0, b: 0, c: 0, k: 0 };
        let r = g.op(&n, &a, &b, &vec![]);
        let isf = matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FLt | Op::FLe | Op::FEq | Op::FSqrt | Op::FExt | Op::FTrunc | Op::FRoundUp | Op::FRoundDown | Op::FRoundZero | Op::FRoundEven | Op::FRoundAway | Op::FToU | Op::FToS);
        for _ in 0..rounds {
            let mut pick = |prev: Option<u128>| -> u128 {
                let m = mask(wa);
                let v = match rnd() % 8 {
                    0 => rnd() as u128, 1 => (rnd() % 16) as u128, 2 => (rnd() as u128) & !(rnd() as u128) & !(rnd() as u128),
                    3 => match prev { Some(p) => p ^ (1u128 << (rnd() % wa as u64)), None => 0 }, 4 => match prev { Some(p) => p.wrapping_add((rnd() % 5) as u128).wrapping_sub(2), None => !0u128 }, _ => rnd() as u128 };
                if isf && rnd() % 2 == 0 {
                    // floats with interesting exponents
                    if wa == 32 { let e = match rnd() % 6 { 0 => 0u64, 1 => 255, 2 => 1, 3 => 254, _ => 127 - 30 + rnd() % 60 }; return ((rnd() & 1) << 31 | e << 23 | match rnd() % 4 { 0 => 0, 1 => 0x7fffff, 2 => (rnd() & 0x7fffff) & !((1 << (rnd() % 23)) - 1), _ => rnd() & 0x7fffff }) as u128; }
                    let e = match rnd() % 6 { 0 => 0u64, 1 => 2047, 2 => 1, 3 => 2046, 4 => 1023 - 160 + rnd() % 300, _ => 1023 - 60 + rnd() % 130 };
                    return ((rnd() & 1) << 63 | e << 52 | match rnd() % 4 { 0 => 0, 1 => (1 << 52) - 1, 2 => (rnd() & ((1 << 52) - 1)) & !((1 << (rnd() % 52)) - 1), _ => rnd() & ((1 << 52) - 1) }) as u128;
                }
                v & m
            };
            let va = pick(None) & mask(wa); let vb = pick(Some(va)) & mask(wa);
            if matches!(op, Op::FToU | Op::FToS) {
                let f = if wa == 32 { f32::from_bits(va as u32) as f64 } else { f64::from_bits(va as u64) };
                if f.is_nan() || f.abs() >= (2f64).powi(wr as i32 - 1) || (op == Op::FToU && f < 0.0) { continue; }
            }
            let mut ins: FxMap<u32, bool> = Default::default();
            for (i, l) in a.iter().enumerate() { ins.insert(l >> 1, (va >> i) & 1 == 1); }
            for (i, l) in b.iter().enumerate() { ins.insert(l >> 1, (vb >> i) & 1 == 1); }
            let s = g.simulate(&ins);
            let mut got = 0u128;
            for (i, l) in r.iter().enumerate() { if s[(l >> 1) as usize] ^ (l & 1 == 1) { got |= 1 << i; } }
            // (node 0 is constant false: literal 1 is true)
            let want = ev_node(&n, wa, wa, va, vb, 0);
            total += 1;
            if got != want { return Err(format!("{:?} {}->{}: a={:#x} b={:#x} gate={:#x} native={:#x}", op, wa, wr, va, vb, got, want)); }
        }
    }
    Ok(total)
}

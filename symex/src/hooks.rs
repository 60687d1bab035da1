//! Intrinsics, libc models, panic interception and harness primitives.
use crate::exec::*;
use crate::expr::*;
use crate::expr::E;
use crate::ir::*;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Hook {
    Unset, None, Nop, Panic, AllocErr, Abort,
    SymU8, SymU16, SymU32, SymU64, SymAssume, SymAssert, SymCover, SymConc, SymAllowPanic, SymOpt, SymIsSym, SymPoison,
    Malloc, Calloc, Realloc, Free, Memalign, MemcpyLike, Memset, Memcmp, Strlen,
    Write, ThreadAtexit, KeyCreate, RetZero, RetOne, Getenv, RandomKeys, HashOne,
    Expect, ThreadLocal, UMax, UMin, SMax, SMin, Abs, Ctlz, Cttz, Ctpop, Bswap, Bitreverse, Fshl, Fshr,
    AddO(bool), SubO(bool), MulO(bool), USubSat, UAddSat, SSubSat, SAddSat, ToUSat, ToSSat, Ucmp, Scmp,
    SymBits, FMax, FMin, FMaxP, FMinP, FAbs, FCopysign, Sqrt, Ceil, Floor, TruncF, RoundF, RoundEven, Rint, Fma, FmulAdd, Log2, Math1, Math2, IsFpClass, LoadRel, VecReduce, IsConst, PowI,
}
impl Hook {
    /// Has no effect outside the registers and the memory it writes.
    pub fn pure(self) -> bool {
        use Hook::*;
        !matches!(self, Unset | Panic | AllocErr | Abort | SymU8 | SymU16 | SymU32 | SymU64 | SymAssume | SymAssert | SymCover | SymConc | SymAllowPanic | SymOpt | SymIsSym | SymPoison | SymBits
            | Malloc | Calloc | Realloc | Free | Memalign | Write | ThreadAtexit | KeyCreate | Getenv | RandomKeys | HashOne | ThreadLocal | FMax | FMin | Math1 | Math2 | Log2 | PowI)
    }
}
impl Exec {
    pub fn hook(&mut self, fid: u32) -> Hook {
        let i = fid as usize;
        if self.hooks.len() <= i { self.hooks.resize(i + 1, Some(Hook::Unset)); }
        if let Some(h) = self.hooks[i] { if h != Hook::Unset { return h; } }
        let h = classify(&self.m.funcs[i].name, &self.m.funcs[i].dem, self.m.funcs[i].body.is_some());
        self.hooks[i] = Some(h);
        h
    }
}
fn classify(n: &str, d: &str, has_body: bool) -> Hook {
    use Hook::*;
    if let Some(r) = n.strip_prefix("llvm.") {
        let st = |p: &str| r.starts_with(p);
        return if st("lifetime") || st("assume") || st("experimental.noalias") || st("dbg") || st("x86.sse2.pause") || st("prefetch") || st("invariant") || st("sideeffect") || st("donothing") || st("va_") { Nop }
        else if st("memcpy") || st("memmove") { MemcpyLike } else if st("memset") { Memset }
        else if st("expect") || st("launder") || st("strip.inv") || st("ssa.copy") || st("ptrmask") && false { Expect }
        else if st("threadlocal.address") { ThreadLocal }
        else if st("umax") { UMax } else if st("umin") { UMin } else if st("smax") { SMax } else if st("smin") { SMin }
        else if st("abs") { Abs } else if st("ctlz") { Ctlz } else if st("cttz") { Cttz } else if st("ctpop") { Ctpop } else if st("bswap") { Bswap } else if st("bitreverse") { Bitreverse }
        else if st("fshl") { Fshl } else if st("fshr") { Fshr }
        else if st("uadd.with") { AddO(false) } else if st("sadd.with") { AddO(true) } else if st("usub.with") { SubO(false) } else if st("ssub.with") { SubO(true) } else if st("umul.with") { MulO(false) } else if st("smul.with") { MulO(true) }
        else if st("usub.sat") { USubSat } else if st("uadd.sat") { UAddSat } else if st("ssub.sat") { SSubSat } else if st("sadd.sat") { SAddSat }
        else if st("fptoui.sat") { ToUSat } else if st("fptosi.sat") { ToSSat } else if st("ucmp") { Ucmp } else if st("scmp") { Scmp }
        else if st("maximumnum") || st("maxnum") { FMax } else if st("minimumnum") || st("minnum") { FMin } else if st("maximum.") { FMaxP } else if st("minimum.") { FMinP }
        else if st("fabs") { FAbs } else if st("copysign") { FCopysign } else if st("sqrt") { Sqrt } else if st("ceil") { Ceil } else if st("floor") { Floor } else if st("trunc.") { TruncF } else if st("roundeven") { RoundEven } else if st("round.") { RoundF } else if st("rint") || st("nearbyint") { Rint }
        else if st("fma.") { Fma } else if st("fmuladd") { FmulAdd } else if st("log2.") { Log2 }
        else if st("sin.") || st("cos.") || st("tan.") || st("exp.") || st("exp2.") || st("log.") || st("log10.") || st("asin.") || st("acos.") || st("atan.") { Math1 }
        else if st("pow.") || st("atan2.") { Math2 } else if st("powi.") { PowI }
        else if st("trap") || st("ubsantrap") || st("debugtrap") { Abort }
        else if st("is.fpclass") { IsFpClass } else if st("load.relative") { LoadRel } else if st("vector.reduce") { VecReduce } else if st("is.constant") { IsConst }
        else { None };
    }
    match n {
        "sym_u8" => return SymU8, "sym_u16" => return SymU16, "sym_u32" => return SymU32, "sym_u64" => return SymU64,
        "sym_assume" => return SymAssume, "sym_assert" => return SymAssert, "sym_bits" => return SymBits, "sym_cover" => return SymCover, "sym_conc" => return SymConc, "sym_allow_panic" => return SymAllowPanic, "sym_opt" => return SymOpt, "sym_is_symbolic" => return SymIsSym, "sym_poison" => return SymPoison,
        "malloc" => return Malloc, "calloc" => return Calloc, "realloc" => return Realloc, "free" => return Free, "posix_memalign" | "aligned_alloc" => return Memalign,
        "memcpy" | "memmove" => return MemcpyLike, "memset" => return Memset, "memcmp" | "bcmp" => return Memcmp, "strlen" => return Strlen,
        "write" | "writev" => return Write, "__cxa_thread_atexit_impl" => return ThreadAtexit, "getenv" => return Getenv,
        "pthread_self" | "gettid" => return RetOne, "pthread_key_create" => return KeyCreate, "pthread_setspecific" | "pthread_key_delete" => return RetZero, "pthread_getspecific" => return RetZero,
        "abort" | "_exit" | "exit" => return Abort,
        "asinf" | "acosf" | "atanf" | "sinf" | "cosf" | "tanf" | "asin" | "acos" | "atan" | "tan" | "expf" | "logf" | "cbrtf" | "exp" | "log" => return Math1,
        "atan2f" | "powf" | "atan2" | "pow" => return Math2,
        "log2f" | "log2" => return Log2,
        "sqrtf" | "sqrt" => return Sqrt,
        _ => {}
    }
    if d.starts_with("core::panicking::") || d.starts_with("std::panicking::") || d.starts_with("std::panicking::") || d == "core::option::unwrap_failed" || d == "core::option::expect_failed" || d == "core::result::unwrap_failed" || d.starts_with("core::slice::index::slice_") && d.ends_with("fail") || d.starts_with("core::str::slice_error_fail") || d == "core::cell::panic_already_borrowed" || d == "core::cell::panic_already_mutably_borrowed" {
        if !d.contains("panic_count") { return Panic; }
    }
    if d.starts_with("alloc::raw_vec::handle_error") || d.starts_with("alloc::raw_vec::capacity_overflow") || d.starts_with("alloc::alloc::handle_alloc_error") || d.ends_with("__rust_alloc_error_handler") || d.starts_with("std::alloc::rust_oom") { return AllocErr; }
    if d.starts_with("std::process::abort") || d.starts_with("std::sys::abort_internal") || d.starts_with("core::intrinsics::abort") { return Abort; }
    if d.contains("hashmap_random_keys") { return RandomKeys; }
    if d.contains("BuildHasher>::hash_one") || d.contains("BuildHasher::hash_one") { return HashOne; }
    let _ = has_body;
    None
}
fn fw(w: u32, v: f64) -> u128 { if w == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 } }
fn b32(x: u128) -> f32 { f32::from_bits(x as u32) }
fn b64(x: u128) -> f64 { f64::from_bits(x as u64) }
extern "C" { fn asinf(x: f32) -> f32; fn acosf(x: f32) -> f32; fn sinf(x: f32) -> f32; fn cosf(x: f32) -> f32; fn log2f(x: f32) -> f32; }

impl Exec {
    pub fn run_hook(&mut self, st: &mut State, fid: u32, h: Hook, a: &[V], t: &[Ty], rty: &Ty) -> R<Option<V>> {
        use Hook::*;
        let ok = |e: E| Ok(Some(from_e(e)));
        // vectors: apply lane-wise
        if let (Some(Ty::Vec(n, et)), true) = (t.first(), matches!(h, UMax | UMin | SMax | SMin | Abs | Ctlz | Cttz | Ctpop | Bswap | FMax | FMin | FAbs | Sqrt | Ceil | Floor | TruncF | USubSat | UAddSat | Fshl | Fshr | FmulAdd | Fma)) {
            let rt = match rty { Ty::Vec(_, x) => (**x).clone(), _ => return Err(Stop::Err("vector intrinsic".into())) };
            let mut out = vec![];
            for i in 0..*n as usize {
                let aa: Vec<V> = a.iter().zip(t).map(|(v, ty)| match (v, ty) { (V::A(x), Ty::Vec(..)) => x[i].clone(), _ => v.clone() }).collect();
                let tt: Vec<Ty> = t.iter().map(|ty| match ty { Ty::Vec(_, x) => (**x).clone(), _ => ty.clone() }).collect();
                let _ = et;
                out.push(self.run_hook(st, fid, h, &aa, &tt, &rt)?.unwrap());
            }
            return Ok(Some(V::A(Rc::new(out))));
        }
        let w = t.first().map(|x| x.bits()).unwrap_or(0);
        macro_rules! e { ($i:expr) => { to_e(&a[$i], t[$i].bits()) }; }
        macro_rules! k { ($i:expr) => { self.conc(st, &a[$i])? as u64 }; }
        match h {
            Unset | None => unreachable!(),
            Nop => Ok(Option::None),
            SymU8 | SymU16 | SymU32 | SymU64 => { let w = match h { SymU8 => 8, SymU16 => 16, SymU32 => 32, _ => 64 }; let v = self.fresh_var(st, w, false); Ok(Some(V::S(v))) }
            SymBits => { let n = k!(0) as u32; if n == 0 { return Ok(Some(c(0))); } let v = self.fresh_var(st, n, false); Ok(Some(from_e(zext(v, 32)))) }
            SymAssume => {
                let ex = extract(e!(0), 0, 1);
                let ex = self.simp(st, ex);
                match as_const(ex) { Some(1) => return Ok(Option::None), Some(_) => return Err(Stop::Kill), _ => {} }
                match self.feasible(st, ex)? { Some(m) => { st.model = m; self.assume(st, ex); Ok(Option::None) } Option::None => Err(Stop::Kill) }
            }
            SymAssert => {
                let id = k!(1);
                let ex = extract(e!(0), 0, 1);
                let ex = self.simp(st, ex);
                if as_const(ex) == Some(1) { self.asserts.entry(id).or_default().by_simplifier += 1; return Ok(Option::None); }
                let neg = not(ex);
                match self.feasible(st, neg)? {
                    Option::None => { self.asserts.entry(id).or_default().by_solver += 1; self.learn(st, ex, true); Ok(Option::None) }
                    Some(m) => {
                        self.asserts.entry(id).or_default().failed += 1;
                        let wh = self.where_(st);
                        self.violation(st, &m, "assert", &id.to_string(), &wh);
                        // carry on with the assertion assumed, if possible
                        match self.feasible(st, ex)? { Some(m2) => { st.model = m2; self.assume(st, ex); Ok(Option::None) } Option::None => Err(Stop::Bad) }
                    }
                }
            }
            SymCover => { let id = k!(0); let n = self.covers.get(&id).map(|x| x.0).unwrap_or(0); if n == 0 { let i = self.inputs_of(st, &st.model.clone()); self.covers.insert(id, (1, i)); } else { self.covers.get_mut(&id).unwrap().0 += 1; } Ok(Option::None) }
            SymConc => { let v = self.conc(st, &a[0])?; Ok(Some(c(v))) }
            SymIsSym => Ok(Some(c(matches!(a[0], V::S(_)) as u128))),
            SymAllowPanic => { let v = k!(0); st.allow_panic = v & 1 == 1; Ok(Option::None) }
            SymOpt => { let k = k!(0); let v = k!(1); match k { 1 => st.opaque = v as u8, _ => return Err(Stop::Err("unknown sym_opt".into())) } Ok(Option::None) }
            SymPoison => Ok(Option::None),
            Panic | AllocErr | Abort => {
                let dem = self.m.funcs[fid as usize].dem.clone();
                let loc = self.panic_loc(st, a, t);
                if st.allow_panic && h == Panic { self.note(&format!("allowed panic at {}", loc)); return Err(Stop::End); }
                let m = st.model.clone();
                let kind = match h { Panic => "panic", AllocErr => "alloc", _ => "abort" };
                self.violation(st, &m, kind, &loc, &dem);
                Err(Stop::Bad)
            }
            Malloc | Calloc | Realloc | Memalign => {
                let size_e = match h { Malloc => a[0].clone(), Calloc => { let (n, s) = (to_e(&a[0], 64), to_e(&a[1], 64)); from_e(mul(n, s)) } Realloc => a[1].clone(), _ => a.last().unwrap().clone() };
                // size limit check first
                if let V::S(e) = &size_e {
                    let big = ult(cst(self.cfg.max_alloc as u128, 64), *e);
                    if self.decide(st, big)? { return self.too_big(st); }
                }
                let n = match &size_e {
                    V::C(x) => *x as u64,
                    V::S(e) => { let e2 = self.simp(st, *e); match as_const(e2) { Some(x) => x as u64, Option::None => { self.note("allocation of symbolic size: bounds checked against the allocation limit only"); self.cfg.max_alloc } } }
                    _ => return Err(Stop::Err("allocation size".into())),
                };
                if n > self.cfg.max_alloc { return self.too_big(st); }
                match h {
                    Memalign => {
                        if t.len() == 3 { let p = k!(0); let ad = st.mem.malloc(n); self.store(st, p, &Ty::Ptr, &c(ad as u128))?; Ok(Some(c(0))) } else { Ok(Some(c(st.mem.malloc(n) as u128))) }
                    }
                    Realloc => {
                        let p = k!(0);
                        let ad = st.mem.malloc(n);
                        if p != 0 {
                            let (o, _) = self.robj(st, p, 0)?;
                            let m = o.size.min(n);
                            self.copy(st, ad, p, m)?;
                            if let Err(s) = st.mem.free(p) { return Err(self.mem_err(st, &s)); }
                        }
                        Ok(Some(c(ad as u128)))
                    }
                    _ => Ok(Some(c(st.mem.malloc(n) as u128))),
                }
            }
            Free => { let p = k!(0); if p != 0 { if let Err(s) = st.mem.free(p) { return Err(self.mem_err(st, &s)); } } Ok(Option::None) }
            MemcpyLike => { let (d, s, n) = (k!(0), k!(1), k!(2)); self.copy(st, d, s, n)?; Ok(if *rty == Ty::Void { Option::None } else { Some(c(d as u128)) }) }
            Memset => {
                let (d, n) = (k!(0), k!(2));
                let v = trunc(e!(1), 8);
                if n > 0 {
                    match as_const(v) {
                        Some(b) => { let mut x = 0u128; for _ in 0..16 { x = (x << 8) | b; } self.with_wobj(st, d, n, |o, off| { let mut p = 0; let n = n as usize; while p < n { let k = (n - p).min(16); o.set_c(off + p, x, k); p += k; } })?; }
                        Option::None => self.with_wobj(st, d, n, |o, off| for i in 0..n as usize { o.set_byte(off + i, v); })?,
                    }
                }
                Ok(if *rty == Ty::Void { Option::None } else { Some(c(d as u128)) })
            }
            Memcmp => {
                let (p, q, n) = (k!(0), k!(1), k!(2));
                let x = self.read_bytes(st, p, n)?;
                let y = self.read_bytes(st, q, n)?;
                let is_b = self.m.funcs[fid as usize].name == "bcmp";
                let mut r = cst(0, 32);
                for i in (0..n as usize).rev() {
                    let ne = not(eq(x[i], y[i]));
                    let v = if is_b { cst(1, 32) } else { ite(ult(x[i], y[i]), cst(0xffff_ffff, 32), cst(1, 32)) };
                    r = ite(ne, v, r);
                }
                ok(r)
            }
            Strlen => { let p = k!(0); let mut n = 0u64; loop { let (o, off) = self.robj(st, p + n, 1)?; let b = o.byte(off); if let Some(0) = as_const(b) { break; } if as_const(b).is_none() { return Err(Stop::Err("strlen of symbolic data".into())); } n += 1; } Ok(Some(c(n as u128))) }
            Write => { let n = a.get(2).cloned().unwrap_or(c(0)); Ok(Some(n)) }
            ThreadAtexit | RetZero | Getenv => Ok(Some(c(0))),
            RetOne => Ok(Some(c(1))),
            KeyCreate => { let p = k!(0); self.store(st, p, &Ty::Int(32), &c(7))?; Ok(Some(c(0))) }
            RandomKeys => {
                self.note("hash keys fixed (RandomState)");
                Ok(Some(match rty { Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(|_| c(0x5151)).collect())), Ty::Void => { let p = k!(0); self.store(st, p, &Ty::Int(64), &c(0x5151))?; self.store(st, p + 8, &Ty::Int(64), &c(0x5151))?; return Ok(Option::None); } _ => c(0x5151) }))
            }
            HashOne => { self.note("hash function abstracted to a constant"); Ok(Some(c(0x1234_5678_9abc_def0))) }
            Expect => Ok(Some(a[0].clone())),
            IsConst => Ok(Some(c(0))),
            ThreadLocal => Ok(Some(a[0].clone())),
            UMax => { let (x, y) = (e!(0), e!(1)); ok(ite(ult(x, y), y, x)) }
            UMin => { let (x, y) = (e!(0), e!(1)); ok(ite(ult(x, y), x, y)) }
            SMax => { let (x, y) = (e!(0), e!(1)); ok(ite(slt(x, y), y, x)) }
            SMin => { let (x, y) = (e!(0), e!(1)); ok(ite(slt(x, y), x, y)) }
            Abs => { let x = e!(0); ok(ite(slt(x, cst(0, w)), sub(cst(0, w), x), x)) }
            Ctlz | Cttz => {
                let x = e!(0);
                let mut r = cst(w as u128, w);
                // last written wins: build from least to most significant for ctlz
                if h == Ctlz { for i in 0..w { r = ite(extract(x, i, 1), cst((w - 1 - i) as u128, w), r); } } else { for i in (0..w).rev() { r = ite(extract(x, i, 1), cst(i as u128, w), r); } }
                ok(r)
            }
            Ctpop => { let x = e!(0); let mut r = cst(0, w); for i in 0..w { r = add(r, zext(extract(x, i, 1), w)); } ok(r) }
            Bswap => { let x = e!(0); let n = w / 8; let mut r = extract(x, 0, 8); for i in 1..n { r = concat(r, extract(x, i * 8, 8)); } ok(r) }
            Bitreverse => { let x = e!(0); let mut r = extract(x, 0, 1); for i in 1..w { r = concat(r, extract(x, i, 1)); } ok(r) }
            Fshl | Fshr => {
                let s = self.conc(st, &a[2])? as u32 % w;
                let (x, y) = (e!(0), e!(1));
                if h == Fshl { if s == 0 { return ok(x); } ok(concat(extract(x, 0, w - s), extract(y, w - s, s))) } else { if s == 0 { return ok(y); } ok(concat(extract(x, 0, s), extract(y, s, w - s))) }
            }
            AddO(s) | SubO(s) | MulO(s) => {
                let (x, y) = (e!(0), e!(1));
                let (r, o) = match (h, s) {
                    (AddO(_), false) => { let r = add(x, y); if (bits(x).max(bits(y))) < w { (r, cst(0, 1)) } else { (r, ult(r, x)) } }
                    (SubO(_), false) => (sub(x, y), ult(x, y)),
                    (MulO(_), false) => {
                        if bits(x) + bits(y) <= w { (mul(x, y), cst(0, 1)) } else {
                            if 2 * w > 128 { return Err(Stop::Err("wide umul overflow".into())); }
                            let p = mul(zext(x, 2 * w), zext(y, 2 * w));
                            (extract(p, 0, w), not(eq(extract(p, w, w), cst(0, w))))
                        }
                    }
                    (_, true) => {
                        let w2 = if matches!(h, MulO(_)) { 2 * w } else { w + 1 };
                        if w2 > 128 { return Err(Stop::Err("wide signed overflow".into())); }
                        let (xx, yy) = (sext(x, w2), sext(y, w2));
                        let p = match h { AddO(_) => add(xx, yy), SubO(_) => sub(xx, yy), _ => mul(xx, yy) };
                        let r = match h { AddO(_) => add(x, y), SubO(_) => sub(x, y), _ => mul(x, y) };
                        (r, not(eq(p, sext(r, w2))))
                    }
                    _ => unreachable!(),
                };
                Ok(Some(V::A(Rc::new(vec![from_e(r), from_e(o)]))))
            }
            USubSat => { let (x, y) = (e!(0), e!(1)); ok(ite(ult(x, y), cst(0, w), sub(x, y))) }
            UAddSat => { let (x, y) = (e!(0), e!(1)); let r = add(x, y); ok(ite(ult(r, x), cst(!0, w), r)) }
            SSubSat | SAddSat => {
                let (x, y) = (e!(0), e!(1));
                let (xx, yy) = (sext(x, w + 1), sext(y, w + 1));
                let p = if h == SSubSat { sub(xx, yy) } else { add(xx, yy) };
                let (mn, mx) = (cst(1u128 << (w - 1), w), cst(mask(w - 1), w));
                ok(ite(slt(p, sext(mn, w + 1)), mn, ite(slt(sext(mx, w + 1), p), mx, trunc(p, w))))
            }
            ToUSat => { let x = e!(0); let r = self.ftoi_sat(x, rty.bits(), false); ok(r) }
            ToSSat => { let x = e!(0); let r = self.ftoi_sat(x, rty.bits(), true); ok(r) }
            Ucmp | Scmp => { let (x, y) = (e!(0), e!(1)); let rw = rty.bits(); let (lt, gt) = if h == Ucmp { (ult(x, y), ult(y, x)) } else { (slt(x, y), slt(y, x)) }; ok(ite(lt, cst(!0, rw), ite(gt, cst(1, rw), cst(0, rw)))) }
            FMax | FMin => {
                let (x, y) = (e!(0), e!(1));
                let pick = if h == FMax { fcmp(Op::FLt, x, y) } else { fcmp(Op::FLt, y, x) };
                if let Some(b) = self.implied(st, pick)? { return ok(if b { y } else { ite(f_isnan(x), y, x) }); }
                ok(ite(f_isnan(x), y, ite(f_isnan(y), x, ite(pick, y, x))))
            }
            FMaxP | FMinP => {
                let (x, y) = (e!(0), e!(1));
                let pick = if h == FMaxP { fcmp(Op::FLt, x, y) } else { fcmp(Op::FLt, y, x) };
                ok(ite(f_isnan(x), x, ite(f_isnan(y), y, ite(pick, y, x))))
            }
            FAbs => { let x = e!(0); ok(and(x, cst(mask(w - 1), w))) }
            FCopysign => { let (x, y) = (e!(0), e!(1)); ok(or(and(x, cst(mask(w - 1), w)), and(y, cst(1u128 << (w - 1), w)))) }
            Sqrt => ok(f1(Op::FSqrt, e!(0), w)),
            Ceil => ok(f1(Op::FRoundUp, e!(0), w)), Floor => ok(f1(Op::FRoundDown, e!(0), w)), TruncF => ok(f1(Op::FRoundZero, e!(0), w)), RoundEven | Rint => ok(f1(Op::FRoundEven, e!(0), w)), RoundF => ok(f1(Op::FRoundAway, e!(0), w)),
            Fma => {
                if let (V::C(x), V::C(y), V::C(z)) = (&a[0], &a[1], &a[2]) { return Ok(Some(c(if w == 32 { b32(*x).mul_add(b32(*y), b32(*z)).to_bits() as u128 } else { b64(*x).mul_add(b64(*y), b64(*z)).to_bits() as u128 }))); }
                Err(Stop::Err("symbolic fma".into()))
            }
            FmulAdd => ok(f2(Op::FAdd, f2(Op::FMul, e!(0), e!(1)), e!(2))),
            Log2 => self.log2(st, &a[0], w),
            Math1 => self.math1(st, fid, &a[0], w),
            Math2 | PowI => {
                if let (V::C(x), V::C(y)) = (&a[0], &a[1]) {
                    let n = self.m.funcs[fid as usize].name.clone();
                    let r = if h == PowI { let e = *y as u32 as i32; if w == 32 { b32(*x).powi(e) as f64 } else { b64(*x).powi(e) } }
                    else if n.contains("pow") { if w == 32 { b32(*x).powf(b32(*y)) as f64 } else { b64(*x).powf(b64(*y)) } } else { if w == 32 { b32(*x).atan2(b32(*y)) as f64 } else { b64(*x).atan2(b64(*y)) } };
                    return Ok(Some(c(fw(w, r))));
                }
                Err(Stop::Err(format!("symbolic {}", self.m.funcs[fid as usize].name)))
            }
            IsFpClass => {
                let x = e!(0); let cls = k!(1);
                let (m, inf, _) = f_consts(w);
                let ab = and(x, cst(m, w)); let neg = extract(x, w - 1, 1);
                let frac_w = if w == 32 { 23 } else { 52 };
                let qbit = extract(x, frac_w - 1, 1);
                let isnan = f_isnan(x); let isinf = eq(ab, cst(inf, w)); let iszero = eq(ab, cst(0, w));
                let expz = eq(extract(x, frac_w, w - 1 - frac_w), cst(0, w - 1 - frac_w));
                let issub = and(expz, not(iszero));
                let isnorm = and(not(expz), ult(ab, cst(inf, w)));
                let mut r = cst(0, 1);
                let parts = [and(isnan, not(qbit)), and(isnan, qbit), and(isinf, neg), and(isnorm, neg), and(issub, neg), and(iszero, neg), and(iszero, not(neg)), and(issub, not(neg)), and(isnorm, not(neg)), and(isinf, not(neg))];
                for (i, p) in parts.iter().enumerate() { if (cls >> i) & 1 == 1 { r = or(r, *p); } }
                ok(r)
            }
            LoadRel => { let (p, o) = (k!(0), k!(1)); let v = self.load(st, p.wrapping_add(o), &Ty::Int(32))?; let v = self.conc(st, &v)?; Ok(Some(c(p.wrapping_add(sext_to_i128(v, 32) as u64) as u128))) }
            VecReduce => {
                let V::A(vs) = a.last().unwrap() else { return Err(Stop::Err("reduce".into())) };
                let ew = match t.last().unwrap() { Ty::Vec(_, x) => x.bits(), _ => 0 };
                let n = self.m.funcs[fid as usize].name.clone();
                let mut r = to_e(&vs[0], ew);
                for v in &vs[1..] { let v = to_e(v, ew); r = if n.contains(".or.") { or(r, v) } else if n.contains(".and.") { and(r, v) } else if n.contains(".add.") { add(r, v) } else if n.contains(".umax.") { ite(ult(r, v), v, r) } else if n.contains(".umin.") { ite(ult(v, r), v, r) } else { return Err(Stop::Err(n)) }; }
                ok(r)
            }
        }
    }
    fn too_big(&mut self, st: &mut State) -> R<Option<V>> {
        let m = st.model.clone();
        let w = self.where_(st);
        self.violation(st, &m, "alloc", "allocation limit", &w);
        Err(Stop::Bad)
    }
    fn panic_loc(&mut self, st: &mut State, a: &[V], t: &[Ty]) -> String {
        for (v, ty) in a.iter().zip(t).rev() {
            if *ty != Ty::Ptr { continue; }
            let V::C(p) = v else { continue };
            let p = *p as u64;
            if p >> 60 != KIND_GLOBAL { continue; }
            let id = ((p >> 32) & 0x0fff_ffff) as u32;
            if id as usize >= self.m.globals.len() || self.m.globals[id as usize].ty.size() < 24 { continue; }
            let mut q = [0u64; 4];
            for (i, (o, w)) in [(0u64, 64u32), (8, 64), (16, 32), (20, 32)].iter().enumerate() {
                if let Ok(V::C(x)) = self.load(st, p + o, &Ty::Int(*w)) { q[i] = x as u64; }
            }
            let (f, n, line) = (q[0], q[1], q[2]);
            if f >> 60 != KIND_GLOBAL || n > 4096 || line == 0 { continue; }
            if let Ok(s) = self.read_cstr(st, f, n) {
                let s = s.trim_end_matches('\0').to_string();
                if s.ends_with(".rs") { return format!("{}:{}", s, line); }
            }
        }
        let s = self.stack(st);
        s.first().cloned().unwrap_or_default()
    }
    fn log2(&mut self, st: &mut State, v: &V, w: u32) -> R<Option<V>> {
        let e = match v { V::C(x) => return Ok(Some(c(if w == 32 { unsafe { log2f(b32(*x)) }.to_bits() as u128 } else { b64(*x).log2().to_bits() as u128 }))), V::S(e) => *e, _ => unreachable!() };
        let e = self.simp(st, e);
        if support(e) <= TABLE_BITS { return Ok(Some(from_e(fmath(11, e)))); }
        if w != 32 { return Err(Stop::Err("symbolic f64 log2".into())); }
        if let Some(x) = as_const(e) { return Ok(Some(c(unsafe { log2f(b32(x)) }.to_bits() as u128))); }
        if self.decide(st, f_isnan(e))? { return Ok(Some(c(0x7fc0_0000))); }
        let ab = and(e, cst(0x7fff_ffff, 32));
        if self.decide(st, eq(ab, cst(0, 32)))? { return Ok(Some(c(f32::NEG_INFINITY.to_bits() as u128))); }
        if self.decide(st, extract(e, 31, 1))? { return Ok(Some(c(0x7fc0_0000))); }
        if self.decide(st, eq(e, cst(0x7f80_0000, 32)))? { return Ok(Some(c(0x7f80_0000))); }
        let ex = self.concretize(st, extract(e, 23, 8))?;
        if ex == 0 { return self.log2_sub(st, e); }
        self.note("log2f contract: exact on powers of two, floor/ceil thresholds taken from the platform log2f");
        let base = (ex << 23) as u32;
        if self.decide(st, eq(extract(e, 0, 23), cst(0, 23)))? { return Ok(Some(c(unsafe { log2f(f32::from_bits(base)) }.to_bits() as u128))); }
        let k = ex as i32 - 127;
        let (lo, hi) = (k as f32, (k + 1) as f32);
        let l = |m: u32| unsafe { log2f(f32::from_bits(base + m)) };
        // smallest mantissa with log2f > lo, smallest mantissa with log2f >= hi (platform function is monotone)
        let search = |p: &dyn Fn(f32) -> bool| { let (mut a, mut b) = (0u32, 1 << 23); while a < b { let m = (a + b) / 2; if m < 1 << 23 && !p(l(m)) { a = m + 1 } else { b = m } } a };
        let t1 = search(&|y| y > lo);
        let t2 = search(&|y| y >= hi);
        let man = extract(e, 0, 23);
        if t1 > 1 && self.decide(st, ult(man, cst(t1 as u128, 23)))? { return Ok(Some(c(lo.to_bits() as u128))); }
        if t2 < 1 << 23 && !self.decide(st, ult(man, cst(t2 as u128, 23)))? { return Ok(Some(c(hi.to_bits() as u128))); }
        let y = self.fresh_var(st, 32, true);
        let mid = l((t1 + t2) / 2);
        let mut m = st.model.vals.clone();
        m.insert(node(y).k as u32, mid.to_bits() as u128);
        st.model = Rc::new(Model::new(m));
        let a = fcmp(Op::FLt, cst(lo.to_bits() as u128, 32), y);
        let b = fcmp(Op::FLt, y, cst(hi.to_bits() as u128, 32));
        self.assume(st, a); self.assume(st, b);
        // integer rounding facts are exact
        self.set_round_fact(st, y, lo, hi);
        Ok(Some(V::S(y)))
    }
    fn log2_sub(&mut self, st: &mut State, e: E) -> R<Option<V>> {
        // subnormal argument: enumerate the position of the leading bit, then any value in the unit interval
        for pos in (0..23u32).rev() {
            let base = 1u32 << pos;
            if !self.decide(st, not(ult(e, cst(base as u128, 32))))? { continue; }
            let k = pos as i32 - 149;
            let (lo, hi) = (k as f32, (k + 1) as f32);
            if self.decide(st, eq(e, cst(base as u128, 32)))? { return Ok(Some(c(lo.to_bits() as u128))); }
            // contract: strictly between the neighbouring integers or equal to one of them
            let y = self.fresh_var(st, 32, true);
            let mut m = st.model.vals.clone();
            m.insert(node(y).k as u32, lo.to_bits() as u128);
            st.model = Rc::new(Model::new(m));
            let a = not(fcmp(Op::FLt, y, cst(lo.to_bits() as u128, 32)));
            let b = not(fcmp(Op::FLt, cst(hi.to_bits() as u128, 32), y));
            let n = not(f_isnan(y));
            self.assume(st, n); self.assume(st, a); self.assume(st, b);
            return Ok(Some(V::S(y)));
        }
        Err(Stop::Err("log2 subnormal".into()))
    }
    fn set_round_fact(&mut self, st: &mut State, y: E, lo: f32, hi: f32) {
        let up = f1(Op::FRoundUp, y, 32); let dn = f1(Op::FRoundDown, y, 32);
        let e1 = eq(up, cst(hi.to_bits() as u128, 32)); let e2 = eq(dn, cst(lo.to_bits() as u128, 32));
        self.learn(st, e1, true);
        self.learn(st, e2, true);
    }
    fn math1(&mut self, st: &mut State, fid: u32, v: &V, w: u32) -> R<Option<V>> {
        let name = self.m.funcs[fid as usize].name.clone();
        let base = name.trim_start_matches("llvm.").split('.').next().unwrap().to_string();
        let base = if name.starts_with("llvm.") { base } else if w == 32 { base.trim_end_matches('f').to_string() } else { base };
        let Some(fk) = MATH.iter().position(|x| *x == base) else { return Err(Stop::Err(format!("unknown function {}", name))) };
        let f = |x: u128| ev_math(fk as u32, w, x);
        let e = match v { V::C(x) if st.opaque < 2 => return Ok(Some(c(f(*x)))), V::C(x) => cst(*x, w), V::S(e) => self.simp(st, *e), _ => unreachable!() };
        if st.opaque < 2 { if let Some(x) = as_const(e) { return Ok(Some(c(f(x)))); } }
        if st.opaque == 0 && support(e) <= TABLE_BITS { return Ok(Some(from_e(fmath(fk as u32, e)))); }
        if w != 32 { return Err(Stop::Err(format!("symbolic f64 {}", base))); }
        if st.opaque > 0 {
            // result left unconstrained (over-approximation; used where only the absence of panics matters)
            self.note("trigonometric results unconstrained");
            let y = self.fresh_var(st, 32, true);
            if base == "acos" {
                // not a number or in [0, pi]: non-negative floats order like their bit patterns
                let r = or(f_isnan(y), not(ult(cst(3.141_593f32.to_bits() as u128, 32), y)));
                self.assume(st, r);
            }
            return Ok(Some(V::S(y)));
        }
        if base == "asin" { return self.asin_contract(st, e); }
        // other functions: enumerate the feasible arguments
        let x = self.concretize(st, e)?;
        Ok(Some(c(f(x))))
    }
    /// asinf on a symbolic argument: the argument range [0,1] is split into cells; within a cell the result is any
    /// float between the (platform) function values at the cell ends, one ulp wider.
    fn asin_contract(&mut self, st: &mut State, e: E) -> R<Option<V>> {
        let cells = 256u32;
        if self.decide(st, f_isnan(e))? { return Ok(Some(c(0x7fc0_0000))); }
        let neg = self.decide(st, fcmp(Op::FLt, e, cst(0, 32)))?;
        let a = and(e, cst(0x7fff_ffff, 32));
        if self.decide(st, fcmp(Op::FLt, cst(1f32.to_bits() as u128, 32), a))? { return Ok(Some(c(0x7fc0_0000))); }
        self.note("asinf contract: cell-wise monotone bounds from the platform asinf");
        // cell boundaries: sin(i/cells*pi/2)
        let bnd = |i: u32| -> f32 { if i == 0 { 0.0 } else if i >= cells { 1.0 } else { ((i as f64 / cells as f64) * std::f64::consts::FRAC_PI_2).sin() as f32 } };
        let (mut lo, mut hi) = (0u32, cells);
        while hi - lo > 1 {
            let m = (lo + hi) / 2;
            let q = fcmp(Op::FLt, a, cst(bnd(m).to_bits() as u128, 32));
            if self.decide(st, q)? { hi = m } else { lo = m }
        }
        let ya = f32::from_bits(unsafe { asinf(bnd(lo)) }.to_bits().saturating_sub(1));
        let yb = f32::from_bits(unsafe { asinf(bnd(hi)) }.to_bits() + 1);
        let y = self.fresh_var(st, 32, true);
        let x0 = b32(st.model.eval(a));
        let mut m = st.model.vals.clone();
        m.insert(node(y).k as u32, unsafe { asinf(x0) }.to_bits() as u128);
        st.model = Rc::new(Model::new(m));
        // non-negative floats order like their bit patterns
        let p = not(ult(y, cst(ya.to_bits() as u128, 32)));
        let q = not(ult(cst(yb.to_bits() as u128, 32), y));
        self.assume(st, p); self.assume(st, q);
        let r = if neg { or(y, cst(0x8000_0000, 32)) } else { y };
        Ok(Some(V::S(r)))
    }
}

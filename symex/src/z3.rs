//! Minimal FFI to libz3 plus translation of the expression DAG to Z3 terms.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(cfg: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sort(c: P, e: c_uint, s: c_uint) -> P;
    fn Z3_mk_fpa_round_nearest_ties_to_even(c: P) -> P;
    fn Z3_mk_fpa_round_nearest_ties_to_away(c: P) -> P;
    fn Z3_mk_fpa_round_toward_zero(c: P) -> P;
    fn Z3_mk_fpa_round_toward_positive(c: P) -> P;
    fn Z3_mk_fpa_round_toward_negative(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_tactic(c: P, s: *const c_char) -> P;
    fn Z3_tactic_inc_ref(c: P, t: P);
    fn Z3_tactic_and_then(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_get_reason_unknown(c: P, s: P) -> *const c_char;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_numeral_string(c: P, v: P) -> *const c_char;
}
extern "C" fn on_err(c: P, e: c_int) {
    unsafe { eprintln!("z3 error: {}", CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy()); }
    std::process::exit(70);
}
pub enum Res { Sat(Vec<(u32, u128)>), Unsat, Unknown(String) }

pub struct Z3 {
    c: P,
    bv: FxMap<E, P>,
    fpm: FxMap<E, P>,
    bl: FxMap<E, P>,
    sorts: FxMap<u32, P>,
    f32s: P, f64s: P, rne: P, rna: P, rtz: P, rtp: P, rtn: P,
    s_bv: P,
    s_fp: P,
    pub timeout_ms: u32,
    pub queries: u64, pub fp_queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64,
    pub time: f64, pub max_time: f64,
}
fn cs(s: &str) -> CString { CString::new(s).unwrap() }
impl Z3 {
    pub fn new(timeout_ms: u32, seed: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, cs("model").as_ptr(), cs("true").as_ptr());
            Z3_global_param_set(cs("smt.random_seed").as_ptr(), cs(&seed.to_string()).as_ptr());
            Z3_global_param_set(cs("sat.random_seed").as_ptr(), cs(&seed.to_string()).as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, on_err);
            let k = |p: P| { Z3_inc_ref(c, p); p };
            let s_bv = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, cs("QF_BV").as_ptr()));
            Z3_solver_inc_ref(c, s_bv);
            let mut z = Z3 {
                c, bv: Default::default(), fpm: Default::default(), bl: Default::default(), sorts: Default::default(),
                f32s: k(Z3_mk_fpa_sort(c, 8, 24)), f64s: k(Z3_mk_fpa_sort(c, 11, 53)),
                rne: k(Z3_mk_fpa_round_nearest_ties_to_even(c)), rna: k(Z3_mk_fpa_round_nearest_ties_to_away(c)), rtz: k(Z3_mk_fpa_round_toward_zero(c)),
                rtp: k(Z3_mk_fpa_round_toward_positive(c)), rtn: k(Z3_mk_fpa_round_toward_negative(c)),
                s_bv, s_fp: std::ptr::null_mut(), timeout_ms,
                queries: 0, fp_queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, max_time: 0.0,
            };
            z.set_timeout(s_bv, timeout_ms);
            z
        }
    }
    unsafe fn set_timeout(&mut self, s: P, ms: u32) {
        let p = Z3_mk_params(self.c);
        Z3_params_inc_ref(self.c, p);
        Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, cs("timeout").as_ptr()), ms);
        Z3_solver_set_params(self.c, s, p);
    }
    unsafe fn new_fp_solver(&mut self) -> P {
        let c = self.c;
        let mut t: P = std::ptr::null_mut();
        for n in ["simplify", "propagate-values", "fpa2bv", "propagate-values", "simplify", "solve-eqs", "max-bv-sharing", "bit-blast", "simplify", "sat"] {
            let x = Z3_mk_tactic(c, cs(n).as_ptr());
            Z3_tactic_inc_ref(c, x);
            if t.is_null() { t = x } else { t = Z3_tactic_and_then(c, t, x); Z3_tactic_inc_ref(c, t); }
        }
        let s = Z3_mk_solver_from_tactic(c, t);
        Z3_solver_inc_ref(c, s);
        let ms = self.timeout_ms;
        self.set_timeout(s, ms);
        s
    }
    fn bvsort(&mut self, w: u32) -> P {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe { let s = Z3_mk_bv_sort(c, w); Z3_inc_ref(c, s); s })
    }
    fn fsort(&self, w: u32) -> P { if w == 32 { self.f32s } else { self.f64s } }
    fn keep(&self, p: P) -> P { unsafe { Z3_inc_ref(self.c, p) }; p }
    fn num(&mut self, v: u128, w: u32) -> P {
        let s = self.bvsort(w);
        let p = unsafe { if v <= u64::MAX as u128 { Z3_mk_unsigned_int64(self.c, v as u64, s) } else { Z3_mk_numeral(self.c, cs(&v.to_string()).as_ptr(), s) } };
        self.keep(p)
    }
    /// fp term whose value is the float carried by `e`
    fn fp(&mut self, e: E) -> P {
        if let Some(p) = self.fpm.get(&e) { return *p; }
        let n = node(e);
        let c = self.c;
        let p = unsafe {
            match n.op {
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let (a, b) = (self.fp(n.a), self.fp(n.b));
                    match n.op { Op::FAdd => Z3_mk_fpa_add(c, self.rne, a, b), Op::FSub => Z3_mk_fpa_sub(c, self.rne, a, b), Op::FMul => Z3_mk_fpa_mul(c, self.rne, a, b), _ => Z3_mk_fpa_div(c, self.rne, a, b) }
                }
                Op::FSqrt => { let a = self.fp(n.a); Z3_mk_fpa_sqrt(c, self.rne, a) }
                Op::FExt | Op::FTrunc => { let a = self.fp(n.a); Z3_mk_fpa_to_fp_float(c, self.rne, a, self.fsort(n.w)) }
                Op::UToF => { let a = self.bv(n.a); Z3_mk_fpa_to_fp_unsigned(c, self.rne, a, self.fsort(n.w)) }
                Op::SToF => { let a = self.bv(n.a); Z3_mk_fpa_to_fp_signed(c, self.rne, a, self.fsort(n.w)) }
                Op::FRoundUp => { let a = self.fp(n.a); Z3_mk_fpa_round_to_integral(c, self.rtp, a) }
                Op::FRoundDown => { let a = self.fp(n.a); Z3_mk_fpa_round_to_integral(c, self.rtn, a) }
                Op::FRoundZero => { let a = self.fp(n.a); Z3_mk_fpa_round_to_integral(c, self.rtz, a) }
                Op::FRoundEven => { let a = self.fp(n.a); Z3_mk_fpa_round_to_integral(c, self.rne, a) }
                Op::FRoundAway => { let a = self.fp(n.a); Z3_mk_fpa_round_to_integral(c, self.rna, a) }
                Op::Ite => { let k = self.bool(n.a); let a = self.fp(n.b); let b = self.fp(n.c); Z3_mk_ite(c, k, a, b) }
                _ => { let a = self.bv(e); Z3_mk_fpa_to_fp_bv(c, a, self.fsort(n.w)) }
            }
        };
        self.keep(p);
        self.fpm.insert(e, p);
        p
    }
    fn bool(&mut self, e: E) -> P {
        if let Some(p) = self.bl.get(&e) { return *p; }
        let n = node(e);
        assert_eq!(n.w, 1);
        let c = self.c;
        let p = unsafe {
            match n.op {
                Op::Eq => { let (a, b) = (self.bv(n.a), self.bv(n.b)); Z3_mk_eq(c, a, b) }
                Op::Ult => { let (a, b) = (self.bv(n.a), self.bv(n.b)); Z3_mk_bvult(c, a, b) }
                Op::Slt => { let (a, b) = (self.bv(n.a), self.bv(n.b)); Z3_mk_bvslt(c, a, b) }
                Op::FLt => { let (a, b) = (self.fp(n.a), self.fp(n.b)); Z3_mk_fpa_lt(c, a, b) }
                Op::FLe => { let (a, b) = (self.fp(n.a), self.fp(n.b)); Z3_mk_fpa_leq(c, a, b) }
                Op::FEq => { let (a, b) = (self.fp(n.a), self.fp(n.b)); Z3_mk_fpa_eq(c, a, b) }
                Op::And => { let v = [self.bool(n.a), self.bool(n.b)]; Z3_mk_and(c, 2, v.as_ptr()) }
                Op::Or => { let v = [self.bool(n.a), self.bool(n.b)]; Z3_mk_or(c, 2, v.as_ptr()) }
                Op::Xor if as_const(n.b) == Some(1) => { let a = self.bool(n.a); Z3_mk_not(c, a) }
                Op::Xor => { let (a, b) = (self.bool(n.a), self.bool(n.b)); Z3_mk_xor(c, a, b) }
                Op::Ite => { let (k, a, b) = (self.bool(n.a), self.bool(n.b), self.bool(n.c)); Z3_mk_ite(c, k, a, b) }
                Op::Const => { let t = Z3_mk_true(c); if n.k == 1 { t } else { self.keep(t); Z3_mk_not(c, t) } }
                _ => { let a = self.bv(e); let one = self.num(1, 1); Z3_mk_eq(c, a, one) }
            }
        };
        self.keep(p);
        self.bl.insert(e, p);
        p
    }
    fn bv(&mut self, e: E) -> P {
        if let Some(p) = self.bv.get(&e) { return *p; }
        let n = node(e);
        let c = self.c;
        let p = unsafe {
            macro_rules! b2 { ($f:ident) => {{ let (a, b) = (self.bv(n.a), self.bv(n.b)); $f(c, a, b) }}; }
            match n.op {
                Op::Const => self.num(n.k, n.w),
                Op::FMath => { let s = self.bvsort(n.w); let nm = cs(&format!("math{}", e)); let sy = Z3_mk_string_symbol(c, nm.as_ptr()); Z3_mk_const(c, sy, s) }
                Op::Var => { let s = self.bvsort(n.w); let nm = cs(&format!("v{}", n.k)); let sy = Z3_mk_string_symbol(c, nm.as_ptr()); Z3_mk_const(c, sy, s) }
                Op::Add => b2!(Z3_mk_bvadd), Op::Sub => b2!(Z3_mk_bvsub), Op::Mul => b2!(Z3_mk_bvmul),
                Op::UDiv => b2!(Z3_mk_bvudiv), Op::SDiv => b2!(Z3_mk_bvsdiv), Op::URem => b2!(Z3_mk_bvurem), Op::SRem => b2!(Z3_mk_bvsrem),
                Op::Shl => b2!(Z3_mk_bvshl), Op::LShr => b2!(Z3_mk_bvlshr), Op::AShr => b2!(Z3_mk_bvashr),
                Op::And if n.w > 1 => b2!(Z3_mk_bvand), Op::Or if n.w > 1 => b2!(Z3_mk_bvor), Op::Xor if n.w > 1 => b2!(Z3_mk_bvxor),
                Op::Concat => b2!(Z3_mk_concat),
                Op::Extract => { let a = self.bv(n.a); Z3_mk_extract(c, n.k as u32 + n.w - 1, n.k as u32, a) }
                Op::SExt => { let wa = width(n.a); let a = self.bv(n.a); Z3_mk_sign_ext(c, n.w - wa, a) }
                Op::FToU => { let a = self.fp(n.a); Z3_mk_fpa_to_ubv(c, self.rtz, a, n.w) }
                Op::FToS => { let a = self.fp(n.a); Z3_mk_fpa_to_sbv(c, self.rtz, a, n.w) }
                Op::Ite if n.w > 1 => { let (k, a, b) = (self.bool(n.a), self.bv(n.b), self.bv(n.c)); Z3_mk_ite(c, k, a, b) }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FSqrt | Op::FExt | Op::FTrunc | Op::UToF | Op::SToF | Op::FRoundUp | Op::FRoundDown | Op::FRoundZero | Op::FRoundEven | Op::FRoundAway => {
                    let f = self.fp(e);
                    let isn = self.keep(Z3_mk_fpa_is_nan(c, f));
                    let raw = self.keep(Z3_mk_fpa_to_ieee_bv(c, f));
                    let q = f_consts(n.w).2;
                    let q = self.num(q, n.w);
                    Z3_mk_ite(c, isn, q, raw)
                }
                _ => { // boolean-valued
                    let k = self.bool(e);
                    let (one, zero) = (self.num(1, 1), self.num(0, 1));
                    Z3_mk_ite(c, k, one, zero)
                }
            }
        };
        self.keep(p);
        self.bv.insert(e, p);
        p
    }
    pub fn dump(&mut self, cs_: &[E], path: &str) {
        unsafe {
            let s = Z3_mk_simple_solver(self.c);
            Z3_solver_inc_ref(self.c, s);
            for e in cs_ { let b = self.bool(*e); Z3_solver_assert(self.c, s, b); }
            let t = CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().to_string();
            let _ = std::fs::write(path, format!("(set-logic QF_BVFP)\n{}\n(check-sat)\n", t));
            Z3_solver_dec_ref(self.c, s);
        }
    }
    pub fn check(&mut self, cons: &[E]) -> Res {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let fp = cons.iter().any(|e| is_fp(*e));
        if fp { self.fp_queries += 1; }
        let r = unsafe {
            let c = self.c;
            let s = if fp { if self.s_fp.is_null() { self.s_fp = self.new_fp_solver(); } self.s_fp } else { self.s_bv };
            if fp { Z3_solver_reset(c, s); } else { Z3_solver_push(c, s); }
            for e in cons { let b = self.bool(*e); Z3_solver_assert(c, s, b); }
            let r = match Z3_solver_check(c, s) {
                1 => {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut vs: Vec<u32> = vec![];
                    for e in cons { vs.extend(vars(*e).iter()); }
                    vs.sort(); vs.dedup();
                    let mut out = vec![];
                    for v in vs {
                        let w = ar().var_w[v as usize];
                        let s0 = self.bvsort(w);
                        let nm = cs(&format!("v{}", v));
                        let t = self.keep(Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), s0));
                        let mut res: P = std::ptr::null_mut();
                        if !Z3_model_eval(c, m, t, true, &mut res) { eprintln!("model eval failed"); std::process::exit(70) }
                        let mut u = 0u64;
                        if Z3_get_numeral_uint64(c, res, &mut u) { out.push((v, u as u128)); }
                        else { out.push((v, CStr::from_ptr(Z3_get_numeral_string(c, res)).to_str().unwrap().parse().unwrap())); }
                    }
                    Z3_model_dec_ref(c, m);
                    self.sat += 1;
                    Res::Sat(out)
                }
                -1 => { self.unsat += 1; Res::Unsat }
                _ => { self.unknown += 1; Res::Unknown(CStr::from_ptr(Z3_solver_get_reason_unknown(c, s)).to_string_lossy().to_string()) }
            };
            if !fp { Z3_solver_pop(c, s, 1); }
            r
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time { self.max_time = dt; }
        r
    }
}

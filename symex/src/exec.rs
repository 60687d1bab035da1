//! Path-based symbolic executor.
use crate::expr::*;
use crate::expr::E;
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Res, Z3};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Instant;

pub struct Config {
    pub entry: String, pub args: Vec<u64>, pub timeout: f64, pub query_timeout_ms: u32, pub max_paths: u64, pub max_steps: u64, pub max_alloc: u64,
    pub seed: u32, pub solver: String, pub dump_slow: Option<String>, pub trace: bool, pub crosscheck: u64,
    /// Violations (kind:id) which are listed as known: any other ends the run after a short time of grace.
    pub known: Vec<String>, pub grace: f64,
}
impl Default for Config {
    fn default() -> Self { Config { entry: String::new(), args: vec![], timeout: 600.0, query_timeout_ms: 120_000, max_paths: 10_000_000, max_steps: 4_000_000_000, max_alloc: 64 << 20, seed: 1, solver: "auto".into(), dump_slow: None, trace: false, crosscheck: 0, known: vec![], grace: 10.0 } }
}
pub struct Model { pub vals: FxMap<u32, u128>, memo: RefCell<FxMap<E, u128>> }
impl Model {
    pub fn new(vals: FxMap<u32, u128>) -> Model { Model { vals, memo: Default::default() } }
    pub fn eval(&self, e: E) -> u128 {
        let n = node(e);
        match n.op {
            Op::Const => return n.k,
            Op::Var => return self.vals.get(&(n.k as u32)).cloned().unwrap_or(0),
            _ => {}
        }
        if let Some(v) = self.memo.borrow().get(&e) { return *v; }
        let k = nargs(&n);
        let a = self.eval(n.a);
        let r = if n.op == Op::Ite { if a == 1 { self.eval(n.b) } else { self.eval(n.c) } } else {
            let b = if k > 1 { self.eval(n.b) } else { 0 };
            ev_node(&n, width(n.a), if k > 1 { width(n.b) } else { 0 }, a, b, 0)
        };
        self.memo.borrow_mut().insert(e, r);
        r
    }
}
#[derive(Clone)]
pub struct Frame { pub f: &'static Func, pub bb: u32, pub ip: u32, pub prev: u32, pub regs: Vec<V>, pub stack_base: usize, pub dest: u32, pub inv: Option<u32> }
#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub cons: Rc<Vec<E>>,
    pub known: Rc<FxMap<E, bool>>,
    pub subst: Rc<FxMap<E, u128>>,
    pub smemo: Rc<RefCell<FxMap<E, E>>>,
    pub model: Rc<Model>,
    pub inputs: Vec<E>,
    pub fresh: u32,
    pub allow_panic: bool, pub opaque: u8,
    pub steps: u64,
    pub scratch: FxMap<u64, u64>,
}
pub enum Stop { End, Kill, Bad, Err(String) }
pub type R<T> = Result<T, Stop>;

#[derive(Clone)]
pub struct Violation { pub kind: String, pub id: String, pub detail: String, pub inputs: Vec<(u32, u128)>, pub stack: Vec<String> }
#[derive(Default, Clone)]
pub struct AssertStat { pub by_simplifier: u64, pub by_solver: u64, pub failed: u64 }

pub struct Exec {
    pub m: Module,
    pub cfg: Config,
    pub z3: Z3,
    pub sat: crate::sat::Sat,
    pub work: Vec<State>,
    pub gcache: FxMap<u32, Rc<Obj>>,
    pub hooks: Vec<Option<crate::hooks::Hook>>,
    pub executed: Vec<u64>,
    pub violations: Vec<Violation>,
    pub vkeys: BTreeMap<(String, String), u64>,
    pub covers: BTreeMap<u64, (u64, Vec<(u32, u128)>)>,
    pub asserts: BTreeMap<u64, AssertStat>,
    pub qcache: FxMap<Vec<E>, Option<Vec<(u32, u128)>>>,
    pub qcache_hits: u64,
    pub paths: u64, pub killed: u64, pub panicked: u64, pub forks: u64, pub steps: u64, pub branch_queries: u64,
    pub errors: BTreeMap<String, u64>,
    pub notes: BTreeMap<String, u64>,
    pub t0: Instant,
    pub var_cache: FxMap<(u32, u32), E>,
    pub cur_dec_id: u64, pub unsat_seen: u64, pub cross_ok: u64, pub cross_open: u64,
    pub spec: u32, pub wlog: Vec<(u64, u64)>, pub sites: FxMap<(u32, u32), Site>, pub ipdoms: FxMap<u32, Rc<Vec<u32>>>, pub merges: u64,
}
/// A branch: how often it split a path, how often its arms were joined, how often they could not be.
#[derive(Default, Clone, Copy)]
pub struct Site { pub forks: u32, pub merged: u32, pub failed: u32 }
pub const SITE_FORKS: u32 = 6;
pub const SITE_FORKS_HARD: u32 = 128;
/// No fork may happen inside an arm which is executed to be merged.
fn no_fork() -> Stop { Stop::Err("fork inside a merged arm".into()) }
pub fn c(v: u128) -> V { V::C(v) }
pub fn from_e(e: E) -> V { match as_const(e) { Some(k) => V::C(k), None => V::S(e) } }
pub fn to_e(v: &V, w: u32) -> E { match v { V::C(k) => cst(*k, w), V::S(e) => { debug_assert_eq!(width(*e), w); *e } V::A(_) => panic!("aggregate as scalar") } }

impl Exec {
    pub fn new(m: Module, cfg: Config) -> Exec {
        let z3 = Z3::new(if cfg.crosscheck > 0 { 3000 } else { cfg.query_timeout_ms }, cfg.seed);
        let sat = crate::sat::Sat::new(cfg.query_timeout_ms as f64 / 1000.0, cfg.seed);
        Exec { m, cfg, z3, sat, work: vec![], gcache: Default::default(), hooks: vec![], executed: vec![], violations: vec![], vkeys: Default::default(), covers: Default::default(), asserts: Default::default(),
            qcache: Default::default(), qcache_hits: 0, paths: 0, killed: 0, panicked: 0, forks: 0, steps: 0, branch_queries: 0, errors: Default::default(), notes: Default::default(), t0: Instant::now(), var_cache: Default::default(), cur_dec_id: 0, unsat_seen: 0, cross_ok: 0, cross_open: 0, spec: 0, wlog: vec![], sites: Default::default(), ipdoms: Default::default(), merges: 0 }
    }
    pub fn note(&mut self, s: &str) { *self.notes.entry(s.to_string()).or_insert(0) += 1; }
    // ------------------------------------------------------------ solver interface
    pub fn simp(&self, st: &State, e: E) -> E {
        if st.subst.is_empty() || as_const(e).is_some() { return e; }
        fn go(e: E, sub: &FxMap<E, u128>, memo: &mut FxMap<E, E>) -> E {
            let n = node(e);
            if n.op == Op::Const { return e; }
            if let Some(k) = sub.get(&e) { return cst(*k, n.w); }
            if n.op == Op::Var { return e; }
            if let Some(r) = memo.get(&e) { return *r; }
            let k = nargs(&n);
            let a = go(n.a, sub, memo);
            let b = if k > 1 { go(n.b, sub, memo) } else { 0 };
            let cc = if k > 2 { go(n.c, sub, memo) } else { 0 };
            let r = if a == n.a && (k < 2 || b == n.b) && (k < 3 || cc == n.c) { e } else {
                let r = rebuild(&n, a, b, cc);
                if r != e { if let Some(k) = sub.get(&r) { cst(*k, n.w) } else { r } } else { r }
            };
            memo.insert(e, r);
            r
        }
        go(e, &st.subst, &mut st.smemo.borrow_mut())
    }
    fn slice(&self, st: &State, extra: E) -> Vec<E> {
        let nv = ar().nvars as usize;
        let mut seen = vec![false; nv];
        for v in vars(extra).iter() { seen[*v as usize] = true; }
        let cons = &st.cons;
        let mut inn = vec![false; cons.len()];
        loop {
            let mut ch = false;
            for (i, cc) in cons.iter().enumerate() {
                if inn[i] { continue; }
                let vs = vars(*cc);
                if vs.iter().any(|v| seen[*v as usize]) {
                    inn[i] = true;
                    for v in vs.iter() { if !seen[*v as usize] { seen[*v as usize] = true; ch = true; } }
                }
            }
            if !ch { break; }
        }
        let mut r: Vec<E> = cons.iter().enumerate().filter(|(i, _)| inn[*i]).map(|(_, c)| *c).collect();
        r.push(extra);
        r.sort(); r.dedup();
        r
    }
    /// Is `extra` satisfiable together with the path condition? Returns a model for the path extended with it.
    pub fn feasible(&mut self, st: &State, extra: E) -> R<Option<Rc<Model>>> {
        match as_const(extra) { Some(1) => return Ok(Some(st.model.clone())), Some(_) => return Ok(None), None => {} }
        if st.model.eval(extra) == 1 { return Ok(Some(st.model.clone())); }
        let sl = self.slice(st, extra);
        let r = if let Some(r) = self.qcache.get(&sl) { self.qcache_hits += 1; r.clone() } else {
            let t = Instant::now();
            let r = match self.ask(&sl) {
                Res::Sat(m) => Some(m),
                Res::Unsat => None,
                Res::Unknown(s) => {
                    if let Some(p) = &self.cfg.dump_slow { let p = format!("{}.unknown{}.smt2", p, self.z3.queries); self.z3.dump(&sl, &p); }
                    return Err(Stop::Err(format!("solver gave no answer ({}) after {:.1}s in {}", s, t.elapsed().as_secs_f64(), self.where_(st))));
                }
            };
            if let Some(p) = &self.cfg.dump_slow { if t.elapsed().as_secs_f64() > 2.0 { let p = format!("{}.slow{}.smt2", p, self.z3.queries); self.z3.dump(&sl, &p); eprintln!("slow {:.1}s {} {}", t.elapsed().as_secs_f64(), p, self.where_(st)); } }
            if let Some(m) = &r {
                // validate the model natively
                let md = Model::new(m.iter().cloned().collect());
                for e in &sl { if md.eval(*e) != 1 { return Err(Stop::Err(format!("solver model does not satisfy {} in {}", show(*e, 6), self.where_(st)))); } }
            }
            self.qcache.insert(sl, r.clone());
            r
        };
        Ok(r.map(|m| { let mut vals = st.model.vals.clone(); for (k, v) in m { vals.insert(k, v); } Rc::new(Model::new(vals)) }))
    }
    fn ask(&mut self, sl: &[E]) -> Res {
        if self.cfg.solver == "z3" { return self.z3.check(sl); }
        use crate::sat::SRes;
        match self.sat.check(sl) {
            SRes::Sat(m) => Res::Sat(m),
            SRes::Unsat => {
                // a sample of the unsatisfiable answers is put to z3 as well (satisfiable ones are validated by evaluation)
                self.unsat_seen += 1;
                if self.cfg.crosscheck > 0 && !sl.iter().any(|e| is_math(*e)) && self.unsat_seen % self.cfg.crosscheck == 0 {
                    match self.z3.check(sl) { Res::Unsat => self.cross_ok += 1, Res::Unknown(_) => self.cross_open += 1, Res::Sat(_) => return Res::Unknown("solvers disagree".into()) }
                }
                Res::Unsat
            }
            SRes::Unknown(s) => Res::Unknown(s),
        }
    }
    pub fn learn(&mut self, st: &mut State, e: E, val: bool) {
        // record a fact (already implied by or added to the path condition)
        let n = node(e);
        if n.op == Op::Const { return; }
        Rc::make_mut(&mut st.known).insert(e, val);
        if n.w == 1 && (n.op == Op::Var) { self.set_subst(st, e, val as u128); }
        if n.op == Op::Xor && as_const(n.b) == Some(1) { return self.learn(st, n.a, !val); }
        if (n.op == Op::And && val) || (n.op == Op::Or && !val) { self.learn(st, n.a, val); self.learn(st, n.b, val); return; }
        if n.op == Op::Eq && val {
            if let Some(k) = as_const(n.b) { self.set_subst(st, n.a, k); }
        }
        if n.op != Op::Eq && n.op != Op::Ult && n.op != Op::Slt { self.set_subst(st, e, val as u128); }
    }
    fn set_subst(&mut self, st: &mut State, e: E, k: u128) {
        if as_const(e).is_some() { return; }
        if st.subst.get(&e) == Some(&k) { return; }
        Rc::make_mut(&mut st.subst).insert(e, k);
        st.smemo = Rc::new(RefCell::new(Default::default()));
        // invert simple structure
        let n = node(e);
        match n.op {
            Op::Concat => { let wl = width(n.b); self.set_subst(st, n.a, (k >> wl) & mask(n.w - wl)); self.set_subst(st, n.b, k & mask(wl)); }
            Op::SExt => { let wi = width(n.a); self.set_subst(st, n.a, k & mask(wi)); }
            Op::Add if as_const(n.b).is_some() => { let q = as_const(n.b).unwrap(); self.set_subst(st, n.a, k.wrapping_sub(q) & mask(n.w)); }
            Op::Add if as_const(n.a).is_some() => { let q = as_const(n.a).unwrap(); self.set_subst(st, n.b, k.wrapping_sub(q) & mask(n.w)); }
            Op::Sub if as_const(n.a).is_some() => { let q = as_const(n.a).unwrap(); self.set_subst(st, n.b, q.wrapping_sub(k) & mask(n.w)); }
            Op::Xor if as_const(n.b).is_some() => { let q = as_const(n.b).unwrap(); self.set_subst(st, n.a, (q ^ k) & mask(n.w)); }
            _ => {}
        }
    }
    pub fn assume(&mut self, st: &mut State, e: E) {
        // e must hold in st.model
        if as_const(e).is_some() { return; }
        let n = node(e);
        if n.op == Op::And { self.assume(st, n.a); self.assume(st, n.b); return; }
        Rc::make_mut(&mut st.cons).push(e);
        self.learn(st, e, true);
    }
    /// Does the path condition decide `e`? Asks the solver; the answer is remembered on the path.
    pub fn implied(&mut self, st: &mut State, e: E) -> R<Option<bool>> {
        let e = self.simp(st, e);
        if let Some(b) = self.known(st, e) { return Ok(Some(b)); }
        let v = st.model.eval(e) == 1;
        let other = if v { not(e) } else { e };
        self.sat.light = true;
        let r = self.feasible(st, other);
        self.sat.light = false;
        match r { Ok(None) => {} Ok(Some(_)) | Err(Stop::Err(_)) => return Ok(None), Err(e) => return Err(e) }
        self.learn(st, e, v);
        Ok(Some(v))
    }
    fn known(&self, st: &State, e: E) -> Option<bool> {
        if let Some(k) = as_const(e) { return Some(k == 1); }
        if let Some(b) = st.known.get(&e) { return Some(*b); }
        let n = node(e);
        if n.op == Op::Xor && as_const(n.b) == Some(1) { return self.known(st, n.a).map(|b| !b); }
        if n.op == Op::And { match (self.known(st, n.a), self.known(st, n.b)) { (Some(false), _) | (_, Some(false)) => return Some(false), (Some(true), Some(true)) => return Some(true), _ => {} } }
        if n.op == Op::Or { match (self.known(st, n.a), self.known(st, n.b)) { (Some(true), _) | (_, Some(true)) => return Some(true), (Some(false), Some(false)) => return Some(false), _ => {} } }
        None
    }
    /// Decide a boolean, forking the other side if feasible.
    pub fn decide(&mut self, st: &mut State, e: E) -> R<bool> {
        if let Some(b) = self.known(st, e) { return Ok(b); }
        let e2 = self.simp(st, e);
        if let Some(b) = self.known(st, e2) { return Ok(b); }
        let v = st.model.eval(e2) == 1;
        let (this, other) = if v { (e2, not(e2)) } else { (not(e2), e2) };
        self.branch_queries += 1;
        match self.feasible(st, other)? {
            Some(_) if self.spec > 0 => return Err(no_fork()),
            Some(m) => {
                let mut o = st.clone();
                o.model = m;
                self.assume(&mut o, other);
                self.learn(&mut o, e, !v);
                self.work.push(o);
                self.forks += 1;
                self.assume(st, this);
            }
            None => { self.learn(st, this, true); }
        }
        self.learn(st, e, v);
        Ok(v)
    }
    /// Give a value to a symbolic expression, forking over the other feasible values.
    pub fn concretize(&mut self, st: &mut State, e: E) -> R<u128> {
        if let Some(k) = as_const(e) { return Ok(k); }
        let e2 = self.simp(st, e);
        if let Some(k) = as_const(e2) { return Ok(k); }
        let v = st.model.eval(e2);
        let this = eq(e2, cst(v, width(e2)));
        let other = not(this);
        self.branch_queries += 1;
        match self.feasible(st, other)? {
            Some(_) if self.spec > 0 => return Err(no_fork()),
            Some(m) => {
                let mut o = st.clone();
                o.model = m;
                self.assume(&mut o, other);
                self.work.push(o);
                self.forks += 1;
                self.assume(st, this);
            }
            None => { self.learn(st, this, true); }
        }
        self.set_subst(st, e2, v);
        self.set_subst(st, e, v);
        Ok(v)
    }
    pub fn conc(&mut self, st: &mut State, v: &V) -> R<u128> { match v { V::C(k) => Ok(*k), V::S(e) => self.concretize(st, *e), V::A(_) => Err(Stop::Err("aggregate where scalar expected".into())) } }
    pub fn truth(&mut self, st: &mut State, v: &V) -> R<bool> { match v { V::C(k) => Ok(*k & 1 == 1), V::S(e) => self.decide(st, *e), V::A(_) => Err(Stop::Err("vector condition".into())) } }
    pub fn fresh_var(&mut self, st: &mut State, w: u32, hidden: bool) -> E {
        let idx = if hidden { st.fresh += 1; 0x8000_0000 | st.fresh } else { st.inputs.len() as u32 };
        let e = match self.var_cache.get(&(idx, w)) { Some(e) => *e, None => { let e = new_var(w, format!("in{}", idx)); self.var_cache.insert((idx, w), e); e } };
        if !hidden { st.inputs.push(e); }
        e
    }
    pub fn inputs_of(&self, st: &State, m: &Model) -> Vec<(u32, u128)> { st.inputs.iter().map(|e| (width(*e), m.eval(*e))).collect() }
    pub fn where_(&self, st: &State) -> String { self.stack(st).into_iter().take(4).collect::<Vec<_>>().join(" < ") }
    pub fn stack(&self, st: &State) -> Vec<String> { st.frames.iter().rev().take(12).map(|f| self.m.funcs[f.f.id as usize].dem.clone()).collect() }
    pub fn violation(&mut self, st: &State, m: &Model, kind: &str, id: &str, detail: &str) {
        let k = self.vkeys.entry((kind.to_string(), id.to_string())).or_insert(0);
        *k += 1;
        if *k == 1 && !self.cfg.known.contains(&format!("{}:{}", kind, id)) {
            let t = self.t0.elapsed().as_secs_f64() + self.cfg.grace;
            if t < self.cfg.timeout { self.cfg.timeout = t; self.sat.run_deadline = Some(self.t0 + std::time::Duration::from_secs_f64(t)); }
        }
        if *k <= 3 { let v = Violation { kind: kind.into(), id: id.into(), detail: detail.into(), inputs: self.inputs_of(st, m), stack: self.stack(st) }; self.violations.push(v); }
    }
    // ------------------------------------------------------------ memory
    pub fn gobj(&mut self, id: u32) -> Rc<Obj> {
        if let Some(o) = self.gcache.get(&id) { return o.clone(); }
        let v = self.m.global_init(id);
        let ty = self.m.globals[id as usize].ty.clone();
        let mut o = Obj::new(ty.size());
        fn put(o: &mut Obj, off: u64, ty: &Ty, v: &V) {
            match v {
                V::A(vs) => for (i, x) in vs.iter().enumerate() { let (fo, ft) = ty.field_off(i as u64); put(o, off + fo, &ft, x); },
                V::C(k) => { if *k != 0 { let n = ty.store_size() as usize; o.set_c(off as usize, *k, n); } }
                V::S(_) => panic!(),
            }
        }
        put(&mut o, 0, &ty, &v);
        o.ro = self.m.globals[id as usize].constant;
        let o = Rc::new(o);
        self.gcache.insert(id, o.clone());
        o
    }
    pub fn mem_err(&mut self, st: &State, what: &str) -> Stop {
        if self.spec > 0 { return no_fork(); }
        let m = st.model.clone();
        let w = self.where_(st);
        self.violation(st, &m, "memory", what, &w);
        Stop::Bad
    }
    pub fn robj(&mut self, st: &State, addr: u64, n: u64) -> R<(Rc<Obj>, usize)> {
        let (k, id, off) = split(addr);
        let o = match k {
            KIND_GLOBAL if (id as usize) < self.m.globals.len() => match st.mem.globals.get(&id) { Some(o) => o.clone(), None => self.gobj(id) },
            KIND_HEAP => match st.mem.heap.get(id as usize) { Some(Some(o)) => o.clone(), _ => return Err(self.mem_err(st, "use of freed or invalid heap pointer")) },
            KIND_STACK => match st.mem.stack.get(id as usize) { Some(Some(o)) => o.clone(), _ => return Err(self.mem_err(st, "use of dead stack pointer")) },
            _ => return Err(self.mem_err(st, &format!("invalid pointer {:#x}", addr))),
        };
        if off >= 1 << 32 || off + n > o.size { return Err(self.mem_err(st, &format!("out of bounds read of {} at {} in object of {}", n, off as i64, o.size))); }
        Ok((o, off as usize))
    }
    pub fn with_wobj<T>(&mut self, st: &mut State, addr: u64, n: u64, f: impl FnOnce(&mut Obj, usize) -> T) -> R<T> {
        let (k, id, off) = split(addr);
        let size = match k {
            KIND_GLOBAL if (id as usize) < self.m.globals.len() => {
                if !st.mem.globals.contains_key(&id) {
                    let o = self.gobj(id);
                    if o.ro { return Err(self.mem_err(st, "write to constant")); }
                    Rc::make_mut(&mut st.mem.globals).insert(id, o);
                }
                st.mem.globals[&id].size
            }
            KIND_HEAP => match st.mem.heap.get(id as usize) { Some(Some(o)) => o.size, _ => return Err(self.mem_err(st, "write to freed or invalid heap pointer")) },
            KIND_STACK => match st.mem.stack.get(id as usize) { Some(Some(o)) => o.size, _ => return Err(self.mem_err(st, "write to dead stack pointer")) },
            _ => return Err(self.mem_err(st, &format!("write to invalid pointer {:#x}", addr))),
        };
        if off >= 1 << 32 || off + n > size { return Err(self.mem_err(st, &format!("out of bounds write of {} at {} in object of {}", n, off as i64, size))); }
        if self.spec > 0 { self.wlog.push((addr, n)); }
        let o = match k {
            KIND_GLOBAL => Rc::make_mut(Rc::make_mut(&mut st.mem.globals).get_mut(&id).unwrap()),
            KIND_HEAP => Rc::make_mut(st.mem.heap[id as usize].as_mut().unwrap()),
            _ => Rc::make_mut(st.mem.stack[id as usize].as_mut().unwrap()),
        };
        Ok(f(o, off as usize))
    }
    pub fn load(&mut self, st: &mut State, addr: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Arr(..) | Ty::Struct(..) => {
                let n = match ty { Ty::Arr(n, _) => *n, Ty::Struct(f, _) => f.len() as u64, _ => 0 };
                let mut v = vec![];
                for i in 0..n { let (o, t) = ty.field_off(i); v.push(self.load(st, addr + o, &t)?); }
                return Ok(V::A(Rc::new(v)));
            }
            Ty::Vec(n, t) => {
                if t.bits() % 8 != 0 { return Err(Stop::Err("load of sub-byte vector".into())); }
                let mut v = vec![];
                for i in 0..*n { v.push(self.load(st, addr + i * t.size(), t)?); }
                return Ok(V::A(Rc::new(v)));
            }
            _ => {}
        }
        let n = ty.store_size();
        if n == 0 { return Ok(c(0)); }
        let (o, off) = self.robj(st, addr, n)?;
        let w = ty.bits();
        if !o.has_sym(off, n as usize) { return Ok(c(o.get_c(off, n as usize) & mask(w))); }
        let mut e = o.byte(off);
        for i in 1..n as usize { e = concat(o.byte(off + i), e); }
        if w as u64 != n * 8 { e = trunc(e, w); }
        Ok(from_e(e))
    }
    pub fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &V) -> R<()> {
        match (ty, v) {
            (Ty::Vec(n, t), V::A(vs)) => {
                if t.bits() % 8 != 0 { return Err(Stop::Err("store of sub-byte vector".into())); }
                for i in 0..*n { self.store(st, addr + i * t.size(), t, &vs[i as usize])?; }
                return Ok(());
            }
            (_, V::A(vs)) => {
                for (i, x) in vs.iter().enumerate() { let (o, t) = ty.field_off(i as u64); self.store(st, addr + o, &t, x)?; }
                return Ok(());
            }
            _ => {}
        }
        let n = ty.store_size() as usize;
        if n == 0 { return Ok(()); }
        match v {
            V::C(k) => { let k = *k; self.with_wobj(st, addr, n as u64, |o, off| o.set_c(off, k, n)) }
            V::S(e) => {
                let e = zext(*e, n as u32 * 8);
                self.with_wobj(st, addr, n as u64, |o, off| for i in 0..n { o.set_byte(off + i, extract(e, 8 * i as u32, 8)); })
            }
            V::A(_) => unreachable!(),
        }
    }
    pub fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (o, off) = self.robj(st, src, n)?;
        let n = n as usize;
        if !o.has_sym(off, n) {
            self.with_wobj(st, dst, n as u64, |d, doff| {
                let mut tmp = vec![0u8; n];
                if off < o.data.len() { let e = (off + n).min(o.data.len()); tmp[..e - off].copy_from_slice(&o.data[off..e]); }
                let mut p = 0;
                while p < n { let k = (n - p).min(16); let mut b = [0u8; 16]; b[..k].copy_from_slice(&tmp[p..p + k]); d.set_c(doff + p, u128::from_le_bytes(b), k); p += k; }
            })
        } else {
            let bytes: Vec<E> = (0..n).map(|i| o.byte(off + i)).collect();
            self.with_wobj(st, dst, n as u64, |d, doff| for (i, b) in bytes.iter().enumerate() { d.set_byte(doff + i, *b); })
        }
    }
    pub fn read_bytes(&mut self, st: &mut State, a: u64, n: u64) -> R<Vec<E>> {
        if n == 0 { return Ok(vec![]); }
        let (o, off) = self.robj(st, a, n)?;
        Ok((0..n as usize).map(|i| o.byte(off + i)).collect())
    }
    pub fn read_cstr(&mut self, st: &mut State, a: u64, n: u64) -> R<String> {
        let (o, off) = self.robj(st, a, n)?;
        let b: Vec<u8> = (0..n as usize).map(|i| o.cbyte(off + i)).collect();
        Ok(String::from_utf8_lossy(&b).to_string())
    }
    // ------------------------------------------------------------ scalar ops
    fn bin(&mut self, op: Bin, w: u32, a: &V, b: &V) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match op {
                Bin::Add => x.wrapping_add(y), Bin::Sub => x.wrapping_sub(y), Bin::Mul => x.wrapping_mul(y),
                Bin::And => x & y, Bin::Or => x | y, Bin::Xor => x ^ y,
                Bin::Shl => if y >= w as u128 { 0 } else { x << y },
                Bin::LShr => if y >= w as u128 { 0 } else { x >> y },
                Bin::AShr => (sext_to_i128(x, w) >> y.min(w as u128 - 1).min(127)) as u128,
                Bin::UDiv | Bin::URem if y == 0 => return Err(Stop::Err("division by zero executed".into())),
                Bin::SDiv | Bin::SRem if y == 0 => return Err(Stop::Err("division by zero executed".into())),
                Bin::UDiv => x / y, Bin::URem => x % y,
                Bin::SDiv => sext_to_i128(x, w).wrapping_div(sext_to_i128(y, w)) as u128,
                Bin::SRem => sext_to_i128(x, w).wrapping_rem(sext_to_i128(y, w)) as u128,
                Bin::FAdd => ev_f2(Op::FAdd, w, x, y), Bin::FSub => ev_f2(Op::FSub, w, x, y), Bin::FMul => ev_f2(Op::FMul, w, x, y), Bin::FDiv => ev_f2(Op::FDiv, w, x, y),
                Bin::FRem => if w == 32 { (f32::from_bits(x as u32) % f32::from_bits(y as u32)).to_bits() as u128 } else { (f64::from_bits(x as u64) % f64::from_bits(y as u64)).to_bits() as u128 },
            };
            return Ok(c(r & mask(w)));
        }
        let (x, y) = (to_e(a, w), to_e(b, w));
        Ok(from_e(match op {
            Bin::Add => add(x, y), Bin::Sub => sub(x, y), Bin::Mul => mul(x, y), Bin::UDiv => udiv(x, y), Bin::SDiv => sdiv(x, y), Bin::URem => urem(x, y), Bin::SRem => srem(x, y),
            Bin::Shl => shl(x, y), Bin::LShr => lshr(x, y), Bin::AShr => ashr(x, y), Bin::And => and(x, y), Bin::Or => or(x, y), Bin::Xor => xor(x, y),
            Bin::FAdd => f2(Op::FAdd, x, y), Bin::FSub => f2(Op::FSub, x, y), Bin::FMul => f2(Op::FMul, x, y), Bin::FDiv => f2(Op::FDiv, x, y),
            Bin::FRem => return Err(Stop::Err("symbolic frem".into())),
        }))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y); let (sx, sy) = (sext_to_i128(x, w), sext_to_i128(y, w));
            return c(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy, Pred::Slt => sx < sy, Pred::Sle => sx <= sy } as u128);
        }
        let (x, y) = (to_e(a, w), to_e(b, w));
        from_e(match p { Pred::Eq => eq(x, y), Pred::Ne => not(eq(x, y)), Pred::Ugt => ult(y, x), Pred::Uge => ule(y, x), Pred::Ult => ult(x, y), Pred::Ule => ule(x, y), Pred::Sgt => slt(y, x), Pred::Sge => sle(y, x), Pred::Slt => slt(x, y), Pred::Sle => sle(x, y) })
    }
    fn fcmp(&mut self, p: FPred, w: u32, a: &V, b: &V) -> V {
        let (x, y) = (to_e(a, w), to_e(b, w));
        let nn = |z: E| f_isnan(z);
        use FPred::*;
        from_e(match p {
            False => cst(0, 1), True => cst(1, 1),
            Oeq => fcmp(Op::FEq, x, y), Ogt => fcmp(Op::FLt, y, x), Oge => fcmp(Op::FLe, y, x), Olt => fcmp(Op::FLt, x, y), Ole => fcmp(Op::FLe, x, y),
            One => or(fcmp(Op::FLt, x, y), fcmp(Op::FLt, y, x)),
            Ord => and(not(nn(x)), not(nn(y))), Uno => or(nn(x), nn(y)),
            Ueq => not(or(fcmp(Op::FLt, x, y), fcmp(Op::FLt, y, x))),
            Ugt => not(fcmp(Op::FLe, x, y)), Uge => not(fcmp(Op::FLt, x, y)), Ult => not(fcmp(Op::FLe, y, x)), Ule => not(fcmp(Op::FLt, y, x)), Une => not(fcmp(Op::FEq, x, y)),
        })
    }
    fn to_bits(&self, v: &V, ty: &Ty) -> E {
        match ty {
            Ty::Vec(_, t) | Ty::Arr(_, t) => {
                let V::A(vs) = v else { panic!() };
                let mut e = self.to_bits(&vs[0], t);
                for x in &vs[1..] { e = concat(self.to_bits(x, t), e); }
                e
            }
            _ => to_e(v, ty.bits()),
        }
    }
    fn from_bits(&self, e: E, ty: &Ty) -> V {
        match ty {
            Ty::Vec(n, t) | Ty::Arr(n, t) => { let w = t.bits(); V::A(Rc::new((0..*n).map(|i| self.from_bits(extract(e, i as u32 * w, w), t)).collect())) }
            _ => from_e(e),
        }
    }
    fn lanes2(&mut self, ty: &Ty, a: &V, b: &V, f: &mut dyn FnMut(&mut Self, u32, &V, &V) -> R<V>) -> R<V> {
        match ty {
            Ty::Vec(_, t) => {
                let (V::A(x), V::A(y)) = (a, b) else { return Err(Stop::Err("vector op on non-vector".into())) };
                let w = t.bits();
                let mut r = Vec::with_capacity(x.len());
                for i in 0..x.len() { r.push(f(self, w, &x[i], &y[i])?); }
                Ok(V::A(Rc::new(r)))
            }
            _ => f(self, ty.bits(), a, b),
        }
    }
    pub fn ftoi_sat(&mut self, x: E, w: u32, signed: bool) -> E {
        let wf = width(x);
        let fc = |v: f64| if wf == 32 { cst((v as f32).to_bits() as u128, 32) } else { cst(v.to_bits() as u128, 64) };
        if signed {
            let hi = fc(2f64.powi(w as i32 - 1)); let lo = fc(-(2f64.powi(w as i32 - 1)));
            let mx = cst(mask(w - 1), w); let mn = cst(1u128 << (w - 1), w);
            let core = f1(Op::FToS, x, w);
            let r = ite(fcmp(Op::FLt, x, hi), core, mx);
            let r = ite(fcmp(Op::FLt, lo, x), r, mn);
            ite(f_isnan(x), cst(0, w), r)
        } else {
            let one = fc(1.0); let hi = fc(2f64.powi(w as i32));
            let core = f1(Op::FToU, x, w);
            let r = ite(fcmp(Op::FLt, x, hi), core, cst(!0, w));
            ite(fcmp(Op::FLe, one, x), r, cst(0, w))
        }
    }
    fn cast1(&mut self, k: Cast, fw: u32, tw: u32, v: &V) -> R<V> {
        let e = match v { V::C(x) => {
            match k { Cast::Trunc => return Ok(c(x & mask(tw))), Cast::ZExt => return Ok(c(*x)), Cast::SExt => return Ok(c(sext_to_i128(*x, fw) as u128 & mask(tw))), _ => cst(*x, fw) }
        } V::S(e) => *e, _ => return Err(Stop::Err("cast of aggregate".into())) };
        Ok(from_e(match k {
            Cast::Trunc => trunc(e, tw), Cast::ZExt => zext(e, tw), Cast::SExt => sext(e, tw),
            Cast::FPTrunc => f1(Op::FTrunc, e, tw), Cast::FPExt => f1(Op::FExt, e, tw),
            Cast::FPToUI => self.ftoi_sat(e, tw, false), Cast::FPToSI => self.ftoi_sat(e, tw, true),
            Cast::UIToFP => { let b = bits(e).max(1); f1(Op::UToF, extract(e, 0, b), tw) }
            Cast::SIToFP => { if (kz(e) >> (fw - 1)) & 1 == 1 { let b = bits(e).max(1); f1(Op::UToF, extract(e, 0, b), tw) } else { f1(Op::SToF, e, tw) } }
            Cast::Bit => e,
        }))
    }
    pub fn merge(&mut self, st: &mut State, cc: E, ty: &Ty, a: &V, b: &V) -> R<V> {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let mut r = vec![];
                for i in 0..x.len() { let (_, t) = ty.field_off(i as u64); r.push(self.merge(st, cc, &t, &x[i], &y[i])?); }
                Ok(V::A(Rc::new(r)))
            }
            _ => { let w = ty.bits(); Ok(from_e(ite(cc, to_e(a, w), to_e(b, w)))) }
        }
    }
    // ------------------------------------------------------------ execution
    #[inline]
    fn get(&self, st: &State, o: &Opd) -> V { match o { Opd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(), Opd::C(v) => v.clone() } }
    #[inline]
    pub fn set(&self, st: &mut State, d: u32, v: V) { if d != u32::MAX { Rc::make_mut(st.frames.last_mut().unwrap()).regs[d as usize] = v; } }
    #[inline]
    fn next(&self, st: &mut State) { Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1; }
    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let from = fr.bb;
        fr.prev = from; fr.bb = to; fr.ip = 0;
        let f = fr.f;
        let phis = &f.blocks[to as usize].phis;
        if phis.is_empty() { return; }
        if phis.len() == 1 {
            let p = &phis[0];
            let v = match &p.inc.iter().find(|x| x.0 == from).expect("phi edge").1 { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::C(v) => v.clone() };
            fr.regs[p.dest as usize] = v;
            return;
        }
        let vals: Vec<V> = phis.iter().map(|p| match &p.inc.iter().find(|x| x.0 == from).expect("phi edge").1 { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::C(v) => v.clone() }).collect();
        for (p, v) in phis.iter().zip(vals) { fr.regs[p.dest as usize] = v; }
    }
    pub fn push_call(&mut self, st: &mut State, fid: u32, args: &[V], dest: u32, inv: Option<u32>) -> R<()> {
        let Some(f) = self.m.func(fid) else { return Err(Stop::Err(format!("call of undefined function {} in {}", self.m.funcs[fid as usize].name, self.where_(st)))) };
        if self.executed.len() <= fid as usize { self.executed.resize(fid as usize + 1, 0); }
        self.executed[fid as usize] += 1;
        if st.frames.len() > 4000 { return Err(Stop::Err("call depth".into())); }
        let mut regs = vec![V::C(0); f.nregs as usize];
        for (i, r) in f.params.iter().enumerate() { if let Some(a) = args.get(i) { regs[*r as usize] = a.clone(); } }
        st.frames.push(Rc::new(Frame { f, bb: 0, ip: 0, prev: 0, regs, stack_base: st.mem.stack.len(), dest, inv }));
        Ok(())
    }
    fn ret(&mut self, st: &mut State, v: Option<V>) -> R<()> {
        let fr = st.frames.pop().unwrap();
        st.mem.stack.truncate(fr.stack_base);
        if st.frames.is_empty() { return Err(Stop::End); }
        if let Some(v) = v { self.set(st, fr.dest, v); }
        if let Some(l) = fr.inv { self.jump(st, l); }
        Ok(())
    }
    pub fn finish_call(&mut self, st: &mut State, dest: u32, inv: Option<u32>, v: Option<V>) {
        if let Some(v) = v { self.set(st, dest, v); }
        match inv { Some(l) => self.jump(st, l), None => self.next(st) }
    }
    /// The block in which both arms of the branch ending `bb` meet again (u32::MAX: none).
    fn meet(&mut self, f: &'static Func, bb: u32) -> u32 {
        if let Some(v) = self.ipdoms.get(&f.id) { return v[bb as usize]; }
        let n = f.blocks.len();
        let succ: Vec<Vec<u32>> = f.blocks.iter().map(|b| match b.insts.last().map(|x| &x.1) {
            Some(I::Br(l)) => vec![*l],
            Some(I::CondBr(_, a, b)) => vec![*a, *b],
            Some(I::Switch(_, _, d, cs)) => { let mut v: Vec<u32> = cs.iter().map(|x| x.1).collect(); v.push(*d); v }
            Some(I::Call(_, _, _, Some(l))) => vec![*l],
            _ => vec![],
        }).collect();
        // post-dominators over the reversed graph, node n is the exit
        let mut pred: Vec<Vec<u32>> = vec![vec![]; n + 1];
        let mut sx = succ;
        for v in sx.iter_mut() { if v.is_empty() { v.push(n as u32); } }
        for (i, v) in sx.iter().enumerate() { for s in v { pred[*s as usize].push(i as u32); } }
        let mut order = vec![]; // post order of the reversed graph from the exit
        let mut seen = vec![false; n + 1];
        let mut stack = vec![(n as u32, 0usize)];
        seen[n] = true;
        while let Some((b, i)) = stack.pop() {
            if i < pred[b as usize].len() { stack.push((b, i + 1)); let p = pred[b as usize][i]; if !seen[p as usize] { seen[p as usize] = true; stack.push((p, 0)); } } else { order.push(b); }
        }
        let mut num = vec![usize::MAX; n + 1];
        for (i, b) in order.iter().enumerate() { num[*b as usize] = i; }
        let mut dom = vec![u32::MAX; n + 1];
        dom[n] = n as u32;
        loop {
            let mut ch = false;
            for &b in order.iter().rev() {
                if b as usize == n { continue; }
                let mut d = u32::MAX;
                for &s in &sx[b as usize] {
                    if dom[s as usize] == u32::MAX { continue; }
                    if d == u32::MAX { d = s; continue; }
                    let (mut x, mut y) = (d, s);
                    while x != y { while num[x as usize] < num[y as usize] { x = dom[x as usize]; } while num[y as usize] < num[x as usize] { y = dom[y as usize]; } }
                    d = x;
                }
                if dom[b as usize] != d { dom[b as usize] = d; ch = true; }
            }
            if !ch { break; }
        }
        let r: Vec<u32> = (0..n).map(|i| if dom[i] == n as u32 { u32::MAX } else { dom[i] }).collect();
        let v = r[bb as usize];
        self.ipdoms.insert(f.id, Rc::new(r));
        v
    }
    /// A conditional branch on a symbolic value. Both sides feasible: the path splits; where a branch has split many
    /// paths, its arms are executed one after the other and joined (None) if they are short and split nothing themselves.
    fn branch(&mut self, st: &mut State, e: E, t: u32, f: u32) -> R<Option<bool>> {
        if let Some(b) = self.known(st, e) { return Ok(Some(b)); }
        let e2 = self.simp(st, e);
        if let Some(b) = self.known(st, e2) { return Ok(Some(b)); }
        let (func, bb) = { let fr = st.frames.last().unwrap(); (fr.f, fr.bb) };
        let key = (func.id, bb);
        let s = self.sites.get(&key).copied().unwrap_or_default();
        let wanted = self.spec > 0 || s.forks >= SITE_FORKS && (s.failed < 40 || s.merged * 4 > s.failed);
        if wanted && self.spec < 6 {
            let j = self.meet(func, bb);
            if j != u32::MAX {
                let v = st.model.eval(e2) == 1;
                let (this, other) = if v { (e2, not(e2)) } else { (not(e2), e2) };
                // a branch which was always joined is joined without asking whether both its sides are feasible (what the
                // arm of an infeasible side computes is selected by no value of the inputs)
                let sure = s.merged >= 64 && s.failed == 0;
                if !sure { self.branch_queries += 1; }
                match if sure { Some(st.model.clone()) } else { self.feasible(st, other)? } {
                    None => { self.learn(st, this, true); self.learn(st, e, v); return Ok(Some(v)); }
                    Some(m) => {
                        let hard = s.forks >= SITE_FORKS_HARD;
                        let (tt, ff) = if v { (t, f) } else { (f, t) };
                        let ok = self.try_merge(st, e, v, this, other, m, tt, ff, j, hard);
                        let x = self.sites.entry(key).or_default();
                        if ok { x.merged += 1; self.merges += 1; return Ok(None); }
                        x.failed += 1;
                    }
                }
            }
        }
        let forks = self.forks;
        let r = self.decide(st, e)?;
        if self.forks > forks { self.sites.entry(key).or_default().forks += 1; }
        Ok(Some(r))
    }
    /// Runs one arm up to the meeting point: the values of its phis and the memory it wrote.
    fn arm(&mut self, a: &mut State, to: u32, j: u32) -> Option<(Vec<V>, Vec<(u64, u64)>)> {
        let depth = a.frames.len();
        let old = std::mem::take(&mut self.wlog);
        self.spec += 1;
        self.jump(a, to);
        let mut ok = true;
        let mut k = 0;
        loop {
            let fr = a.frames.last().unwrap();
            if a.frames.len() == depth && fr.bb == j && fr.ip == 0 { break; }
            k += 1;
            if a.frames.len() < depth || k > 600 { ok = false; break; }
            self.steps += 1;
            if self.step(a).is_err() { ok = false; break; }
        }
        self.spec -= 1;
        let log = std::mem::replace(&mut self.wlog, old);
        if !ok { return None; }
        let fr = a.frames.last().unwrap();
        let vals = fr.f.blocks[j as usize].phis.iter().map(|p| fr.regs[p.dest as usize].clone()).collect();
        Some((vals, log))
    }
    fn join(&mut self, st: &mut State, cc: E, ty: &Ty, a: &V, b: &V, hard: bool) -> Option<V> {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let mut r = vec![];
                for i in 0..x.len() { let (_, t) = ty.field_off(i as u64); r.push(self.join(st, cc, &t, &x[i], &y[i], hard)?); }
                Some(V::A(Rc::new(r)))
            }
            (V::A(_), _) | (_, V::A(_)) => None,
            (V::C(x), V::C(y)) => {
                if x == y { return Some(a.clone()); }
                let w = ty.bits();
                // addresses and (at first) lengths stay concrete
                let ptr = |k: u128| w == 64 && (1..=4).contains(&(k >> 60)) && (k & 0xffff_ffff) as u64 >= BASE_OFF / 2;
                if ptr(*x) || ptr(*y) || matches!(ty, Ty::Ptr) || w > 32 && !hard { return None; }
                Some(from_e(ite(cc, cst(*x, w), cst(*y, w))))
            }
            _ => { if matches!(ty, Ty::Ptr) { return None; } let w = ty.bits(); Some(from_e(ite(cc, to_e(a, w), to_e(b, w)))) }
        }
    }
    fn try_merge(&mut self, st: &mut State, e: E, v: bool, this: E, other: E, om: Rc<Model>, to: u32, oto: u32, j: u32, hard: bool) -> bool {
        let mut a = st.clone();
        self.assume(&mut a, this);
        self.learn(&mut a, e, v);
        let na = a.cons.len();
        let Some((av, al)) = self.arm(&mut a, to, j) else { return false };
        let mut b = st.clone();
        b.model = om;
        self.assume(&mut b, other);
        self.learn(&mut b, e, !v);
        let nb = b.cons.len();
        let Some((bv, bl)) = self.arm(&mut b, oto, j) else { return false };
        for (x, n) in [(&a, na), (&b, nb)] {
            if x.fresh != st.fresh || x.inputs.len() != st.inputs.len() || x.cons.len() != n || x.mem.stack.len() != st.mem.stack.len() || x.mem.heap.len() != st.mem.heap.len()
                || x.mem.heap_free != st.mem.heap_free || x.allow_panic != st.allow_panic || x.opaque != st.opaque || x.scratch != st.scratch { return false; }
        }
        let f = st.frames.last().unwrap().f;
        let phis = &f.blocks[j as usize].phis;
        let mut pv = vec![];
        for (i, p) in phis.iter().enumerate() { match self.join(st, this, &p.ty, &av[i], &bv[i], hard) { Some(x) => pv.push(x), None => return false } }
        let mut log: Vec<(u64, u64)> = al.into_iter().chain(bl).filter(|(p, _)| { let (k, id, _) = split(*p); k != KIND_STACK || (id as usize) < st.mem.stack.len() }).collect();
        log.sort(); log.dedup();
        if log.len() > 256 { return false; }
        let mut wr = vec![];
        for (p, n) in log {
            let mut o = 0;
            while o < n {
                let k = (n - o).min(8);
                let ty = Ty::Int(8 * k as u32);
                let (Ok(x), Ok(y)) = (self.load(&mut a, p + o, &ty), self.load(&mut b, p + o, &ty)) else { return false };
                match self.join(st, this, &ty, &x, &y, hard) { Some(z) => wr.push((p + o, ty, z)), None => return false }
                o += k;
            }
        }
        for (p, ty, z) in wr { if self.store(st, p, &ty, &z).is_err() { return false; } }
        {
            let fr = Rc::make_mut(st.frames.last_mut().unwrap());
            fr.prev = fr.bb; fr.bb = j; fr.ip = 0;
            for (p, x) in phis.iter().zip(pv) { fr.regs[p.dest as usize] = x; }
        }
        st.steps = st.steps.max(a.steps);
        true
    }
    fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last().unwrap();
        let f = fr.f;
        if fr.ip as usize >= f.blocks[fr.bb as usize].insts.len() { return Err(Stop::Err(format!("fell off block {} in {}", fr.bb, self.where_(st)))); }
        let (d, inst) = &f.blocks[fr.bb as usize].insts[fr.ip as usize];
        let d = *d;
        let v = match inst {
            I::Bin(op, ty, a, b) => {
                let (a, mut b) = (self.get(st, a), self.get(st, b));
                // shift distances are case split: the loops around bit packing then have concrete structure
                if matches!(op, Bin::Shl | Bin::LShr | Bin::AShr) { if let V::S(e) = &b { let e = *e; b = c(self.concretize(st, e)?); } }
                if let Ty::Vec(..) = ty { let op = *op; self.lanes2(ty, &a, &b, &mut |s, w, x, y| s.bin(op, w, x, y))? } else { self.bin(*op, ty.bits(), &a, &b)? }
            }
            I::FNeg(ty, a) => {
                let a = self.get(st, a);
                self.lanes2(ty, &a, &a, &mut |_, w, x, _| Ok(from_e(xor(to_e(x, w), cst(1u128 << (w - 1), w)))))?
            }
            I::ICmp(p, ty, a, b) => {
                let (a, b) = (self.get(st, a), self.get(st, b));
                if let Ty::Vec(..) = ty { let p = *p; self.lanes2(ty, &a, &b, &mut |s, w, x, y| Ok(s.icmp(p, w, x, y)))? } else { self.icmp(*p, ty.bits(), &a, &b) }
            }
            I::FCmp(p, ty, a, b) => {
                let (a, b) = (self.get(st, a), self.get(st, b));
                let p = *p;
                self.lanes2(ty, &a, &b, &mut |s, w, x, y| Ok(s.fcmp(p, w, x, y)))?
            }
            I::Cast(k, t, t2, a) => {
                let a = self.get(st, a);
                match (k, t, t2) {
                    (Cast::Bit, _, _) => { if t.is_scalar() && t2.is_scalar() { a } else { let e = self.to_bits(&a, t); self.from_bits(e, t2) } }
                    (_, Ty::Vec(_, x), Ty::Vec(_, y)) => {
                        let V::A(vs) = &a else { return Err(Stop::Err("vector cast".into())) };
                        let mut r = vec![];
                        for q in vs.iter() { r.push(self.cast1(*k, x.bits(), y.bits(), q)?); }
                        V::A(Rc::new(r))
                    }
                    _ => self.cast1(*k, t.bits(), t2.bits(), &a)?,
                }
            }
            I::Select(ct, ty, cc, a, b) => {
                let cv = self.get(st, cc);
                let (a, b) = (self.get(st, a), self.get(st, b));
                match (&cv, ct) {
                    (V::C(k), _) => if *k & 1 == 1 { a } else { b },
                    (V::A(cs), Ty::Vec(..)) => {
                        let (V::A(x), V::A(y)) = (&a, &b) else { return Err(Stop::Err("vector select".into())) };
                        let Ty::Vec(_, t) = ty else { return Err(Stop::Err("vector select".into())) };
                        let w = t.bits();
                        V::A(Rc::new((0..x.len()).map(|i| match &cs[i] { V::C(k) => if *k & 1 == 1 { x[i].clone() } else { y[i].clone() }, V::S(e) => from_e(ite(*e, to_e(&x[i], w), to_e(&y[i], w))), _ => panic!() }).collect()))
                    }
                    (V::S(e), _) => {
                        let e2 = self.simp(st, *e);
                        let kn = if matches!(ty, Ty::F32 | Ty::F64) { self.implied(st, e2)? } else { self.known(st, e2) };
                        match kn { Some(true) => a, Some(false) => b, None => self.merge(st, e2, ty, &a, &b)? }
                    }
                    _ => return Err(Stop::Err("select".into())),
                }
            }
            I::Load(ty, p) => { let p = self.get(st, p); let a = self.conc(st, &p)? as u64; self.load(st, a, ty)? }
            I::Store(ty, v, p) => {
                let (v, p) = (self.get(st, v), self.get(st, p));
                let a = self.conc(st, &p)? as u64;
                self.store(st, a, ty, &v)?;
                self.next(st);
                return Ok(());
            }
            I::Alloca(sz, n, _) => { let n = self.get(st, n); let n = self.conc(st, &n)? as u64; c(st.mem.alloca(sz * n) as u128) }
            I::Gep(b, off, idx) => {
                let b = self.get(st, b);
                let mut cur = self.bin(Bin::Add, 64, &b, &c(*off as u64 as u128))?;
                for (o, w, s) in idx {
                    let v = self.get(st, o);
                    let v = self.cast1(if *w > 64 { Cast::Trunc } else { Cast::SExt }, *w, 64, &v)?;
                    let v = self.bin(Bin::Mul, 64, &v, &c(*s as u64 as u128))?;
                    cur = self.bin(Bin::Add, 64, &cur, &v)?;
                }
                cur
            }
            I::ExtractV(a, path) => {
                let mut v = self.get(st, a);
                for i in path { v = match &v { V::A(x) => x[*i as usize].clone(), V::C(_) => c(0), _ => return Err(Stop::Err("extractvalue".into())) }; }
                v
            }
            I::InsertV(a, v, path) => {
                fn ins(a: &V, v: V, path: &[u32]) -> V { if path.is_empty() { return v; } let V::A(x) = a else { panic!("insertvalue") }; let mut x = (**x).clone(); let k = path[0] as usize; x[k] = ins(&x[k], v, &path[1..]); V::A(Rc::new(x)) }
                let (a, v) = (self.get(st, a), self.get(st, v));
                ins(&a, v, path)
            }
            I::ExtractE(a, i) => { let (a, i) = (self.get(st, a), self.get(st, i)); let i = self.conc(st, &i)? as usize; let V::A(x) = a else { return Err(Stop::Err("extractelement".into())) }; x.get(i).cloned().unwrap_or(c(0)) }
            I::InsertE(a, v, i) => { let (a, v, i) = (self.get(st, a), self.get(st, v), self.get(st, i)); let i = self.conc(st, &i)? as usize; let V::A(x) = a else { return Err(Stop::Err("insertelement".into())) }; let mut x = (*x).clone(); if i < x.len() { x[i] = v; } V::A(Rc::new(x)) }
            I::Shuffle(n, a, b, m) => {
                let (V::A(x), V::A(y)) = (self.get(st, a), self.get(st, b)) else { return Err(Stop::Err("shuffle".into())) };
                V::A(Rc::new(m.iter().map(|i| { let i = *i as u64; if i < *n { x[i as usize].clone() } else { y[(i - n) as usize].clone() } }).collect()))
            }
            I::Freeze(a) => self.get(st, a),
            I::Nop => { self.next(st); return Ok(()); }
            I::CmpXchg(ty, p, a, b) => {
                let (p, a, b) = (self.get(st, p), self.get(st, a), self.get(st, b));
                let ad = self.conc(st, &p)? as u64;
                let old = self.load(st, ad, ty)?;
                let q = self.icmp(Pred::Eq, ty.bits(), &old, &a);
                let t = self.truth(st, &q)?;
                if t { self.store(st, ad, ty, &b)?; }
                V::A(Rc::new(vec![old, c(t as u128)]))
            }
            I::AtomicRmw(op, ty, p, v) => {
                let (p, v) = (self.get(st, p), self.get(st, v));
                let ad = self.conc(st, &p)? as u64;
                let old = self.load(st, ad, ty)?;
                let w = ty.bits();
                let new = match op {
                    Rmw::Xchg => v, Rmw::Add => self.bin(Bin::Add, w, &old, &v)?, Rmw::Sub => self.bin(Bin::Sub, w, &old, &v)?, Rmw::And => self.bin(Bin::And, w, &old, &v)?,
                    Rmw::Or => self.bin(Bin::Or, w, &old, &v)?, Rmw::Xor => self.bin(Bin::Xor, w, &old, &v)?,
                    _ => return Err(Stop::Err("atomicrmw kind".into())),
                };
                self.store(st, ad, ty, &new)?;
                old
            }
            I::Br(l) => { self.jump(st, *l); return Ok(()); }
            I::CondBr(cc, t, f) => {
                let v = self.get(st, cc);
                let (t, f) = (*t, *f);
                let b = match v {
                    V::C(k) => k & 1 == 1,
                    V::S(e) => match self.branch(st, e, t, f)? { Some(b) => b, None => return Ok(()) },
                    _ => return Err(Stop::Err("vector condition".into())),
                };
                self.jump(st, if b { t } else { f });
                return Ok(());
            }
            I::Switch(w, v, dflt, cases) => {
                let v = self.get(st, v);
                let to = match v {
                    V::C(k) => cases.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*dflt),
                    V::S(e) => {
                        let e = self.simp(st, e);
                        let mut to = *dflt;
                        if let Some(k) = as_const(e) { to = cases.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*dflt); } else {
                            for (k, l) in cases { let q = eq(e, cst(*k, *w)); if self.decide(st, q)? { to = *l; break; } }
                        }
                        to
                    }
                    _ => return Err(Stop::Err("switch".into())),
                };
                self.jump(st, to);
                return Ok(());
            }
            I::Ret(None) => return self.ret(st, None),
            I::Ret(Some((_, v))) => { let v = self.get(st, v); return self.ret(st, Some(v)); }
            I::Unreachable => { let w = self.where_(st); return Err(Stop::Err(format!("unreachable executed in {}", w))); }
            I::Unsupported(s) => { let w = self.where_(st); return Err(Stop::Err(format!("unsupported instruction `{}` in {}", s, w))); }
            I::Call(callee, args, rty, inv) => {
                let fid = match callee {
                    Callee::Direct(f) => *f,
                    Callee::Asm => { self.finish_call(st, d, *inv, None); return Ok(()); }
                    Callee::Indirect(o) => {
                        let p = self.get(st, o);
                        let a = self.conc(st, &p)? as u64;
                        if a >> 60 != KIND_FUNC { return Err(self.mem_err(st, &format!("call through invalid pointer {:#x}", a))); }
                        ((a & 0x0fff_ffff_ffff_ffff) >> 8) as u32
                    }
                };
                let h = self.hook(fid);
                if self.spec > 0 && !h.pure() { return Err(no_fork()); }
                if let crate::hooks::Hook::None = h {
                    let av: Vec<V> = args.iter().map(|(_, o)| self.get(st, o)).collect();
                    if inv.is_none() { self.next(st); }
                    if self.cfg.trace { eprintln!("{:indent$}{} {}", "", self.m.funcs[fid as usize].dem, av.iter().map(|v| match v { V::C(k) => format!("{:#x}", k), V::S(e) => show(*e, 3), _ => "agg".into() }).collect::<Vec<_>>().join(", "), indent = st.frames.len()); }
                    return self.push_call(st, fid, &av, d, *inv);
                }
                let av: Vec<V> = args.iter().map(|(_, o)| self.get(st, o)).collect();
                let tys: Vec<Ty> = args.iter().map(|(t, _)| t.clone()).collect();
                let r = self.run_hook(st, fid, h, &av, &tys, rty)?;
                self.finish_call(st, d, *inv, r);
                return Ok(());
            }
        };
        self.set(st, d, v);
        self.next(st);
        Ok(())
    }
    pub fn run(&mut self) -> String {
        self.sat.run_deadline = Some(self.t0 + std::time::Duration::from_secs_f64(self.cfg.timeout));
        let entry = self.cfg.entry.clone();
        let mut status = "complete".to_string();
        match self.m.fidx.get(&entry).cloned() {
            None => { status = "error".into(); *self.errors.entry(format!("entry {} not found", entry)).or_insert(0) += 1; }
            Some(fid) => {
                let mut st = State {
                    frames: vec![], mem: Mem { globals: Default::default(), heap: vec![], heap_free: vec![], stack: vec![] }, cons: Default::default(), known: Default::default(), subst: Default::default(),
                    smemo: Default::default(), model: Rc::new(Model::new(Default::default())), inputs: vec![], fresh: 0, allow_panic: false, opaque: 0, steps: 0, scratch: Default::default(),
                };
                let args: Vec<V> = self.cfg.args.iter().map(|a| c(*a as u128)).collect();
                if let Err(Stop::Err(s)) = self.push_call(&mut st, fid, &args, u32::MAX, None) { *self.errors.entry(s).or_insert(0) += 1; } else { self.work.push(st); }
                'outer: while let Some(mut st) = self.work.pop() {
                    if self.paths >= self.cfg.max_paths { status = "incomplete".into(); *self.errors.entry("path limit".into()).or_insert(0) += 1; break; }
                    let mut k = 0u32;
                    loop {
                        self.steps += 1; st.steps += 1;
                        k = k.wrapping_add(1);
                        if k & 0xfff == 0 {
                            if self.t0.elapsed().as_secs_f64() > self.cfg.timeout { status = "incomplete".into(); *self.errors.entry(format!("time limit with {} states pending, at {}", self.work.len() + 1, self.where_(&st))).or_insert(0) += 1; break 'outer; }
                            if st.steps > self.cfg.max_steps { *self.errors.entry("step limit on a path".into()).or_insert(0) += 1; self.paths += 1; break; }
                        }
                        match self.step(&mut st) {
                            Ok(()) => {}
                            Err(Stop::End) => { self.paths += 1; break; }
                            Err(Stop::Kill) => { self.killed += 1; break; }
                            Err(Stop::Bad) => { self.paths += 1; self.panicked += 1; break; }
                            Err(Stop::Err(s)) => { self.paths += 1; *self.errors.entry(s).or_insert(0) += 1; break; }
                        }
                    }
                    if self.t0.elapsed().as_secs_f64() > self.cfg.timeout { status = "incomplete".into(); *self.errors.entry(format!("time limit with {} states pending", self.work.len())).or_insert(0) += 1; break 'outer; }
                }
            }
        }
        if status == "complete" && !self.errors.is_empty() { status = "error".into(); }
        self.report(&status)
    }
    fn report(&self, status: &str) -> String {
        fn q(s: &str) -> String { let mut o = String::from("\""); for ch in s.chars() { match ch { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", x if (x as u32) < 32 => o += " ", x => o.push(x) } } o.push('"'); o }
        let ins = |v: &Vec<(u32, u128)>| format!("[{}]", v.iter().map(|(w, x)| format!("[{},\"{:x}\"]", w, x)).collect::<Vec<_>>().join(","));
        let mut s = String::from("{\n");
        s += &format!("\"status\":{},\n\"entry\":{},\n\"args\":{:?},\n", q(status), q(&self.cfg.entry), self.cfg.args);
        s += &format!("\"paths\":{},\"killed\":{},\"panic_paths\":{},\"forks\":{},\"instructions\":{},\n", self.paths, self.killed, self.panicked, self.forks, self.steps);
let (z, zs) = (&self.z3, &self.sat);
        s += &format!("\"solver\":{{\"queries\":{},\"z3_queries\":{},\"sat_queries\":{},\"kissat_calls\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"branch_decisions\":{},\"time_s\":{:.3},\"max_s\":{:.3},\"max_cone\":{},\"gates\":{},\"truth_tables\":{},\"conflicts\":{},\"crosschecked_with_z3\":{},\"crosscheck_open\":{},\"joined_branches\":{}}},\n", zs.queries + if self.cfg.solver == "z3" { z.queries } else { 0 }, z.queries, zs.queries, zs.kissat_calls, zs.sat + if self.cfg.solver == "z3" { z.sat } else { 0 }, zs.unsat + if self.cfg.solver == "z3" { z.unsat } else { 0 }, zs.unknown + if self.cfg.solver == "z3" { z.unknown } else { 0 }, self.qcache_hits, self.branch_queries, z.time + zs.time, z.max_time.max(zs.max_time), zs.max_cone, zs.gates.len(), zs.gates.tables, zs.conflicts, self.cross_ok, self.cross_open, self.merges);
        s += &format!("\"asserts\":{{{}}},\n", self.asserts.iter().map(|(k, a)| format!("\"{}\":{{\"by_simplifier\":{},\"by_solver\":{},\"failed\":{}}}", k, a.by_simplifier, a.by_solver, a.failed)).collect::<Vec<_>>().join(","));
        s += &format!("\"covers\":{{{}}},\n", self.covers.iter().map(|(k, a)| format!("\"{}\":{{\"count\":{},\"inputs\":{}}}", k, a.0, ins(&a.1))).collect::<Vec<_>>().join(","));
        s += &format!("\"errors\":{{{}}},\n", self.errors.iter().map(|(k, a)| format!("{}:{}", q(k), a)).collect::<Vec<_>>().join(","));
        s += &format!("\"notes\":{{{}}},\n", self.notes.iter().map(|(k, a)| format!("{}:{}", q(k), a)).collect::<Vec<_>>().join(","));
        s += &format!("\"violation_counts\":[{}],\n", self.vkeys.iter().map(|((k, i), n)| format!("[{},{},{}]", q(k), q(i), n)).collect::<Vec<_>>().join(","));
        s += &format!("\"violations\":[{}],\n", self.violations.iter().map(|v| format!("{{\"kind\":{},\"id\":{},\"detail\":{},\"inputs\":{},\"stack\":[{}]}}", q(&v.kind), q(&v.id), q(&v.detail), ins(&v.inputs), v.stack.iter().map(|x| q(x)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",\n"));
        let mut fns: Vec<(String, u64)> = vec![];
        for (i, n) in self.executed.iter().enumerate() { if *n > 0 { let d = &self.m.funcs[i].dem; if d.contains("tmf::") { fns.push((d.clone(), *n)); } } }
        fns.sort(); fns.dedup_by(|a, b| a.0 == b.0);
        s += &format!("\"functions_total\":{},\n\"functions\":[{}],\n", self.executed.iter().filter(|x| **x > 0).count(), fns.iter().map(|(k, _)| q(k)).collect::<Vec<_>>().join(","));
        s += &format!("\"wall_s\":{:.3}\n}}\n", self.t0.elapsed().as_secs_f64());
        s
    }
}

//! Parser for textual LLVM IR (opaque pointers). Function bodies are parsed on first use.
use crate::expr::{mask, FxMap, E};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), F32, F64, Ptr, Arr(u64, Rc<Ty>), Vec(u64, Rc<Ty>), Struct(Rc<Vec<Ty>>, bool), Other }
impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => { let b = ((*w as u64) + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::F32 => 4, Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::Struct(f, packed) => {
                let mut o = 0; let mut al = 1;
                for t in f.iter() { if !packed { let a = t.align(); o = (o + a - 1) / a * a; al = al.max(a); } o += t.size(); }
                (o + al - 1) / al * al
            }
        }
    }
    /// number of bytes actually touched by a load or store
    pub fn store_size(&self) -> u64 { match self { Ty::Int(w) => ((*w as u64) + 7) / 8, _ => self.size() } }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::F32 => 4, Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => { let s = self.size().max(1); s.next_power_of_two() }
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
        }
    }
    pub fn bits(&self) -> u32 { match self { Ty::Int(w) => *w, Ty::F32 => 32, Ty::F64 | Ty::Ptr => 64, _ => (self.size() * 8) as u32 } }
    pub fn field_off(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    if k as u64 == i { return (o, t.clone()); }
                    o += t.size();
                }
                panic!("field_off")
            }
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Ptr) }
    /// element type (for vectors) and lane count
    pub fn lane(&self) -> (u32, Option<u64>) { match self { Ty::Vec(n, t) => (t.bits(), Some(*n)), _ => (self.bits(), None) } }
}

#[derive(Clone, Debug)]
pub enum V { C(u128), S(E), A(Rc<Vec<V>>) }

#[derive(Clone, Debug)]
pub enum Opd { R(u32), C(V) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, FPTrunc, FPExt, FPToUI, FPToSI, UIToFP, SIToFP, Bit }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw { Xchg, Add, Sub, And, Or, Xor, Nand, Max, Min, UMax, UMin }
#[derive(Clone, Debug)]
pub enum Callee { Direct(u32), Indirect(Opd), Asm }
#[derive(Clone, Debug)]
pub enum I {
    Bin(Bin, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    ICmp(Pred, Ty, Opd, Opd),
    FCmp(FPred, Ty, Opd, Opd),
    Cast(Cast, Ty, Ty, Opd),
    Select(Ty, Ty, Opd, Opd, Opd),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Alloca(u64, Opd, u64),
    Gep(Opd, i64, Vec<(Opd, u32, i64)>),
    ExtractV(Opd, Vec<u32>),
    InsertV(Opd, Opd, Vec<u32>),
    ExtractE(Opd, Opd),
    InsertE(Opd, Opd, Opd),
    Shuffle(u64, Opd, Opd, Vec<i64>),
    Call(Callee, Vec<(Ty, Opd)>, Ty, Option<u32>),
    CmpXchg(Ty, Opd, Opd, Opd),
    AtomicRmw(Rmw, Ty, Opd, Opd),
    Freeze(Opd),
    Nop,
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    Unsupported(String),
}
#[derive(Debug)]
pub struct Phi { pub dest: u32, pub ty: Ty, pub inc: Vec<(u32, Opd)> }
#[derive(Debug, Default)]
pub struct Block { pub phis: Vec<Phi>, pub insts: Vec<(u32, I)> }
pub struct Func { pub id: u32, pub params: Vec<u32>, pub blocks: Vec<Block>, pub nregs: u32 }

pub struct Decl { pub name: String, pub dem: String, pub body: Option<(usize, usize)>, pub parsed: Option<&'static Func> }
pub struct Global { pub name: String, pub ty: Ty, pub init: (usize, usize), pub constant: bool, pub external: bool }
pub struct Module {
    pub text: &'static str,
    pub funcs: Vec<Decl>,
    pub fidx: FxMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: FxMap<String, u32>,
    pub aliases: FxMap<String, (usize, usize)>,
    pub types: FxMap<String, (usize, usize)>,
}
pub const KIND_GLOBAL: u64 = 1;
pub const KIND_HEAP: u64 = 2;
pub const KIND_STACK: u64 = 3;
pub const KIND_FUNC: u64 = 4;
pub const BASE_OFF: u64 = 0x10000;
pub fn gaddr(i: u32) -> u64 { (KIND_GLOBAL << 60) | ((i as u64) << 32) | BASE_OFF }
pub fn faddr(i: u32) -> u64 { (KIND_FUNC << 60) | ((i as u64) << 8) }

struct P<'a> { s: &'a [u8], i: usize }
fn idch(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }
impl<'a> P<'a> {
    fn ws(&mut self) { while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') { self.i += 1; } }
    fn peek(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        let b = t.as_bytes();
        if self.s[self.i..].starts_with(b) {
            let last = b[b.len() - 1];
            if idch(last) && self.i + b.len() < self.s.len() && idch(self.s[self.i + b.len()]) { return false; }
            self.i += b.len();
            return true;
        }
        false
    }
    fn expect(&mut self, t: &str) { if !self.eat(t) { panic!("expected {:?} at: {}", t, self.rest(120)); } }
    fn rest(&self, n: usize) -> String { String::from_utf8_lossy(&self.s[self.i.min(self.s.len())..(self.i + n).min(self.s.len())]).to_string() }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && idch(self.s[self.i]) { self.i += 1; }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str { let k = self.i; let w = self.word(); self.i = k; w }
    /// name after % or @
    fn name(&mut self) -> String {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            self.i += 1; let st = self.i;
            while self.s[self.i] != b'"' { self.i += 1; }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).to_string();
            self.i += 1; r
        } else { let st = self.i; while self.i < self.s.len() && idch(self.s[self.i]) { self.i += 1; } String::from_utf8_lossy(&self.s[st..self.i]).to_string() }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.s[self.i] { b'(' => d += 1, b')' => { d -= 1; if d == 0 { self.i += 1; return; } } b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } } _ => {} }
            self.i += 1;
        }
    }
    fn num(&mut self) -> i128 {
        let w = self.word();
        w.parse::<i128>().unwrap_or_else(|_| panic!("bad number {:?} at {}", w, self.rest(60)))
    }
}
fn parse_float(w: &str, ty: &Ty) -> u128 {
    if let Some(h) = w.strip_prefix("f0x") { return u128::from_str_radix(h, 16).unwrap(); }
    let d = if let Some(h) = w.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else {
        match w { "+inf" => f64::INFINITY, "-inf" => f64::NEG_INFINITY, "+qnan" | "nan" | "+nan" => f64::NAN, "-qnan" | "-nan" => -f64::NAN, _ => w.parse().unwrap_or_else(|_| panic!("float {}", w)) }
    };
    if *ty == Ty::F32 { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 }
}

const VAL_KW: &[&str] = &["true", "false", "null", "undef", "poison", "zeroinitializer", "none", "getelementptr", "ptrtoint", "ptrtoaddr", "inttoptr", "bitcast", "trunc", "add", "sub", "xor", "splat", "blockaddress", "asm", "dso_local_equivalent", "no_cfi"];

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).unwrap_or_else(|e| { eprintln!("cannot read {}: {}", path, e); std::process::exit(70) }).into_boxed_str());
        let mut m = Module { text, funcs: vec![], fidx: Default::default(), globals: vec![], gidx: Default::default(), aliases: Default::default(), types: Default::default() };
        let b = text.as_bytes();
        let mut pos = 0;
        let mut infn: Option<(u32, usize)> = None;
        let mut gl: Vec<(usize, usize)> = vec![];
        while pos < b.len() {
            let e = text[pos..].find('\n').map(|x| pos + x).unwrap_or(b.len());
            let l = &text[pos..e];
            if let Some((f, st)) = infn {
                if l == "}" { m.funcs[f as usize].body = Some((st, pos)); infn = None; }
            } else if l.starts_with("define ") || l.starts_with("declare ") {
                let at = l.find('@').unwrap();
                let mut p = P { s: l.as_bytes(), i: at + 1 };
                let name = p.name();
                let id = m.func_id(&name);
                if l.starts_with("define ") { infn = Some((id, pos)); }
            } else if l.starts_with('@') {
                gl.push((pos, e));
            } else if l.starts_with('%') {
                let mut p = P { s: l.as_bytes(), i: 1 };
                let name = p.name();
                let k = l.find(" type ").unwrap();
                m.types.insert(name, (pos + k + 6, e));
            }
            pos = e + 1;
        }
        for (s, e) in gl {
            let l = &text[s..e];
            let mut p = P { s: l.as_bytes(), i: 1 };
            let name = p.name();
            p.expect("=");
            let mut external = false;
            loop {
                let w = p.peek_word();
                match w {
                    "global" | "constant" => {
                        p.word();
                        let constant = w == "constant";
                        let ty = m.ty(&mut p);
                        let id = m.globals.len() as u32;
                        m.gidx.insert(name.clone(), id);
                        p.ws();
                        m.globals.push(Global { name, ty, init: (s + p.i, e), constant, external });
                        break;
                    }
                    "alias" | "ifunc" => {
                        p.word();
                        let _ = m.ty(&mut p);
                        p.expect(",");
                        p.ws();
                        m.aliases.insert(name, (s + p.i, e));
                        break;
                    }
                    "external" | "extern_weak" => { external = true; p.word(); }
                    "" => panic!("global {}", &l[..l.len().min(200)]),
                    _ => { p.word(); if p.peek() == b'(' { p.skip_parens(); } }
                }
            }
        }
        m
    }
    pub fn func_id(&mut self, name: &str) -> u32 {
        if let Some(i) = self.fidx.get(name) { return *i; }
        let i = self.funcs.len() as u32;
        self.fidx.insert(name.to_string(), i);
        self.funcs.push(Decl { name: name.to_string(), dem: crate::demangle::demangle(name), body: None, parsed: None });
        i
    }
    fn ty(&mut self, p: &mut P) -> Ty {
        p.ws();
        match p.s[p.i] {
            b'[' => { p.i += 1; let n = p.num() as u64; p.expect("x"); let t = self.ty(p); p.expect("]"); Ty::Arr(n, Rc::new(t)) }
            b'<' => {
                p.i += 1;
                if p.peek() == b'{' { p.i += 1; let f = self.fields(p); p.expect(">"); return Ty::Struct(Rc::new(f), true); }
                let n = p.num() as u64; p.expect("x"); let t = self.ty(p); p.expect(">"); Ty::Vec(n, Rc::new(t))
            }
            b'{' => { p.i += 1; let f = self.fields(p); Ty::Struct(Rc::new(f), false) }
            b'%' => {
                p.i += 1;
                let n = p.name();
                let (s, e) = self.types[&n];
                let mut q = P { s: &self.text.as_bytes()[..e], i: s };
                self.ty(&mut q)
            }
            _ => {
                let w = p.word();
                match w {
                    "void" => Ty::Void, "float" => Ty::F32, "double" => Ty::F64,
                    "ptr" => { let k = p.i; if p.eat("addrspace") { p.ws(); p.skip_parens(); } else { p.i = k; } Ty::Ptr }
                    "metadata" | "label" | "token" | "x86_fp80" | "fp128" | "half" | "bfloat" | "opaque" => Ty::Other,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {} at {}", w, p.rest(80)))),
                    _ => panic!("type {:?} at {}", w, p.rest(80)),
                }
            }
        }
    }
    fn fields(&mut self, p: &mut P) -> Vec<Ty> {
        let mut f = vec![];
        if p.peek() == b'}' { p.i += 1; return f; }
        loop { f.push(self.ty(p)); if p.eat(",") { continue; } p.expect("}"); return f; }
    }
    fn zero(ty: &Ty) -> V {
        match ty {
            Ty::Arr(n, t) | Ty::Vec(n, t) => V::A(Rc::new(vec![Self::zero(t); *n as usize])),
            Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(Self::zero).collect())),
            _ => V::C(0),
        }
    }
    fn sym_addr(&mut self, n: &str) -> u64 {
        if let Some(g) = self.gidx.get(n) { return gaddr(*g); }
        if let Some((s, e)) = self.aliases.get(n).cloned() {
            let mut q = P { s: &self.text.as_bytes()[..e], i: s };
            let t = self.ty(&mut q);
            return match self.val(&mut q, &t, &mut None) { Opd::C(V::C(x)) => x as u64, _ => panic!("alias") };
        }
        let i = self.func_id(n);
        faddr(i)
    }
    fn cval(&mut self, p: &mut P, ty: &Ty) -> V { match self.val(p, ty, &mut None) { Opd::C(v) => v, _ => panic!("expected constant at {}", p.rest(80)) } }
    fn val(&mut self, p: &mut P, ty: &Ty, regs: &mut Option<&mut Regs>) -> Opd {
        let c = p.peek();
        match c {
            b'%' => { p.i += 1; let n = p.name(); return Opd::R(regs.as_mut().expect("register in constant").get(&n)); }
            b'@' => { p.i += 1; let n = p.name(); return Opd::C(V::C(self.sym_addr(&n) as u128)); }
            b'!' => { // metadata operand
                let mut d = 0;
                while p.i < p.s.len() { match p.s[p.i] { b'(' | b'{' => d += 1, b')' | b'}' if d == 0 => break, b')' | b'}' => d -= 1, b',' if d == 0 => break, b'"' => { p.i += 1; while p.s[p.i] != b'"' { p.i += 1; } } _ => {} } p.i += 1; }
                return Opd::C(V::C(0));
            }
            b'c' if p.i + 1 < p.s.len() && p.s[p.i + 1] == b'"' => {
                p.i += 2;
                let mut v = vec![];
                while p.s[p.i] != b'"' {
                    if p.s[p.i] == b'\\' {
                        if p.s[p.i + 1] == b'\\' { v.push(V::C(b'\\' as u128)); p.i += 2; continue; }
                        let h = std::str::from_utf8(&p.s[p.i + 1..p.i + 3]).unwrap();
                        v.push(V::C(u8::from_str_radix(h, 16).unwrap() as u128)); p.i += 3;
                    } else { v.push(V::C(p.s[p.i] as u128)); p.i += 1; }
                }
                p.i += 1;
                return Opd::C(V::A(Rc::new(v)));
            }
            b'[' | b'{' | b'<' => {
                let packed = c == b'<' && { let k = p.i; p.i += 1; let r = p.peek() == b'{'; p.i = k; r };
                p.i += 1;
                if packed { p.expect("{"); }
                let mut v = vec![];
                let close = if packed { "}" } else if c == b'[' { "]" } else if c == b'{' { "}" } else { ">" };
                if !p.eat(close) {
                    loop { let t = self.ty(p); v.push(self.val(p, &t, regs)); if p.eat(",") { continue; } p.expect(close); break; }
                }
                if packed { p.expect(">"); }
                return Opd::C(V::A(Rc::new(v.into_iter().map(|o| match o { Opd::C(v) => v, _ => panic!("reg in aggregate") }).collect())));
            }
            _ => {}
        }
        let w = p.word();
        match w {
            "true" => return Opd::C(V::C(1)),
            "false" | "null" | "none" => return Opd::C(V::C(0)),
            "undef" | "poison" | "zeroinitializer" => return Opd::C(Self::zero(ty)),
            "splat" => {
                p.expect("("); let t = self.ty(p); let v = self.cval(p, &t); p.expect(")");
                if let Ty::Vec(n, _) = ty { return Opd::C(V::A(Rc::new(vec![v; *n as usize]))); }
                panic!("splat")
            }
            "getelementptr" => {
                loop { if p.peek() == b'(' { break; } let w = p.word(); if w == "inrange" { p.ws(); p.skip_parens(); } if w.is_empty() { panic!("gep const {}", p.rest(80)); } }
                p.i += 1;
                let (b, o, idx) = self.gep(p, &mut None);
                p.expect(")");
                let mut a = match b { Opd::C(V::C(x)) => x as u64, _ => panic!() };
                a = a.wrapping_add(o as u64);
                for (v, w, s) in idx { if let Opd::C(V::C(x)) = v { a = a.wrapping_add((crate::expr::sext_to_i128(x, w) as i64).wrapping_mul(s) as u64); } }
                return Opd::C(V::C(a as u128));
            }
            "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "trunc" => {
                p.expect("("); let t = self.ty(p); let v = self.cval(p, &t); p.expect("to"); let t2 = self.ty(p); p.expect(")");
                return Opd::C(match v { V::C(x) => V::C(x & mask(t2.bits())), v => v });
            }
            "add" | "sub" | "xor" => {
                while p.peek() != b'(' { p.word(); }
                p.i += 1;
                let t = self.ty(p); let a = self.cval(p, &t); p.expect(","); let t2 = self.ty(p); let b = self.cval(p, &t2); p.expect(")");
                if let (V::C(a), V::C(b)) = (a, b) { return Opd::C(V::C(match w { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), _ => a ^ b } & mask(t.bits()))); }
                panic!()
            }
            "dso_local_equivalent" | "no_cfi" => { return self.val(p, ty, regs); }
            _ => {}
        }
        match ty {
            Ty::F32 | Ty::F64 => {
                // word() does not include '+'; handle exponents like 1.0e+01
                let mut s = w.to_string();
                while p.i < p.s.len() && p.s[p.i] == b'+' { p.i += 1; s.push('+'); s += p.word(); }
                Opd::C(V::C(parse_float(&s, ty)))
            }
            Ty::Int(b) => {
                if let Some(h) = w.strip_prefix("u0x").or(w.strip_prefix("s0x")) { return Opd::C(V::C(u128::from_str_radix(h, 16).unwrap() & mask(*b))); }
                let x: u128 = if w.starts_with('-') { w.parse::<i128>().unwrap_or_else(|_| panic!("int {:?} {}", w, p.rest(60))) as u128 } else { w.parse::<u128>().unwrap_or_else(|_| panic!("int {:?} {}", w, p.rest(60))) };
                Opd::C(V::C(x & mask(*b)))
            }
            _ => panic!("value {:?} of type {:?} at {}", w, ty, p.rest(100)),
        }
    }
    fn gep(&mut self, p: &mut P, regs: &mut Option<&mut Regs>) -> (Opd, i64, Vec<(Opd, u32, i64)>) {
        let bt = self.ty(p);
        p.expect(",");
        let pt = self.ty(p);
        let base = self.val(p, &pt, regs);
        let mut off: i64 = 0;
        let mut idx = vec![];
        let mut cur: Option<Ty> = None;
        loop {
            let k = p.i;
            if !p.eat(",") { break; }
            if p.peek() == b'!' { p.i = k; break; }
            let it = self.ty(p);
            let v = self.val(p, &it, regs);
            let (scale, next) = match &cur {
                None => (bt.size() as i64, bt.clone()),
                Some(Ty::Arr(_, t)) | Some(Ty::Vec(_, t)) => (t.size() as i64, (**t).clone()),
                Some(st @ Ty::Struct(..)) => {
                    if let Opd::C(V::C(x)) = v { let (o, t) = st.field_off(x as u64); off = off.wrapping_add(o as i64); cur = Some(t); continue; }
                    panic!("struct gep")
                }
                Some(t) => panic!("gep into {:?}", t),
            };
            match v {
                Opd::C(V::C(x)) => off = off.wrapping_add((crate::expr::sext_to_i128(x, it.bits()) as i64).wrapping_mul(scale)),
                v => idx.push((v, it.bits(), scale)),
            }
            cur = Some(next);
        }
        (base, off, idx)
    }
    pub fn global_init(&mut self, g: u32) -> V {
        let (s, e) = self.globals[g as usize].init;
        let ty = self.globals[g as usize].ty.clone();
        let mut p = P { s: &self.text.as_bytes()[..e], i: s };
        if self.globals[g as usize].external { return Self::zero(&ty); }
        self.cval(&mut p, &ty)
    }
    pub fn func(&mut self, id: u32) -> Option<&'static Func> {
        if let Some(f) = self.funcs[id as usize].parsed { return Some(f); }
        let (s, e) = self.funcs[id as usize].body?;
        let f: &'static Func = Box::leak(Box::new(self.parse_fn(id, s, e)));
        self.funcs[id as usize].parsed = Some(f);
        Some(f)
    }
    fn skip_attrs(&mut self, p: &mut P) {
        // parameter / return attributes before a value
        loop {
            p.ws();
            if p.i >= p.s.len() { return; }
            let c = p.s[p.i];
            if !(c.is_ascii_lowercase() || c == b'"' || c == b'#') { return; }
            if c == b'#' { p.i += 1; p.word(); continue; }
            if c == b'"' { p.i += 1; while p.s[p.i] != b'"' { p.i += 1; } p.i += 1; if p.eat("=") { p.expect("\""); while p.s[p.i] != b'"' { p.i += 1; } p.i += 1; } continue; }
            if c == b'c' && p.s[p.i + 1] == b'"' { return; }
            let k = p.i;
            let w = p.word();
            if VAL_KW.contains(&w) || w.starts_with("f0x") || w.starts_with("nan") || w.starts_with("u0x") || w.starts_with("s0x") { p.i = k; return; }
            if w == "align" { if p.peek() == b'(' { p.skip_parens(); } else { p.word(); } continue; }
            if p.i < p.s.len() && p.s[p.i] == b'(' { p.skip_parens(); }
        }
    }
    fn is_type_start(p: &mut P) -> bool {
        let c = p.peek();
        if c == b'[' || c == b'<' || c == b'{' || c == b'%' { return true; }
        let w = p.peek_word();
        matches!(w, "void" | "float" | "double" | "ptr" | "metadata" | "label" | "token" | "half" | "fp128" | "x86_fp80" | "bfloat") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
    }
    fn skip_to_type(&mut self, p: &mut P) {
        while !Self::is_type_start(p) {
            if p.peek() == b'"' || p.peek() == b'#' { p.i += 1; while p.s[p.i] != b'"' && p.s[p.i] != b' ' { p.i += 1; } if p.s[p.i] == b'"' { p.i += 1; } continue; }
            let w = p.word();
            if w.is_empty() { panic!("no type at {}", p.rest(100)); }
            if w == "align" && p.peek() != b'(' { p.word(); }
            if p.i < p.s.len() && p.s[p.i] == b'(' { p.skip_parens(); }
        }
    }
    fn parse_fn(&mut self, id: u32, s: usize, e: usize) -> Func {
        let text = self.text;
        let body = &text[s..e];
        let mut lines = body.split('\n');
        let head = lines.next().unwrap();
        let mut regs = Regs::default();
        // parameters
        let at = head.find('@').unwrap();
        let mut p = P { s: head.as_bytes(), i: at + 1 };
        p.name();
        p.expect("(");
        let mut params = vec![];
        let mut unnamed = 0;
        if !p.eat(")") {
            loop {
                if p.eat("...") { p.expect(")"); break; }
                let _t = self.ty(&mut p);
                self.skip_attrs(&mut p);
                if p.peek() == b'%' { p.i += 1; let n = p.name(); if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; } params.push(regs.get(&n)); }
                else { let n = unnamed.to_string(); unnamed += 1; params.push(regs.get(&n)); }
                if p.eat(",") { continue; }
                p.expect(")");
                break;
            }
        }
        // pass 1: gather logical lines and labels
        let mut labels: FxMap<String, u32> = Default::default();
        let mut blocks: Vec<Vec<String>> = vec![];
        let mut cur: Option<usize> = None;
        let mut it = lines.peekable();
        while let Some(l) = it.next() {
            if l.is_empty() || l.starts_with(';') { continue; }
            let b = l.as_bytes();
            if b[0] != b' ' && b[0] != b'\t' {
                // label
                let mut q = P { s: b, i: 0 };
                let n = q.name();
                labels.insert(n, blocks.len() as u32);
                blocks.push(vec![]);
                cur = Some(blocks.len() - 1);
                continue;
            }
            let t = l.trim_start();
            if t.starts_with(';') || t.starts_with('#') { continue; }
            if cur.is_none() { labels.insert(unnamed.to_string(), 0); blocks.push(vec![]); cur = Some(0); }
            let mut line = t.to_string();
            if t.starts_with("switch ") && !t.contains(']') {
                while let Some(x) = it.next() { line.push(' '); line += x.trim(); if x.trim_start().starts_with(']') { break; } }
            }
            if t.contains("invoke ") {
                if let Some(x) = it.peek() { if x.trim_start().starts_with("to label") { line.push(' '); line += x.trim(); it.next(); } }
            }
            if t.contains(" = landingpad ") {
                while let Some(x) = it.peek() { let y = x.trim_start(); if y.starts_with("cleanup") || y.starts_with("filter") || y.starts_with("catch") { it.next(); } else { break; } }
            }
            blocks[cur.unwrap()].push(line);
        }
        let mut out = vec![];
        for bl in &blocks {
            let mut b = Block::default();
            for l in bl { self.inst(l, &mut regs, &labels, &mut b); }
            out.push(b);
        }
        Func { id, params, blocks: out, nregs: regs.n }
    }
    fn typed(&mut self, p: &mut P, regs: &mut Regs) -> (Ty, Opd) {
        let t = self.ty(p);
        self.skip_attrs(p);
        let v = self.val(p, &t, &mut Some(regs));
        (t, v)
    }
    fn label(&mut self, p: &mut P, labels: &FxMap<String, u32>) -> u32 {
        p.expect("label"); p.expect("%");
        let n = p.name();
        *labels.get(&n).unwrap_or_else(|| panic!("label {}", n))
    }
    fn inst(&mut self, l: &str, regs: &mut Regs, labels: &FxMap<String, u32>, b: &mut Block) {
        let mut p = P { s: l.as_bytes(), i: 0 };
        let mut dest = u32::MAX;
        if p.peek() == b'%' { p.i += 1; let n = p.name(); p.expect("="); dest = regs.get(&n); }
        for t in ["tail", "musttail", "notail"] { if p.eat(t) { break; } }
        let op = p.word();
        let flags: &[&str] = &["nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "inbounds", "nusw", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "volatile", "atomic", "weak", "inalloca"];
        let i = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while flags.contains(&p.peek_word()) { p.word(); }
                let (t, a) = self.typed(&mut p, regs);
                p.expect(",");
                let c = self.val(&mut p, &t, &mut Some(regs));
                let o = match op { "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "udiv" => Bin::UDiv, "sdiv" => Bin::SDiv, "urem" => Bin::URem, "srem" => Bin::SRem, "shl" => Bin::Shl, "lshr" => Bin::LShr, "ashr" => Bin::AShr, "and" => Bin::And, "or" => Bin::Or, "xor" => Bin::Xor, "fadd" => Bin::FAdd, "fsub" => Bin::FSub, "fmul" => Bin::FMul, "fdiv" => Bin::FDiv, _ => Bin::FRem };
                I::Bin(o, t, a, c)
            }
            "fneg" => { while flags.contains(&p.peek_word()) { p.word(); } let (t, a) = self.typed(&mut p, regs); I::FNeg(t, a) }
            "icmp" => {
                while flags.contains(&p.peek_word()) { p.word(); }
                let pr = match p.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, _ => Pred::Sle };
                let (t, a) = self.typed(&mut p, regs);
                p.expect(",");
                let c = self.val(&mut p, &t, &mut Some(regs));
                I::ICmp(pr, t, a, c)
            }
            "fcmp" => {
                while flags.contains(&p.peek_word()) { p.word(); }
                use FPred::*;
                let pr = match p.word() { "false" => False, "oeq" => Oeq, "ogt" => Ogt, "oge" => Oge, "olt" => Olt, "ole" => Ole, "one" => One, "ord" => Ord, "ueq" => Ueq, "ugt" => Ugt, "uge" => Uge, "ult" => Ult, "ule" => Ule, "une" => Une, "uno" => Uno, _ => True };
                let (t, a) = self.typed(&mut p, regs);
                p.expect(",");
                let c = self.val(&mut p, &t, &mut Some(regs));
                I::FCmp(pr, t, a, c)
            }
            "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "addrspacecast" => {
                while flags.contains(&p.peek_word()) { p.word(); }
                let (t, a) = self.typed(&mut p, regs);
                p.expect("to");
                let t2 = self.ty(&mut p);
                let k = match op { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "fptrunc" => Cast::FPTrunc, "fpext" => Cast::FPExt, "fptoui" => Cast::FPToUI, "fptosi" => Cast::FPToSI, "uitofp" => Cast::UIToFP, "sitofp" => Cast::SIToFP,
                    "ptrtoint" | "ptrtoaddr" | "inttoptr" => if t.bits() > t2.bits() { Cast::Trunc } else { Cast::ZExt }, _ => Cast::Bit };
                I::Cast(k, t, t2, a)
            }
            "select" => {
                while flags.contains(&p.peek_word()) { p.word(); }
                let (ct, c) = self.typed(&mut p, regs);
                p.expect(",");
                let (t, a) = self.typed(&mut p, regs);
                p.expect(",");
                let (_, d) = self.typed(&mut p, regs);
                I::Select(ct, t, c, a, d)
            }
            "load" => {
                while flags.contains(&p.peek_word()) { p.word(); }
                let t = self.ty(&mut p);
                p.expect(",");
                let (_, a) = self.typed(&mut p, regs);
                I::Load(t, a)
            }
            "store" => {
                while flags.contains(&p.peek_word()) { p.word(); }
                let (t, v) = self.typed(&mut p, regs);
                p.expect(",");
                let (_, a) = self.typed(&mut p, regs);
                I::Store(t, v, a)
            }
            "alloca" => {
                while flags.contains(&p.peek_word()) { p.word(); }
                let t = self.ty(&mut p);
                let mut n = Opd::C(V::C(1));
                let mut al = 16;
                while p.eat(",") {
                    if p.eat("align") { al = p.num() as u64; } else if p.peek() == b'!' { break; } else { n = self.typed(&mut p, regs).1; }
                }
                I::Alloca(t.size(), n, al)
            }
            "getelementptr" => {
                while flags.contains(&p.peek_word()) { p.word(); }
                if p.eat("inrange") { p.skip_parens(); }
                let (a, o, x) = self.gep(&mut p, &mut Some(regs));
                I::Gep(a, o, x)
            }
            "extractvalue" => {
                let (_, a) = self.typed(&mut p, regs);
                let mut path = vec![];
                while p.eat(",") { if p.peek() == b'!' { break; } path.push(p.num() as u32); }
                I::ExtractV(a, path)
            }
            "insertvalue" => {
                let (_, a) = self.typed(&mut p, regs);
                p.expect(",");
                let (_, v) = self.typed(&mut p, regs);
                let mut path = vec![];
                while p.eat(",") { if p.peek() == b'!' { break; } path.push(p.num() as u32); }
                I::InsertV(a, v, path)
            }
            "extractelement" => { let (_, a) = self.typed(&mut p, regs); p.expect(","); let (_, x) = self.typed(&mut p, regs); I::ExtractE(a, x) }
            "insertelement" => { let (_, a) = self.typed(&mut p, regs); p.expect(","); let (_, v) = self.typed(&mut p, regs); p.expect(","); let (_, x) = self.typed(&mut p, regs); I::InsertE(a, v, x) }
            "shufflevector" => {
                let (t, a) = self.typed(&mut p, regs); p.expect(",");
                let (_, c) = self.typed(&mut p, regs); p.expect(",");
                let mt = self.ty(&mut p);
                let m = self.cval(&mut p, &mt);
                let n = if let Ty::Vec(n, _) = t { n } else { 0 };
                let mk = if let V::A(v) = m { v.iter().map(|x| if let V::C(c) = x { *c as i64 } else { 0 }).collect() } else { vec![] };
                I::Shuffle(n, a, c, mk)
            }
            "freeze" => { let (_, a) = self.typed(&mut p, regs); I::Freeze(a) }
            "fence" => I::Nop,
            "landingpad" => I::Unsupported("landingpad".into()),
            "resume" => I::Unsupported("resume".into()),
            "unreachable" => I::Unreachable,
            "ret" => { if p.peek_word() == "void" { I::Ret(None) } else { let (t, v) = self.typed(&mut p, regs); I::Ret(Some((t, v))) } }
            "br" => {
                if p.peek_word() == "label" { let l = self.label(&mut p, labels); I::Br(l) } else {
                    let (_, c) = self.typed(&mut p, regs);
                    p.expect(","); let t = self.label(&mut p, labels);
                    p.expect(","); let f = self.label(&mut p, labels);
                    I::CondBr(c, t, f)
                }
            }
            "switch" => {
                let (t, v) = self.typed(&mut p, regs);
                p.expect(","); let d = self.label(&mut p, labels);
                p.expect("[");
                let mut cases = vec![];
                while !p.eat("]") {
                    let ct = self.ty(&mut p);
                    let cv = self.cval(&mut p, &ct);
                    p.expect(","); let l = self.label(&mut p, labels);
                    if let V::C(x) = cv { cases.push((x, l)); }
                }
                I::Switch(t.bits(), v, d, cases)
            }
            "phi" => {
                while flags.contains(&p.peek_word()) { p.word(); }
                let t = self.ty(&mut p);
                let mut inc = vec![];
                loop {
                    p.expect("[");
                    let v = self.val(&mut p, &t, &mut Some(regs));
                    p.expect(","); p.expect("%");
                    let n = p.name();
                    p.expect("]");
                    inc.push((labels[&n], v));
                    let k = p.i;
                    if p.eat(",") { if p.peek() == b'[' { continue; } p.i = k; }
                    break;
                }
                b.phis.push(Phi { dest, ty: t, inc });
                return;
            }
            "call" | "invoke" => {
                while flags.contains(&p.peek_word()) { p.word(); }
                self.skip_to_type(&mut p);
                let ret = self.ty(&mut p);
                if p.peek() == b'(' { p.skip_parens(); } // vararg function type
                let callee = if p.eat("asm") {
                    Callee::Asm
                } else if p.peek() == b'@' { p.i += 1; let n = p.name();
                    match self.sym_addr(&n) { a if a >> 60 == KIND_FUNC => Callee::Direct(((a & 0x0fff_ffff_ffff_ffff) >> 8) as u32), a => Callee::Indirect(Opd::C(V::C(a as u128))) } }
                else { let o = self.val(&mut p, &Ty::Ptr, &mut Some(regs)); Callee::Indirect(o) };
                if let Callee::Asm = callee {
                    // asm [sideeffect] "..", "..."(args)
                    while p.peek() != b'(' { if p.peek() == b'"' { p.i += 1; while p.s[p.i] != b'"' { p.i += 1; } p.i += 1; } else { p.i += 1; } }
                }
                p.expect("(");
                let mut args = vec![];
                if !p.eat(")") {
                    loop {
                        let t = self.ty(&mut p);
                        if t == Ty::Other { self.val(&mut p, &t, &mut None); args.push((t, Opd::C(V::C(0)))); }
                        else { self.skip_attrs(&mut p); let v = self.val(&mut p, &t, &mut Some(regs)); args.push((t, v)); }
                        if p.eat(",") { continue; }
                        p.expect(")");
                        break;
                    }
                }
                let mut inv = None;
                if op == "invoke" {
                    while !p.eat("to") { let w = p.peek(); if w == b'#' { p.i += 1; } else if w == b'[' { while p.s[p.i] != b']' { p.i += 1; } p.i += 1; } let w = p.word(); if w.is_empty() && p.peek() == b'(' { p.skip_parens(); } }
                    inv = Some(self.label(&mut p, labels));
                }
                I::Call(callee, args, ret, inv)
            }
            "cmpxchg" => {
                while flags.contains(&p.peek_word()) { p.word(); }
                let (_, a) = self.typed(&mut p, regs); p.expect(",");
                let (t, x) = self.typed(&mut p, regs); p.expect(",");
                let (_, y) = self.typed(&mut p, regs);
                I::CmpXchg(t, a, x, y)
            }
            "atomicrmw" => {
                while flags.contains(&p.peek_word()) { p.word(); }
                let o = match p.word() { "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "or" => Rmw::Or, "xor" => Rmw::Xor, "nand" => Rmw::Nand, "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin, x => panic!("rmw {}", x) };
                let (_, a) = self.typed(&mut p, regs); p.expect(",");
                let (t, v) = self.typed(&mut p, regs);
                I::AtomicRmw(o, t, a, v)
            }
            _ => I::Unsupported(l.to_string()),
        };
        b.insts.push((dest, i));
    }
}
#[derive(Default)]
pub struct Regs { map: FxMap<String, u32>, pub n: u32 }
impl Regs {
    fn get(&mut self, n: &str) -> u32 {
        if let Some(i) = self.map.get(n) { return *i; }
        let i = self.n; self.n += 1;
        self.map.insert(n.to_string(), i);
        i
    }
}

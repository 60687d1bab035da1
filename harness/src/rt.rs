//! Harness primitives. In the symbolic build they are undefined externals interpreted by symex; with the
//! `native` feature they replay a concrete input vector against the natively compiled code.
#[cfg(not(feature = "native"))]
mod ext {
    extern "C" {
        pub fn sym_u8(id: u32) -> u8;
        pub fn sym_u16(id: u32) -> u16;
        pub fn sym_u32(id: u32) -> u32;
        pub fn sym_u64(id: u32) -> u64;
        pub fn sym_bits(n: u32) -> u32;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, id: u32);
        pub fn sym_cover(id: u32);
        pub fn sym_conc(v: u64) -> u64;
        pub fn sym_allow_panic(b: bool);
        pub fn sym_opt(k: u32, v: u32);
    }
}
#[cfg(feature = "native")]
pub mod ext {
    use std::cell::RefCell;
    thread_local! { pub static IN: RefCell<(Vec<u64>, usize)> = RefCell::new((vec![], 0)); }
    fn next() -> u64 { IN.with(|i| { let mut i = i.borrow_mut(); let p = i.1; i.1 += 1; i.0.get(p).copied().unwrap_or(0) }) }
    pub unsafe fn sym_u8(_: u32) -> u8 { next() as u8 }
    pub unsafe fn sym_u16(_: u32) -> u16 { next() as u16 }
    pub unsafe fn sym_u32(_: u32) -> u32 { next() as u32 }
    pub unsafe fn sym_u64(_: u32) -> u64 { next() }
    pub unsafe fn sym_bits(n: u32) -> u32 { if n == 0 { 0 } else { next() as u32 } }
    pub unsafe fn sym_assume(c: bool) { if !c { println!("REPLAY assumption not met"); std::process::exit(77); } }
    pub unsafe fn sym_assert(c: bool, id: u32) { if !c { println!("REPLAY assertion {} fails", id); std::process::exit(99); } }
    pub unsafe fn sym_cover(id: u32) { println!("REPLAY cover {}", id); }
    pub unsafe fn sym_conc(v: u64) -> u64 { v }
    pub unsafe fn sym_allow_panic(b: bool) {
        if b { std::panic::set_hook(Box::new(|_| { println!("REPLAY allowed panic"); std::process::exit(0) })); } else { let _ = std::panic::take_hook(); }
    }
    pub unsafe fn sym_opt(_: u32, _: u32) {}
}
pub fn u8s() -> u8 { unsafe { ext::sym_u8(0) } }
pub fn u16s() -> u16 { unsafe { ext::sym_u16(0) } }
pub fn u32s() -> u32 { unsafe { ext::sym_u32(0) } }
pub fn u64s() -> u64 { unsafe { ext::sym_u64(0) } }
pub fn assume(c: bool) { unsafe { ext::sym_assume(c) } }
/// The property: `id` names the clause.
pub fn check(c: bool, id: u32) { unsafe { ext::sym_assert(c, id) } }
pub fn cover(id: u32) { unsafe { ext::sym_cover(id) } }
/// Case split over every feasible value.
pub fn split(v: u64) -> u64 { unsafe { ext::sym_conc(v) } }
/// Trigonometric functions return an arbitrary value from here on.
pub fn opaque_trig() { unsafe { ext::sym_opt(1, 1) } }
/// The same for arguments which are constants.
pub fn opaque_all() { unsafe { ext::sym_opt(1, 2) } }
pub fn allow_panic(b: bool) { unsafe { ext::sym_allow_panic(b) } }
/// Arbitrary n bit integer.
pub fn bits(n: u32) -> u32 { unsafe { ext::sym_bits(n) } }
/// Arbitrary integer below `n` (not split).
pub fn below(n: u32) -> u32 { let v = bits(32 - (n - 1).leading_zeros()); if !n.is_power_of_two() { assume(v < n); } v }
/// Arbitrary integer in lo..=hi, case split.
pub fn choice(lo: u32, hi: u32) -> u32 { lo + split(below(hi - lo + 1) as u64) as u32 }
pub fn f32s() -> f32 { f32::from_bits(u32s()) }
#[macro_export]
macro_rules! entries {
    ($($(#[$m:meta])* fn $name:ident($($a:ident),*) $body:block)*) => {
        $( $(#[$m])* #[no_mangle] #[inline(never)] pub extern "C" fn $name($($a: u32),*) $body )*
        pub fn dispatch(name: &str, args: &[u32]) -> bool {
            let mut _it = args.iter().copied();
            match name { $( stringify!($name) => { $( let $a = _it.next().unwrap_or(0); )* $name($($a),*); true } )* _ => false }
        }
    };
}

/// Replays refuse allocations beyond the limit the symbolic run allows.
#[cfg(feature = "native")]
mod cap {
    use std::alloc::{GlobalAlloc, Layout, System};
    pub struct Cap;
    fn limit(n: usize) {
        if n > (1 << 30) {
            let lim = std::env::var("TMFH_MAX_ALLOC").ok().and_then(|x| x.parse::<usize>().ok()).unwrap_or(usize::MAX);
            if n > lim { eprintln!("REPLAY alloc"); std::process::exit(98); }
        }
    }
    unsafe impl GlobalAlloc for Cap {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 { limit(l.size()); System.alloc(l) }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { limit(l.size()); System.alloc_zeroed(l) }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { limit(n); System.realloc(p, l, n) }
    }
    #[global_allocator]
    static A: Cap = Cap;
}

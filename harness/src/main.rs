#![allow(dead_code)]
#[macro_use]
mod rt;
mod bits;
mod idx;
mod geo;
mod nrm;
mod uv;
mod cust;
mod spec;
mod file;
mod ops;
mod obj;
mod reader;
mod fault;
mod hist;
mod conf;
mod large;
mod lay;
#[cfg(feature = "feat")]
mod tri;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 { std::process::exit(64); }
    let nums = |s: &str| -> Vec<u64> { s.split(',').filter(|x| !x.is_empty()).map(|x| u64::from_str_radix(x, 16).unwrap()).collect() };
    let args: Vec<u32> = nums(a.get(2).map(|s| s.as_str()).unwrap_or("")).into_iter().map(|x| x as u32).collect();
    #[cfg(feature = "native")]
    { let v = nums(a.get(3).map(|s| s.as_str()).unwrap_or("")); rt::ext::IN.with(|i| *i.borrow_mut() = (v, 0)); }
    let n = &a[1];
    let ok = bits::dispatch(n, &args) || idx::dispatch(n, &args) || geo::dispatch(n, &args) || nrm::dispatch(n, &args) || uv::dispatch(n, &args) || cust::dispatch(n, &args) || file::dispatch(n, &args) || ops::dispatch(n, &args) || obj::dispatch(n, &args) || reader::dispatch(n, &args) || fault::dispatch(n, &args) || hist::dispatch(n, &args) || conf::dispatch(n, &args) || large::dispatch(n, &args) || lay::dispatch(n, &args);
    #[cfg(feature = "feat")]
    let ok = ok || tri::dispatch(n, &args);
    if !ok { std::process::exit(65); }
    println!("REPLAY finished");
}

mod expr; mod ir; mod mem; mod z3; mod sat; mod exec; mod hooks;
pub mod demangle { pub fn demangle(n: &str) -> String { format!("{:#}", rustc_demangle::demangle(n)) } }

fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    h.join().unwrap();
}
fn real_main() {
    let mut cfg = exec::Config::default();
    let mut ir_path = String::new();
    let mut out = String::new();
    let a: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < a.len() {
        let v = || a.get(i + 1).cloned().unwrap_or_else(|| { eprintln!("missing value for {}", a[i]); std::process::exit(64) });
        match a[i].as_str() {
            "--ir" => ir_path = v(),
            "--entry" => cfg.entry = v(),
            "--arg" => cfg.args.push(v().parse().unwrap()),
            "--out" => out = v(),
            "--timeout" => cfg.timeout = v().parse().unwrap(),
            "--query-timeout" => cfg.query_timeout_ms = v().parse().unwrap(),
            "--max-paths" => cfg.max_paths = v().parse().unwrap(),
            "--max-steps" => cfg.max_steps = v().parse().unwrap(),
            "--max-alloc" => cfg.max_alloc = v().parse().unwrap(),
            "--seed" => cfg.seed = v().parse().unwrap(),
            "--known" => cfg.known.push(v()),
            "--grace" => cfg.grace = v().parse().unwrap(),
            "--solver" => cfg.solver = v(),
            "--crosscheck" => cfg.crosscheck = v().parse().unwrap(),
            "--dump-slow" => cfg.dump_slow = Some(v()),
            "--selftest" => { let n: u32 = v().parse().unwrap(); match sat::selftest(n, 1) { Ok(k) => { println!("selftest ok {}", k); std::process::exit(0) } Err(e) => { println!("selftest FAILED {}", e); std::process::exit(1) } } }
            "--trace" => { cfg.trace = true; i += 1; continue; }
            x => { eprintln!("unknown option {}", x); std::process::exit(64) }
        }
        i += 2;
    }
    let m = ir::Module::load(&ir_path);
    let mut ex = exec::Exec::new(m, cfg);
    let json = ex.run();
    if out.is_empty() { println!("{}", json); } else { std::fs::write(&out, json).unwrap(); }
    std::process::exit(0);
}

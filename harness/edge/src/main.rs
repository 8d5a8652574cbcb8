//! Calls the code on generated inputs and records what it answers.
#![feature(lazy_cell, alloc_error_hook)]
mod a;
mod conf;
mod fmt;
mod crypt;
mod gen;
mod rec;
mod scopes;

fn main() {
    // errors that carry a backtrace would allocate megabytes when printed
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[2].parse().unwrap();
    let n: usize = a[3].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    rec::start(&a[4]);
    // bounded recursion in generated inputs, but give the evaluator room
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            if a[1].starts_with('A') {
                rec::bound(1 << 20)
            }
            let mut g = gen::Rng::new(seed);
            match a[1].as_str() {
                "A01" => a::a01(&mut g, n),
                "A02" => a::a02(&mut g, n),
                "A03" => a::a03(&mut g, n),
                "A04" => a::a04(&mut g, n),
                "A05" => a::a05(&mut g, n),
                "A06" => a::a06(&mut g, n),
                "A07" => conf::a07(&mut g, n),
                "F01" => fmt::f01(&mut g, n),
                "F02" => fmt::f02(&mut g, n),
                "K01" => crypt::k01(&mut g, n),
                "K02" => crypt::k02(&mut g, n),
                x => panic!("unknown {x}"),
            }
        })
        .unwrap();
    if h.join().is_err() {
        eprintln!("driver panicked");
        std::process::exit(3)
    }
    rec::finish();
}

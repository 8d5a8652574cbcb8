//! Calls packet and storage code on generated inputs and records what it answers.
#![feature(lazy_cell, alloc_error_hook)]
#[path = "../../../edge/src/gen.rs"]
mod gen;
#[allow(dead_code)]
#[path = "../../../edge/src/rec.rs"]
mod rec;
mod pkt;
mod qdb;
mod query;
mod space;
mod store;

fn main() {
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[2].parse().unwrap();
    let n: usize = a[3].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    rec::start(&a[4]);
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut g = gen::Rng::new(seed);
            match a[1].as_str() {
                "P01" => pkt::p01(&mut g, n),
                "P02" => pkt::p02(&mut g, n),
                "P03" => space::p03(&mut g, n),
                "Q01" => qdb::qdb(&mut g, n, false),
                "Q03" => qdb::qdb(&mut g, n, true),
                "Q02" => query::q02(&mut g, n),
                "S01" | "S02" | "S03" => store::store(&mut g, n),
                x => panic!("unknown {x}"),
            }
        })
        .unwrap();
    if h.join().is_err() {
        eprintln!("driver panicked");
        std::process::exit(3)
    }
    rec::finish();
}

//! One real process using the real bus code, real file locks and real sockets.
use ipcbus::ProcBus;
use std::io::{BufRead, Write};
use std::time::{Duration, Instant};
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "port" {
        for id in &a[2..] {
            let id: u64 = id.parse().unwrap();
            println!("{id} {}", ipcbus::get_port(id).unwrap());
        }
        return;
    }
    let bus = ProcBus::new(std::path::Path::new(&a[2])).unwrap();
    bus.init();
    println!("ready");
    std::io::stdout().flush().unwrap();
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let (c, v) = l.split_once(' ').unwrap_or((&l, "0"));
        let v: u64 = v.parse().unwrap();
        match c {
            "emit" => println!("{}", bus.emit(v)),
            // wait until the value is at least v; 3 s at most
            "await" => {
                let end = Instant::now() + Duration::from_secs(3);
                while bus.val() < v && Instant::now() < end {
                    bus.next_deadline(Some((Instant::now() + Duration::from_millis(50)).min(end)));
                }
                println!("{}", bus.val())
            }
            _ => println!("{}", bus.val()),
        }
        std::io::stdout().flush().unwrap();
    }
}

//! kpsim: deterministic simulation of rust-kpdb with fault injection. See /verif/DESIGN.md.

mod crypt;
mod gen;
mod model;
mod peer;
mod props;
mod rt;
mod simio;
mod supervise;
mod xml;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.get(1).copied() {
        Some("check") if a.len() >= 4 => supervise::check(a[2], a[3]),
        Some("worker") => supervise::worker(&a[2..]),
        Some("one") => supervise::one(&a[2..]),
        Some("replay") if a.len() >= 3 => supervise::replay(a[2]),
        Some("probe") if a.len() >= 3 => props::probe(a[2]),
        Some("selftest") => supervise::selftest(),
        _ => {
            eprintln!("usage: kpsim check PROPERTY quick|thorough | replay FILE | selftest");
            2
        }
    };
    std::process::exit(code);
}

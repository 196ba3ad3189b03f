//! Bounded exhaustive model checking of rust-dd.
//!   mc run <ID>            explore the property (VERIF_TIER=quick|thorough, VERIF_SEED)
//!   mc replay <file>       re-execute a recorded violation
//!   mc worker ...          internal
#[macro_use]
mod cx;
mod core;
mod eng;
mod p_bdd;
mod p_bss;
mod p_due;
mod p_gc;
mod p_large;
mod p_long;
mod p_mdd;
mod p_misc;
mod p_mss;
mod p_names;
mod p_lists;
mod p_recycled;
mod p_wide;
mod p_zdd;
mod props;
mod refm;
mod runner;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => runner::run(&a[2]),
        Some("replay") => runner::replay(&a[2]),
        Some("worker") => runner::worker(&a[2..]),
        _ => {
            eprintln!("usage: mc run ID | mc replay FILE");
            2
        }
    };
    std::process::exit(code);
}

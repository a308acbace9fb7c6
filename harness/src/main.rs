mod sym;

/// One verification entry: symbolic when run by the executor, a replay natively.
macro_rules! entry { ($(#[$a:meta])* $n:ident $b:block) => { $(#[$a])* #[unsafe(no_mangle)] #[inline(never)] pub extern "C" fn $n() { crate::sym::init(); $b } } }
mod bits;
#[macro_use]
mod tagged;
mod p_tagged;
mod p_prim;
mod p_bitevents;
mod unified;
mod p_convert;
mod p_stream;
mod p_merge;
mod p_players;
mod p_map;
mod p_rows;
mod p_time;
mod p_units;
mod p_select;

include!("table.rs");

fn main() {
    let a: Vec<String> = std::env::args().collect();
    for (n, f) in TABLE { if Some(*n) == a.get(1).map(|s| s.as_str()) { f(); println!("end"); return; } }
    std::process::exit(9);
}

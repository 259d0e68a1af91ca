mod sym;
mod h_ap;
mod h_common;
mod h_config;
mod h_data;
mod h_filter;
mod h_frame;
mod h_geom;
mod h_match;
mod h_math;
mod h_misc;
mod h_record;
mod h_report;
mod h_score;

macro_rules! table { ($($m:ident :: $f:ident),* $(,)?) => {
    fn dispatch(n: &str) -> bool { match n { $(stringify!($f) => { $m::$f(); true })* _ => false } }
    const NAMES: &[&str] = &[$(stringify!($f)),*];
} }
include!("table.rs");

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        for n in NAMES { println!("{}", n); }
        return;
    }
    sym::load(&a[2]);
    let scratch = format!("{}.d", a[2]);
    sym::set_scratch(&scratch);
    let ok = dispatch(&a[1]);
    let _ = std::fs::remove_dir_all(&scratch);
    if ok { println!("END"); } else { println!("NO-SUCH-HARNESS"); }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 4 { eprintln!("replay HARNESS SHARD SCRIPT [stress-runs]"); std::process::exit(3); }
    let runs: usize = a.get(4).map_or(1, |s| s.parse().unwrap());
    for _ in 0..runs {
        vf::load(&a[3], runs > 1);
        if !h::run(&a[1], a[2].parse().unwrap()) { eprintln!("no such harness"); std::process::exit(3); }
        if vf::failed() { std::process::exit(10); }
    }
    println!("OK");
}
/// SystemTime::now reads the scripted clock.
#[repr(C)]
pub struct Ts { s: i64, n: i64 }
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_: i32, ts: *mut Ts) -> i32 {
    let (s, n) = vf::clock_now().unwrap_or((0, 0));
    (*ts).s = s;
    (*ts).n = n;
    0
}

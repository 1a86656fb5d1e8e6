//! Verification intrinsics. In the IR build they are undefined externals interpreted by the
//! symbolic engine; with feature "native" they replay a script (a counterexample).
#![allow(clippy::missing_safety_doc)]

#[cfg(not(feature = "native"))]
extern "C" {
    fn vf_f64(lo: f64, hi: f64) -> f64;
    fn vf_t64(lo: f64, hi: f64) -> f64;
    fn vf_f32(lo: f32, hi: f32) -> f32;
    fn vf_int(lo: i64, hi: i64) -> i64;
    fn vf_choice(n: u64) -> u64;
    fn vf_bool() -> bool;
    fn vf_assume(c: bool);
    fn vf_check(c: bool, id: u32);
    fn vf_near(a: f64, b: f64, tol: f64, id: u32);
    fn vf_reach(id: u32);
    fn vf_rand() -> f64;
    fn vf_rand_choice(n: u64) -> u64;
    fn vf_rand_count() -> u64;
    fn vf_rand_at(i: u64) -> f64;
    fn vf_sched(n: u64) -> u64;
    fn vf_thread(f: extern "C" fn(*mut u8), d: *mut u8);
    fn vf_join();
    fn vf_yield();
    fn vf_note(x: f64);
    fn vf_clock(secs: i64, nanos: i64);
}

#[cfg(not(feature = "native"))]
mod imp {
    use super::*;
    pub fn f64_(lo: f64, hi: f64) -> f64 { unsafe { vf_f64(lo, hi) } }
    pub fn t64(lo: f64, hi: f64) -> f64 { unsafe { vf_t64(lo, hi) } }
    pub fn f32_(lo: f32, hi: f32) -> f32 { unsafe { vf_f32(lo, hi) } }
    pub fn int(lo: i64, hi: i64) -> i64 { unsafe { vf_int(lo, hi) } }
    pub fn choice(n: u64) -> u64 { unsafe { vf_choice(n) } }
    pub fn boolean() -> bool { unsafe { vf_bool() } }
    pub fn assume(c: bool) { unsafe { vf_assume(c) } }
    pub fn check(c: bool, id: u32) { unsafe { vf_check(c, id) } }
    pub fn near(a: f64, b: f64, tol: f64, id: u32) { unsafe { vf_near(a, b, tol, id) } }
    pub fn reach(id: u32) { unsafe { vf_reach(id) } }
    pub fn rand() -> f64 { unsafe { vf_rand() } }
    pub fn rand_choice(n: u64) -> u64 { unsafe { vf_rand_choice(n) } }
    pub fn rand_count() -> u64 { unsafe { vf_rand_count() } }
    pub fn rand_at(i: u64) -> f64 { unsafe { vf_rand_at(i) } }
    pub fn sched(n: u64) -> u64 { unsafe { vf_sched(n) } }
    pub fn yield_() { unsafe { vf_yield() } }
    pub fn note(x: f64) { unsafe { vf_note(x) } }
    pub fn clock(secs: i64, nanos: i64) { unsafe { vf_clock(secs, nanos) } }
    /// Runs all the closures as concurrent threads and waits for them.
    pub fn threads(fs: Vec<Box<dyn FnOnce() + Send + '_>>) {
        extern "C" fn tramp(d: *mut u8) {
            let b: Box<Box<dyn FnOnce()>> = unsafe { Box::from_raw(d as *mut Box<dyn FnOnce()>) };
            (*b)();
        }
        for f in fs {
            let b: Box<Box<dyn FnOnce() + Send + '_>> = Box::new(f);
            unsafe { vf_thread(tramp, Box::into_raw(b) as *mut u8) }
        }
        unsafe { vf_join() }
    }
}

#[cfg(feature = "native")]
mod imp {
    //! Script: one entry per intrinsic call, "kind value" lines, kinds f,d,i,c,b,r,R,s.
    use std::collections::HashMap;
    use std::collections::VecDeque;
    use std::sync::Mutex;
    #[derive(Default)]
    pub struct St {
        q: HashMap<char, VecDeque<f64>>,
        rands: Vec<f64>,
        failed: bool,
        pub clock: (i64, i64),
        stress: bool,
    }
    static ST: Mutex<Option<St>> = Mutex::new(None);
    pub fn load(path: &str, stress: bool) {
        let mut st = St { stress, ..St::default() };
        for l in std::fs::read_to_string(path).unwrap().lines() {
            let mut p = l.split_whitespace();
            if let (Some(k), Some(v)) = (p.next(), p.next()) {
                let v = match v { "inf" => f64::INFINITY, "-inf" => f64::NEG_INFINITY, "nan" => f64::NAN, _ => v.parse::<f64>().unwrap() };
                st.q.entry(k.chars().next().unwrap()).or_default().push_back(v);
            }
        }
        *ST.lock().unwrap() = Some(st);
    }
    fn st<R>(f: impl FnOnce(&mut St) -> R) -> R {
        let mut g = ST.lock().unwrap_or_else(|e| e.into_inner());
        f(g.as_mut().expect("no script"))
    }
    fn next(k: char) -> Option<f64> { st(|s| s.q.get_mut(&k).and_then(|q| q.pop_front())) }
    pub fn f64_(lo: f64, hi: f64) -> f64 { let v = next('d').unwrap_or(lo); if v < lo { lo } else if v > hi { hi } else { v } }
    pub fn t64(lo: f64, hi: f64) -> f64 { f64_(lo, hi) }
    pub fn f32_(lo: f32, hi: f32) -> f32 { let v = next('f').unwrap_or(lo as f64) as f32; if v < lo { lo } else if v > hi { hi } else { v } }
    pub fn int(lo: i64, hi: i64) -> i64 { (next('i').unwrap_or(lo as f64) as i64).clamp(lo, hi) }
    pub fn choice(n: u64) -> u64 { (next('c').unwrap_or(0.) as u64).min(n.saturating_sub(1)) }
    pub fn boolean() -> bool { next('b').unwrap_or(0.) != 0. }
    pub fn assume(c: bool) {
        if !c { println!("ASSUME_FAILED"); std::process::exit(if st(|s| s.failed) { 10 } else { 0 }); }
    }
    pub fn check(c: bool, id: u32) {
        if !c { println!("CHECK_FAILED {}", id); st(|s| s.failed = true); }
    }
    pub fn near(a: f64, b: f64, tol: f64, id: u32) {
        let ok = a == b || (a - b).abs() <= tol;
        if !ok { println!("CHECK_FAILED {} near {:?} {:?}", id, a, b); st(|s| s.failed = true); }
    }
    pub fn failed() -> bool { st(|s| s.failed) }
    pub fn reach(_: u32) {}
    pub fn rand() -> f64 {
        let r = next('r').unwrap_or(0.5);
        let r = if r < 0. { 0. } else if r >= 1. { 1. - f64::EPSILON / 2. } else { r };
        st(|s| s.rands.push(r));
        r
    }
    pub fn rand_choice(n: u64) -> u64 {
        let r = (next('R').unwrap_or(0.) as u64).min(n.saturating_sub(1));
        st(|s| s.rands.push(r as f64));
        r
    }
    pub fn rand_count() -> u64 { st(|s| s.rands.len() as u64) }
    pub fn rand_at(i: u64) -> f64 { st(|s| s.rands[i as usize]) }
    pub fn sched(n: u64) -> u64 { (next('s').unwrap_or(0.) as u64).min(n.saturating_sub(1)) }
    pub fn yield_() { std::thread::yield_now() }
    pub fn note(x: f64) { println!("NOTE {:?}", x) }
    pub fn clock(secs: i64, nanos: i64) { st(|s| s.clock = (secs, nanos)) }
    pub fn clock_now() -> Option<(i64, i64)> {
        match ST.lock() { Ok(mut g) => g.as_mut().map(|s| s.clock), Err(_) => None }
    }
    pub fn threads(fs: Vec<Box<dyn FnOnce() + Send + '_>>) {
        if !st(|s| s.stress) {
            let mut fs: Vec<_> = fs;
            while !fs.is_empty() { let i = sched(fs.len() as u64) as usize; (fs.remove(i))(); }
            return;
        }
        // all started together, so that they contend
        let bar = std::sync::Barrier::new(fs.len());
        std::thread::scope(|s| { for f in fs { let b = &bar; s.spawn(move || { b.wait(); f() }); } });
    }
}
pub use imp::*;

pub fn u(lo: usize, hi: usize) -> usize { lo + choice((hi - lo + 1) as u64) as usize }

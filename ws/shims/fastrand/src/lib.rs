//! Stand-in for the random number generator: every value it could return is considered.
use std::ops::{Bound, RangeBounds};
/// what a harness asked for: draws limited to a range, draws repeated from an earlier one on, an action at a draw
struct Ctl { lo: f64, hi: f64, replay: u64, end: u64, count: u64, act: Option<Box<dyn FnMut(u64)>>, whole: bool }
static mut CTL: Ctl = Ctl { lo: 0., hi: 1., replay: 0, end: 0, count: 0, act: None, whole: false };
#[allow(static_mut_refs)]
fn ctl() -> &'static mut Ctl { unsafe { &mut CTL } }
/// back to the start
pub fn vf_reset() { *ctl() = Ctl { lo: 0., hi: 1., replay: 0, end: 0, count: 0, act: None, whole: false } }
/// all further floats are within [lo, hi], or lo when the two are equal
pub fn vf_range(lo: f64, hi: f64) { let c = ctl(); c.lo = lo; c.hi = hi }
/// the next draws repeat those from number k on, as far as they go
pub fn vf_rewind(k: u64) { let c = ctl(); c.replay = k; c.end = vf::rand_count() }
/// runs f at every draw from here on, with the number of the draw
pub fn vf_act(f: Box<dyn FnMut(u64)>) { let c = ctl(); c.count = 0; c.act = Some(f) }
/// draws since vf_act
pub fn vf_count() -> u64 { ctl().count }
fn act() {
    let c = ctl();
    if let Some(mut f) = c.act.take() {
        let n = c.count;
        c.count += 1;
        f(n);
        let c = ctl();
        if c.act.is_none() { c.act = Some(f) }
    }
}
fn old() -> Option<f64> {
    let c = ctl();
    if c.replay < c.end { c.replay += 1; return Some(vf::rand_at(c.replay - 1)); }
    None
}
pub fn f64() -> f64 {
    act();
    if ctl().lo == ctl().hi { return ctl().lo; }
    if let Some(x) = old() { return x; }
    let x = vf::rand();
    let c = ctl();
    if c.lo > 0. || c.hi < 1. { vf::assume(x >= c.lo && x <= c.hi) }
    x
}
/// all further draws, whole numbers too, are at the share v of their range
pub fn vf_all(v: f64) { let c = ctl(); c.lo = v; c.hi = v; c.whole = true }
fn pick(n: u64) -> u64 { act(); if ctl().whole { return (ctl().lo * n as f64) as u64; } if let Some(x) = old() { x as u64 } else { vf::rand_choice(n) } }
pub fn f32() -> f32 { f64() as f32 }
pub fn f64_inclusive() -> f64 { f64() }
pub fn f32_inclusive() -> f32 { f64() as f32 }
pub fn bool() -> bool { pick(2) == 1 }
pub fn seed(_: u64) {}
pub fn get_seed() -> u64 { 0 }
macro_rules! ints { ($($t:ident),*) => { $(
    pub fn $t(r: impl RangeBounds<$t>) -> $t {
        let lo = match r.start_bound() { Bound::Included(v) => *v, Bound::Excluded(v) => *v + 1, Bound::Unbounded => $t::MIN };
        let hi = match r.end_bound() { Bound::Included(v) => *v, Bound::Excluded(v) => {
            if *v <= lo { panic!("empty range: {}..{}", lo, v) } *v - 1 }, Bound::Unbounded => $t::MAX };
        if lo > hi { panic!("empty range: {}..={}", lo, hi) }
        let n = (hi as i128 - lo as i128 + 1) as u64;
        (lo as i128 + pick(n) as i128) as $t
    } )* } }
ints!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
pub fn choice<I>(iter: I) -> Option<I::Item> where I: IntoIterator, I::IntoIter: ExactSizeIterator {
    let mut it = iter.into_iter();
    let n = it.len();
    if n == 0 { return None; }
    it.nth(pick(n as u64) as usize)
}
pub fn shuffle<T>(s: &mut [T]) { for i in 1..s.len() { s.swap(i, pick(i as u64 + 1) as usize) } }
#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct Rng(());
impl Rng {
    pub fn new() -> Rng { Rng(()) }
    pub fn with_seed(_: u64) -> Rng { Rng(()) }
    pub fn fork(&mut self) -> Rng { Rng(()) }
    pub fn seed(&mut self, _: u64) {}
    pub fn f64(&mut self) -> f64 { crate::f64() }
    pub fn f32(&mut self) -> f32 { crate::f32() }
    pub fn bool(&mut self) -> bool { crate::bool() }
    pub fn usize(&mut self, r: impl RangeBounds<usize>) -> usize { crate::usize(r) }
    pub fn u64(&mut self, r: impl RangeBounds<u64>) -> u64 { crate::u64(r) }
    pub fn u32(&mut self, r: impl RangeBounds<u32>) -> u32 { crate::u32(r) }
    pub fn u8(&mut self, r: impl RangeBounds<u8>) -> u8 { crate::u8(r) }
    pub fn i32(&mut self, r: impl RangeBounds<i32>) -> i32 { crate::i32(r) }
    pub fn i64(&mut self, r: impl RangeBounds<i64>) -> i64 { crate::i64(r) }
    pub fn shuffle<T>(&mut self, s: &mut [T]) { crate::shuffle(s) }
}

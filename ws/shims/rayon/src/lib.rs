//! Stand-in for rayon: parallel iterators run in sequence (their closures only share what Rust
//! lets them share); joins and scopes leave the order, or the interleaving, to the engine.
use std::cell::RefCell;

// one order for all the joins of an execution (their number may be large)
fn order() -> u64 {
    static mut ORDER: u64 = 2;
    unsafe { if ORDER == 2 { ORDER = vf::sched(2); } ORDER }
}
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send {
    if order() == 0 { let ra = a(); let rb = b(); (ra, rb) } else { let rb = b(); let ra = a(); (ra, rb) }
}
pub fn current_num_threads() -> usize { 2 }
pub fn current_thread_index() -> Option<usize> { None }

pub struct Scope<'s> { q: RefCell<Vec<Box<dyn FnOnce(&Scope<'s>) + Send + 's>>>, go: std::marker::PhantomData<&'s ()> }
unsafe impl<'s> Sync for Scope<'s> {}
impl<'s> Scope<'s> {
    pub fn spawn<F>(&self, f: F) where F: FnOnce(&Scope<'s>) + Send + 's { self.q.borrow_mut().push(Box::new(f)) }
}
pub fn scope<'s, F, R>(f: F) -> R where F: FnOnce(&Scope<'s>) -> R {
    let s = Scope { q: RefCell::new(Vec::new()), go: std::marker::PhantomData };
    let r = f(&s);
    loop {
        let fs = std::mem::take(&mut *s.q.borrow_mut());
        if fs.is_empty() { return r; }
        let sr = &s;
        if fs.len() == 1 { for f in fs { f(sr) } continue; }
        // many of them: one after the other, from the first or from the last
        if fs.len() > 4 { if order() == 0 { for f in fs { f(sr) } } else { for f in fs.into_iter().rev() { f(sr) } } continue; }
        vf::threads(fs.into_iter().map(|f| { let b: Box<dyn FnOnce() + Send + '_> = Box::new(move || f(sr)); b }).collect());
    }
}
pub fn in_place_scope<'s, F, R>(f: F) -> R where F: FnOnce(&Scope<'s>) -> R { scope(f) }
pub fn spawn<F>(f: F) where F: FnOnce() + Send + 'static { f() }

#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl std::fmt::Display for ThreadPoolBuildError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("pool") } }
impl std::error::Error for ThreadPoolBuildError {}
#[derive(Default)]
pub struct ThreadPoolBuilder;
impl ThreadPoolBuilder {
    pub fn new() -> Self { ThreadPoolBuilder }
    pub fn num_threads(self, _: usize) -> Self { self }
    pub fn stack_size(self, _: usize) -> Self { self }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _: F) -> Self { self }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> { Ok(ThreadPool) }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> { Ok(()) }
}
#[derive(Debug)]
pub struct ThreadPool;
impl ThreadPool {
    pub fn scope<'s, F, R>(&self, f: F) -> R where F: FnOnce(&Scope<'s>) -> R + Send, R: Send { scope(f) }
    pub fn in_place_scope<'s, F, R>(&self, f: F) -> R where F: FnOnce(&Scope<'s>) -> R { scope(f) }
    pub fn install<F, R>(&self, f: F) -> R where F: FnOnce() -> R + Send, R: Send { f() }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send { join(a, b) }
    pub fn spawn<F>(&self, f: F) where F: FnOnce() + Send + 'static { f() }
    pub fn current_num_threads(&self) -> usize { 2 }
}

pub mod iter {
    pub struct Seq<I>(pub I);
    pub trait ParallelIterator: Sized {
        type Item;
        type It: Iterator<Item = Self::Item>;
        fn vf_seq(self) -> Self::It;
        fn map<F, R>(self, f: F) -> Seq<std::iter::Map<Self::It, F>> where F: Fn(Self::Item) -> R { Seq(self.vf_seq().map(f)) }
        fn filter<F>(self, f: F) -> Seq<std::iter::Filter<Self::It, F>> where F: Fn(&Self::Item) -> bool { Seq(self.vf_seq().filter(f)) }
        fn filter_map<F, R>(self, f: F) -> Seq<std::iter::FilterMap<Self::It, F>> where F: Fn(Self::Item) -> Option<R> { Seq(self.vf_seq().filter_map(f)) }
        fn flat_map_iter<F, R>(self, f: F) -> Seq<std::iter::FlatMap<Self::It, R, F>> where F: Fn(Self::Item) -> R, R: IntoIterator { Seq(self.vf_seq().flat_map(f)) }
        fn inspect<F>(self, f: F) -> Seq<std::iter::Inspect<Self::It, F>> where F: Fn(&Self::Item) { Seq(self.vf_seq().inspect(f)) }
        fn cloned<'a, T: 'a + Clone>(self) -> Seq<std::iter::Cloned<Self::It>> where Self::It: Iterator<Item = &'a T> { Seq(self.vf_seq().cloned()) }
        fn copied<'a, T: 'a + Copy>(self) -> Seq<std::iter::Copied<Self::It>> where Self::It: Iterator<Item = &'a T> { Seq(self.vf_seq().copied()) }
        fn for_each<F>(self, f: F) where F: Fn(Self::Item) { self.vf_seq().for_each(f) }
        fn collect<C: FromIterator<Self::Item>>(self) -> C { self.vf_seq().collect() }
        fn sum<S: std::iter::Sum<Self::Item>>(self) -> S { self.vf_seq().sum() }
        fn product<S: std::iter::Product<Self::Item>>(self) -> S { self.vf_seq().product() }
        fn count(self) -> usize { self.vf_seq().count() }
        fn reduce<ID: Fn() -> Self::Item, OP: Fn(Self::Item, Self::Item) -> Self::Item>(self, id: ID, op: OP) -> Self::Item { self.vf_seq().fold(id(), op) }
        fn any<P: Fn(Self::Item) -> bool>(self, p: P) -> bool { self.vf_seq().any(p) }
        fn all<P: Fn(Self::Item) -> bool>(self, p: P) -> bool { self.vf_seq().all(p) }
        fn min_by<F: Fn(&Self::Item, &Self::Item) -> std::cmp::Ordering>(self, f: F) -> Option<Self::Item> { self.vf_seq().min_by(f) }
        fn max_by<F: Fn(&Self::Item, &Self::Item) -> std::cmp::Ordering>(self, f: F) -> Option<Self::Item> { self.vf_seq().max_by(f) }
        fn find_first<P: Fn(&Self::Item) -> bool>(self, p: P) -> Option<Self::Item> { self.vf_seq().find(|x| p(x)) }
        fn find_any<P: Fn(&Self::Item) -> bool>(self, p: P) -> Option<Self::Item> { self.vf_seq().find(|x| p(x)) }
        fn chain<B: IntoParallelIterator<Item = Self::Item>>(self, b: B) -> Seq<std::iter::Chain<Self::It, <B::Iter as ParallelIterator>::It>> { Seq(self.vf_seq().chain(b.into_par_iter().vf_seq())) }
        fn unzip<A, B, CA: Default + Extend<A>, CB: Default + Extend<B>>(self) -> (CA, CB) where Self::It: Iterator<Item = (A, B)> { self.vf_seq().unzip() }
    }
    pub trait IndexedParallelIterator: ParallelIterator {
        fn zip<B: IntoParallelIterator>(self, b: B) -> Seq<std::iter::Zip<Self::It, <B::Iter as ParallelIterator>::It>> { Seq(self.vf_seq().zip(b.into_par_iter().vf_seq())) }
        fn enumerate(self) -> Seq<std::iter::Enumerate<Self::It>> { Seq(self.vf_seq().enumerate()) }
        fn rev(self) -> Seq<std::iter::Rev<Self::It>> where Self::It: DoubleEndedIterator { Seq(self.vf_seq().rev()) }
        fn take(self, n: usize) -> Seq<std::iter::Take<Self::It>> { Seq(self.vf_seq().take(n)) }
        fn skip(self, n: usize) -> Seq<std::iter::Skip<Self::It>> { Seq(self.vf_seq().skip(n)) }
        fn step_by(self, n: usize) -> Seq<std::iter::StepBy<Self::It>> { Seq(self.vf_seq().step_by(n)) }
        fn with_min_len(self, _: usize) -> Self { self }
        fn with_max_len(self, _: usize) -> Self { self }
        fn collect_into_vec(self, v: &mut Vec<Self::Item>) { v.clear(); v.extend(self.vf_seq()) }
        fn len(&self) -> usize where Self::It: Clone, Self: Clone { self.clone().vf_seq().count() }
    }
    impl<I: Iterator> ParallelIterator for Seq<I> { type Item = I::Item; type It = I; fn vf_seq(self) -> I { self.0 } }
    impl<I: Iterator> IndexedParallelIterator for Seq<I> {}
    pub trait IntoParallelIterator { type Item; type Iter: ParallelIterator<Item = Self::Item>; fn into_par_iter(self) -> Self::Iter; }
    impl<I: Iterator> IntoParallelIterator for Seq<I> { type Item = I::Item; type Iter = Self; fn into_par_iter(self) -> Self { self } }
    impl<T> IntoParallelIterator for Vec<T> { type Item = T; type Iter = Seq<std::vec::IntoIter<T>>; fn into_par_iter(self) -> Self::Iter { Seq(self.into_iter()) } }
    impl<'a, T> IntoParallelIterator for &'a Vec<T> { type Item = &'a T; type Iter = Seq<std::slice::Iter<'a, T>>; fn into_par_iter(self) -> Self::Iter { Seq(self.iter()) } }
    impl<'a, T> IntoParallelIterator for &'a [T] { type Item = &'a T; type Iter = Seq<std::slice::Iter<'a, T>>; fn into_par_iter(self) -> Self::Iter { Seq(self.iter()) } }
    impl<'a, T> IntoParallelIterator for &'a mut Vec<T> { type Item = &'a mut T; type Iter = Seq<std::slice::IterMut<'a, T>>; fn into_par_iter(self) -> Self::Iter { Seq(self.iter_mut()) } }
    impl<'a, T> IntoParallelIterator for &'a mut [T] { type Item = &'a mut T; type Iter = Seq<std::slice::IterMut<'a, T>>; fn into_par_iter(self) -> Self::Iter { Seq(self.iter_mut()) } }
    macro_rules! ranges { ($($t:ty),*) => { $(
        impl IntoParallelIterator for std::ops::Range<$t> { type Item = $t; type Iter = Seq<std::ops::Range<$t>>; fn into_par_iter(self) -> Self::Iter { Seq(self) } }
        impl IntoParallelIterator for std::ops::RangeInclusive<$t> { type Item = $t; type Iter = Seq<std::ops::RangeInclusive<$t>>; fn into_par_iter(self) -> Self::Iter { Seq(self) } }
    )* } }
    ranges!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
    pub trait IntoParallelRefIterator<'d> { type Item: 'd; type Iter: ParallelIterator<Item = Self::Item>; fn par_iter(&'d self) -> Self::Iter; }
    impl<'d, T: 'd> IntoParallelRefIterator<'d> for [T] { type Item = &'d T; type Iter = Seq<std::slice::Iter<'d, T>>; fn par_iter(&'d self) -> Self::Iter { Seq(self.iter()) } }
    impl<'d, T: 'd> IntoParallelRefIterator<'d> for Vec<T> { type Item = &'d T; type Iter = Seq<std::slice::Iter<'d, T>>; fn par_iter(&'d self) -> Self::Iter { Seq(self.iter()) } }
    pub trait IntoParallelRefMutIterator<'d> { type Item: 'd; type Iter: ParallelIterator<Item = Self::Item>; fn par_iter_mut(&'d mut self) -> Self::Iter; }
    impl<'d, T: 'd> IntoParallelRefMutIterator<'d> for [T] { type Item = &'d mut T; type Iter = Seq<std::slice::IterMut<'d, T>>; fn par_iter_mut(&'d mut self) -> Self::Iter { Seq(self.iter_mut()) } }
    impl<'d, T: 'd> IntoParallelRefMutIterator<'d> for Vec<T> { type Item = &'d mut T; type Iter = Seq<std::slice::IterMut<'d, T>>; fn par_iter_mut(&'d mut self) -> Self::Iter { Seq(self.iter_mut()) } }
    pub trait ParallelBridge: Iterator + Sized { fn par_bridge(self) -> Seq<Self> { Seq(self) } }
    impl<I: Iterator> ParallelBridge for I {}
    pub fn repeatn<T: Clone>(t: T, n: usize) -> Seq<std::iter::Take<std::iter::Repeat<T>>> { Seq(std::iter::repeat(t).take(n)) }
}
pub mod slice {
    use super::iter::Seq;
    pub trait ParallelSlice<T> {
        fn par_chunks(&self, n: usize) -> Seq<std::slice::Chunks<'_, T>>;
        fn par_chunks_exact(&self, n: usize) -> Seq<std::slice::ChunksExact<'_, T>>;
        fn par_windows(&self, n: usize) -> Seq<std::slice::Windows<'_, T>>;
    }
    impl<T> ParallelSlice<T> for [T] {
        fn par_chunks(&self, n: usize) -> Seq<std::slice::Chunks<'_, T>> { Seq(self.chunks(n)) }
        fn par_chunks_exact(&self, n: usize) -> Seq<std::slice::ChunksExact<'_, T>> { Seq(self.chunks_exact(n)) }
        fn par_windows(&self, n: usize) -> Seq<std::slice::Windows<'_, T>> { Seq(self.windows(n)) }
    }
    pub trait ParallelSliceMut<T> {
        fn vf_s(&mut self) -> &mut [T];
        fn par_chunks_mut(&mut self, n: usize) -> Seq<std::slice::ChunksMut<'_, T>> { Seq(self.vf_s().chunks_mut(n)) }
        fn par_chunks_exact_mut(&mut self, n: usize) -> Seq<std::slice::ChunksExactMut<'_, T>> { Seq(self.vf_s().chunks_exact_mut(n)) }
        fn par_sort(&mut self) where T: Ord { self.vf_s().sort() }
        fn par_sort_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) { self.vf_s().sort_by(f) }
        fn par_sort_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) { self.vf_s().sort_by_key(f) }
        fn par_sort_unstable_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) { self.vf_s().sort_unstable_by(f) }
    }
    impl<T> ParallelSliceMut<T> for [T] { fn vf_s(&mut self) -> &mut [T] { self } }
}
pub mod prelude {
    pub use super::iter::{IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelBridge, ParallelIterator};
    pub use super::slice::{ParallelSlice, ParallelSliceMut};
}

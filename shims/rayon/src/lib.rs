//! Stand-in for `rayon`: runs on one thread. Operations whose order rayon leaves open
//! are executed in a nondeterministic order (parameter 900: 0 = forwards,
//! 1 = backwards, 2 = either, decided symbolically per operation, 3 = any permutation
//! of up to four items, decided symbolically). Order-preserving operations
//! (`collect` of an indexed iterator) preserve the order, as in rayon;
//! `par_bridge` loses it.
use std::cmp::Ordering;
use std::iter::Sum;
use std::iter::Product;

extern "C" {
    fn vsched(k: u32, d: u64) -> u64;
    fn vx_bool() -> bool;
    fn vx_u64(lo: u64, hi: u64) -> u64;
    fn vx_conc(v: u64) -> u64;
    // pieces of work that are concurrent to each other, for the detection of data races
    fn vx_par_begin();
    fn vx_par_item();
    fn vx_par_leave();
    fn vx_par_end();
}
#[inline(never)]
fn call<T, R, F: FnMut(T) -> R>(f: &mut F, x: &mut Option<T>) -> R { f(x.take().unwrap()) }
fn each<T, F: FnMut(T)>(v: Vec<T>, mut f: F) {
    let mut v: Vec<Option<T>> = v.into_iter().map(Some).collect();
    let n = v.len();
    unsafe {
        vx_par_begin();
        for i in 0..n {
            let p = &mut v[i] as *mut Option<T>;
            vx_par_item();
            call(&mut f, &mut *p);
            vx_par_leave();
        }
        vx_par_end();
    }
}
#[inline(never)]
fn once<R, F: FnOnce() -> R>(f: F) -> R { f() }
fn side<R, F: FnOnce() -> R>(f: F) -> R {
    unsafe {
        vx_par_item();
        let r = once(f);
        vx_par_leave();
        r
    }
}

fn reorder<T>(mut v: Vec<T>) -> Vec<T> {
    if v.len() < 2 { return v; }
    unsafe {
        match vsched(900, 0) {
            0 => {}
            1 => v.reverse(),
            2 => if vx_bool() { v.reverse() },
            _ => {
                if v.len() > 4 { if vx_bool() { v.reverse() } }
                else {
                    let n = v.len();
                    for i in 0..n - 1 {
                        let j = i + vx_conc(vx_u64(0, (n - 1 - i) as u64)) as usize;
                        v.swap(i, j);
                    }
                }
            }
        }
    }
    v
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB) where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send {
    let back = unsafe { match vsched(900, 0) { 0 => false, 1 => true, _ => vx_bool() } };
    unsafe { vx_par_begin(); }
    let r = if back { let y = side(b); let x = side(a); (x, y) } else { let x = side(a); let y = side(b); (x, y) };
    unsafe { vx_par_end(); }
    r
}
pub fn current_num_threads() -> usize { unsafe { vsched(901, 2) as usize } }

pub struct Scope<'s> { _p: std::marker::PhantomData<&'s ()> }
impl<'s> Scope<'s> { pub fn spawn<F: FnOnce(&Scope<'s>) + Send + 's>(&self, f: F) { side(|| f(self)) } }
pub fn scope<'s, F, R>(f: F) -> R where F: FnOnce(&Scope<'s>) -> R {
    unsafe { vx_par_begin(); }
    let r = f(&Scope { _p: std::marker::PhantomData });
    unsafe { vx_par_end(); }
    r
}

/// a "parallel" iterator; `idx`: the order of collected items is fixed
pub struct Par<I> { pub(crate) it: I, pub(crate) idx: bool }

pub mod iter { pub use crate::prelude::*; pub use crate::Par; }
pub mod slice { pub use crate::prelude::*; }

impl<I: Iterator> Par<I> {
    fn with<J: Iterator>(self, f: impl FnOnce(I) -> J) -> Par<J> { Par { it: f(self.it), idx: self.idx } }
    fn items(self) -> Vec<I::Item> { let idx = self.idx; let v: Vec<_> = self.it.collect(); if idx { v } else { reorder(v) } }
    fn any_order(self) -> Vec<I::Item> { reorder(self.it.collect()) }

    pub fn map<R, F: Fn(I::Item) -> R>(self, f: F) -> Par<std::iter::Map<I, F>> { self.with(|i| i.map(f)) }
    pub fn map_with<S: Clone, R, F: Fn(&mut S, I::Item) -> R>(self, mut s: S, f: F) -> Par<impl Iterator<Item = R>> { self.with(move |i| i.map(move |x| f(&mut s, x))) }
    pub fn map_init<S, R, G: Fn() -> S, F: Fn(&mut S, I::Item) -> R>(self, g: G, f: F) -> Par<impl Iterator<Item = R>> { let mut s = g(); self.with(move |i| i.map(move |x| f(&mut s, x))) }
    pub fn inspect<F: Fn(&I::Item)>(self, f: F) -> Par<std::iter::Inspect<I, F>> { self.with(|i| i.inspect(f)) }
    pub fn update<F: Fn(&mut I::Item)>(self, f: F) -> Par<impl Iterator<Item = I::Item>> { self.with(move |i| i.map(move |mut x| { f(&mut x); x })) }
    pub fn filter<F: Fn(&I::Item) -> bool>(self, f: F) -> Par<std::iter::Filter<I, F>> { self.with(|i| i.filter(f)) }
    pub fn filter_map<R, F: Fn(I::Item) -> Option<R>>(self, f: F) -> Par<std::iter::FilterMap<I, F>> { self.with(|i| i.filter_map(f)) }
    pub fn flat_map<R: IntoParallelIterator, F: Fn(I::Item) -> R>(self, f: F) -> Par<impl Iterator<Item = R::Item>> { self.with(move |i| i.flat_map(move |x| f(x).into_par_iter().it)) }
    pub fn flat_map_iter<R: IntoIterator, F: Fn(I::Item) -> R>(self, f: F) -> Par<impl Iterator<Item = R::Item>> { self.with(move |i| i.flat_map(f)) }
    pub fn flatten(self) -> Par<impl Iterator<Item = <I::Item as IntoIterator>::Item>> where I::Item: IntoIterator { self.with(|i| i.flatten()) }
    pub fn flatten_iter(self) -> Par<impl Iterator<Item = <I::Item as IntoIterator>::Item>> where I::Item: IntoIterator { self.with(|i| i.flatten()) }
    pub fn enumerate(self) -> Par<std::iter::Enumerate<I>> { self.with(|i| i.enumerate()) }
    pub fn zip<J: IntoParallelIterator>(self, o: J) -> Par<std::iter::Zip<I, J::Iter>> { self.with(|i| i.zip(o.into_par_iter().it)) }
    pub fn zip_eq<J: IntoParallelIterator>(self, o: J) -> Par<std::iter::Zip<I, J::Iter>> { self.zip(o) }
    pub fn chain<J: IntoParallelIterator<Item = I::Item>>(self, o: J) -> Par<std::iter::Chain<I, J::Iter>> { self.with(|i| i.chain(o.into_par_iter().it)) }
    pub fn rev(self) -> Par<std::iter::Rev<I>> where I: DoubleEndedIterator { self.with(|i| i.rev()) }
    pub fn skip(self, n: usize) -> Par<std::iter::Skip<I>> { self.with(|i| i.skip(n)) }
    pub fn take(self, n: usize) -> Par<std::iter::Take<I>> { self.with(|i| i.take(n)) }
    pub fn step_by(self, n: usize) -> Par<std::iter::StepBy<I>> { self.with(|i| i.step_by(n)) }
    pub fn chunks(self, n: usize) -> Par<std::vec::IntoIter<Vec<I::Item>>> {
        let idx = self.idx;
        let mut out = vec![]; let mut cur = vec![];
        for x in self.it { cur.push(x); if cur.len() == n { out.push(std::mem::take(&mut cur)); } }
        if !cur.is_empty() { out.push(cur); }
        Par { it: out.into_iter(), idx }
    }
    pub fn with_min_len(self, _: usize) -> Self { self }
    pub fn with_max_len(self, _: usize) -> Self { self }
    pub fn by_exponential_blocks(self) -> Self { self }
    pub fn by_uniform_blocks(self, _: usize) -> Self { self }
    pub fn panic_fuse(self) -> Self { self }
    pub fn len(&self) -> usize where I: ExactSizeIterator { self.it.len() }
    pub fn copied<'a, T: 'a + Copy>(self) -> Par<std::iter::Copied<I>> where I: Iterator<Item = &'a T> { self.with(|i| i.copied()) }
    pub fn cloned<'a, T: 'a + Clone>(self) -> Par<std::iter::Cloned<I>> where I: Iterator<Item = &'a T> { self.with(|i| i.cloned()) }

    pub fn for_each<F: Fn(I::Item)>(self, f: F) { each(self.any_order(), |x| f(x)) }
    pub fn for_each_with<S: Clone, F: Fn(&mut S, I::Item)>(self, s: S, f: F) { each(self.any_order(), |x| { let mut s = s.clone(); f(&mut s, x) }) }
    pub fn for_each_init<S, G: Fn() -> S, F: Fn(&mut S, I::Item)>(self, g: G, f: F) { each(self.any_order(), |x| { let mut s = g(); f(&mut s, x) }) }
    pub fn try_for_each<E, F: Fn(I::Item) -> Result<(), E>>(self, f: F) -> Result<(), E> { for x in self.any_order() { f(x)? } Ok(()) }
    pub fn count(self) -> usize { self.it.count() }
    pub fn sum<S: Sum<I::Item>>(self) -> S { self.any_order().into_iter().sum() }
    pub fn product<S: Product<I::Item>>(self) -> S { self.any_order().into_iter().product() }
    pub fn reduce<F: Fn(I::Item, I::Item) -> I::Item, G: Fn() -> I::Item>(self, g: G, f: F) -> I::Item {
        // rayon may insert the identity anywhere but keeps the order of the items
        self.items().into_iter().fold(g(), |a, b| f(a, b))
    }
    pub fn reduce_with<F: Fn(I::Item, I::Item) -> I::Item>(self, f: F) -> Option<I::Item> {
        let mut it = self.items().into_iter();
        let a = it.next()?;
        Some(it.fold(a, |a, b| f(a, b)))
    }
    pub fn fold<S, G: Fn() -> S, F: Fn(S, I::Item) -> S>(self, g: G, f: F) -> Par<std::vec::IntoIter<S>> {
        // split in two halves, as rayon may
        let idx = self.idx;
        let mut v = self.items();
        let b = v.split_off(v.len() / 2);
        let r = vec![v.into_iter().fold(g(), &f), b.into_iter().fold(g(), &f)];
        Par { it: r.into_iter(), idx }
    }
    pub fn fold_with<S: Clone, F: Fn(S, I::Item) -> S>(self, s: S, f: F) -> Par<std::vec::IntoIter<S>> { self.fold(move || s.clone(), f) }
    pub fn any<F: Fn(I::Item) -> bool>(self, f: F) -> bool { self.any_order().into_iter().any(f) }
    pub fn all<F: Fn(I::Item) -> bool>(self, f: F) -> bool { self.any_order().into_iter().all(f) }
    pub fn find_any<F: Fn(&I::Item) -> bool>(self, f: F) -> Option<I::Item> { self.any_order().into_iter().find(|x| f(x)) }
    pub fn find_first<F: Fn(&I::Item) -> bool>(self, f: F) -> Option<I::Item> { self.items().into_iter().find(|x| f(x)) }
    pub fn find_last<F: Fn(&I::Item) -> bool>(self, f: F) -> Option<I::Item> { self.items().into_iter().rev().find(|x| f(x)) }
    pub fn find_map_any<R, F: Fn(I::Item) -> Option<R>>(self, f: F) -> Option<R> { self.any_order().into_iter().find_map(f) }
    pub fn find_map_first<R, F: Fn(I::Item) -> Option<R>>(self, f: F) -> Option<R> { self.items().into_iter().find_map(f) }
    pub fn position_any<F: Fn(I::Item) -> bool>(self, f: F) -> Option<usize> { let mut it = self.it; it.position(f) }
    pub fn position_first<F: Fn(I::Item) -> bool>(self, f: F) -> Option<usize> { let mut it = self.it; it.position(f) }
    pub fn min(self) -> Option<I::Item> where I::Item: Ord { self.items().into_iter().min() }
    pub fn max(self) -> Option<I::Item> where I::Item: Ord { self.items().into_iter().max() }
    pub fn min_by<F: Fn(&I::Item, &I::Item) -> Ordering>(self, f: F) -> Option<I::Item> { self.items().into_iter().min_by(f) }
    pub fn max_by<F: Fn(&I::Item, &I::Item) -> Ordering>(self, f: F) -> Option<I::Item> { self.items().into_iter().max_by(f) }
    pub fn min_by_key<K: Ord, F: Fn(&I::Item) -> K>(self, f: F) -> Option<I::Item> { self.items().into_iter().min_by_key(f) }
    pub fn max_by_key<K: Ord, F: Fn(&I::Item) -> K>(self, f: F) -> Option<I::Item> { self.items().into_iter().max_by_key(f) }
    pub fn collect<C: FromIterator<I::Item>>(self) -> C { self.items().into_iter().collect() }
    pub fn collect_into_vec(self, v: &mut Vec<I::Item>) { let x = self.items(); v.clear(); v.extend(x); }
    pub fn unzip<A, B, FA: Default + Extend<A>, FB: Default + Extend<B>>(self) -> (FA, FB) where I: Iterator<Item = (A, B)> { self.items().into_iter().unzip() }
    pub fn partition<C: Default + Extend<I::Item>, F: Fn(&I::Item) -> bool>(self, f: F) -> (C, C) { self.items().into_iter().partition(|x| f(x)) }
}
impl<I: Iterator> IntoIterator for Par<I> { type Item = I::Item; type IntoIter = I; fn into_iter(self) -> I { self.it } }

pub use prelude::*;
pub mod prelude {
    use crate::Par;
    use std::cmp::Ordering;
    pub trait ParallelIterator {}
    impl<I: Iterator> ParallelIterator for Par<I> {}
    pub trait IndexedParallelIterator {}
    impl<I: Iterator> IndexedParallelIterator for Par<I> {}
    pub trait ParallelBridge: Iterator + Sized { fn par_bridge(self) -> Par<Self> { Par { it: self, idx: false } } }
    impl<I: Iterator> ParallelBridge for I {}
    pub trait IntoParallelIterator { type Item; type Iter: Iterator<Item = Self::Item>; fn into_par_iter(self) -> Par<Self::Iter>; }
    impl<T: IntoIterator> IntoParallelIterator for T { type Item = T::Item; type Iter = T::IntoIter; fn into_par_iter(self) -> Par<T::IntoIter> { Par { it: self.into_iter(), idx: true } } }
    pub trait IntoParallelRefIterator<'a> { type Iter: Iterator; fn par_iter(&'a self) -> Par<Self::Iter>; }
    impl<'a, C: 'a + ?Sized> IntoParallelRefIterator<'a> for C where &'a C: IntoIterator { type Iter = <&'a C as IntoIterator>::IntoIter; fn par_iter(&'a self) -> Par<Self::Iter> { Par { it: self.into_iter(), idx: true } } }
    pub trait IntoParallelRefMutIterator<'a> { type Iter: Iterator; fn par_iter_mut(&'a mut self) -> Par<Self::Iter>; }
    impl<'a, C: 'a + ?Sized> IntoParallelRefMutIterator<'a> for C where &'a mut C: IntoIterator { type Iter = <&'a mut C as IntoIterator>::IntoIter; fn par_iter_mut(&'a mut self) -> Par<Self::Iter> { Par { it: self.into_iter(), idx: true } } }
    pub trait ParallelExtend<T> { fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I); }
    impl<T> ParallelExtend<T> for Vec<T> { fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I) { let v: Vec<T> = i.into_par_iter().collect(); self.extend(v) } }
    pub trait ParallelSlice<T> {
        fn par_chunks(&self, n: usize) -> Par<std::slice::Chunks<'_, T>>;
        fn par_chunks_exact(&self, n: usize) -> Par<std::slice::ChunksExact<'_, T>>;
        fn par_windows(&self, n: usize) -> Par<std::slice::Windows<'_, T>>;
    }
    impl<T> ParallelSlice<T> for [T] {
        fn par_chunks(&self, n: usize) -> Par<std::slice::Chunks<'_, T>> { Par { it: self.chunks(n), idx: true } }
        fn par_chunks_exact(&self, n: usize) -> Par<std::slice::ChunksExact<'_, T>> { Par { it: self.chunks_exact(n), idx: true } }
        fn par_windows(&self, n: usize) -> Par<std::slice::Windows<'_, T>> { Par { it: self.windows(n), idx: true } }
    }
    pub trait ParallelSliceMut<T> {
        fn par_chunks_mut(&mut self, n: usize) -> Par<std::slice::ChunksMut<'_, T>>;
        fn par_chunks_exact_mut(&mut self, n: usize) -> Par<std::slice::ChunksExactMut<'_, T>>;
        fn par_sort(&mut self) where T: Ord;
        fn par_sort_unstable(&mut self) where T: Ord;
        fn par_sort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F);
        fn par_sort_unstable_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F);
        fn par_sort_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F);
        fn par_sort_unstable_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F);
        fn par_sort_by_cached_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F);
    }
    fn isort<T>(v: &mut [T], f: impl Fn(&T, &T) -> bool) {
        // stable insertion sort: every comparison sort that is stable gives this result
        let n = v.len();
        let mut i = 1;
        while i < n { let mut j = i; while j > 0 && f(&v[j], &v[j - 1]) { v.swap(j - 1, j); j -= 1; } i += 1; }
    }
    impl<T> ParallelSliceMut<T> for [T] {
        fn par_chunks_mut(&mut self, n: usize) -> Par<std::slice::ChunksMut<'_, T>> { Par { it: self.chunks_mut(n), idx: true } }
        fn par_chunks_exact_mut(&mut self, n: usize) -> Par<std::slice::ChunksExactMut<'_, T>> { Par { it: self.chunks_exact_mut(n), idx: true } }
        fn par_sort(&mut self) where T: Ord { isort(self, |a, b| a < b) }
        fn par_sort_unstable(&mut self) where T: Ord { isort(self, |a, b| a < b) }
        fn par_sort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F) { isort(self, |a, b| f(a, b) == Ordering::Less) }
        fn par_sort_unstable_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F) { isort(self, |a, b| f(a, b) == Ordering::Less) }
        fn par_sort_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) { isort(self, |a, b| f(a) < f(b)) }
        fn par_sort_unstable_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) { isort(self, |a, b| f(a) < f(b)) }
        fn par_sort_by_cached_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) { isort(self, |a, b| f(a) < f(b)) }
    }
}

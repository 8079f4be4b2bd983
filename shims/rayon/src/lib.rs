//! Sequential stand-in for rayon (symbolic build only).  The symbolic claims
//! are about the values computed; the reduction order is the sequential one.
use std::cmp::Ordering;

pub struct Par<I>(I);

pub trait IntoParallelIterator {
    type Item;
    type Iter: Iterator<Item = Self::Item>;
    fn into_par_iter(self) -> Par<Self::Iter>;
}
impl<T: IntoIterator> IntoParallelIterator for T {
    type Item = T::Item;
    type Iter = T::IntoIter;
    fn into_par_iter(self) -> Par<T::IntoIter> {
        Par(self.into_iter())
    }
}
impl<I: Iterator> IntoParallelIterator for Par<I> {
    type Item = I::Item;
    type Iter = I;
    fn into_par_iter(self) -> Par<I> {
        self
    }
}
pub trait IntoParallelRefIterator<'a> {
    type Iter: Iterator;
    fn par_iter(&'a self) -> Par<Self::Iter>;
}
impl<'a, T: 'a + ?Sized> IntoParallelRefIterator<'a> for T
where
    &'a T: IntoIterator,
{
    type Iter = <&'a T as IntoIterator>::IntoIter;
    fn par_iter(&'a self) -> Par<Self::Iter> {
        Par(self.into_iter())
    }
}
pub trait IntoParallelRefMutIterator<'a> {
    type Iter: Iterator;
    fn par_iter_mut(&'a mut self) -> Par<Self::Iter>;
}
impl<'a, T: 'a + ?Sized> IntoParallelRefMutIterator<'a> for T
where
    &'a mut T: IntoIterator,
{
    type Iter = <&'a mut T as IntoIterator>::IntoIter;
    fn par_iter_mut(&'a mut self) -> Par<Self::Iter> {
        Par(self.into_iter())
    }
}
pub trait ParallelBridge: Iterator + Sized {
    fn par_bridge(self) -> Par<Self> {
        Par(self)
    }
}
impl<I: Iterator> ParallelBridge for I {}

pub trait ParallelSlice<T> {
    fn par_chunks(&self, n: usize) -> Par<std::slice::Chunks<'_, T>>;
    fn par_windows(&self, n: usize) -> Par<std::slice::Windows<'_, T>>;
}
impl<T> ParallelSlice<T> for [T] {
    fn par_chunks(&self, n: usize) -> Par<std::slice::Chunks<'_, T>> {
        Par(self.chunks(n))
    }
    fn par_windows(&self, n: usize) -> Par<std::slice::Windows<'_, T>> {
        Par(self.windows(n))
    }
}
pub trait ParallelSliceMut<T> {
    fn par_chunks_mut(&mut self, n: usize) -> Par<std::slice::ChunksMut<'_, T>>;
    fn par_sort(&mut self)
    where
        T: Ord;
    fn par_sort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F);
    fn par_sort_unstable_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F);
    fn par_sort_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F);
    fn par_sort_unstable(&mut self)
    where
        T: Ord;
}
impl<T> ParallelSliceMut<T> for [T] {
    fn par_chunks_mut(&mut self, n: usize) -> Par<std::slice::ChunksMut<'_, T>> {
        Par(self.chunks_mut(n))
    }
    fn par_sort(&mut self)
    where
        T: Ord,
    {
        self.sort()
    }
    fn par_sort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F) {
        self.sort_by(f)
    }
    fn par_sort_unstable_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F) {
        self.sort_by(f)
    }
    fn par_sort_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) {
        self.sort_by_key(f)
    }
    fn par_sort_unstable(&mut self)
    where
        T: Ord,
    {
        self.sort()
    }
}

pub trait FromParallelIterator<T>: FromIterator<T> {}
impl<T, C: FromIterator<T>> FromParallelIterator<T> for C {}

// marker traits so that explicit bounds keep compiling
pub trait ParallelIterator {}
pub trait IndexedParallelIterator {}
impl<I> ParallelIterator for Par<I> {}
impl<I> IndexedParallelIterator for Par<I> {}

impl<I: Iterator> Par<I> {
    pub fn map<R, F: FnMut(I::Item) -> R>(self, f: F) -> Par<std::iter::Map<I, F>> {
        Par(self.0.map(f))
    }
    pub fn filter<F: FnMut(&I::Item) -> bool>(self, f: F) -> Par<std::iter::Filter<I, F>> {
        Par(self.0.filter(f))
    }
    pub fn filter_map<R, F: FnMut(I::Item) -> Option<R>>(self, f: F) -> Par<std::iter::FilterMap<I, F>> {
        Par(self.0.filter_map(f))
    }
    pub fn flat_map<U: IntoIterator, F: FnMut(I::Item) -> U>(self, f: F) -> Par<std::iter::FlatMap<I, U, F>> {
        Par(self.0.flat_map(f))
    }
    pub fn flat_map_iter<U: IntoIterator, F: FnMut(I::Item) -> U>(self, f: F) -> Par<std::iter::FlatMap<I, U, F>> {
        Par(self.0.flat_map(f))
    }
    pub fn flatten(self) -> Par<std::iter::Flatten<I>>
    where
        I::Item: IntoIterator,
    {
        Par(self.0.flatten())
    }
    pub fn zip<J: IntoParallelIterator>(self, o: J) -> Par<std::iter::Zip<I, J::Iter>> {
        Par(self.0.zip(o.into_par_iter().0))
    }
    pub fn zip_eq<J: IntoParallelIterator>(self, o: J) -> Par<std::iter::Zip<I, J::Iter>> {
        Par(self.0.zip(o.into_par_iter().0))
    }
    pub fn chain<J: IntoParallelIterator<Item = I::Item>>(self, o: J) -> Par<std::iter::Chain<I, J::Iter>> {
        Par(self.0.chain(o.into_par_iter().0))
    }
    pub fn enumerate(self) -> Par<std::iter::Enumerate<I>> {
        Par(self.0.enumerate())
    }
    pub fn rev(self) -> Par<std::iter::Rev<I>>
    where
        I: DoubleEndedIterator,
    {
        Par(self.0.rev())
    }
    pub fn skip(self, n: usize) -> Par<std::iter::Skip<I>> {
        Par(self.0.skip(n))
    }
    pub fn take(self, n: usize) -> Par<std::iter::Take<I>> {
        Par(self.0.take(n))
    }
    pub fn inspect<F: FnMut(&I::Item)>(self, f: F) -> Par<std::iter::Inspect<I, F>> {
        Par(self.0.inspect(f))
    }
    pub fn copied<'a, T: 'a + Copy>(self) -> Par<std::iter::Copied<I>>
    where
        I: Iterator<Item = &'a T>,
    {
        Par(self.0.copied())
    }
    pub fn cloned<'a, T: 'a + Clone>(self) -> Par<std::iter::Cloned<I>>
    where
        I: Iterator<Item = &'a T>,
    {
        Par(self.0.cloned())
    }
    pub fn with_min_len(self, _n: usize) -> Self {
        self
    }
    pub fn with_max_len(self, _n: usize) -> Self {
        self
    }
    pub fn for_each<F: FnMut(I::Item)>(self, f: F) {
        self.0.for_each(f)
    }
    pub fn try_for_each<E, F: FnMut(I::Item) -> Result<(), E>>(mut self, f: F) -> Result<(), E> {
        self.0.try_for_each(f)
    }
    pub fn sum<S: std::iter::Sum<I::Item>>(self) -> S {
        self.0.sum()
    }
    pub fn product<S: std::iter::Product<I::Item>>(self) -> S {
        self.0.product()
    }
    pub fn count(self) -> usize {
        self.0.count()
    }
    pub fn collect<C: FromIterator<I::Item>>(self) -> C {
        self.0.collect()
    }
    pub fn collect_into_vec(self, v: &mut Vec<I::Item>) {
        v.clear();
        v.extend(self.0)
    }
    pub fn unzip<A, B, X, Y>(self) -> (X, Y)
    where
        I: Iterator<Item = (A, B)>,
        X: Default + Extend<A>,
        Y: Default + Extend<B>,
    {
        self.0.unzip()
    }
    pub fn partition<C: Default + Extend<I::Item>, F: FnMut(&I::Item) -> bool>(self, f: F) -> (C, C) {
        self.0.partition(f)
    }
    pub fn any<F: FnMut(I::Item) -> bool>(mut self, f: F) -> bool {
        self.0.any(f)
    }
    pub fn all<F: FnMut(I::Item) -> bool>(mut self, f: F) -> bool {
        self.0.all(f)
    }
    pub fn find_any<F: FnMut(&I::Item) -> bool>(mut self, f: F) -> Option<I::Item> {
        self.0.find(f)
    }
    pub fn find_first<F: FnMut(&I::Item) -> bool>(mut self, f: F) -> Option<I::Item> {
        self.0.find(f)
    }
    pub fn position_any<F: FnMut(I::Item) -> bool>(mut self, f: F) -> Option<usize> {
        self.0.position(f)
    }
    pub fn position_first<F: FnMut(I::Item) -> bool>(mut self, f: F) -> Option<usize> {
        self.0.position(f)
    }
    pub fn min_by<F: FnMut(&I::Item, &I::Item) -> Ordering>(self, f: F) -> Option<I::Item> {
        self.0.min_by(f)
    }
    pub fn max_by<F: FnMut(&I::Item, &I::Item) -> Ordering>(self, f: F) -> Option<I::Item> {
        self.0.max_by(f)
    }
    pub fn min_by_key<K: Ord, F: FnMut(&I::Item) -> K>(self, f: F) -> Option<I::Item> {
        self.0.min_by_key(f)
    }
    pub fn max_by_key<K: Ord, F: FnMut(&I::Item) -> K>(self, f: F) -> Option<I::Item> {
        self.0.max_by_key(f)
    }
    pub fn min(self) -> Option<I::Item>
    where
        I::Item: Ord,
    {
        self.0.min()
    }
    pub fn max(self) -> Option<I::Item>
    where
        I::Item: Ord,
    {
        self.0.max()
    }
    pub fn reduce<Id: Fn() -> I::Item, F: FnMut(I::Item, I::Item) -> I::Item>(self, id: Id, f: F) -> I::Item {
        self.0.fold(id(), f)
    }
    pub fn reduce_with<F: FnMut(I::Item, I::Item) -> I::Item>(self, f: F) -> Option<I::Item> {
        self.0.reduce(f)
    }
    pub fn fold<T, Id: Fn() -> T, F: FnMut(T, I::Item) -> T>(self, id: Id, f: F) -> Par<std::iter::Once<T>> {
        Par(std::iter::once(self.0.fold(id(), f)))
    }
    pub fn map_with<T, R, F: FnMut(&mut T, I::Item) -> R>(self, mut t: T, mut f: F) -> Par<std::vec::IntoIter<R>> {
        Par(self.0.map(|x| f(&mut t, x)).collect::<Vec<_>>().into_iter())
    }
    pub fn map_init<T, R, Id: Fn() -> T, F: FnMut(&mut T, I::Item) -> R>(
        self,
        id: Id,
        mut f: F,
    ) -> Par<std::vec::IntoIter<R>> {
        let mut t = id();
        Par(self.0.map(|x| f(&mut t, x)).collect::<Vec<_>>().into_iter())
    }
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA,
    B: FnOnce() -> RB,
{
    (a(), b())
}
pub fn current_num_threads() -> usize {
    1
}

pub mod prelude {
    pub use super::{
        FromParallelIterator, IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator,
        IntoParallelRefMutIterator, ParallelBridge, ParallelIterator, ParallelSlice, ParallelSliceMut,
    };
}
pub mod iter {
    pub use super::prelude::*;
}
pub mod slice {
    pub use super::{ParallelSlice, ParallelSliceMut};
}

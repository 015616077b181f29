//! What rayon does, as far as the programs use it: every item is given to the closures exactly once, one after the
//! other (they share nothing that can be changed), and results are combined in the order of the items, from
//! the left. (A result of other items is as arbitrary as that of one, so that other groupings add nothing.)
pub mod prelude {
    pub use crate::{IntoParallelIterator, IntoParallelRefIterator, ParallelIterator};
}
pub mod iter {
    pub use crate::{IntoParallelIterator, IntoParallelRefIterator, ParallelIterator};
}

pub struct Par<I>(I);

/// The items, one by one.
pub struct Seq<I>(I);
impl<I: Iterator> Iterator for Seq<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
}

pub struct Skip<I>(I, usize);
impl<I: Iterator> Iterator for Skip<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        while self.1 > 0 {
            self.1 -= 1;
            self.0.next()?;
        }
        self.0.next()
    }
}
pub struct Take<I>(I, usize);
impl<I: Iterator> Iterator for Take<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.1 == 0 {
            return None;
        }
        self.1 -= 1;
        self.0.next()
    }
}

pub trait IntoParallelIterator {
    type Item;
    type Iter: Iterator<Item = Self::Item>;
    fn into_par_iter(self) -> Par<Self::Iter>;
}
impl<T> IntoParallelIterator for Vec<T> {
    type Item = T;
    type Iter = std::vec::IntoIter<T>;
    fn into_par_iter(self) -> Par<Self::Iter> {
        Par(self.into_iter())
    }
}
impl<'a, T> IntoParallelIterator for &'a Vec<T> {
    type Item = &'a T;
    type Iter = std::slice::Iter<'a, T>;
    fn into_par_iter(self) -> Par<Self::Iter> {
        Par(self.iter())
    }
}
impl<'a, T> IntoParallelIterator for &'a [T] {
    type Item = &'a T;
    type Iter = std::slice::Iter<'a, T>;
    fn into_par_iter(self) -> Par<Self::Iter> {
        Par(self.iter())
    }
}
pub trait IntoParallelRefIterator<'a> {
    type Item;
    type Iter: Iterator<Item = Self::Item>;
    fn par_iter(&'a self) -> Par<Self::Iter>;
}
impl<'a, T: 'a> IntoParallelRefIterator<'a> for [T] {
    type Item = &'a T;
    type Iter = std::slice::Iter<'a, T>;
    fn par_iter(&'a self) -> Par<Self::Iter> {
        Par(self.iter())
    }
}

pub trait ParallelIterator: Sized {
    type Item;
    type Seq: Iterator<Item = Self::Item>;
    fn seq(self) -> Self::Seq;

    fn map<R, F: Fn(Self::Item) -> R + Sync + Send>(self, f: F) -> Par<std::iter::Map<Self::Seq, F>> {
        Par(self.seq().map(f))
    }
    fn filter<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Par<std::iter::Filter<Self::Seq, F>> {
        Par(self.seq().filter(f))
    }
    fn filter_map<R, F: Fn(Self::Item) -> Option<R> + Sync + Send>(self, f: F) -> Par<std::iter::FilterMap<Self::Seq, F>> {
        Par(self.seq().filter_map(f))
    }
    fn flat_map_iter<R: IntoIterator, F: Fn(Self::Item) -> R + Sync + Send>(self, f: F) -> Par<std::iter::FlatMap<Self::Seq, R, F>> {
        Par(self.seq().flat_map(f))
    }
    fn enumerate(self) -> Par<std::iter::Enumerate<Self::Seq>> {
        Par(self.seq().enumerate())
    }
    fn skip(self, n: usize) -> Par<Skip<Self::Seq>> {
        Par(Skip(self.seq(), n))
    }
    fn take(self, n: usize) -> Par<Take<Self::Seq>> {
        Par(Take(self.seq(), n))
    }
    fn step_by(self, n: usize) -> Par<std::iter::StepBy<Self::Seq>> {
        Par(self.seq().step_by(n))
    }
    fn with_min_len(self, _n: usize) -> Self {
        self
    }
    fn with_max_len(self, _n: usize) -> Self {
        self
    }
    fn fold<T, ID, F>(self, identity: ID, f: F) -> Par<std::iter::Once<T>>
    where
        F: Fn(T, Self::Item) -> T + Sync + Send,
        ID: Fn() -> T + Sync + Send,
    {
        let mut acc = identity();
        for x in self.seq() {
            acc = f(acc, x);
        }
        Par(std::iter::once(acc))
    }
    fn max(self) -> Option<Self::Item>
    where
        Self::Item: Ord,
    {
        Seq(self.seq()).max()
    }
    fn min(self) -> Option<Self::Item>
    where
        Self::Item: Ord,
    {
        Seq(self.seq()).min()
    }
    fn any<P: Fn(Self::Item) -> bool + Sync + Send>(self, f: P) -> bool {
        Seq(self.seq()).any(f)
    }
    fn all<P: Fn(Self::Item) -> bool + Sync + Send>(self, f: P) -> bool {
        Seq(self.seq()).all(f)
    }
    fn copied<'a, T: 'a + Copy>(self) -> Par<std::iter::Copied<Self::Seq>>
    where
        Self::Seq: Iterator<Item = &'a T>,
    {
        Par(self.seq().copied())
    }
    fn sum<S>(self) -> S
    where
        S: std::iter::Sum<Self::Item>,
    {
        Seq(self.seq()).sum()
    }
    fn count(self) -> usize {
        Seq(self.seq()).count()
    }
    fn for_each<F: Fn(Self::Item) + Sync + Send>(self, f: F) {
        Seq(self.seq()).for_each(f)
    }
    fn reduce<ID, OP>(self, identity: ID, op: OP) -> Self::Item
    where
        OP: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send,
        ID: Fn() -> Self::Item + Sync + Send,
    {
        let mut acc = identity();
        for x in self.seq() {
            acc = op(acc, x);
        }
        acc
    }
    fn reduce_with<OP>(self, op: OP) -> Option<Self::Item>
    where
        OP: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send,
    {
        let mut acc = None;
        for x in self.seq() {
            acc = match acc {
                None => Some(x),
                Some(a) => Some(op(a, x)),
            };
        }
        acc
    }
    fn collect<C: FromIterator<Self::Item>>(self) -> C {
        Seq(self.seq()).collect()
    }
}
impl<I: Iterator> ParallelIterator for Par<I> {
    type Item = I::Item;
    type Seq = I;
    fn seq(self) -> I {
        self.0
    }
}
pub fn current_num_threads() -> usize {
    1
}

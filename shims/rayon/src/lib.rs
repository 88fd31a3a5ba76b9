//! Sequential stand-in for `rayon`: the same combinators, one element after the other.
pub mod iter {
    use std::iter::{FromIterator, Product, Sum};

    pub struct Par<I>(pub I);

    impl<I: Iterator> IntoIterator for Par<I> {
        type Item = I::Item;
        type IntoIter = I;
        fn into_iter(self) -> I {
            self.0
        }
    }

    pub trait IntoParallelIterator {
        type Iter;
        type Item;
        fn into_par_iter(self) -> Self::Iter;
    }
    impl<T: IntoIterator> IntoParallelIterator for T {
        type Iter = Par<T::IntoIter>;
        type Item = T::Item;
        fn into_par_iter(self) -> Par<T::IntoIter> {
            Par(self.into_iter())
        }
    }
    pub trait IntoParallelRefIterator<'a> {
        type Iter;
        fn par_iter(&'a self) -> Self::Iter;
    }
    impl<'a, T: 'a + ?Sized> IntoParallelRefIterator<'a> for T
    where
        &'a T: IntoIterator,
    {
        type Iter = Par<<&'a T as IntoIterator>::IntoIter>;
        fn par_iter(&'a self) -> Self::Iter {
            Par(self.into_iter())
        }
    }
    pub trait IntoParallelRefMutIterator<'a> {
        type Iter;
        fn par_iter_mut(&'a mut self) -> Self::Iter;
    }
    impl<'a, T: 'a + ?Sized> IntoParallelRefMutIterator<'a> for T
    where
        &'a mut T: IntoIterator,
    {
        type Iter = Par<<&'a mut T as IntoIterator>::IntoIter>;
        fn par_iter_mut(&'a mut self) -> Self::Iter {
            Par(self.into_iter())
        }
    }
    pub trait ParallelIterator {}
    impl<I: Iterator> ParallelIterator for Par<I> {}
    pub trait IndexedParallelIterator {}
    impl<I: Iterator> IndexedParallelIterator for Par<I> {}
    pub trait ParallelBridge: Sized {
        fn par_bridge(self) -> Par<Self>;
    }
    impl<I: Iterator> ParallelBridge for I {
        fn par_bridge(self) -> Par<I> {
            Par(self)
        }
    }

    impl<I: Iterator> Par<I> {
        pub fn map<R, F: Fn(I::Item) -> R>(self, f: F) -> Par<impl Iterator<Item = R>> {
            Par(self.0.map(f))
        }
        pub fn map_with<S, R, F: Fn(&mut S, I::Item) -> R>(self, mut s: S, f: F) -> Par<impl Iterator<Item = R>> {
            Par(self.0.map(move |x| f(&mut s, x)))
        }
        pub fn map_init<S, R, G: Fn() -> S, F: Fn(&mut S, I::Item) -> R>(self, g: G, f: F) -> Par<impl Iterator<Item = R>> {
            let mut s = g();
            Par(self.0.map(move |x| f(&mut s, x)))
        }
        pub fn filter<F: Fn(&I::Item) -> bool>(self, f: F) -> Par<impl Iterator<Item = I::Item>> {
            Par(self.0.filter(f))
        }
        pub fn filter_map<R, F: Fn(I::Item) -> Option<R>>(self, f: F) -> Par<impl Iterator<Item = R>> {
            Par(self.0.filter_map(f))
        }
        pub fn flat_map<R: IntoIterator, F: Fn(I::Item) -> R>(self, f: F) -> Par<impl Iterator<Item = R::Item>> {
            Par(self.0.flat_map(f))
        }
        pub fn flat_map_iter<R: IntoIterator, F: Fn(I::Item) -> R>(self, f: F) -> Par<impl Iterator<Item = R::Item>> {
            Par(self.0.flat_map(f))
        }
        pub fn inspect<F: Fn(&I::Item)>(self, f: F) -> Par<impl Iterator<Item = I::Item>> {
            Par(self.0.inspect(f))
        }
        pub fn enumerate(self) -> Par<std::iter::Enumerate<I>> {
            Par(self.0.enumerate())
        }
        pub fn zip<J: IntoIterator>(self, j: J) -> Par<std::iter::Zip<I, J::IntoIter>> {
            Par(self.0.zip(j))
        }
        pub fn chain<J: IntoIterator<Item = I::Item>>(self, j: J) -> Par<std::iter::Chain<I, J::IntoIter>> {
            Par(self.0.chain(j))
        }
        pub fn take(self, n: usize) -> Par<std::iter::Take<I>> {
            Par(self.0.take(n))
        }
        pub fn skip(self, n: usize) -> Par<std::iter::Skip<I>> {
            Par(self.0.skip(n))
        }
        pub fn rev(self) -> Par<std::iter::Rev<I>>
        where
            I: DoubleEndedIterator,
        {
            Par(self.0.rev())
        }
        pub fn with_min_len(self, _n: usize) -> Self {
            self
        }
        pub fn with_max_len(self, _n: usize) -> Self {
            self
        }
        pub fn cloned<'a, T: 'a + Clone>(self) -> Par<std::iter::Cloned<I>>
        where
            I: Iterator<Item = &'a T>,
        {
            Par(self.0.cloned())
        }
        pub fn copied<'a, T: 'a + Copy>(self) -> Par<std::iter::Copied<I>>
        where
            I: Iterator<Item = &'a T>,
        {
            Par(self.0.copied())
        }
        pub fn chunks(self, n: usize) -> Par<std::vec::IntoIter<Vec<I::Item>>> {
            let mut out = Vec::new();
            let mut cur = Vec::new();
            for x in self.0 {
                cur.push(x);
                if cur.len() == n {
                    out.push(std::mem::take(&mut cur));
                }
            }
            if !cur.is_empty() {
                out.push(cur);
            }
            Par(out.into_iter())
        }
        pub fn collect<C: FromIterator<I::Item>>(self) -> C {
            self.0.collect()
        }
        pub fn collect_into_vec(self, v: &mut Vec<I::Item>) {
            v.clear();
            v.extend(self.0);
        }
        pub fn unzip<A, B, X: Default + Extend<A>, Y: Default + Extend<B>>(self) -> (X, Y)
        where
            I: Iterator<Item = (A, B)>,
        {
            self.0.unzip()
        }
        pub fn for_each<F: Fn(I::Item)>(self, f: F) {
            self.0.for_each(f)
        }
        pub fn try_for_each<E, F: Fn(I::Item) -> Result<(), E>>(mut self, f: F) -> Result<(), E> {
            self.0.try_for_each(f)
        }
        pub fn count(self) -> usize {
            self.0.count()
        }
        pub fn sum<S: Sum<I::Item>>(self) -> S {
            self.0.sum()
        }
        pub fn product<S: Product<I::Item>>(self) -> S {
            self.0.product()
        }
        pub fn all<F: Fn(I::Item) -> bool>(mut self, f: F) -> bool {
            self.0.all(f)
        }
        pub fn any<F: Fn(I::Item) -> bool>(mut self, f: F) -> bool {
            self.0.any(f)
        }
        pub fn find_any<F: Fn(&I::Item) -> bool>(mut self, f: F) -> Option<I::Item> {
            self.0.find(|x| f(x))
        }
        pub fn find_first<F: Fn(&I::Item) -> bool>(mut self, f: F) -> Option<I::Item> {
            self.0.find(|x| f(x))
        }
        pub fn position_any<F: Fn(I::Item) -> bool>(mut self, f: F) -> Option<usize> {
            self.0.position(f)
        }
        pub fn position_first<F: Fn(I::Item) -> bool>(mut self, f: F) -> Option<usize> {
            self.0.position(f)
        }
        pub fn reduce<G: Fn() -> I::Item, F: Fn(I::Item, I::Item) -> I::Item>(self, g: G, f: F) -> I::Item {
            self.0.fold(g(), f)
        }
        pub fn reduce_with<F: Fn(I::Item, I::Item) -> I::Item>(self, f: F) -> Option<I::Item> {
            self.0.reduce(f)
        }
        pub fn fold<T, G: Fn() -> T, F: Fn(T, I::Item) -> T>(self, g: G, f: F) -> Par<std::iter::Once<T>> {
            Par(std::iter::once(self.0.fold(g(), f)))
        }
        pub fn min(self) -> Option<I::Item>
        where
            I::Item: Ord,
        {
            self.0.min()
        }
        pub fn max(self) -> Option<I::Item>
        where
            I::Item: Ord,
        {
            self.0.max()
        }
    }
}

pub mod slice {
    use crate::iter::Par;
    pub trait ParallelSlice<T> {
        fn par_chunks(&self, n: usize) -> Par<std::slice::Chunks<'_, T>>;
        fn par_chunks_exact(&self, n: usize) -> Par<std::slice::ChunksExact<'_, T>>;
        fn par_windows(&self, n: usize) -> Par<std::slice::Windows<'_, T>>;
    }
    impl<T> ParallelSlice<T> for [T] {
        fn par_chunks(&self, n: usize) -> Par<std::slice::Chunks<'_, T>> {
            Par(self.chunks(n))
        }
        fn par_chunks_exact(&self, n: usize) -> Par<std::slice::ChunksExact<'_, T>> {
            Par(self.chunks_exact(n))
        }
        fn par_windows(&self, n: usize) -> Par<std::slice::Windows<'_, T>> {
            Par(self.windows(n))
        }
    }
    pub trait ParallelSliceMut<T> {
        fn par_chunks_mut(&mut self, n: usize) -> Par<std::slice::ChunksMut<'_, T>>;
        fn par_sort(&mut self)
        where
            T: Ord;
        fn par_sort_unstable(&mut self)
        where
            T: Ord;
    }
    impl<T> ParallelSliceMut<T> for [T] {
        fn par_chunks_mut(&mut self, n: usize) -> Par<std::slice::ChunksMut<'_, T>> {
            Par(self.chunks_mut(n))
        }
        fn par_sort(&mut self)
        where
            T: Ord,
        {
            self.sort()
        }
        fn par_sort_unstable(&mut self)
        where
            T: Ord,
        {
            self.sort_unstable()
        }
    }
}

pub mod prelude {
    pub use crate::iter::{
        IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator,
        ParallelBridge, ParallelIterator,
    };
    pub use crate::slice::{ParallelSlice, ParallelSliceMut};
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA,
    B: FnOnce() -> RB,
{
    (a(), b())
}
pub fn current_num_threads() -> usize {
    1
}

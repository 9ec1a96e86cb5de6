//! Stand-in of the crate par-map (used by osmpbfreader for decoding blobs in threads of a pool, handing out the results in
//! the order of the blobs): same interface, same order, but without threads, which symbolic execution does not provide.
pub trait ParMap: Iterator + Sized {
    fn par_flat_map<U, F>(self, f: F) -> FlatMap<Self, U, F>
    where
        F: Sync + Send + 'static + Fn(Self::Item) -> U,
        U: IntoIterator,
        U::Item: Send + 'static,
        Self::Item: Send + 'static,
    {
        FlatMap { iter: self, f, cur_iter: vec![].into_iter() }
    }
}
impl<I: Iterator> ParMap for I {}

pub struct FlatMap<I: Iterator, U: IntoIterator, F> {
    iter: I,
    f: F,
    cur_iter: std::vec::IntoIter<U::Item>,
}
impl<I: Iterator, U: IntoIterator, F> Iterator for FlatMap<I, U, F>
where
    F: Sync + Send + 'static + Fn(I::Item) -> U,
    U::Item: Send + 'static,
    I::Item: Send + 'static,
{
    type Item = U::Item;
    fn next(&mut self) -> Option<Self::Item> {
        loop {
            if let Some(item) = self.cur_iter.next() { return Some(item); }
            let next = self.iter.next()?;
            self.cur_iter = (self.f)(next).into_iter().collect::<Vec<_>>().into_iter();
        }
    }
}

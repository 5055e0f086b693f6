//! Stand-in for `enum-iterator` (not in the offline cargo cache), for field-less enums.
pub use enum_iterator_derive::Sequence;

pub trait Sequence: Sized {
    const CARDINALITY: usize;
    fn next(&self) -> Option<Self>;
    fn previous(&self) -> Option<Self>;
    fn first() -> Option<Self>;
    fn last() -> Option<Self>;
}
pub struct All<T>(Option<T>);
impl<T: Sequence> Iterator for All<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let x = self.0.take()?;
        self.0 = Sequence::next(&x);
        Some(x)
    }
}
pub fn all<T: Sequence>() -> All<T> {
    All(T::first())
}
pub const fn cardinality<T: Sequence>() -> usize {
    T::CARDINALITY
}
pub fn first<T: Sequence>() -> Option<T> {
    T::first()
}
pub fn last<T: Sequence>() -> Option<T> {
    T::last()
}
pub fn next<T: Sequence>(x: &T) -> Option<T> {
    x.next()
}
pub fn previous<T: Sequence>(x: &T) -> Option<T> {
    x.previous()
}

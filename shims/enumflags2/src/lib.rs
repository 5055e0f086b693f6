pub use enumflags2_derive::bitflags;
use std::marker::PhantomData;

pub trait BitFlag: Copy + Sized + 'static {
    const ITEMS: &'static [Self];
    fn bit(self) -> u64;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct BitFlags<T: BitFlag>(u64, PhantomData<T>);

impl<T: BitFlag> BitFlags<T> {
    pub const ALL: Self = Self((1u64 << T::ITEMS.len()) - 1, PhantomData);
    pub fn iter(self) -> impl Iterator<Item = T> + Clone + 'static {
        T::ITEMS.iter().copied().filter(move |i| self.0 & i.bit() != 0)
    }
    pub fn is_empty(self) -> bool {
        self.0 == 0
    }
    pub fn contains(self, t: T) -> bool {
        self.0 & t.bit() != 0
    }
}

impl<T: BitFlag> From<T> for BitFlags<T> {
    fn from(t: T) -> Self {
        Self(t.bit(), PhantomData)
    }
}

impl<T: BitFlag> FromIterator<T> for BitFlags<T> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        Self(i.into_iter().fold(0, |a, t| a | t.bit()), PhantomData)
    }
}

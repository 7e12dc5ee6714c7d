//! Offline stand-in for enum-iterator (unit-variant enums).
pub use enum_iterator_derive::Sequence;
pub trait Sequence: Sized + Copy + 'static {
    const VALUES: &'static [Self];
    fn position(&self) -> usize;
    fn next(&self) -> Option<Self> { Self::VALUES.get(self.position() + 1).copied() }
    fn previous(&self) -> Option<Self> { self.position().checked_sub(1).map(|i| Self::VALUES[i]) }
    fn first() -> Option<Self> { Self::VALUES.first().copied() }
    fn last() -> Option<Self> { Self::VALUES.last().copied() }
}
pub fn all<T: Sequence>() -> impl DoubleEndedIterator<Item = T> + ExactSizeIterator { T::VALUES.iter().copied() }
pub fn first<T: Sequence>() -> Option<T> { T::first() }
pub fn last<T: Sequence>() -> Option<T> { T::last() }
pub fn next<T: Sequence>(x: &T) -> Option<T> { x.next() }
pub fn previous<T: Sequence>(x: &T) -> Option<T> { x.previous() }
pub fn cardinality<T: Sequence>() -> usize { T::VALUES.len() }

// Contracts assumed on library functions that the tree the proof was made for does not call: they let the
// proof follow a change that starts to use them. Nothing is proved from them on that tree.
pub mod std_spare {
    use vstd::prelude::*;
    use std::cmp::Ordering;
    pub assume_specification [<Ordering as PartialEq>::eq] (a: &Ordering, b: &Ordering) -> (r: bool) ensures r == (*a == *b);
    pub assume_specification [std::cmp::Ordering::is_lt] (a: Ordering) -> (r: bool) ensures r == (a == Ordering::Less);
    pub assume_specification [std::cmp::Ordering::is_le] (a: Ordering) -> (r: bool) ensures r == (a != Ordering::Greater);
    pub assume_specification [std::cmp::Ordering::is_gt] (a: Ordering) -> (r: bool) ensures r == (a == Ordering::Greater);
    pub assume_specification [std::cmp::Ordering::is_ge] (a: Ordering) -> (r: bool) ensures r == (a != Ordering::Less);
    pub assume_specification [std::cmp::Ordering::is_eq] (a: Ordering) -> (r: bool) ensures r == (a == Ordering::Equal);
    pub assume_specification [std::cmp::Ordering::is_ne] (a: Ordering) -> (r: bool) ensures r == (a != Ordering::Equal);
    pub assume_specification [std::cmp::Ordering::reverse] (a: Ordering) -> (r: Ordering)
        ensures r == (match a { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less });
    pub assume_specification [std::cmp::Ordering::then] (a: Ordering, b: Ordering) -> (r: Ordering) ensures r == (if a == Ordering::Equal { b } else { a });
    pub assume_specification [<u32 as From<bool>>::from] (a: bool) -> (r: u32) ensures r == (if a { 1u32 } else { 0u32 });
    pub assume_specification [<u8 as From<bool>>::from] (a: bool) -> (r: u8) ensures r == (if a { 1u8 } else { 0u8 });
    pub assume_specification<T> [std::mem::replace] (a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
    pub assume_specification [usize::abs_diff] (a: usize, b: usize) -> (r: usize) ensures r == if a > b { a - b } else { b - a };
}

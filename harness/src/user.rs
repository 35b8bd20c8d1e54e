//! What a user of the crate may define: instants, windows, iterators.
use chronologic::*;
use crate::{model::*, pt::*};
use std::{cmp::Ordering, fmt, ops::*};

/// Instants written backwards: the greater the number kept, the earlier it is
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Up(i64);
impl PartialOrd for Up { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Up { fn cmp(&self, o: &Self) -> Ordering { o.0.cmp(&self.0) } }
impl Neg for Up { type Output = Up; fn neg(self) -> Up { Up(-self.0) } }
impl fmt::Debug for Up { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "u{}", -(self.0 as i128)) } }
impl fmt::Display for Up { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "u{}", -(self.0 as i128)) } }
impl TimePointFormat for Up { fn format_timepoint(self, fmt: &str) -> String { format!("{fmt}{self}") } }
impl TimePoint for Up {
    const INFINITE: Up = Up(NEG);
    fn is_finite(&self) -> bool { self.0 != NEG && self.0 != INF }
    fn is_future_infinite(&self) -> bool { self.0 == NEG }
    fn is_past_infinite(&self) -> bool { self.0 == INF }
    fn just_after(&self) -> Up { if self.is_finite() { Up(self.0 - 1) } else { *self } }
    fn just_before(&self) -> Up { if self.is_finite() { Up(self.0 + 1) } else { *self } }
}
impl Pt for Up {
    fn mk(t: i64) -> Up { Up(-t) }
    fn tk(self) -> i64 { -self.0 }
    const DATE: bool = false;
}
impl Add<TimeValue> for Up { type Output = Up; fn add(self, d: TimeValue) -> Up { Up::mk((TimeValue::from_ticks(self.tk()) + d).as_ticks()) } }
impl Sub<TimeValue> for Up { type Output = Up; fn sub(self, d: TimeValue) -> Up { self + -d } }
impl AddAssign<TimeValue> for Up { fn add_assign(&mut self, d: TimeValue) { *self = *self + d } }
impl SubAssign<TimeValue> for Up { fn sub_assign(&mut self, d: TimeValue) { *self = *self - d } }

/// A time line of seven instants, -3 to 3, between its infinities
pub const M: i8 = 3;
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Small(i8);
impl Neg for Small { type Output = Small; fn neg(self) -> Small { Small(-self.0) } }
impl fmt::Display for Small { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "s{}", self.0) } }
impl TimePointFormat for Small { fn format_timepoint(self, fmt: &str) -> String { format!("{fmt}{self}") } }
impl TimePoint for Small {
    const INFINITE: Small = Small(M + 1);
    fn is_finite(&self) -> bool { self.0.abs() <= M }
    fn is_future_infinite(&self) -> bool { self.0 > M }
    fn is_past_infinite(&self) -> bool { self.0 < -M }
    fn just_after(&self) -> Small { if self.is_finite() { Small(self.0 + 1) } else { *self } }
    fn just_before(&self) -> Small { if self.is_finite() { Small(self.0 - 1) } else { *self } }
}
impl Pt for Small {
    fn mk(t: i64) -> Small { Small(if t == INF { M + 1 } else if t == NEG { -M - 1 } else { assert!(t.abs() <= M as i64 + 1); t as i8 }) }
    fn tk(self) -> i64 { if self.0 > M { INF } else if self.0 < -M { NEG } else { self.0 as i64 } }
    const DATE: bool = false;
}

macro_rules! point { ($T:ty) => {
    impl TimeBounds for $T {
        type TimePoint = $T;
        fn is_empty(&self) -> bool { false }
        fn is_low_bounded(&self) -> bool { self.is_finite() }
        fn is_up_bounded(&self) -> bool { self.is_finite() }
        fn lower_bound(&self) -> $T { *self }
        fn upper_bound(&self) -> $T { *self }
    }
    impl TimeConvex for $T {}
    impl<TW: TimeConvex<TimePoint = $T>> BitOr<TW> for $T { type Output = TimeSet<$T>; fn bitor(self, w: TW) -> TimeSet<$T> { TimeInterval::singleton(self) | w } }
    impl<TW: TimeConvex<TimePoint = $T>> BitAnd<TW> for $T { type Output = TimeInterval<$T>; fn bitand(self, w: TW) -> TimeInterval<$T> { TimeInterval::singleton(self) & w } }
    impl Not for $T { type Output = TimeSet<$T>; fn not(self) -> TimeSet<$T> { !TimeInterval::singleton(self) } }
} }
point!(Up);
point!(Small);

/// A convex window with nothing but what the traits require. When it is
/// empty, it tells whatever bounds it likes ("undefined" by the trait).
#[derive(Clone, Copy, Debug)]
pub struct Win<T: Pt> { pub w: Option<(T, T)>, pub junk: (T, T) }
impl<T: Pt> Win<T> {
    pub fn new(w: Option<(i64, i64)>, junk: (i64, i64)) -> Self { Win { w: w.map(|(a, b)| (T::mk(a), T::mk(b))), junk: (T::mk(junk.0), T::mk(junk.1)) } }
}
impl<T: Pt> TimeBounds for Win<T> {
    type TimePoint = T;
    fn is_empty(&self) -> bool { self.w.is_none() }
    fn is_low_bounded(&self) -> bool { self.w.is_some_and(|w| w.0.is_finite()) }
    fn is_up_bounded(&self) -> bool { self.w.is_some_and(|w| w.1.is_finite()) }
    fn lower_bound(&self) -> T { self.w.unwrap_or(self.junk).0 }
    fn upper_bound(&self) -> T { self.w.unwrap_or(self.junk).1 }
}
impl<T: Pt> TimeConvex for Win<T> {}
impl<T: Pt> From<Win<T>> for TimeInterval<T> {
    fn from(w: Win<T>) -> Self { match w.w { Some((a, b)) => TimeInterval::new(a, b), None => TimeInterval::empty() } }
}

/// Any window, in pieces, with an iterator of its own
#[derive(Clone, Debug)]
pub struct Pieces<T: Pt> { pub v: Vec<(T, T)>, pub junk: (T, T) }
pub struct PiecesIter<T: Pt>(std::vec::IntoIter<(T, T)>);
impl<T: Pt> Pieces<T> {
    pub fn new(v: &[(i64, i64)], junk: (i64, i64)) -> Self { Pieces { v: v.iter().map(|(a, b)| (T::mk(*a), T::mk(*b))).collect(), junk: (T::mk(junk.0), T::mk(junk.1)) } }
}
impl<T: Pt> TimeBounds for Pieces<T> {
    type TimePoint = T;
    fn is_empty(&self) -> bool { self.v.is_empty() }
    fn is_low_bounded(&self) -> bool { self.v.first().is_some_and(|w| w.0.is_finite()) }
    fn is_up_bounded(&self) -> bool { self.v.last().is_some_and(|w| w.1.is_finite()) }
    fn lower_bound(&self) -> T { self.v.first().unwrap_or(&self.junk).0 }
    fn upper_bound(&self) -> T { self.v.last().unwrap_or(&self.junk).1 }
}
impl<T: Pt> TimeWindow for Pieces<T> {
    fn convex_count(&self) -> usize { self.v.len() }
    type ConvexIter = PiecesIter<T>;
    fn iter(&self) -> PiecesIter<T> { PiecesIter(self.v.clone().into_iter()) }
}
impl<T: Pt> Iterator for PiecesIter<T> {
    type Item = TimeInterval<T>;
    fn next(&mut self) -> Option<Self::Item> { self.0.next().map(|(a, b)| TimeInterval::new(a, b)) }
}
impl<T: Pt> chronologic::iter::TimeConvexIterator for PiecesIter<T> { type TimePoint = T; }

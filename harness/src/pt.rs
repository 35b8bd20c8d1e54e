//! Observation layer: how the monitors read library values.
use chronologic::*;
use crate::model::*;

pub trait Pt: TimePoint + std::hash::Hash + std::fmt::Display + TimePointFormat + 'static {
    fn mk(t: i64) -> Self;
    fn tk(self) -> i64;
    const DATE: bool;
}
impl Pt for TimeValue {
    fn mk(t: i64) -> Self { TimeValue::from_ticks(t) }
    fn tk(self) -> i64 { self.as_ticks() }
    const DATE: bool = false;
}
impl Pt for Timestamp {
    fn mk(t: i64) -> Self { Timestamp::from_origin(TimeValue::from_ticks(t)) }
    fn tk(self) -> i64 { self.since_origin().as_ticks() }
    const DATE: bool = true;
}

/// an interval exactly as the library reports its bounds
pub fn iv_raw<T: Pt>(i: &TimeInterval<T>) -> (i64, i64) { (i.lower_bound().tk(), i.upper_bound().tk()) }
/// the intervals a set enumerates, untouched
pub fn raw<T: Pt>(s: &TimeSet<T>) -> Raw { s.iter().map(|i| iv_raw(&i)).collect() }
/// drains an interval iterator, at most `cap` items
pub fn drain<T: Pt>(it: impl Iterator<Item = TimeInterval<T>>, cap: usize) -> Raw {
    it.take(cap).map(|i| iv_raw(&i)).collect()
}
pub fn win_raw<T: Pt, W: TimeWindow<TimePoint = T>>(w: &W) -> Raw { w.iter().map(|i| iv_raw(&i)).collect() }

/// builds an interval (a, b), NEG/INF being unbounded sides; a > b gives an empty one
pub fn iv<T: Pt>((a, b): (i64, i64)) -> TimeInterval<T> { TimeInterval::new(T::mk(a), T::mk(b)) }

/// Builds the set holding exactly the (canonical) intervals of `r`, trying
/// several public construction routes: a check about something else is not
/// disturbed by a construction route that is broken.
pub fn set<T: Pt>(r: &[(i64, i64)], route: u64) -> Option<TimeSet<T>> {
    for k in 0..4 {
        let s = crate::run::guarded(|| match (route + k) % 4 {
            0 => r.iter().map(|x| iv::<T>(*x)).collect::<TimeSet<T>>(),
            1 => r.iter().fold(TimeSet::empty(), |s, x| s | iv::<T>(*x)),
            2 => { let mut s = TimeSet::empty(); for x in r.iter().rev() { s |= iv::<T>(*x) } s }
            _ => !compl(r).iter().map(|x| iv::<T>(*x)).collect::<TimeSet<T>>(),
        });
        if let Ok(s) = s { if raw(&s) == r { return Some(s) } }
    }
    None
}
/// same, a skipped case if no route works
pub fn set_or_skip<T: Pt>(r: &[(i64, i64)], route: u64) -> crate::run::R<TimeSet<T>> {
    match set(r, route) { Some(s) => Ok(s), None => crate::run::skip() }
}
pub fn hash_of<A: std::hash::Hash>(a: &A) -> u64 {
    use std::hash::*;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    a.hash(&mut h); h.finish()
}

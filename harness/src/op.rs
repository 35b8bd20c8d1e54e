//! Operands: every way the public API has to write a convex window.
use crate::{model::*, run::*, gen::*};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K { Point, Range, Incl, From, To, ToIncl, Iv, EmptyRange, EmptyIncl, EmptyIv, EmptyIvRev, EmptyInf, EmptyFrom, EmptyTo, EmptyToIncl, /** an infinite value, which is no instant (never given by `ops_of`) */ EmptyPoint }
#[derive(Clone, Copy)]
pub struct Op { pub k: K, pub a: i64, pub b: i64 }
impl std::fmt::Debug for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}<{},{}>", self.k, self.a, self.b) }
}
impl Op {
    pub fn empty(&self) -> bool { matches!(self.k, K::EmptyRange | K::EmptyIncl | K::EmptyIv | K::EmptyIvRev | K::EmptyInf | K::EmptyFrom | K::EmptyTo | K::EmptyToIncl | K::EmptyPoint) }
    /// its bounds, none if it is empty
    pub fn win(&self) -> Option<(i64, i64)> { if self.empty() { None } else { Some((self.a, self.b)) } }
    /// the instants denoted
    pub fn raw(&self) -> Raw { if self.empty() { vec![] } else { canon(&[(self.a, self.b)]) } }
}
fn fin(x: i64) -> bool { x != INF && x != NEG }
/// every operand which denotes the given convex set of instants
pub fn ops_of(r: Option<(i64, i64)>) -> Vec<Op> {
    let mut v = vec![];
    match r {
        None => {
            for k in [K::EmptyRange, K::EmptyIncl, K::EmptyIv, K::EmptyIvRev] { v.push(Op { k, a: 3, b: 1 }) }
            // nothing but an infinity
            for k in [K::EmptyFrom, K::EmptyIncl, K::EmptyInf] { v.push(Op { k, a: INF, b: INF }) }
            for k in [K::EmptyIncl, K::EmptyInf, K::EmptyTo, K::EmptyToIncl] { v.push(Op { k, a: NEG, b: NEG }) }
            for k in [K::EmptyTo, K::EmptyRange] { v.push(Op { k, a: NEG, b: NEG + 1 }) }
        }
        Some((a, b)) => {
            let mut p = |k| v.push(Op { k, a, b });
            p(K::Iv);
            if fin(a) && a == b { p(K::Point) }
            if fin(a) && fin(b) { p(K::Incl); if b < INF - 1 { p(K::Range) } }
            if fin(a) && b == INF { p(K::From) }
            if a == NEG && fin(b) { p(K::ToIncl); if b < INF - 1 { p(K::To) } }
            // ranges may also be written with an explicit infinite bound
            if a == NEG && fin(b) { p(K::Incl) }
            if fin(a) && b == INF { p(K::Incl) }
            if a == NEG && b == INF { for k in [K::Incl, K::From, K::To, K::ToIncl] { p(k) } }
            if (a == NEG && (b == INF || (fin(b) && b < INF - 1))) || (fin(a) && b == INF) { p(K::Range) }
        }
    }
    v
}
/// one operand at random for the window
pub fn op_of(r: &mut Rng, w: Option<(i64, i64)>) -> Op {
    let v = ops_of(w);
    let mut o = *r.pick(&v);
    if o.empty() && fin(o.a) { o.a = r.i(-20, 20); o.b = o.a - r.i(1, 9); if o.k == K::EmptyRange && r.pct(50) { o.b = o.a } }
    o
}
pub fn rand_op(r: &mut Rng, z: Zone) -> Op { let w = rawiv(r, z); op_of(r, w) }

/// evaluates the expression with `$w` bound to the operand, in its own type
#[macro_export]
macro_rules! with_op {
    ($T:ty, $op:expr, $w:ident => $e:expr) => {{
        let op: $crate::Op = $op;
        let (a, b) = (op.a, op.b);
        let mk = |t: i64| <$T as $crate::Pt>::mk(t);
        // excluded upper bound
        let up = |t: i64| mk(if t == $crate::INF { t } else { t + 1 });
        use $crate::K;
        #[allow(unused_mut)]
        match op.k {
            K::Point => { let mut $w = mk(a); $e }
            K::Range => { let mut $w = mk(a)..up(b); $e }
            K::Incl => { let mut $w = mk(a)..=mk(b); $e }
            K::From => { let mut $w = mk(a)..; $e }
            K::To => { let mut $w = ..up(b); $e }
            K::ToIncl => { let mut $w = ..=mk(b); $e }
            K::Iv => { let mut $w = chronologic::TimeInterval::<$T>::new(mk(a), mk(b)); $e }
            K::EmptyRange => { let mut $w = mk(a)..mk(b); $e }
            K::EmptyIncl => { let mut $w = mk(a)..=mk(b); $e }
            K::EmptyIv => { let mut $w = chronologic::TimeInterval::<$T>::empty(); $e }
            K::EmptyIvRev => { let mut $w = chronologic::TimeInterval::<$T>::new(mk(a), mk(b)); $e }
            K::EmptyInf => { let mut $w = chronologic::TimeInterval::<$T>::singleton(mk(a)); $e }
            K::EmptyFrom => { let mut $w = mk(a)..; $e }
            K::EmptyPoint => { let mut $w = mk(a); $e }
            K::EmptyTo => { let mut $w = ..mk(b); $e }
            K::EmptyToIncl => { let mut $w = ..=mk(b); $e }
        }
    }};
}
/// the operand as an interval
pub fn op_iv<T: crate::Pt>(o: Op) -> chronologic::TimeInterval<T> { with_op!(T, o, w => w.into()) }

/// defines modules `tv` and `ts` with the given body, for durations and dates
#[macro_export]
macro_rules! both {
    ($f:literal) => {
        #[allow(unused)] mod tv { use vh::*; use chronologic::*; use chronologic::iter::*; type T = chronologic::TimeValue; include!(concat!("../body/", $f)); }
        #[allow(unused)] mod ts { use vh::*; use chronologic::*; use chronologic::iter::*; type T = chronologic::Timestamp; include!(concat!("../body/", $f)); }
    };
}
/// small-domain exhaustive part: case -> pair of subsets of a 9-cell line
pub const PAIRS: u64 = 512 * 512;

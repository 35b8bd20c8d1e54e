//! Workload generators.
use crate::{model::*, run::*};

/// A base around which ticks are drawn, and how far
#[derive(Clone, Copy, Debug)]
pub struct Zone { pub base: i64, pub span: i64 }

const BASES: [i64; 24] = [0, 0, 0, 0, 0, 1 << 30, -(1 << 30), 1 << 31, -(1 << 31), 1 << 32, 3600 << 30, -(3600 << 30), 86400 << 30,
    (1 << 53), -(1 << 53), 1 << 60, -(1 << 60), 1 << 61, -(1 << 61), 1_700_000_000 << 30, -(1_000_000_000 << 30), 10, -10, 1000];
/// largest finite tick generated (see `edge`)
pub const MAXT: i64 = INF - 1;
/// back into the finite ticks
pub fn fit(v: i128) -> i64 { v.clamp(-(MAXT as i128), MAXT as i128) as i64 }
/// a zone touching the first or the last finite tick
pub fn edge(r: &mut Rng) -> Zone {
    let b = MAXT - r.i(0, 12);
    Zone { base: if r.pct(50) { b } else { -b }, span: *r.pick(&[4, 12, 12, 60]) }
}
pub fn is_edge(z: Zone) -> bool { z.base.unsigned_abs() > 1 << 62 }
pub fn zone(r: &mut Rng) -> Zone { if r.pct(4) { edge(r) } else { midzone(r) } }
/// a zone away from the first and last finite ticks
pub fn midzone(r: &mut Rng) -> Zone {
    let base = *r.pick(&BASES);
    let span = match r.below(10) { 0..=4 => 12, 5 => 30, 6 => 200, 7 => 5000, 8 => 1 << 31, _ => 1 << 55 };
    Zone { base, span }
}
pub fn tick(r: &mut Rng, z: Zone) -> i64 { fit(z.base as i128 + r.i(-z.span, z.span) as i128) }
/// number of parts, mostly small
pub fn nparts(r: &mut Rng) -> usize {
    match r.below(40) { 0 => 0, 1..=9 => 1, 10..=18 => 2, 19..=26 => 3, 27..=31 => 4, 32..=35 => r.us(8), 36..=38 => r.us(16), _ => match r.below(1000) { 0..=917 => r.us(60), 918..=996 => 60 + r.us(600), _ => 1000 + r.us(4200) } }
}
fn step(r: &mut Rng, z: Zone) -> i64 {
    match r.below(10) { 0..=3 => 0, 4..=5 => 1, 6 => 2, 7 => r.i(0, 6), 8 => r.i(0, (z.span / 2).max(1)), _ => r.i(0, (z.span / 8).max(1)) }
}
/// a canonical list of intervals (bounds within |2^62|)
pub fn rawset_n(r: &mut Rng, z: Zone, n: usize) -> Raw {
    if n == 0 { return vec![] }
    let lim = if is_edge(z) { MAXT as i128 } else { 1i128 << 62 };
    let mut v: Raw = vec![];
    let mut t = fit(tick(r, z) as i128 - if r.pct(50) { 2 * n as i128 } else { 0 });
    for _ in 0..n {
        let u = t as i128 + step(r, z) as i128;
        if u > lim { break }
        v.push((t, u as i64));
        let u = u + 2 + step(r, z) as i128;
        if u > lim { break }
        t = u as i64;
    }
    if v.is_empty() { v.push((t, t)) }
    if r.pct(18) { v[0].0 = NEG }
    if r.pct(18) { let k = v.len() - 1; v[k].1 = INF }
    v
}
pub fn rawset(r: &mut Rng, z: Zone) -> Raw { let n = nparts(r); rawset_n(r, z, n) }
/// a convex window, possibly empty (None), half-bounded or unbounded
pub fn rawiv(r: &mut Rng, z: Zone) -> Option<(i64, i64)> {
    match r.below(20) {
        0 => None,
        1 => Some((NEG, INF)),
        2..=3 => Some((NEG, tick(r, z))),
        4..=5 => Some((tick(r, z), INF)),
        6..=9 => { let t = tick(r, z); Some((t, t)) }
        _ => { let (a, b) = (tick(r, z), tick(r, z)); Some((a.min(b), a.max(b))) }
    }
}
/// an interval whose bounds touch or nearly touch those of an existing list
pub fn near(r: &mut Rng, s: &[(i64, i64)], z: Zone) -> Option<(i64, i64)> {
    let mut b: Vec<i64> = s.iter().flat_map(|(a, b)| [*a, *b]).filter(|x| *x != NEG && *x != INF).collect();
    if b.is_empty() || r.pct(20) { return rawiv(r, z) }
    b.sort();
    let p = *r.pick(&b); let x = fit(p as i128 + r.i(-2, 2) as i128);
    let y = if r.pct(40) { fit(x as i128 + r.i(0, 3) as i128) } else { let p = *r.pick(&b); fit(p as i128 + r.i(-2, 2) as i128) };
    match r.below(10) { 0 => Some((x, INF)), 1 => Some((NEG, x)), _ => Some((x.min(y), x.max(y))) }
}
/// a set whose bounds touch or nearly touch those of another one
pub fn nearset(r: &mut Rng, s: &[(i64, i64)], z: Zone) -> Raw {
    let mut v: Raw = vec![];
    for _ in 0..=nparts(r) { if let Some(i) = near(r, s, z) { if i != (NEG, INF) || r.pct(10) { v.push(i) } } }
    if r.pct(60) { v.retain(|i| (i.0 == NEG) as u8 + (i.1 == INF) as u8 == 0 || false); }
    canon(&v)
}
/// a pair of related sets
pub fn pair(r: &mut Rng) -> (Raw, Raw, Zone) {
    let z = zone(r);
    let a = rawset(r, z);
    let b = match r.below(10) { 0..=4 => rawset(r, z), 5..=8 => nearset(r, &a, z), _ => if r.pct(50) { a.clone() } else { compl(&a) } };
    if r.pct(50) { (a, b, z) } else { (b, a, z) }
}
/// subset of a 9-cell line: ]-oo,0[ {0} .. {6} ]6,+oo[ given by a 9-bit mask
pub fn mask_set(m: u64, base: i64) -> Raw {
    let base = base.clamp(NEG + 2, INF - 9);
    canon(&(0..9).filter(|i| m >> i & 1 == 1).map(|i| {
        let x = base + i as i64 - 1;
        (if i == 0 { NEG } else { x }, if i == 8 { INF } else { x })
    }).collect::<Vec<_>>())
}
/// pair of windows for case `idx`: first every pair of subsets of a small
/// line, then random ones
pub fn case_pair(cx: &mut Cx) -> (Raw, Raw, Zone) {
    let k = cx.idx / 2;
    let (a, b, z) = if k < crate::op::PAIRS {
        // a scrambled enumeration, so that any prefix is a fair sample
        let k = (k.wrapping_mul(0x9E37_79B1) ^ 0x155) % crate::op::PAIRS;
        let base = *cx.rng.pick(&[0, 0, 0, -3, 100, 1 << 40, -(1 << 61)]);
        cx.tag("small-domain");
        (mask_set(k % 512, base), mask_set(k / 512, base), Zone { base, span: 9 })
    } else { cx.tag("random"); pair(&mut cx.rng) };
    cx.hraw(&a); cx.hraw(&b);
    cx.nontrivial = !a.is_empty() && !b.is_empty() && a != b;
    (a, b, z)
}
/// one window (set) for case `idx`
pub fn case_one(cx: &mut Cx) -> (Raw, Zone) {
    let k = cx.idx / 2;
    let (a, z) = if k < 512 * 7 {
        let base = [0, -3, 100, 1 << 40, -(1 << 61), (1 << 62) - 9, -(1 << 62)][(k / 512) as usize];
        cx.tag("small-domain");
        (mask_set(k % 512, base), Zone { base, span: 9 })
    } else { cx.tag("random"); let z = zone(&mut cx.rng); (rawset(&mut cx.rng, z), z) };
    cx.hraw(&a);
    cx.nontrivial = !a.is_empty();
    (a, z)
}

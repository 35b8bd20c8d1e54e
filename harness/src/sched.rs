//! Schedulers: restrictions, and a reference model of slots.
use chronologic::graph::*;
use chronologic::*;
use crate::{gen::*, model::*, net::*, op::*, pt::*, run::*};
use crate::with_op;

/// A small consistent graph, and its model
pub fn sched_net(cx: &mut Cx, nmin: usize) -> Option<(TimeGraph, Net, Src)> {
    let n = nmin + match cx.rng.below(20) { 0 => 0, 1..=3 => 1, 4..=12 => 1 + cx.rng.us(3), 13..=18 => 2 + cx.rng.us(5), _ => 6 + match cx.rng.below(1000) { 0..=966 => cx.rng.us(8), 967..=996 => { cx.tag("big graph"); cx.rng.us(40) } _ => { cx.tag("huge graph"); 54 + cx.rng.us(120) } } };
    let src = Src::new(&mut cx.rng, n.max(1), 0);
    let mut g = TimeGraph::with_size(n as u32);
    let mut m = Net::new(n);
    let chain = cx.rng.pct(40);
    let k = if n == 0 { 0 } else { cx.rng.us(2 * n + 1) + if chain { n - 1 } else { 0 } };
    for q in 0..k {
        let mut c = src.con(&mut cx.rng, None, n);
        if chain && q + 1 < n {
            // a chain of instants
            let d = src.x[q + 1] - src.x[q];
            let (a, b) = (d - src.scale * cx.rng.i(0, 3), d + src.scale * cx.rng.i(0, 3));
            c = Con { i: q as u32, j: q as u32 + 1, o: op_of(&mut cx.rng, Some((a, b))) };
        }
        if c.win().is_none() { continue }
        if let Some(x) = m.add(c.i as usize, c.j as usize, c.win()) {
            match guarded(|| c.propagate(&mut g)) { Ok(r) if r.ok() => {} _ => return None }
            hcon(cx, &c);
            cx.say(|| format!("{c:?}"));
            m = x;
        }
    }
    // (a graph which is not what it should be is somebody else's concern)
    if g.size() as usize != m.n || (0..m.n).any(|i| (0..m.n).any(|j| iv_raw(&g.timespan(i as u32, j as u32)) != m.win(i, j))) { return None }
    Some((g, m, src))
}
pub fn sched_graph(cx: &mut Cx) -> Option<TimeGraph> { sched_net(cx, 1).map(|x| x.0) }

/// a restriction of a scheduler
#[derive(Clone)]
pub enum Q { Retain(u32, Op), RetainSet(u32, Raw, u64), Remove(u32, Op), RemoveSet(u32, Raw, u64), Deadline(i64), Startline(i64) }
impl std::fmt::Debug for Q { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { match self {
    Q::Retain(i, o) => write!(f, "retain(t{i}, {o:?})"), Q::RetainSet(i, r, _) => write!(f, "retain(t{i}, {r:?})"),
    Q::Remove(i, o) => write!(f, "remove(t{i}, {o:?})"), Q::RemoveSet(i, r, _) => write!(f, "remove(t{i}, {r:?})"),
    Q::Deadline(t) => write!(f, "deadline({t})"), Q::Startline(t) => write!(f, "startline({t})"),
} } }
impl Q {
    pub fn tag(&self) -> &'static str { match self { Q::Retain(..) => "retain", Q::RetainSet(..) => "retain a set", Q::Remove(..) => "remove", Q::RemoveSet(..) => "remove a set", Q::Deadline(_) => "deadline", Q::Startline(_) => "startline" } }
    /// windows left to each instant of n
    pub fn windows(&self, n: usize) -> Vec<Raw> {
        let one = |i: u32, r: Raw| (0..n).map(|k| if k == i as usize { r.clone() } else { vec![(NEG, INF)] }).collect();
        match self {
            Q::Retain(i, o) => one(*i, o.raw()), Q::RetainSet(i, r, _) => one(*i, r.clone()),
            Q::Remove(i, o) => one(*i, compl(&o.raw())), Q::RemoveSet(i, r, _) => one(*i, compl(r)),
            Q::Deadline(t) => vec![canon(&[(NEG, *t)]); n], Q::Startline(t) => vec![canon(&[(*t, INF)]); n],
        }
    }
}
/// Draws a restriction of slots which are presently `before`
pub fn restriction(cx: &mut Cx, before: &[Raw], convex: bool) -> Q {
    let r = &mut cx.rng;
    let i = r.us(before.len());
    // bounds come from the slots, so that restrictions interact
    let mut b: Vec<i64> = before.iter().flat_map(|s| s.iter().flat_map(|(a, b)| [*a, *b])).filter(|x| *x != NEG && *x != INF).collect();
    let own: Vec<i64> = before[i].iter().flat_map(|(a, b)| [*a, *b]).filter(|x| *x != NEG && *x != INF).collect();
    // (else at the epoch, or around a date)
    if b.is_empty() { b.push(if r.pct(80) { 0 } else { *r.pick(&[(1_763_000_000 << 30) + 12345, -(900_000_000 << 30) - 777, (1 << 59) + 1]) }) }
    b.sort();
    let step = { let d = b[b.len() - 1].abs_diff(b[0]) as i64; (d / 40).max(1).min(1 << 50) };
    let near_b = |r: &mut Rng| { let x = if !own.is_empty() && r.pct(60) { *r.pick(&own) } else { *r.pick(&b) }; x + match r.below(4) { 0 => 0, 1 => r.i(-2, 2), 2 => r.i(-30, 30), _ => step * r.i(-45, 45) } };
    let conv = |r: &mut Rng| -> Option<(i64, i64)> {
        let (x, y) = (near_b(r), near_b(r));
        match r.below(24) { 0 => None, 1 => Some((NEG, INF)), 2..=5 => Some((NEG, x)), 6..=9 => Some((x, INF)), 10 => Some((x, x)),
            11..=13 => Some((x, x + 10 * step)), _ => Some((x.min(y), x.max(y))) }
    };
    let sets = |r: &mut Rng| -> Raw {
        let k = 1 + r.us(4);
        let mut v: Raw = vec![];
        if r.below(400) == 0 {
            // many parts, the greatest part of which within the slots
            let (mut x, g) = (near_b(r), 1 + (step / 2).max(1) * r.i(0, 2));
            for _ in 0..10 + r.us(120) { let y = x + r.i(0, g); v.push((x, y)); x = y + 2 + r.i(0, g); }
            return canon(&v)
        }
        for _ in 0..k { let x = near_b(r); v.push(match r.below(8) { 0 => (NEG, x), 1 => (x, INF), 2 | 3 => (x, x), _ => (x, x + step * r.i(0, 6)) }) }
        canon(&v)
    };
    let q = match r.below(if convex { 11 } else { 24 }) {
        0..=6 => { let w = conv(r); Q::Retain(i as u32, op_of(r, w)) }
        7..=8 => Q::Deadline(near_b(r)),
        9..=10 => Q::Startline(near_b(r)),
        11..=16 => { let s = sets(r); Q::RetainSet(i as u32, s, r.below(4)) }
        17..=20 => { let w = if r.pct(60) { let x = near_b(r); Some((x, x + step * r.i(0, 12))) } else { conv(r) };
            let o = op_of(r, w);
            // only points and intervals can be complemented
            Q::Remove(i as u32, if matches!(o.k, K::Point | K::Iv) { o } else { Op { k: match w { None => K::EmptyIv, _ => K::Iv }, ..o } }) }
        _ => { let s = sets(r); Q::RemoveSet(i as u32, s, r.below(4)) }
    };
    match &q {
        Q::Retain(i, o) | Q::Remove(i, o) => { let (i, o) = (*i, *o); cx.h(i as u64); cx.hraw(&o.raw()); }
        Q::RetainSet(i, s, _) | Q::RemoveSet(i, s, _) => { cx.h(*i as u64 + 50); let s = s.clone(); cx.hraw(&s) }
        Q::Deadline(t) => cx.h(*t as u64), Q::Startline(t) => cx.h(*t as u64 ^ 77),
    }
    cx.say(|| format!("{q:?}"));
    q
}
/// Restrictions which leave holes in three slots, then one which overlaps its slot but which no solution
/// satisfies: that comes out only once the slots of the two other instants are compared
pub fn trap(cx: &mut Cx, m: &Net) -> Vec<Q> {
    let mut r = cx.rng.clone();
    let mut out = vec![];
    'tries: for _ in 0..12 {
        if m.n < 3 { break }
        let mut v: Vec<usize> = (0..m.n).collect();
        r.shuffle(&mut v);
        let (i, j, k) = (v[0], v[1], v[2]);
        let x = r.i(-40, 40) * *r.pick(&[1, 1, 1000]) + if r.pct(85) { 0 } else { *r.pick(&[(900_000_000 << 30) + 12345, -(800_000_000 << 30) - 777]) };
        let within = |r: &mut Rng, (a, b): (i64, i64)| -> i64 {
            let (a, b) = if a == NEG && b == INF { (-20, 20) } else if a == NEG { (b - 20, b) } else if b == INF { (a, a + 20) } else { (a, b) };
            match r.below(5) { 0 | 1 => a, 2 | 3 => b, _ => r.i(a, b) }
        };
        let ok = |(a, b): (i64, i64), d: i64| (a == NEG || d >= a) && (b == INF || d <= b);
        // two dates compatible with x, but not with each other
        let (y0, z0) = (x + within(&mut r, m.win(i, j)), x + within(&mut r, m.win(i, k)));
        if ok(m.win(j, k), z0 - y0) { continue }
        // each of them has other companions
        let mut pts = [vec![x], vec![y0], vec![z0]];
        for (p, q, y, far) in [(j, k, y0, 2), (k, j, z0, 1)] {
            let Some(z) = (0..8).map(|_| y + within(&mut r, m.win(p, q))).find(|z| !ok(m.win(i, q), z - x)) else { continue 'tries };
            let Some(x1) = (0..20).map(|n| if n % 2 == 0 { y + within(&mut r, m.win(p, i)) } else { z + within(&mut r, m.win(q, i)) }).find(|x1| ok(m.win(p, i), x1 - y) && ok(m.win(q, i), x1 - z)) else { continue 'tries };
            pts[far].push(z); pts[0].push(x1);
        }
        if pts.iter().flatten().any(|t| t.abs() > 1 << 60) { continue }
        for (p, s) in [i, j, k].iter().zip(&pts) {
            let w: Raw = canon(&s.iter().map(|t| (*t, *t)).collect::<Raw>());
            out.push(Q::RetainSet(*p as u32, w, r.below(4)));
        }
        r.shuffle(&mut out);
        out.push(if r.pct(70) { Q::Retain(i as u32, op_of(&mut r, Some((x, x)))) } else { Q::RetainSet(i as u32, vec![(x, x)], r.below(4)) });
        if r.pct(20) { let w = canon(&[(pts[1][0], pts[1][0])]); out.push(Q::RetainSet(j as u32, w, 0)) }
        break
    }
    cx.rng = r;
    for q in &out { if let Q::Retain(_, o) = q { cx.h(o.a as u64) } else if let Q::RetainSet(i, s, _) = q { cx.h(*i as u64); let s = s.clone(); cx.hraw(&s) } }
    if !out.is_empty() { cx.say(|| format!("in a row {out:?}")); cx.tag("refused once other slots are compared") }
    out.reverse();
    out
}
pub fn restrict(s: &mut TimeScheduler, q: &Q) -> Rep {
    type T = Timestamp;
    match q {
        Q::Retain(i, o) => rep(with_op!(T, *o, w => s.retain(*i, w))),
        Q::RetainSet(i, r, route) => rep(s.retain(*i, set::<T>(r, *route).expect("set"))),
        Q::Remove(i, o) if o.k == K::Point => rep(s.remove(*i, T::mk(o.a))),
        Q::Remove(i, o) => rep(s.remove(*i, op_iv::<T>(*o))),
        Q::RemoveSet(i, r, route) => rep(s.remove(*i, set::<T>(r, *route).expect("set"))),
        Q::Deadline(t) => rep(s.set_deadline(T::mk(*t))),
        Q::Startline(t) => rep(s.set_startline(T::mk(*t))),
    }
}
pub fn slots(s: &TimeScheduler) -> Vec<Raw> { s.schedule().iter().map(raw).collect() }

/// dates of j compatible with a date of i
pub fn image(m: &Net, s: &[(i64, i64)], i: usize, j: usize) -> Raw { msum(s, &[m.win(i, j)]) }
/// Greatest sub-slots in which every date has a compatible date in every other
/// slot; None if a slot gets empty. As differences are preserved by minimum
/// and maximum, the earliest (latest) dates of these slots are a solution.
pub fn reduce(m: &Net, s: &[Raw]) -> Option<Vec<Raw>> {
    let mut s = s.to_vec();
    loop {
        if s.iter().any(|x| x.is_empty()) { return None }
        let mut change = false;
        for i in 0..m.n { for j in 0..m.n { if i != j {
            let x = inter(&s[j], &image(m, &s[i], i, j));
            if x != s[j] { s[j] = x; change = true }
        } } }
        if !change { return Some(s) }
    }
}
/// windows of each instant when the convex windows `w` are retained: the
/// closure of the network to which the origin of time is added
pub fn convex_slots(m: &Net, w: &[(i64, i64)]) -> Option<Vec<Raw>> {
    let mut x = m.clone();
    let o = m.n;
    x.resize(o + 1);
    for (i, (a, b)) in w.iter().enumerate() { x.put(o, i, Some((*a, *b))); }
    if !x.close() { return None }
    Some((0..m.n).map(|i| vec![x.win(o, i)]).collect())
}

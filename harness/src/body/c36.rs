use vh::user::*;
use std::cmp::Ordering;
/// the answers of the methods which a window inherits
fn inherited<W: TimeWindow<TimePoint = T>>(cx: &mut Cx, w: &W, e: &Raw, what: &dyn Fn() -> String) -> R {
    let f = |x: i64| x != INF && x != NEG;
    let n = e.len();
    macro_rules! q { ($n:literal, $got:expr, $exp:expr) => {{
        let got = nopanic(|| format!("{} of {}", $n, what()), || $got)?;
        ensure_eq!(cx, got, $exp, "{} of {} (instants {e:?})", $n, what());
    }} }
    q!("is_singleton", w.is_singleton(), n == 1 && e[0].0 == e[0].1);
    q!("is_bounded", w.is_bounded(), n > 0 && f(e[0].0) && f(e[n - 1].1));
    q!("is_all", w.is_all(), n == 1 && e[0] == (NEG, INF));
    q!("is_convex", w.is_convex(), n <= 1);
    q!("convex_count", w.convex_count(), n);
    q!("iter", w.iter().take(9999).map(|i| iv_raw(&i)).collect::<Vec<_>>(), *e);
    q!("iter count", w.iter().count(), n);
    q!("convex_envelope", w.convex_envelope().iter().map(|i| iv_raw(&i)).collect::<Vec<_>>(), if n == 0 { vec![] } else { vec![(e[0].0, e[n - 1].1)] });
    if n == 0 { q!("convex_envelope", w.convex_envelope() == TimeInterval::<T>::empty(), true) }
    Ok(())
}
fn cmp<X, Y>(cx: &mut Cx, x: &X, y: &Y, rx: &Raw, ry: &Raw, what: &dyn Fn() -> String) -> R where X: PartialEq<Y> + PartialOrd<Y> {
    let e = rx == ry;
    let (eq, ne) = nopanic(what, || (x == y, x != y))?;
    ensure_eq!(cx, (eq, ne), (e, !e), "{}: (equal, different)", what());
    if !rx.is_empty() && !ry.is_empty() {
        let l = rx[rx.len() - 1].1 < ry[0].0;
        let g = ry[ry.len() - 1].1 < rx[0].0;
        let p = if l { Some(Ordering::Less) } else if g { Some(Ordering::Greater) } else if e { Some(Ordering::Equal) } else { None };
        let got = nopanic(what, || (x < y, x <= y, x > y, x >= y, x.partial_cmp(y)))?;
        ensure_eq!(cx, got, (l, l || e, g, g || e, p), "{}: order of {rx:?} and {ry:?}", what());
    }
    Ok(())
}
fn rel<X, Y>(cx: &mut Cx, x: &X, y: &Y, rx: &Raw, ry: &Raw, what: &dyn Fn() -> String) -> R where X: TimeContaining<Y> + TimeOverlapping<Y> {
    let got = nopanic(what, || (x.contains(y), x.overlaps(y)))?;
    ensure_eq!(cx, got, (subset(ry, rx), !inter(rx, ry).is_empty()), "{}: {rx:?} (contains, overlaps) {ry:?}", what());
    Ok(())
}
pub fn case(cx: &mut Cx) -> R {
    let (a, b, z) = case_pair(cx);
    let rt = cx.rng.below(4);
    let (sa, sb) = (set_or_skip::<T>(&a, rt)?, set_or_skip::<T>(&b, rt)?);
    // what an empty window tells of its bounds
    let junk = |r: &mut Rng, near_to: &Raw| -> (i64, i64) { match r.below(8) {
        0 => (INF, NEG), 1 => (NEG, INF), 2 => (0, 0), 3 => near_to.first().copied().unwrap_or((5, 5)), 4 => near_to.last().copied().unwrap_or((-1, 9)),
        _ => { let z2 = z; (tick(r, z2), tick(r, z2)) }
    } };
    let w = if b.len() <= 1 && cx.rng.pct(50) { b.first().copied() } else if cx.rng.pct(15) { None } else { near(&mut cx.rng, &a, z).filter(|x| x.0 <= x.1) };
    let j = junk(&mut cx.rng, &a);
    cx.h(j.0 as u64); cx.h(j.1 as u64);
    let win = Win::<T>::new(w, j);
    let rw: Raw = w.into_iter().collect();
    cx.hraw(&rw);
    cx.say(|| format!("{a:?}, {b:?}, the user's {rw:?} (bounds told when empty: {j:?})"));
    cx.tag(if w.is_none() { "empty window of the user" } else { "window of the user" });
    let d = |s: &'static str| { let (a, rw) = (a.clone(), rw.clone()); move || format!("{s}: {a:?} and the user's {rw:?} (bounds told when empty: {j:?})") };
    inherited(cx, &win, &rw, &d("window"))?;
    // conversions
    macro_rules! iv { ($n:literal, $x:expr, $e:expr) => {{
        let got = nopanic(d($n), || { let i: TimeInterval<T> = $x; i })?;
        let r: Raw = got.iter().map(|i| iv_raw(&i)).collect();
        ensure_eq!(cx, (r, got.is_empty(), got == TimeInterval::empty()), ($e.clone(), $e.is_empty(), $e.is_empty()), "{}", d($n)());
    }} }
    macro_rules! st { ($n:literal, $x:expr, $e:expr) => {{
        let got = nopanic(d($n), || { let s: TimeSet<T> = $x; s })?;
        ensure_eq!(cx, (raw(&got), got.is_empty()), ($e.clone(), $e.is_empty()), "{}", d($n)());
    }} }
    iv!("interval from", win.into(), rw);
    st!("set from", TimeSet::from(win), rw);
    st!("collected", win.iter().collect(), rw);
    st!("collected intervals", [TimeInterval::from(win), win.into()].into_iter().collect(), rw);
    // operators
    let (u, n) = (union(&a, &rw), inter(&a, &rw));
    st!("set|window", &sa | win, u); st!("set&window", &sa & win, n);
    match cx.rng.below(3) {
        0 => { st!("set|window", sa.clone() | win, u); st!("set&window", sa.clone() & win, n) }
        1 => { st!("set|=window", { let mut s = sa.clone(); s |= win; s }, u) }
        _ => { st!("set&=window", { let mut s = sa.clone(); s &= win; s }, n) }
    }
    let i = match cx.rng.below(4) { 0 => None, 1 => a.first().copied(), 2 => w, _ => near(&mut cx.rng, &rw, z) }.filter(|x| x.0 <= x.1);
    let ri: Raw = i.into_iter().collect();
    let ti: TimeInterval<T> = i.map_or(TimeInterval::empty(), |x| vh::iv(x));
    let d = |s: &'static str| { let (ri, rw) = (ri.clone(), rw.clone()); move || format!("{s}: {ri:?} and the user's {rw:?} (bounds told when empty: {j:?})") };
    macro_rules! iv { ($n:literal, $x:expr, $e:expr) => {{
        let got = nopanic(d($n), || { let i: TimeInterval<T> = $x; i })?;
        let r: Raw = got.iter().map(|i| iv_raw(&i)).collect();
        ensure_eq!(cx, (r, got.is_empty()), ($e.clone(), $e.is_empty()), "{}", d($n)());
    }} }
    macro_rules! st { ($n:literal, $x:expr, $e:expr) => {{
        let got = nopanic(d($n), || { let s: TimeSet<T> = $x; s })?;
        ensure_eq!(cx, (raw(&got), got.is_empty()), ($e.clone(), $e.is_empty()), "{}", d($n)());
    }} }
    let (u, n) = (union(&ri, &rw), inter(&ri, &rw));
    st!("interval|window", ti | win, u); iv!("interval&window", ti & win, n);
    if cx.rng.pct(50) { st!("&interval|window", &ti | win, u); iv!("&interval&window", &ti & win, n) } else { iv!("interval&=window", { let mut i = ti; i &= win; i }, n) }
    if ri.len() == 1 && ri[0].0 == ri[0].1 { let p = T::mk(ri[0].0); st!("point|window", p | win, u); iv!("point&window", p & win, n); }
    // relations, either way round
    rel(cx, &ti, &win, &ri, &rw, &d("interval/window"))?;
    rel(cx, &win, &ti, &rw, &ri, &d("window/interval"))?;
    rel(cx, &sa, &win, &a, &rw, &|| format!("{a:?}/the user's {rw:?} ({j:?})"))?;
    rel(cx, &win, &sa, &rw, &a, &|| format!("the user's {rw:?} ({j:?})/{a:?}"))?;
    let j2 = junk(&mut cx.rng, &rw);
    let win2 = Win::<T>::new(i, j2);
    rel(cx, &win, &win2, &rw, &ri, &|| format!("the user's {rw:?} ({j:?})/the user's {ri:?} ({j2:?})"))?;
    cmp(cx, &ti, &win, &ri, &rw, &d("interval/window"))?;
    cmp(cx, &sa, &win, &a, &rw, &|| format!("{a:?}/the user's {rw:?} ({j:?})"))?;
    // any window, in pieces
    let pb = Pieces::<T>::new(&b, j2);
    let wh = || format!("the user's {b:?} (bounds told when empty: {j2:?})");
    inherited(cx, &pb, &b, &wh)?;
    cmp(cx, &sa, &pb, &a, &b, &|| format!("{a:?}/{}", wh()))?;
    cmp(cx, &sb, &pb, &b, &b, &|| format!("{b:?}/{}", wh()))?;
    cmp(cx, &ti, &pb, &ri, &b, &|| format!("interval {ri:?}/{}", wh()))?;
    let got = nopanic(wh, || (ti.contains(&pb), win2.contains(&pb)))?;
    let e = subset(&b, &ri);
    ensure_eq!(cx, got, (e, e), "{ri:?} contains {}", wh());
    ensure_eq!(cx, nopanic(wh, || (pb.format_timeset("%s"), win.format_timeset("%s")))?, (sb.format_timeset("%s"), TimeInterval::<T>::from(win).format_timeset("%s")), "texts of {} and of {rw:?} ({j:?})", wh());
    // its own iterator in compositions
    let it = |k: u64| -> TimeSet<T> { match k {
        0 => sa.iter().union(pb.iter()).collect(), 1 => pb.iter().union(sa.iter()).collect(),
        2 => sa.iter().intersection(pb.iter()).collect(), 3 => pb.iter().intersection(&sa).collect(),
        4 => pb.iter().complementary().collect(), 5 => sa.iter().exclusion(pb.iter()).collect(),
        6 => pb.iter().exclusion(sa.iter()).collect(), 7 => pb.iter().union(win.iter()).collect(),
        8 => win.iter().intersection(pb.iter()).collect(), 9 => pb.iter().union(T::mk(3)..T::mk(9)).collect(),
        10 => win.iter().complementary().union(pb.iter()).collect(),
        _ => pb.iter().filter(|i| i.is_singleton()).union(pb.iter().skip(1)).collect(),
    } };
    let k = cx.rng.below(12);
    let exp = match k {
        0 | 1 => union(&a, &b), 2 | 3 => inter(&a, &b), 4 => compl(&b), 5 => excl(&a, &b), 6 => excl(&b, &a), 7 => union(&b, &rw), 8 => inter(&b, &rw),
        9 => union(&b, &[(3, 8)]), 10 => union(&compl(&rw), &b),
        _ => canon(&b.iter().enumerate().filter(|(k, x)| *k > 0 || x.0 == x.1).map(|x| *x.1).collect::<Vec<_>>()),
    };
    let got = nopanic(|| format!("composition {k} of {} with {a:?} and {rw:?}", wh()), || raw(&it(k)))?;
    ensure_eq!(cx, got, exp, "composition {k} of {} with {a:?} and {rw:?}", wh());
    Ok(())
}

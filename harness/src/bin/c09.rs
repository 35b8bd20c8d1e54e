use vh::*;
use chronologic::*;
use chronologic::iter::*;
const M: i64 = 1 << 61;
fn small(r: &Raw) -> bool { r.iter().flat_map(|x| [x.0, x.1]).all(|x| x == INF || x == NEG || x.abs() < M) }
fn d(t: i64) -> TimeValue { TimeValue::from_ticks(t) }
fn dt(t: i64) -> Timestamp { Timestamp::mk(t) }

#[derive(Clone, Copy)]
enum V { Canon, Sums }
/// the observed window (raw intervals) against the expected instants
fn eq(cx: &mut Cx, got: Result<Raw, String>, exp: &Raw, v: V, what: impl Fn() -> String) -> R {
    cx.obs += 1;
    match got {
        Err(m) => viol(format!("{} panicked: {m}", what())),
        Ok(g) => {
            let ok = match v { V::Canon => g == *exp, V::Sums => lazy_is(&g, exp) };
            ensure!(ok, "{}: observed {:?}, expected {:?}", what(), g, exp);
            Ok(())
        }
    }
}
fn iv_full<T: Pt>(i: TimeInterval<T>) -> Raw { if i.is_empty() { vec![] } else { vec![iv_raw(&i)] } }

macro_rules! common { ($name:ident, $T:ty) => {
    /// windows of $T moved by durations
    fn $name(cx: &mut Cx, a: &Raw, m: &Raw, t: i64, ia: Option<(i64,i64)>, im: Option<(i64,i64)>) -> R {
        type T = $T;
        let rt = cx.rng.below(4);
        let s: TimeSet<T> = set_or_skip(a, rt)?;
        let sm: TimeSpans = set_or_skip(m, rt)?;
        let mt = vec![(t, t)];
        let g = |f: &mut dyn FnMut() -> TimeSet<T>| guarded(|| raw(&f()));
        // sets and a duration
        match cx.rng.below(3) {
            0 => { eq(cx, g(&mut || s.clone() + d(t)), &msum(a, &mt), V::Canon, || format!("{a:?} + {t}"))?;
                   eq(cx, g(&mut || s.clone() - d(t)), &msum(a, &neg(&mt)), V::Canon, || format!("{a:?} - {t}"))?; }
            1 => { eq(cx, g(&mut || { let mut x = s.clone(); x += d(t); x }), &msum(a, &mt), V::Canon, || format!("{a:?} += {t}"))?;
                   eq(cx, g(&mut || { let mut x = s.clone(); x -= d(t); x }), &msum(a, &neg(&mt)), V::Canon, || format!("{a:?} -= {t}"))?; }
            _ => { eq(cx, guarded(|| drain(s.iter().translation(d(t)), 60_000)), &msum(a, &mt), V::Sums, || format!("{a:?} lazily + {t}"))?; }
        }
        // sets and an interval
        let om = op_of(&mut cx.rng, im);
        let rm = om.raw();
        let span: TimeSpan = op_iv(om);
        match cx.rng.below(3) {
            0 => { eq(cx, g(&mut || s.clone() + span), &msum(a, &rm), V::Canon, || format!("{a:?} + interval {om:?}"))?;
                   eq(cx, g(&mut || s.clone() - span), &msum(a, &neg(&rm)), V::Canon, || format!("{a:?} - interval {om:?}"))?; }
            1 => { eq(cx, g(&mut || { let mut x = s.clone(); x += span; x }), &msum(a, &rm), V::Canon, || format!("{a:?} += interval {om:?}"))?;
                   eq(cx, g(&mut || { let mut x = s.clone(); x -= span; x }), &msum(a, &neg(&rm)), V::Canon, || format!("{a:?} -= interval {om:?}"))?; }
            _ => { eq(cx, guarded(|| drain(s.iter().translation(&span), 60_000)), &msum(a, &rm), V::Sums, || format!("{a:?} lazily + interval {om:?}"))?; }
        }
        // sets and sets
        if a.len() * m.len() <= 200 {
            match cx.rng.below(2) {
                0 => { eq(cx, g(&mut || s.clone() + sm.clone()), &msum(a, m), V::Canon, || format!("{a:?} + set {m:?}"))?;
                       eq(cx, g(&mut || s.clone() - sm.clone()), &msum(a, &neg(m)), V::Canon, || format!("{a:?} - set {m:?}"))?; }
                _ => { eq(cx, g(&mut || { let mut x = s.clone(); x += sm.clone(); x }), &msum(a, m), V::Canon, || format!("{a:?} += set {m:?}"))?;
                       eq(cx, g(&mut || { let mut x = s.clone(); x -= sm.clone(); x }), &msum(a, &neg(m)), V::Canon, || format!("{a:?} -= set {m:?}"))?; }
            }
        }
        eq(cx, g(&mut || -s.clone()), &neg(a), V::Canon, || format!("-{a:?}"))?;
        // intervals
        let oa = op_of(&mut cx.rng, ia);
        let ra = oa.raw();
        let i: TimeInterval<T> = op_iv(oa);
        let h = |f: &mut dyn FnMut() -> TimeInterval<T>| guarded(|| iv_full(f()));
        eq(cx, h(&mut || i + d(t)), &msum(&ra, &mt), V::Canon, || format!("interval {oa:?} + {t}"))?;
        eq(cx, h(&mut || i - d(t)), &msum(&ra, &neg(&mt)), V::Canon, || format!("interval {oa:?} - {t}"))?;
        eq(cx, h(&mut || d(t) + i), &msum(&ra, &mt), V::Canon, || format!("{t} + interval {oa:?}"))?;
        eq(cx, h(&mut || d(t) - i), &msum(&neg(&ra), &mt), V::Canon, || format!("{t} - interval {oa:?}"))?;
        eq(cx, h(&mut || { let mut x = i; x += d(t); x }), &msum(&ra, &mt), V::Canon, || format!("interval {oa:?} += {t}"))?;
        eq(cx, h(&mut || { let mut x = i; x -= d(t); x }), &msum(&ra, &neg(&mt)), V::Canon, || format!("interval {oa:?} -= {t}"))?;
        eq(cx, h(&mut || i + span), &msum(&ra, &rm), V::Canon, || format!("interval {oa:?} + interval {om:?}"))?;
        eq(cx, h(&mut || i - span), &msum(&ra, &neg(&rm)), V::Canon, || format!("interval {oa:?} - interval {om:?}"))?;
        eq(cx, h(&mut || { let mut x = i; x += span; x }), &msum(&ra, &rm), V::Canon, || format!("interval {oa:?} += interval {om:?}"))?;
        eq(cx, h(&mut || { let mut x = i; x -= span; x }), &msum(&ra, &neg(&rm)), V::Canon, || format!("interval {oa:?} -= interval {om:?}"))?;
        eq(cx, h(&mut || -i), &neg(&ra), V::Canon, || format!("-interval {oa:?}"))?;
        eq(cx, guarded(|| drain(with_op!(T, oa, w => w.iter()).translation(&span), 9)), &msum(&ra, &rm), V::Sums, || format!("interval {oa:?} lazily + interval {om:?}"))?;
        eq(cx, guarded(|| drain(with_op!(T, oa, w => w.iter()).translation(d(t)), 9)), &msum(&ra, &mt), V::Sums, || format!("interval {oa:?} lazily + {t}"))?;
        // nothing comes out of an empty window, even moved by an infinite duration
        if ra.is_empty() || cx.idx % 64 == 0 {
            let e: TimeInterval<T> = if ra.is_empty() { i } else { TimeInterval::empty() };
            let o = d(if cx.rng.pct(50) { INF } else { NEG });
            let no: Raw = vec![];
            eq(cx, h(&mut || e + o), &no, V::Canon, || format!("empty interval + {o}"))?;
            eq(cx, h(&mut || e - o), &no, V::Canon, || format!("empty interval - {o}"))?;
            eq(cx, h(&mut || { let mut x = e; x += o; x }), &no, V::Canon, || format!("empty interval += {o}"))?;
            eq(cx, h(&mut || { let mut x = e; x -= o; x }), &no, V::Canon, || format!("empty interval -= {o}"))?;
            eq(cx, g(&mut || TimeSet::<T>::empty() + o), &no, V::Canon, || format!("empty set + {o}"))?;
            eq(cx, g(&mut || TimeSet::<T>::empty() - o), &no, V::Canon, || format!("empty set - {o}"))?;
            eq(cx, guarded(|| drain(TimeSet::<T>::empty().iter().translation(o), 9)), &no, V::Sums, || format!("empty set lazily + {o}"))?;
        }
        // points
        let p = tick(&mut cx.rng, Zone { base: 0, span: 1 << 40 });
        cx.obs += 3;
        ensure!((<$T>::mk(p) + d(t)).tk() == p + t && (<$T>::mk(p) - d(t)).tk() == p - t && (-<$T>::mk(p)).tk() == -p, "point {p} moved by {t}");
        if ra.is_empty() || rm.is_empty() { cx.tag("empty operand") }
        Ok(())
    }
} }
common!(spans, TimeValue);
common!(slots, Timestamp);

fn dates(cx: &mut Cx, a: &Raw, m: &Raw, p: i64, ia: Option<(i64, i64)>, im: Option<(i64, i64)>) -> R {
    let rt = cx.rng.below(4);
    let mp = vec![(p, p)];
    let h = |f: &mut dyn FnMut() -> TimeSlot| guarded(|| iv_full(f()));
    let k = |f: &mut dyn FnMut() -> TimeSpan| guarded(|| iv_full(f()));
    let (oa, om) = (op_of(&mut cx.rng, ia), op_of(&mut cx.rng, im));
    let (ra, rm) = (oa.raw(), om.raw());
    let (x, y): (TimeSlot, TimeSlot) = (op_iv(oa), op_iv(om));
    let span: TimeSpan = op_iv(om);
    eq(cx, h(&mut || dt(p) + span), &msum(&mp, &rm), V::Canon, || format!("date {p} + interval {om:?}"))?;
    eq(cx, h(&mut || dt(p) - span), &msum(&mp, &neg(&rm)), V::Canon, || format!("date {p} - interval {om:?}"))?;
    eq(cx, h(&mut || span + dt(p)), &msum(&mp, &rm), V::Canon, || format!("interval {om:?} + date {p}"))?;
    eq(cx, h(&mut || span - dt(p)), &msum(&neg(&mp), &rm), V::Canon, || format!("interval {om:?} - date {p}"))?;
    eq(cx, k(&mut || x - y), &msum(&ra, &neg(&rm)), V::Canon, || format!("slot {oa:?} - slot {om:?}"))?;
    eq(cx, k(&mut || x - dt(p)), &msum(&ra, &neg(&mp)), V::Canon, || format!("slot {oa:?} - date {p}"))?;
    eq(cx, k(&mut || dt(p) - x), &msum(&mp, &neg(&ra)), V::Canon, || format!("date {p} - slot {oa:?}"))?;
    let sm: TimeSpans = set_or_skip(m, rt)?;
    let g = |f: &mut dyn FnMut() -> TimeSlots| guarded(|| raw(&f()));
    eq(cx, g(&mut || sm.clone() + dt(p)), &msum(m, &mp), V::Canon, || format!("set {m:?} + date {p}"))?;
    eq(cx, g(&mut || sm.clone() - dt(p)), &msum(m, &neg(&mp)), V::Canon, || format!("set {m:?} - date {p}"))?;
    eq(cx, g(&mut || dt(p) + sm.clone()), &msum(m, &mp), V::Canon, || format!("date {p} + set {m:?}"))?;
    eq(cx, g(&mut || dt(p) - sm.clone()), &msum(&neg(m), &mp), V::Canon, || format!("date {p} - set {m:?}"))?;
    let q = a.first().map(|x| x.0).filter(|x| *x != NEG).unwrap_or(0);
    cx.obs += 1;
    ensure!((dt(p) - dt(q)).as_ticks() == p - q, "date {p} - date {q}");
    Ok(())
}
fn case(cx: &mut Cx) -> R {
    let (a, b, z) = case_pair(cx);
    if !small(&a) || !small(&b) { return skip() }
    let t = match cx.rng.below(5) { 0 => cx.rng.i(-3, 3), 1 => 0, 2 => cx.rng.i(-(1 << 40), 1 << 40), 3 => tick(&mut cx.rng, z), _ => cx.rng.i(-60, 60) };
    if t.abs() > M { return skip() }
    cx.h(t as u64);
    let ia = match cx.rng.below(7) { 0 => None, 1..=2 => a.first().copied(), 3 => Some((t, t)), _ => near(&mut cx.rng, &a, z) };
    let im = match cx.rng.below(7) { 0 => None, 1..=2 => b.last().copied(), 3 => { let k = cx.rng.i(-20, 20); Some((k, k + cx.rng.i(0, 6))) } _ => near(&mut cx.rng, &b, z) };
    for i in [ia, im].into_iter().flatten() { if !small(&vec![i]) { return skip() } }
    // moderate shifts most of the time, so that gaps are partially closed
    let m = if cx.rng.pct(60) { rawset_n(&mut cx.rng, Zone { base: 0, span: 15 }, 1 + (cx.idx % 4) as usize) } else { b.clone() };
    if !small(&m) { return skip() }
    cx.hraw(&m);
    cx.say(|| format!("{a:?} moved by {t}, {im:?}, {m:?}; interval {ia:?}"));
    match cx.idx % 3 {
        0 => spans(cx, &a, &m, t, ia, im),
        1 => slots(cx, &a, &m, t, ia, im),
        _ => dates(cx, &a, &m, t, ia, im),
    }
}
fn main() {
    run::main(Spec {
        id: "C09", quick: 3_000_000, thorough: 20_000_000,
        rule: "a case is distinct by the window moved, the duration and the set of durations it is moved by; non trivial when both are non empty and differ. Operands keep every sum inside the representable range",
        case,
    })
}

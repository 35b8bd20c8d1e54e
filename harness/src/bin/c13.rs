use vh::*;
use chronologic::*;
fn d(t: i64) -> TimeValue { TimeValue::from_ticks(t) }
fn fin(x: i128) -> bool { x.abs() < INF as i128 }
fn anytick(r: &mut Rng) -> i64 {
    match r.below(14) {
        0 => INF, 1 => NEG, 2..=4 => r.i(-200, 200),
        5 => INF - 1 - r.i(0, 9), 6 => NEG + 1 + r.i(0, 9),
        7 => (*r.pick(&[3600i64, 86400, 604800, 2629746, 31556952, 60, 1]) << 30).saturating_mul(r.i(-272, 272)) + r.i(-2, 2),
        8 => r.i(-(1 << 42), 1 << 42),
        9 => (1i64 << r.below(62)) * if r.pct(50) { -1 } else { 1 } + r.i(-1, 1),
        _ => r.i(NEG + 1, INF - 1) >> r.below(60),
    }
}
fn case(cx: &mut Cx) -> R {
    let mut t = anytick(&mut cx.rng);
    let p = match cx.rng.below(8) {
        0 => cx.rng.i(1, 9), 1..=2 => cx.rng.i(1, 100),
        3 => *cx.rng.pick(&[31556952i64, 2629746, 604800, 86400, 3600, 60, 1]) << 30,
        4 => cx.rng.pick(&[1i64.millis(), 1.micros(), 1.nanos(), 15.mins(), 12.hours()]).as_ticks(),
        5 => 1i64 << cx.rng.below(62),
        6 => cx.rng.i(1, INF - 1),
        _ => cx.rng.i(1, INF - 1) >> cx.rng.below(60),
    }.max(1);
    if t.abs() < INF && cx.rng.pct(30) {
        // around a multiple of the period
        let k = (t as i128 / p as i128) * p as i128 + cx.rng.i(-1, 1) as i128;
        if fin(k) { t = k as i64 }
    }
    cx.h(t as u64); cx.h(p as u64);
    cx.nontrivial = t != 0 && t.abs() != INF;
    cx.say(|| format!("{t} rounded to {p}"));
    let ts = Timestamp::from_origin(d(t));
    if t.abs() == INF {
        cx.tag("infinite");
        for (w, g) in [("floor", guarded(|| d(t).floor(d(p)).as_ticks())), ("ceil", guarded(|| d(t).ceil(d(p)).as_ticks())),
                       ("date floor", guarded(|| ts.floor(d(p)).tk())), ("date ceil", guarded(|| ts.ceil(d(p)).tk()))] {
            ensure_eq!(cx, g, Ok(t), "{w} of {t} to {p}");
        }
    } else {
        let f = (t as i128).div_euclid(p as i128) * p as i128;
        let c = if f == t as i128 { f } else { f + p as i128 };
        if t < 0 { cx.tag("negative") }
        if f == t as i128 { cx.tag("multiple") }
        if fin(f) {
            ensure_eq!(cx, guarded(|| d(t).floor(d(p)).as_ticks()), Ok(f as i64), "{t}.floor({p})");
            ensure_eq!(cx, guarded(|| ts.floor(d(p)).tk()), Ok(f as i64), "date {t}.floor({p})");
        } else { cx.tag("floor out of range") }
        if fin(c) {
            ensure_eq!(cx, guarded(|| d(t).ceil(d(p)).as_ticks()), Ok(c as i64), "{t}.ceil({p})");
            ensure_eq!(cx, guarded(|| ts.ceil(d(p)).tk()), Ok(c as i64), "date {t}.ceil({p})");
        } else { cx.tag("ceil out of range") }
    }
    // truncation to a unit
    type U = (&'static str, i64, fn(TimeValue) -> TimeValue);
    let us: [U; 11] = [("years", 31556952 << 30, |x| x.years()), ("months", 2629746 << 30, |x| x.months()), ("weeks", 604800 << 30, |x| x.weeks()),
        ("days", 86400 << 30, |x| x.days()), ("hours", 3600 << 30, |x| x.hours()), ("mins", 60 << 30, |x| x.mins()), ("secs", 1 << 30, |x| x.secs()),
        ("millis", 1i64.millis().as_ticks(), |x| x.millis()), ("micros", 1i64.micros().as_ticks(), |x| x.micros()), ("nanos", 1i64.nanos().as_ticks(), |x| x.nanos()),
        ("ticks", 1, |x| x)];
    for (n, u, f) in us {
        // (the length of the three smallest units is judged by another property)
        if u <= 0 { continue }
        let f: fn(TimeValue) -> TimeValue = if n == "ticks" { |x| x.ticks() } else { f };
        let e = if t.abs() == INF { t } else { t / u * u };
        ensure_eq!(cx, guarded(|| f(d(t)).as_ticks()), Ok(e), "{t}.{n}()");
    }
    Ok(())
}
fn main() {
    run::main(Spec {
        id: "C13", quick: 6_000_000, thorough: 60_000_000,
        rule: "a case is distinct by the value rounded and the period; non trivial when the value is neither zero nor infinite. A multiple out of the finite range is not judged",
        case,
    })
}

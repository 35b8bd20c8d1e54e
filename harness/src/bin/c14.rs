use vh::*;
use chronologic::*;
use chrono::{DateTime, NaiveDateTime, Utc, FixedOffset};
use std::time::Duration as Std;
fn d(t: i64) -> TimeValue { TimeValue::from_ticks(t) }
fn dt(t: i64) -> Timestamp { Timestamp::from_origin(d(t)) }
/// |ticks - nanos| within `tol` nanoseconds
fn near_ns(t: i64, ns: i128, tol: i128) -> bool { (((t as i128) * 1_000_000_000) - (ns << 30)).abs() <= tol << 30 }
/// (secs, nanos) of a date must become `g`: within one tick, or the right infinity
fn from_ns(g: i64, ns: i128, tol: i128) -> bool {
    let e = ns << 30;
    let lim = INF as i128 * 1_000_000_000;
    let m = tol * 1_000_000_000;
    if g == INF { e >= lim - m } else if g == NEG { e <= -lim + m } else if g == i64::MIN { false }
    else { (g as i128 * 1_000_000_000 - e).abs() <= m && e.abs() <= lim + m }
}
fn finite(r: &mut Rng) -> i64 {
    match r.below(10) {
        0 => r.i(-5, 5), 1 => INF - 1 - r.i(0, 5), 2 => NEG + 1 + r.i(0, 5),
        3 => (r.i(-(1 << 33) + 1, (1 << 33) - 1) << 30) + r.i(-2, 2),
        4 => (1_500_000_000 << 30) + r.i(-(1 << 50), 1 << 50),
        5 => r.i(-(1 << 31), 1 << 31),
        6 => { let s = r.i(-(1 << 32), 1 << 32); let n = *r.pick(&[0i64, 1, 999_999_999, 500_000_000, 999_999, 1_000, 999, 1_000_000]); (s << 30) + ((n << 30) / 1_000_000_000) + r.i(-1, 1) }
        _ => r.i(NEG + 1, INF - 1) >> r.below(50),
    }
}
fn p<A>(w: &str, f: impl FnOnce() -> A) -> R<A> { nopanic(|| w.to_string(), f) }
fn nanos_of(x: chrono::Duration) -> i128 { x.num_seconds() as i128 * 1_000_000_000 + x.subsec_nanos() as i128 }

fn to(cx: &mut Cx, t: i64) -> R {
    let v = d(t);
    // reading whole seconds and parts
    let (s, ms, us, ns) = p(&format!("reading {t}"), || (v.as_secs(), v.subsec_millis(), v.subsec_micros(), v.subsec_nanos()))?;
    cx.obs += 4;
    ensure!((0..1000).contains(&ms) && (0..1_000_000).contains(&us) && (0..1_000_000_000).contains(&ns), "{t} reads {s}s with parts {ms}ms {us}us {ns}ns");
    ensure!(near_ns(t, s as i128 * 1_000_000_000 + ns as i128, 2), "{t} reads {s}s + {ns}ns");
    ensure!(us == ns / 1000 && ms == ns / 1_000_000, "{t} reads {ms}ms {us}us {ns}ns");
    // chrono durations
    let c = p(&format!("chrono duration of {t}"), || { let c: chrono::Duration = v.into(); (c, v.to_duration()) })?;
    cx.obs += 3;
    ensure!(c.0 == c.1, "{t} has two chrono durations");
    ensure!(near_ns(t, nanos_of(c.0), 2), "{t} converts to {:?}", c.0);
    let b: TimeValue = p(&format!("{:?} back", c.0), || c.0.into())?;
    ensure!((b.as_ticks() as i128 - t as i128).abs() <= 4, "{t} becomes {:?} then {}", c.0, b.as_ticks());
    // standard durations
    if t >= 0 {
        cx.tag("standard duration");
        let c: Std = p(&format!("standard duration of {t}"), || v.into())?;
        cx.obs += 2;
        ensure!(near_ns(t, c.as_nanos() as i128, 2), "{t} converts to {c:?}");
        let b: TimeValue = p(&format!("{c:?} back"), || c.into())?;
        ensure!((b.as_ticks() as i128 - t as i128).abs() <= 4, "{t} becomes {c:?} then {}", b.as_ticks());
    }
    // calendar
    let (n, u) = p(&format!("calendar date of {t}"), || { let n: NaiveDateTime = dt(t).into(); (n, dt(t).to_datetime()) })?;
    cx.obs += 4;
    ensure!(n == u.naive_utc(), "date {t} has two calendar dates {n} {u}");
    ensure!(near_ns(t, u.timestamp() as i128 * 1_000_000_000 + u.timestamp_subsec_nanos() as i128, 2), "date {t} converts to {u}");
    let b: Timestamp = p(&format!("{n} back"), || n.into())?;
    ensure!((b.tk() as i128 - t as i128).abs() <= 4, "date {t} becomes {n} then {}", b.tk());
    let o = FixedOffset::east_opt(cx.rng.i(-86399, 86399) as i32).unwrap();
    let z = u.with_timezone(&o);
    let b: Timestamp = p("zoned date back", || z.into())?;
    ensure!((b.tk() as i128 - t as i128).abs() <= 4, "date {t} becomes {z:?} then {}", b.tk());
    ensure!(dt(t).timestamp().tk() == t && (&dt(t)).timestamp().tk() == t && dt(t).since_origin().as_ticks() == t, "timestamp of {t}");
    Ok(())
}
fn monotone(cx: &mut Cx, t: i64, u: i64) -> R {
    let (t, u) = (t.min(u), t.max(u));
    cx.obs += 3;
    let (a, b): (chrono::Duration, chrono::Duration) = (d(t).into(), d(u).into());
    ensure!(a <= b, "{t} <= {u} but {a:?} > {b:?}");
    let (a, b) = (dt(t).to_datetime(), dt(u).to_datetime());
    ensure!(a <= b, "{t} <= {u} but {a} > {b}");
    if t >= 0 {
        let (a, b): (Std, Std) = (d(t).into(), d(u).into());
        ensure!(a <= b, "{t} <= {u} but {a:?} > {b:?}");
    }
    Ok(())
}
/// a number of seconds, in and around the finite range of the library
fn secs(r: &mut Rng, lim: i64) -> i64 {
    let s = if r.pct(50) { 1 } else { -1 };
    (match r.below(9) {
        0 => r.i(0, 5), 1 => (1 << 33) + r.i(-2, 2), 2 => 9_223_372_036 + r.i(-2, 2), 3 => lim - r.i(0, 3), 4 => r.i(0, lim),
        5 => r.i(0, 1 << 33), 6 => (1 << 31) + r.i(-2, 2), 7 => (1 << 32) + r.i(-2, 2), _ => r.i(0, lim) >> r.below(50),
    }).min(lim) * s
}
fn from(cx: &mut Cx) -> R {
    let sub = |r: &mut Rng| match r.below(4) { 0 => 0, 1 => 999_999_999, 2 => r.below(3) as u32, _ => r.below(1_000_000_000) as u32 };
    // chrono durations: up to i64::MAX milliseconds
    let mk = |r: &mut Rng| { let s = secs(r, i64::MAX / 1000 - 1); let n = sub(r); (s as i128 * 1_000_000_000 + n as i128, chrono::Duration::new(s, n).unwrap()) };
    let ((na, a), (nb, b)) = (mk(&mut cx.rng), mk(&mut cx.rng));
    cx.h(na as u64); cx.h(nb as u64);
    cx.say(|| format!("from {a:?}, {b:?}"));
    let f = |x: chrono::Duration| p(&format!("from chrono {x:?}"), || TimeValue::from(x).as_ticks());
    let (ga, gb) = (f(a)?, f(b)?);
    cx.obs += 3;
    ensure!(from_ns(ga, na, 2), "chrono {a:?} becomes {ga}");
    ensure!(from_ns(gb, nb, 2), "chrono {b:?} becomes {gb}");
    ensure!((na <= nb && ga <= gb) || (na >= nb && ga >= gb), "chrono {a:?} becomes {ga} but {b:?} becomes {gb}");
    if ga.abs() == INF { cx.tag("chrono beyond range") }
    // standard durations
    let mk = |r: &mut Rng| { let s = if r.pct(15) { r.u64() >> r.below(40) } else { secs(r, i64::MAX).unsigned_abs() }; Std::new(s, sub(r)) };
    let (a, b) = (mk(&mut cx.rng), mk(&mut cx.rng));
    cx.h(a.as_secs()); cx.h(b.as_secs());
    let f = |x: Std| p(&format!("from standard {x:?}"), || TimeValue::from(x).as_ticks());
    let (ga, gb) = (f(a)?, f(b)?);
    cx.obs += 3;
    ensure!(from_ns(ga, a.as_nanos() as i128, 2), "standard {a:?} becomes {ga}");
    ensure!(from_ns(gb, b.as_nanos() as i128, 2), "standard {b:?} becomes {gb}");
    ensure!((a <= b && ga <= gb) || (a >= b && ga >= gb), "standard {a:?} becomes {ga} but {b:?} becomes {gb}");
    if ga.abs() == INF { cx.tag("standard beyond range") }
    // calendar dates
    let (lo, hi) = (DateTime::<Utc>::MIN_UTC.timestamp(), DateTime::<Utc>::MAX_UTC.timestamp());
    let mk = |r: &mut Rng| { let s = secs(r, hi).clamp(lo + 200_000, hi - 200_000); DateTime::<Utc>::from_timestamp(s, sub(r)).unwrap() };
    let (a, b) = (mk(&mut cx.rng), mk(&mut cx.rng));
    cx.h(a.timestamp() as u64); cx.h(b.timestamp() as u64);
    let ns = |x: &DateTime<Utc>| x.timestamp() as i128 * 1_000_000_000 + x.timestamp_subsec_nanos() as i128;
    let f = |x: DateTime<Utc>| p(&format!("from date {x:?}"), || Timestamp::from(x).tk());
    let g = |x: DateTime<Utc>| p(&format!("from naive date {x:?}"), || Timestamp::from(x.naive_utc()).tk());
    let (ga, gb, ha) = (f(a)?, f(b)?, g(a)?);
    let o = FixedOffset::east_opt(cx.rng.i(-86399, 86399) as i32).unwrap();
    let ka = p(&format!("from zoned date {a:?}"), || Timestamp::from(a.with_timezone(&o)).tk())?;
    cx.obs += 5;
    ensure!(from_ns(ga, ns(&a), 2), "date {a:?} becomes {ga}");
    ensure!(from_ns(gb, ns(&b), 2), "date {b:?} becomes {gb}");
    ensure!(from_ns(ha, ns(&a), 2), "naive date {a:?} becomes {ha}");
    ensure!(from_ns(ka, ns(&a), 2), "zoned date {a:?} becomes {ka}");
    ensure!((a <= b && ga <= gb) || (a >= b && ga >= gb), "date {a:?} becomes {ga} but {b:?} becomes {gb}");
    if ga.abs() == INF { cx.tag("date beyond range") }
    Ok(())
}
fn now(cx: &mut Cx) -> R {
    use std::time::SystemTime;
    let w = || SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_nanos() as i128;
    let a = w();
    let n = Timestamp::now();
    let e = dt(n.tk() - (1 << 30)).elapsed();
    let b = w();
    // (a clock set back between the readings is not judged)
    if b < a { return skip() }
    cx.tag("now");
    cx.obs += 2;
    let t = |ns: i128| (ns << 30) / 1_000_000_000;
    ensure!((n.tk() as i128) >= t(a) - 4 && (n.tk() as i128) <= t(b) + 4, "now reads {} between {} and {}", n.tk(), t(a), t(b));
    ensure!(e.as_ticks() as i128 >= (1 << 30) - 4 && e.as_ticks() as i128 <= (1 << 30) + t(b) - t(a) + 8, "elapsed {}", e.as_ticks());
    Ok(())
}
fn case(cx: &mut Cx) -> R {
    let t = finite(&mut cx.rng);
    let u = if cx.rng.pct(40) { (t as i128 + cx.rng.i(-3, 3) as i128).clamp(NEG as i128 + 1, INF as i128 - 1) as i64 } else { finite(&mut cx.rng) };
    cx.h(t as u64); cx.h(u as u64);
    cx.nontrivial = t != 0;
    cx.say(|| format!("values {t} and {u}"));
    to(cx, t)?;
    monotone(cx, t, u)?;
    from(cx)?;
    if cx.idx % 16 == 3 { now(cx)? }
    Ok(())
}
fn main() {
    run::main(Spec {
        id: "C14", quick: 4_000_000, thorough: 30_000_000,
        rule: "a case is distinct by its two durations (also used as dates) and its foreign values (two chrono durations, two standard durations, two calendar dates); non trivial when the first duration is not zero",
        case,
    })
}

use vh::*;
use chronologic::*;
fn d(t: i64) -> TimeValue { TimeValue::from_ticks(t) }
const MAXF: i64 = INF - 1;

/// a tick count of any magnitude (infinities included when `inf`)
fn anytick(r: &mut Rng, inf: bool) -> i64 {
    match r.below(13) {
        0 if inf => INF, 1 if inf => NEG,
        2 => r.i(-3, 3),
        3 => MAXF - r.i(0, 3), 4 => -MAXF + r.i(0, 3),
        5 => r.i(-(1 << 32), 1 << 32),
        6 => (1i64 << r.below(62)).wrapping_mul(if r.pct(50) { -1 } else { 1 }) + r.i(-1, 1),
        7 => (1 << 62) + r.i(-2, 2), 8 => -(1 << 62) + r.i(-2, 2),
        9 => r.i(-1000, 1000),
        _ => r.i(-MAXF, MAXF) >> r.below(60),
    }
}
/// expected result of an exact computation
fn cl(x: i128) -> i64 { clamp(x) }
fn eq(cx: &mut Cx, got: Result<i64, String>, exp: i64, what: impl Fn() -> String) -> R {
    cx.obs += 1;
    match got {
        Err(m) => viol(format!("{} panicked: {m}", what())),
        Ok(g) => { ensure!(g == exp, "{}: observed {g} ticks, expected {exp}", what()); Ok(()) }
    }
}
/// there is no right value
fn refused(cx: &mut Cx, got: Result<i64, String>, what: impl Fn() -> String) -> R {
    cx.obs += 1;
    match got { Ok(g) => viol(format!("{} is not refused but gives {g} ticks", what())), Err(_) => Ok(()) }
}
fn add(a: i64, b: i64) -> Option<i64> {
    let (ia, ib) = (a.abs() == INF, b.abs() == INF);
    if ia && ib { if a == b { Some(a) } else { None } } else if ia { Some(a) } else if ib { Some(b) } else { Some(cl(a as i128 + b as i128)) }
}
fn mul(a: i64, n: i128) -> Option<i64> {
    if a.abs() == INF { if n == 0 { None } else { Some(if (n > 0) == (a > 0) { INF } else { NEG }) } }
    else { Some(cl((a as i128).saturating_mul(n))) }
}
fn div(a: i64, n: i128) -> Option<i64> {
    if n == 0 { None } else if a.abs() == INF { Some(if (n > 0) == (a > 0) { INF } else { NEG }) } else { Some(cl(a as i128 / n)) }
}
macro_rules! ints { ($($T:ident),*) => { $(
    #[allow(non_snake_case)]
    fn $T(cx: &mut Cx, a: i64, n: i128) -> R {
        type N = std::primitive::$T;
        let Ok(k) = N::try_from(n) else { return Ok(()) };
        cx.tag(stringify!($T));
        if let Some(e) = mul(a, n) {
            eq(cx, guarded(|| (d(a) * k).as_ticks()), e, || format!("{a} * {n}{}", stringify!($T)))?;
            eq(cx, guarded(|| (k * d(a)).as_ticks()), e, || format!("{n}{} * {a}", stringify!($T)))?;
            eq(cx, guarded(|| { let mut x = d(a); x *= k; x.as_ticks() }), e, || format!("{a} *= {n}{}", stringify!($T)))?;
        }
        if let Some(e) = div(a, n) {
            eq(cx, guarded(|| (d(a) / k).as_ticks()), e, || format!("{a} / {n}{}", stringify!($T)))?;
            eq(cx, guarded(|| { let mut x = d(a); x /= k; x.as_ticks() }), e, || format!("{a} /= {n}{}", stringify!($T)))?;
        } else if cx.rng.pct(5) {
            refused(cx, guarded(|| (d(a) / k).as_ticks()), || format!("{a} / {n}{}", stringify!($T)))?;
            refused(cx, guarded(|| { let mut x = d(a); x /= k; x.as_ticks() }), || format!("{a} /= {n}{}", stringify!($T)))?;
        }
        Ok(())
    } )* } }
ints!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize);

/// observed ticks against a real number, within a relative tolerance
fn near_f(cx: &mut Cx, got: Result<i64, String>, exp: f64, rel: f64, what: impl Fn() -> String) -> R {
    cx.obs += 1;
    let g = match got { Ok(g) => g, Err(m) => return viol(format!("{} panicked: {m}", what())) };
    let lim = 9.223372036854775807e18;
    let tol = exp.abs() * rel + 1.5;
    let ok = if exp - tol > lim { g == INF } else if exp + tol < -lim { g == NEG }
        else if g == INF { exp + tol >= lim } else if g == NEG { exp - tol <= -lim }
        else { (g as f64 - exp).abs() <= tol + (g as f64).abs() * rel };
    ensure!(ok && g != i64::MIN, "{}: observed {g} ticks, expected about {exp}", what());
    Ok(())
}
macro_rules! floats { ($($T:ident $rel:expr, $min:expr, $max:expr);*) => { $(
    #[allow(non_snake_case)]
    fn $T(cx: &mut Cx, a: i64, f: f64) -> R {
        type N = std::primitive::$T;
        let k = f as N;
        if !(k.abs() > $min && k.abs() < $max) { return Ok(()) }
        cx.tag(stringify!($T));
        let s = stringify!($T);
        if a.abs() == INF {
            let e = if (k > 0.) == (a > 0) { INF } else { NEG };
            eq(cx, guarded(|| (d(a) * k).as_ticks()), e, || format!("{a} * {k:?}{s}"))?;
            eq(cx, guarded(|| (k * d(a)).as_ticks()), e, || format!("{k:?}{s} * {a}"))?;
            eq(cx, guarded(|| (d(a) / k).as_ticks()), e, || format!("{a} / {k:?}{s}"))?;
            eq(cx, guarded(|| { let mut x = d(a); x *= k; x /= k; x.as_ticks() }), a, || format!("{a} *= /= {k:?}{s}"))?;
        } else {
            let (m, q) = (a as f64 * k as f64, a as f64 / k as f64);
            near_f(cx, guarded(|| (d(a) * k).as_ticks()), m, $rel, || format!("{a} * {k:?}{s}"))?;
            near_f(cx, guarded(|| (k * d(a)).as_ticks()), m, $rel, || format!("{k:?}{s} * {a}"))?;
            near_f(cx, guarded(|| (d(a) / k).as_ticks()), q, $rel, || format!("{a} / {k:?}{s}"))?;
            near_f(cx, guarded(|| { let mut x = d(a); x *= k; x.as_ticks() }), m, $rel, || format!("{a} *= {k:?}{s}"))?;
            near_f(cx, guarded(|| { let mut x = d(a); x /= k; x.as_ticks() }), q, $rel, || format!("{a} /= {k:?}{s}"))?;
        }
        Ok(())
    } )* } }
floats!(f32 1e-6, 1e-30, 1e30; f64 1e-14, 1e-300, 1e300);

fn points<T: Pt>(cx: &mut Cx, a: i64, b: i64) -> R {
    let (x, y) = (T::mk(a), T::mk(b));
    let nm = if T::DATE { "date" } else { "duration" };
    cx.obs += 12;
    ensure!(x.tk() == a, "{nm} of {a} ticks reads {}", x.tk());
    ensure!((x == y) == (a == b) && x.cmp(&y) == a.cmp(&b) && x.partial_cmp(&y) == Some(a.cmp(&b)), "{nm}: order of {a} and {b}");
    ensure!((x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), "{nm}: comparison of {a} and {b}");
    ensure!(a != b || hash_of(&x) == hash_of(&y), "{nm}: hash of {a}");
    ensure!(x.max(y).tk() == a.max(b) && x.min(y).tk() == a.min(b), "{nm}: min/max of {a} and {b}");
    ensure!(x.is_finite() == (a.abs() != INF), "{nm} {a}: is_finite");
    ensure!(x.is_future_infinite() == (a == INF) && x.is_past_infinite() == (a == NEG), "{nm} {a}: infinite tests");
    ensure!((-x).tk() == -a, "-{nm} {a}");
    ensure!(T::INFINITE.tk() == INF && (-T::INFINITE).tk() == NEG, "infinite constant");
    let (s, p) = if a.abs() == INF { (a, a) } else { (a + 1, a - 1) };
    ensure!(x.just_after().tk() == s, "{nm} {a}.just_after() = {}", x.just_after().tk());
    ensure!(x.just_before().tk() == p, "{nm} {a}.just_before() = {}", x.just_before().tk());
    Ok(())
}
fn case(cx: &mut Cx) -> R {
    let (a, mut b) = (anytick(&mut cx.rng, true), anytick(&mut cx.rng, true));
    if cx.rng.pct(10) { b = -a } else if cx.rng.pct(5) { b = a }
    cx.h(a as u64); cx.h(b as u64);
    cx.nontrivial = a != 0 && b != 0;
    cx.say(|| format!("ticks {a} and {b}"));
    ensure!(d(i64::MIN).as_ticks() == NEG, "from_ticks(i64::MIN) = {}", d(i64::MIN).as_ticks());
    points::<TimeValue>(cx, a, b)?;
    points::<Timestamp>(cx, a, b)?;
    let x = d(a);
    cx.obs += 5;
    ensure!(x.is_zero() == (a == 0), "{a}: is_zero");
    ensure!(x.is_positive() == (a >= 0), "{a}: is_positive");
    ensure!(x.is_negative() == (a <= 0), "{a}: is_negative");
    ensure!(x.is_strictly_positive() == (a > 0), "{a}: is_strictly_positive");
    ensure!(x.is_strictly_negative() == (a < 0), "{a}: is_strictly_negative");
    // sums
    let ts = |t: i64| Timestamp::from_origin(d(t));
    if let Some(e) = add(a, b) {
        eq(cx, guarded(|| (d(a) + d(b)).as_ticks()), e, || format!("{a} + {b}"))?;
        eq(cx, guarded(|| { let mut x = d(a); x += d(b); x.as_ticks() }), e, || format!("{a} += {b}"))?;
        eq(cx, guarded(|| [d(a), d(b)].into_iter().sum::<TimeValue>().as_ticks()), e, || format!("sum of {a}, {b}"))?;
        eq(cx, guarded(|| (ts(a) + d(b)).tk()), e, || format!("date {a} + {b}"))?;
        eq(cx, guarded(|| (d(b) + ts(a)).tk()), e, || format!("{b} + date {a}"))?;
        eq(cx, guarded(|| { let mut x = ts(a); x += d(b); x.tk() }), e, || format!("date {a} += {b}"))?;
    } else {
        cx.tag("undefined sum");
        refused(cx, guarded(|| (d(a) + d(b)).as_ticks()), || format!("{a} + {b}"))?;
        refused(cx, guarded(|| { let mut x = d(a); x += d(b); x.as_ticks() }), || format!("{a} += {b}"))?;
        refused(cx, guarded(|| [d(a), d(b)].into_iter().sum::<TimeValue>().as_ticks()), || format!("sum of {a}, {b}"))?;
        refused(cx, guarded(|| (ts(a) + d(b)).tk()), || format!("date {a} + {b}"))?;
        refused(cx, guarded(|| (d(b) + ts(a)).tk()), || format!("{b} + date {a}"))?;
        refused(cx, guarded(|| { let mut x = ts(a); x += d(b); x.tk() }), || format!("date {a} += {b}"))?;
    }
    if let Some(e) = add(a, -b) {
        eq(cx, guarded(|| (d(a) - d(b)).as_ticks()), e, || format!("{a} - {b}"))?;
        eq(cx, guarded(|| { let mut x = d(a); x -= d(b); x.as_ticks() }), e, || format!("{a} -= {b}"))?;
        eq(cx, guarded(|| (ts(a) - d(b)).tk()), e, || format!("date {a} - {b}"))?;
        eq(cx, guarded(|| (d(a) - ts(b)).tk()), e, || format!("{a} - date {b}"))?;
        eq(cx, guarded(|| (ts(a) - ts(b)).as_ticks()), e, || format!("date {a} - date {b}"))?;
        eq(cx, guarded(|| { let mut x = ts(a); x -= d(b); x.tk() }), e, || format!("date {a} -= {b}"))?;
    } else {
        refused(cx, guarded(|| (d(a) - d(b)).as_ticks()), || format!("{a} - {b}"))?;
        refused(cx, guarded(|| { let mut x = d(a); x -= d(b); x.as_ticks() }), || format!("{a} -= {b}"))?;
        refused(cx, guarded(|| (ts(a) - d(b)).tk()), || format!("date {a} - {b}"))?;
        refused(cx, guarded(|| (d(a) - ts(b)).tk()), || format!("{a} - date {b}"))?;
        refused(cx, guarded(|| (ts(a) - ts(b)).as_ticks()), || format!("date {a} - date {b}"))?;
        refused(cx, guarded(|| { let mut x = ts(a); x -= d(b); x.tk() }), || format!("date {a} -= {b}"))?;
    }
    // sums of many, whose partial sums are all defined
    if cx.idx % 8 == 0 {
        let n = cx.rng.us(12);
        let v: Vec<i64> = (0..n).map(|_| anytick(&mut cx.rng, false) >> cx.rng.below(8)).collect();
        let mut s = 0i128;
        let mut ok = true;
        for t in &v { s += *t as i128; ok &= s.abs() < INF as i128 }
        if ok {
            cx.tag("long sum");
            eq(cx, guarded(|| v.iter().map(|t| d(*t)).sum::<TimeValue>().as_ticks()), s as i64, || format!("sum of {v:?}"))?;
        } else if v.iter().all(|t| *t >= 0) {
            cx.tag("overflowing sum");
            eq(cx, guarded(|| v.iter().map(|t| d(*t)).sum::<TimeValue>().as_ticks()), INF, || format!("sum of {v:?}"))?;
            eq(cx, guarded(|| v.iter().map(|t| -d(*t)).sum::<TimeValue>().as_ticks()), NEG, || format!("sum of opposites of {v:?}"))?;
        }
    }
    // products and quotients
    let n: i128 = match cx.rng.below(13) {
        0 => 0, 1 => cx.rng.i(-3, 3) as i128, 2 => *cx.rng.pick(&[127i128, -128, 255, 32767, -32768, 65535, 2147483647, -2147483648, 4294967295]),
        3 => *cx.rng.pick(&[i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, i128::MAX, i128::MIN, i64::MAX as i128 + 1, -(i64::MAX as i128), 1 << 62, 1 << 64, -(1 << 64)]),
        4..=6 => cx.rng.i(-130, 260) as i128,
        7 => cx.rng.i(-70000, 70000) as i128,
        8 => cx.rng.i(-(1 << 33), 1 << 33) as i128,
        9 => cx.rng.i(i64::MIN, i64::MAX) as i128,
        10 => (cx.rng.i(i64::MIN, i64::MAX) as i128) << cx.rng.below(63),
        // a factor which brings the product close to the limit
        _ => if a == 0 { 7 } else { INF as i128 / a as i128 + cx.rng.i(-1, 1) as i128 },
    };
    cx.h(n as u64);
    macro_rules! all { ($($f:ident)*) => { $( $f(cx, a, n)?; )* } }
    all!(i8 u8 i16 u16 i32 u32 i64 u64 i128 u128 isize usize);
    if n == i128::MAX {
        cx.tag("u128 beyond i128");
        let k = u128::MAX - cx.rng.below(9) as u128;
        if let Some(e) = mul(a, i128::MAX) { eq(cx, guarded(|| (d(a) * k).as_ticks()), if a == 0 { 0 } else { e }, || format!("{a} * {k}u128"))?; }
        if let Some(e) = div(a, i128::MAX) { eq(cx, guarded(|| (d(a) / k).as_ticks()), e, || format!("{a} / {k}u128"))?; }
    }
    let f = match cx.rng.below(6) {
        0 => n as f64,
        1 => cx.rng.i(-1000, 1000) as f64 / 1000.,
        2 => 10f64.powi(cx.rng.i(-28, 28) as i32) * cx.rng.i(-9, 9) as f64,
        3 => if a == 0 { 0.5 } else { INF as f64 / a as f64 * (1. + cx.rng.i(-3, 3) as f64 * 1e-6) },
        4 => *cx.rng.pick(&[1., -1., 0.5, -0.5, 2., -2., 0.1, 1. / 3.]),
        _ => cx.rng.i(-(1 << 50), 1 << 50) as f64 / 65536.,
    };
    f32(cx, a, f)?;
    f64(cx, a, f)
}
fn main() {
    run::main(Spec {
        id: "C11", quick: 6_000_000, thorough: 60_000_000,
        rule: "a case is distinct by its two tick counts and its integer factor; non trivial when both tick counts are not zero. Opposite infinities added together, infinity times zero and divisions by zero have no documented answer and are not judged",
        case,
    })
}

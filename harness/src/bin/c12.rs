use vh::*;
use chronologic::*;
const YEAR: i128 = 146097 * 24 * 3600 / 400;
const MONTH: i128 = YEAR / 12;
/// seconds in each unit counted in whole seconds
const UNITS: [(&str, i128); 7] = [("years", YEAR), ("months", MONTH), ("weeks", 7 * 86400), ("days", 86400), ("hours", 3600), ("mins", 60), ("secs", 1)];
const SUB: [(&str, i128); 3] = [("millis", 1000), ("micros", 1_000_000), ("nanos", 1_000_000_000)];
fn exact(n: i128, secs: i128) -> i64 { clamp(n.saturating_mul(secs).clamp(-(1 << 90), 1 << 90) << 30) }
/// is `g` an acceptable answer for n/den seconds
fn close(g: i64, n: i128, den: i128) -> bool {
    let n = n.clamp(-(1 << 90), 1 << 90);
    // n/den seconds in ticks, times den
    let e = n << 30;
    let lim = INF as i128 * den;
    if g == INF { return e >= lim - den }
    if g == NEG { return e <= -lim + den }
    if g == i64::MIN { return false }
    (g as i128 * den - e).abs() <= den && e.abs() <= lim + den
}
macro_rules! ints { ($($T:ident),*) => { $(
    #[allow(non_snake_case)]
    fn $T(cx: &mut Cx, n: i128, m: i128) -> R {
        type N = std::primitive::$T;
        let (Ok(k), Ok(l)) = (N::try_from(n), N::try_from(m)) else { return Ok(()) };
        cx.tag(stringify!($T));
        let t = stringify!($T);
        let f = |x: N| -> Result<[i64; 11], String> { guarded(|| [x.years(), x.months(), x.weeks(), x.days(), x.hours(), x.mins(), x.secs(), x.millis(), x.micros(), x.nanos(), x.ticks()].map(|v| v.as_ticks())) };
        let (g, h) = match (f(k), f(l)) { (Ok(g), Ok(h)) => (g, h), (Err(e), _) => return viol(format!("a duration of {n}{t} units panicked: {e}")), (_, Err(e)) => return viol(format!("a duration of {m}{t} units panicked: {e}")) };
        judge(cx, n, &g, t)?;
        for j in 0..11 {
            cx.obs += 1;
            ensure!(if n <= m { g[j] <= h[j] } else { g[j] >= h[j] }, "unit {j}: {n}{t} gives {} ticks but {m}{t} gives {}", g[j], h[j]);
        }
        Ok(())
    } )* } }
ints!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize);
fn judge(cx: &mut Cx, n: i128, g: &[i64; 11], t: &str) -> R {
    for (j, (u, s)) in UNITS.iter().enumerate() { ensure_eq!(cx, g[j], exact(n, *s), "{n}{t}.{u}()"); }
    for (j, (u, den)) in SUB.iter().enumerate() {
        cx.obs += 1;
        ensure!(close(g[7 + j], n, *den), "{n}{t}.{u}(): observed {} ticks", g[7 + j]);
    }
    ensure_eq!(cx, g[10], clamp(n), "{n}{t}.ticks()");
    Ok(())
}
fn case(cx: &mut Cx) -> R {
    // counts of any magnitude, with emphasis around the limit of each unit
    let count = |r: &mut Rng| -> i128 {
        let s = if r.pct(50) { 1 } else { -1 };
        match r.below(10) {
            0 => r.i(-5, 5) as i128,
            1 => r.i(-128, 255) as i128,
            2 => r.i(-32768, 65535) as i128,
            3 => r.i(-(1 << 31), 1 << 32) as i128,
            4 => r.i(i64::MIN, i64::MAX) as i128,
            5 => { let (_, u) = *r.pick(&UNITS); s * ((1i128 << 33) / u + r.i(-2, 2) as i128) }
            6 => { let (_, u) = *r.pick(&SUB); s * ((1i128 << 33) * u + *r.pick(&[-2i128, -1, 0, 1, 2, -1000, 1000])) }
            7 => { let (_, u) = *r.pick(&UNITS); s * (i64::MAX as i128 / u + r.i(-2, 2) as i128) }
            8 => *r.pick(&[i64::MAX as i128, i64::MIN as i128, i64::MIN as i128 + 1, u64::MAX as i128, i128::MAX, i128::MIN, i64::MAX as i128 + 1, i64::MIN as i128 - 1, 1 << 64, 127, -128, 255, 32767, -32768, 65535]),
            _ => (r.i(i64::MIN, i64::MAX) as i128) >> r.below(60),
        }
    };
    let n = count(&mut cx.rng);
    let m = if cx.rng.pct(50) { n.saturating_add(cx.rng.i(-2, 2) as i128) } else { count(&mut cx.rng) };
    cx.h(n as u64); cx.h(m as u64); cx.h((n >> 64) as u64);
    cx.nontrivial = n != 0;
    cx.say(|| format!("counts {n} and {m}"));
    if let Ok(k) = i64::try_from(n) {
        let g = match guarded(|| [TimeValue::from_years(k), TimeValue::from_months(k), TimeValue::from_weeks(k), TimeValue::from_days(k), TimeValue::from_hours(k),
            TimeValue::from_mins(k), TimeValue::from_secs(k), TimeValue::from_millis(k), TimeValue::from_micros(k), TimeValue::from_nanos(k), TimeValue::from_ticks(k)].map(|v| v.as_ticks())) {
            Ok(g) => g, Err(e) => return viol(format!("TimeValue::from_*({k}) panicked: {e}")) };
        judge(cx, n, &g, " (constructor)")?;
    }
    macro_rules! all { ($($f:ident)*) => { $( $f(cx, n, m)?; )* } }
    all!(i8 u8 i16 u16 i32 u32 i64 u64 i128 u128 isize usize);
    if n == i128::MAX {
        let k = u128::MAX - cx.rng.below(9) as u128;
        cx.obs += 1;
        ensure!([k.years(), k.secs(), k.millis(), k.nanos(), k.ticks()].iter().all(|v| *v == TimeValue::INFINITE), "{k}u128 units");
    }
    Ok(())
}
fn main() {
    run::main(Spec {
        id: "C12", quick: 5_000_000, thorough: 40_000_000,
        rule: "a case is distinct by its two counts; non trivial when the first is not zero. Each count is given to the eleven units of every integer type able to hold it",
        case,
    })
}

use vh::*;
use chronologic::*;
use chronologic::iter::*;
fn d(t: i64) -> TimeValue { TimeValue::from_ticks(t) }
/// tick t times n (infinite bounds keep, with the sign of the factor)
fn mul(t: i64, n: i128) -> i64 { if t == INF || t == NEG { if (n > 0) == (t == INF) { INF } else { NEG } } else { clamp((t as i128).saturating_mul(n)) } }
fn div(t: i64, n: i128) -> i64 { if t == INF || t == NEG { if (n > 0) == (t == INF) { INF } else { NEG } } else { clamp(t as i128 / n) } }
fn map(a: &Raw, neg: bool, f: impl Fn(i64) -> i64) -> Option<Raw> {
    let v: Vec<_> = a.iter().map(|(x, y)| if neg { (f(*y), f(*x)) } else { (f(*x), f(*y)) }).collect();
    // parts pushed entirely outside of the representable range: no documented answer
    if v.iter().any(|(x, y)| *x == INF || *y == NEG) { return None }
    Some(canon(&v))
}
fn eq(cx: &mut Cx, got: Result<Raw, String>, exp: &Raw, what: impl Fn() -> String) -> R {
    cx.obs += 1;
    match got {
        Err(m) => viol(format!("{} panicked: {m}", what())),
        Ok(g) => { ensure!(g == *exp, "{}: observed {:?}, expected {:?}", what(), g, exp); Ok(()) }
    }
}
fn full(i: TimeSpan) -> Raw { if i.is_empty() && iv_raw(&i) == (INF, NEG) { vec![] } else { vec![iv_raw(&i)] } }

macro_rules! ints { ($($T:ident),*) => { $(
    #[allow(non_snake_case)]
    fn $T(cx: &mut Cx, a: &Raw, s: &TimeSpans, o: Op, n: i128) -> R {
        type N = std::primitive::$T;
        let Ok(k) = N::try_from(n) else { return Ok(()) };
        // (a factor beyond the greatest i128 does the same as this one)
        let k = if n == i128::MAX && N::MAX as u128 > i128::MAX as u128 && N::MIN == 0 { N::MAX - cx.rng.u64() as N } else { k };
        let w = |s: &str| format!("{a:?} {s} {n}{}", stringify!($T));
        let i: TimeSpan = op_iv(o);
        let wi = |s: &str| format!("interval {o:?} {s} {n}{}", stringify!($T));
        if n == 0 {
            let z = |r: &Raw| if r.is_empty() { vec![] } else { vec![(0i64, 0i64)] };
            if !a.iter().any(|x| x.0 == NEG || x.1 == INF) {
                cx.tag("by zero");
                eq(cx, guarded(|| raw(&(s.clone() * k))), &z(a), || w("*"))?;
                eq(cx, guarded(|| raw(&(k * s.clone()))), &z(a), || w("by"))?;
                eq(cx, guarded(|| { let mut x = s.clone(); x *= k; raw(&x) }), &z(a), || w("*="))?;
            }
            let ri = o.raw();
            if !ri.iter().any(|x| x.0 == NEG || x.1 == INF) {
                eq(cx, guarded(|| full(i * k)), &z(&ri), || wi("*"))?;
                eq(cx, guarded(|| full(k * i)), &z(&ri), || wi("by"))?;
                eq(cx, guarded(|| { let mut x = i; x *= k; full(x) }), &z(&ri), || wi("*="))?;
            }
            return Ok(())
        }
        if let Some(e) = map(a, n < 0, |t| mul(t, n)) {
            match cx.rng.below(3) {
                0 => eq(cx, guarded(|| raw(&(s.clone() * k))), &e, || w("*"))?,
                1 => eq(cx, guarded(|| raw(&(k * s.clone()))), &e, || w("by"))?,
                _ => eq(cx, guarded(|| { let mut x = s.clone(); x *= k; raw(&x) }), &e, || w("*="))?,
            }
            if cx.rng.pct(30) { eq(cx, guarded(|| { let r: TimeSpans = s.iter().scaling(k).collect(); raw(&r) }), &e, || w("lazily *"))?; }
        }
        if let Some(e) = map(a, n < 0, |t| div(t, n)) {
            match cx.rng.below(2) {
                0 => eq(cx, guarded(|| raw(&(s.clone() / k))), &e, || w("/"))?,
                _ => eq(cx, guarded(|| { let mut x = s.clone(); x /= k; raw(&x) }), &e, || w("/="))?,
            }
        }
        let ri = o.raw();
        if let Some(e) = map(&ri, n < 0, |t| mul(t, n)) {
            eq(cx, guarded(|| full(i * k)), &e, || wi("*"))?;
            eq(cx, guarded(|| full(k * i)), &e, || wi("by"))?;
            eq(cx, guarded(|| { let mut x = i; x *= k; full(x) }), &e, || wi("*="))?;
            eq(cx, guarded(|| drain(with_op!(TimeValue, o, w => w.iter()).scaling(k), 5)), &e, || wi("lazily *"))?;
        }
        if let Some(e) = map(&ri, n < 0, |t| div(t, n)) {
            eq(cx, guarded(|| full(i / k)), &e, || wi("/"))?;
            eq(cx, guarded(|| { let mut x = i; x /= k; full(x) }), &e, || wi("/="))?;
        }
        Ok(())
    } )* } }
ints!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize);

macro_rules! floats { ($($T:ident),*) => { $(
    #[allow(non_snake_case)]
    fn $T(cx: &mut Cx, a: &Raw, s: &TimeSpans, o: Op, f: f64) -> R {
        type N = std::primitive::$T;
        let k = f as N;
        if k == 0. || !k.is_finite() || (1. / k) == 0. || !(1. / k).is_finite() { return Ok(()) }
        let w = |s: &str| format!("{a:?} {s} {k:?}{}", stringify!($T));
        let i: TimeSpan = op_iv(o);
        let ri = o.raw();
        let wi = |s: &str| format!("interval {o:?} {s} {k:?}{}", stringify!($T));
        // bounds are those of the corresponding durations (infinite ones keep)
        let fm = |t: i64| if t == INF || t == NEG { mul(t, if k > 0. { 1 } else { -1 }) } else { (d(t) * k).as_ticks() };
        let fd = |t: i64| if t == INF || t == NEG { mul(t, if k > 0. { 1 } else { -1 }) } else { (d(t) / k).as_ticks() };
        if let Some(e) = map(a, k < 0., fm) {
            match cx.rng.below(3) {
                0 => eq(cx, guarded(|| raw(&(s.clone() * k))), &e, || w("*"))?,
                1 => eq(cx, guarded(|| raw(&(k * s.clone()))), &e, || w("by"))?,
                _ => eq(cx, guarded(|| { let mut x = s.clone(); x *= k; raw(&x) }), &e, || w("*="))?,
            }
            if cx.rng.pct(30) { eq(cx, guarded(|| { let r: TimeSpans = s.iter().scaling(k).collect(); raw(&r) }), &e, || w("lazily *"))?; }
        }
        if let Some(e) = map(a, k < 0., fd) {
            match cx.rng.below(2) {
                0 => eq(cx, guarded(|| raw(&(s.clone() / k))), &e, || w("/"))?,
                _ => eq(cx, guarded(|| { let mut x = s.clone(); x /= k; raw(&x) }), &e, || w("/="))?,
            }
        }
        if let Some(e) = map(&ri, k < 0., fm) {
            eq(cx, guarded(|| full(i * k)), &e, || wi("*"))?;
            eq(cx, guarded(|| full(k * i)), &e, || wi("by"))?;
            eq(cx, guarded(|| { let mut x = i; x *= k; full(x) }), &e, || wi("*="))?;
            eq(cx, guarded(|| drain(with_op!(TimeValue, o, w => w.iter()).scaling(k), 5)), &e, || wi("lazily *"))?;
        }
        if let Some(e) = map(&ri, k < 0., fd) {
            eq(cx, guarded(|| full(i / k)), &e, || wi("/"))?;
            eq(cx, guarded(|| { let mut x = i; x /= k; full(x) }), &e, || wi("/="))?;
        }
        Ok(())
    } )* } }
floats!(f32, f64);

fn case(cx: &mut Cx) -> R {
    let k = cx.idx;
    let (a, z) = if k < 512 * 40 {
        cx.tag("small-domain");
        // around zero, where a division can join parts
        (mask_set(k % 512, -8 + (k / 512 % 10) as i64), Zone { base: 0, span: 9 })
    } else {
        let z = match cx.rng.below(4) { 0 => Zone { base: 0, span: 20 }, 1 => Zone { base: *cx.rng.pick(&[0, 100, -100, 1000]), span: 120 }, _ => zone(&mut cx.rng) };
        (rawset(&mut cx.rng, z), z)
    };
    cx.hraw(&a);
    cx.nontrivial = !a.is_empty();
    let rt = cx.rng.below(4);
    let s: TimeSpans = set_or_skip(&a, rt)?;
    let w = match cx.rng.below(5) { 0 => None, 1 => a.first().copied(), _ => near(&mut cx.rng, &a, z) };
    let o = op_of(&mut cx.rng, w);
    let n: i128 = match cx.rng.below(15) {
        14 => *cx.rng.pick(&[i128::MAX, i128::MAX, i128::MIN, i128::MAX - 1, u64::MAX as i128, u64::MAX as i128 + 1, i64::MAX as i128, i64::MIN as i128, i64::MAX as i128 + 1, 1 << 100]),
        0 => 0, 1 => 1, 2 => -1,
        3..=8 => cx.rng.i(-12, 12) as i128,
        9 => cx.rng.i(-128, 255) as i128,
        10 => cx.rng.i(-40000, 70000) as i128,
        11 => cx.rng.i(-(1 << 33), 1 << 33) as i128,
        12 => cx.rng.i(i64::MIN, i64::MAX) as i128,
        _ => (cx.rng.i(i64::MIN, i64::MAX) as i128) << cx.rng.below(60),
    };
    cx.h(n as u64);
    cx.say(|| format!("{a:?} and {o:?} scaled by {n}"));
    macro_rules! pick { ($($k:literal $f:ident),*) => { match cx.rng.below(12) { $($k => $f(cx, &a, &s, o, n)?,)* _ => () } } }
    pick!(0 i8, 1 u8, 2 i16, 3 u16, 4 i32, 5 u32, 6 i64, 7 u64, 8 i128, 9 u128, 10 isize, 11 usize);
    if cx.rng.pct(50) { i64(cx, &a, &s, o, n)?; }
    let f = match cx.rng.below(6) {
        0 => n as f64 + 0.5,
        1 => 1. / (cx.rng.i(1, 40) as f64) * if cx.rng.pct(50) { 1. } else { -1. },
        2 => cx.rng.i(-3000, 3000) as f64 / 1000.,
        3 => *cx.rng.pick(&[1., -1., 0.5, -0.5, 2., -2., 0.1, 0.999, 1.001, 1e-3, -1e-3, 1e3, 0.75]),
        4 => cx.rng.i(-100, 100) as f64 / 100.,
        _ => cx.rng.i(1, 1000) as f64 * 1e-3,
    };
    if cx.rng.pct(50) { f64(cx, &a, &s, o, f)? } else { f32(cx, &a, &s, o, f)? }
    Ok(())
}
fn main() {
    run::main(Spec {
        id: "C10", quick: 4_000_000, thorough: 25_000_000,
        rule: "a case is distinct by the set scaled and the integer factor (a float factor and an interval go with it); non trivial when the set is not empty. Cases where a whole part leaves the representable range are not judged",
        case,
    })
}

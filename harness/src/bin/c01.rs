use vh::*;
use chronologic::*;
both!("c01.rs");
fn ok(cx: &mut Cx, s: Result<TimeSpans, String>, what: impl Fn() -> String) -> R {
    let s = match s { Ok(s) => s, Err(_) => return Ok(()) };
    let r = raw(&s);
    cx.obs += 1;
    if let Err(m) = is_canon(&r) { return viol(format!("{}: not canonical, {m}: {:?}", what(), r)) }
    if let Some(o) = set::<TimeValue>(&r, cx.idx) {
        ensure!(s == o && hash_of(&s) == hash_of(&o), "{}: differs from another set with the same instants {:?}", what(), r);
    }
    Ok(())
}
/// scaled sets of durations
fn scaled(cx: &mut Cx) -> R {
    let z = Zone { base: *cx.rng.pick(&[0, 0, 100, -100, 1 << 32]), span: *cx.rng.pick(&[10, 40, 1000]) };
    let a = rawset(&mut cx.rng, z);
    cx.hraw(&a);
    cx.nontrivial = !a.is_empty();
    cx.tag("scaling");
    let s = set_or_skip::<TimeValue>(&a, cx.idx)?;
    let n = cx.rng.i(-9, 9);
    cx.h(n as u64);
    ok(cx, guarded(|| s.clone() * n), || format!("{a:?} * {n}"))?;
    ok(cx, guarded(|| { let mut x = s.clone(); x *= n as i8; x }), || format!("{a:?} *= {n}"))?;
    if n != 0 {
        ok(cx, guarded(|| s.clone() / n), || format!("{a:?} / {n}"))?;
        ok(cx, guarded(|| { let mut x = s.clone(); x /= n as i32; x }), || format!("{a:?} /= {n}"))?;
        ok(cx, guarded(|| s.clone() / n.unsigned_abs() as u16), || format!("{a:?} / {}u16", n.abs()))?;
        let f = *cx.rng.pick(&[0.5, 0.1, 1.5, -0.5, -0.3, -1.0, 3.0, 0.9, 1.0, -2.5, 0.01]) * if cx.rng.pct(50) { 1.0 } else { (n as f64).abs() };
        ok(cx, guarded(|| s.clone() * f), || format!("{a:?} * {f}"))?;
        ok(cx, guarded(|| { let mut x = s.clone(); x *= f as f32; x }), || format!("{a:?} *= {f}f32"))?;
        ok(cx, guarded(|| s.clone() / f), || format!("{a:?} / {f}"))?;
    }
    Ok(())
}
/// slots of a scheduler after arbitrary restrictions
fn slots(cx: &mut Cx) -> R {
    use chronologic::graph::*;
    let n = cx.rng.us(4) + 1;
    let mut g = TimeGraph::with_size(n as u32);
    for _ in 0..cx.rng.us(2 * n) {
        let (i, j) = (cx.rng.us(n) as u32, cx.rng.us(n) as u32);
        let (x, w) = (cx.rng.i(-6, 6), cx.rng.i(0, 8));
        let _ = g.propagate(((i, j), TimeSpan::new(TimeValue::from_ticks(x), TimeValue::from_ticks(x + w))));
    }
    cx.tag("scheduler");
    cx.nontrivial = n > 1;
    let mut s = TimeScheduler::new(&g);
    for _ in 0..cx.rng.us(5) + 1 {
        let i = cx.rng.us(n) as u32;
        let r = rawset(&mut cx.rng, Zone { base: 0, span: 12 });
        cx.hraw(&r); cx.h(i as u64);
        let w = set_or_skip::<Timestamp>(&r, cx.idx)?;
        let rem = cx.rng.pct(40);
        if guarded(|| { if rem { let _ = s.remove(i, w); } else { let _ = s.retain(i, w); } }).is_err() { return Ok(()) }
        for k in 0..n as u32 {
            let r = raw(&s.schedule()[k as usize]);
            cx.obs += 1;
            if let Err(m) = is_canon(&r) { return viol(format!("slot {k} is not canonical, {m}: {r:?}")) }
        }
    }
    Ok(())
}
fn main() {
    run::main(Spec {
        id: "C01", quick: 2_000_000, thorough: 15_000_000,
        rule: "a case is distinct by its generated windows (pair of sets; set and factor; restriction history); non trivial when they are not empty. Each case builds 15-25 sets by different public operations and inspects every one",
        case: |cx| match cx.idx % 16 { 14 => scaled(cx), 15 => slots(cx), k if k % 2 == 0 => tv::case(cx), _ => ts::case(cx) },
    })
}

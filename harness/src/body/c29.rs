fn sh(t: i64, d: i64) -> i64 { if t == INF || t == NEG { t } else { clamp(t as i128 + d as i128) } }
/// what the optional result holds; None if it is absent
fn opt(o: Option<TimeInterval<T>>) -> Option<Raw> { o.map(|i| { let r: Raw = i.iter().map(|i| iv_raw(&i)).collect(); if r.is_empty() != i.is_empty() || r.len() != i.convex_count() || r.first().is_some_and(|x| *x != iv_raw(&i)) { vec![(1, 0)] } else { r } }) }
fn delta(cx: &mut Cx, z: Zone, a: &[(i64, i64)]) -> i64 {
    let r = &mut cx.rng;
    // about half of the width of a part, or the distance to a limit
    let w = |x: i64, y: i64| fit(y as i128 - x as i128);
    match r.below(12) {
        0 => 0, 1 => 1, 2 => -1,
        3 => INF - 1 - r.i(0, 3), 4 => NEG + 1 + r.i(0, 3), 5 => r.i(NEG + 1, INF - 1),
        6 | 7 if !a.is_empty() => { let p = a[r.us(a.len())]; let h = w(p.0, p.1) / 2; fit(-(h as i128) + r.i(-2, 2) as i128) }
        8 if !a.is_empty() => { let p = a[r.us(a.len())]; let x = if r.pct(50) { p.0 } else { p.1 }; fit((INF as i128 - x.unsigned_abs() as i128 + r.i(-2, 2) as i128) * if r.pct(50) { 1 } else { -1 }) }
        _ => r.i(-z.span.min(1 << 40) - 2, z.span.min(1 << 40) + 2),
    }
}
pub fn case(cx: &mut Cx) -> R {
    let (a, z) = case_one(cx);
    let w = match cx.rng.below(6) { 0 => rawiv(&mut cx.rng, z), 1 => near(&mut cx.rng, &a, z), _ => if a.is_empty() { None } else { Some(a[cx.rng.us(a.len())]) } }.filter(|(x, y)| x <= y);
    let o = op_of(&mut cx.rng, w);
    let i: TimeInterval<T> = op_iv(o);
    let ro = o.raw();
    for _ in 0..3 {
        let d = delta(cx, z, &ro);
        cx.h(d as u64);
        cx.say(|| format!("{o:?} enlarged by {d}"));
        // enlarged (or shrunk)
        let e: Raw = canon(&ro.iter().map(|(x, y)| (sh(*x, d.saturating_neg()), sh(*y, d))).collect::<Vec<_>>());
        let got = nopanic(|| format!("{o:?} enlarged by {d}"), || opt(i.enlarge(TimeValue::from_ticks(d))))?;
        let exp = if e.is_empty() { None } else { Some(e.clone()) };
        ensure_eq!(cx, got, exp, "{o:?} enlarged by {d}");
        cx.tag(if e.is_empty() { "nothing left" } else if d < 0 { "shrunk" } else { "enlarged" });
        // every instant as near as d of the window and no other
        if d >= 0 && !ro.is_empty() {
            let x = i.enlarge(TimeValue::from_ticks(d)).unwrap();
            cx.obs += 1;
            ensure!(x.contains(&i), "{o:?} enlarged by {d} does not contain the original");
            if e[0].0 != NEG || ro[0].0 == NEG { if e[0].1 != INF || ro[0].1 == INF {
                ensure_eq!(cx, nopanic(|| format!("{o:?} enlarged then shrunk by {d}"), || opt(x.enlarge(TimeValue::from_ticks(-d))))?, Some(ro.clone()), "{o:?} enlarged then shrunk by {d}");
            } }
        }
        // centered
        let t = match cx.rng.below(8) { 0 => INF, 1 => NEG, _ => tick(&mut cx.rng, z) };
        let e = if d < 0 { None } else if t == INF || t == NEG { Some(vec![]) } else { Some(vec![(sh(t, -d), sh(t, d))]) };
        let got = nopanic(|| format!("centered({t}, {d})"), || opt(TimeInterval::centered(T::mk(t), TimeValue::from_ticks(d))))?;
        ensure_eq!(cx, got, e, "centered({t}, {d})");
    }
    // by everything
    if !ro.is_empty() { ensure_eq!(cx, nopanic(|| format!("{o:?} enlarged by +oo"), || opt(i.enlarge(TimeValue::INFINITE)))?, Some(vec![(NEG, INF)]), "{o:?} enlarged by +oo"); }
    if ro.iter().all(|(x, y)| *x != NEG && *y != INF) { ensure_eq!(cx, nopanic(|| format!("{o:?} shrunk by +oo"), || opt(i.enlarge(-TimeValue::INFINITE)))?, None, "{o:?} shrunk by +oo"); }
    let t = tick(&mut cx.rng, z);
    ensure_eq!(cx, nopanic(|| format!("centered({t}, +oo)"), || opt(TimeInterval::centered(T::mk(t), TimeValue::INFINITE)))?, Some(vec![(NEG, INF)]), "centered({t}, +oo)");
    ensure_eq!(cx, nopanic(|| format!("centered({t}, -oo)"), || opt(TimeInterval::centered(T::mk(t), -TimeValue::INFINITE)))?, None, "centered({t}, -oo)");
    // how long a slot lasts
    let s: TimeSlot = op_iv(o);
    let e = match ro.first() { None => 0, Some((x, y)) => if *x == NEG || *y == INF { INF } else { clamp(*y as i128 - *x as i128) } };
    ensure_eq!(cx, nopanic(|| format!("duration of {o:?}"), || s.duration().as_ticks())?, e, "duration of {o:?}");
    // from a pair of bounds, in any order
    let (p, q) = (near(&mut cx.rng, &ro, z).map_or(0, |x| if x.0 == NEG { x.1 } else { x.0 }), tick(&mut cx.rng, z));
    for (p, q) in [(p, q), (q, p), (p, p), (p, INF), (NEG, p), (INF, p), (p, NEG), (INF, INF), (NEG, NEG), (NEG, INF), (INF, NEG)] {
        let e = canon(&[(p, q)]);
        ensure_eq!(cx, opt(Some(TimeInterval::new(T::mk(p), T::mk(q)))), Some(e.clone()), "new({p}, {q})");
        ensure_eq!(cx, opt(Some(TimeInterval::from((T::mk(p), T::mk(q))))), Some(e.clone()), "from(({p}, {q}))");
        ensure_eq!(cx, raw(&TimeSet::convex(T::mk(p), T::mk(q))), e, "convex({p}, {q})");
        if p <= q && p != INF && q != NEG {
            // the caller vouches for the bounds
            ensure_eq!(cx, opt(Some(unsafe { TimeInterval::new_unchecked(T::mk(p), T::mk(q)) })), Some(e), "new_unchecked({p}, {q})");
        }
    }
    for p in [p, q, INF, NEG] {
        ensure_eq!(cx, unsafe { TimeValue::from_ticks_unchecked(p) }.as_ticks(), p, "from_ticks_unchecked({p})");
        ensure_eq!(cx, opt(Some(TimeInterval::after(T::mk(p)))), Some(canon(&[(p, INF)])), "after({p})");
        ensure_eq!(cx, opt(Some(TimeInterval::before(T::mk(p)))), Some(canon(&[(NEG, p)])), "before({p})");
        ensure_eq!(cx, opt(Some(TimeInterval::singleton(T::mk(p)))), Some(canon(&[(p, p)])), "singleton({p})");
    }
    cx.nontrivial = !ro.is_empty();
    Ok(())
}

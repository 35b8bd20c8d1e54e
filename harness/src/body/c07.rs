pub fn case(cx: &mut Cx) -> R {
    let (a, b, z) = case_pair(cx);
    let rt = cx.rng.below(4);
    let (sa, sb) = (set_or_skip::<T>(&a, rt)?, set_or_skip::<T>(&b, rt)?);
    cx.say(|| format!("{a:?} vs {b:?}"));
    macro_rules! chk { ($what:expr, $x:expr, $y:expr, $rx:expr, $ry:expr) => {{
        let (rx, ry) = (&$rx, &$ry);
        let (c, o) = (subset(ry, rx), !inter(rx, ry).is_empty());
        let (gc, go) = nopanic(|| format!("{} {rx:?} / {ry:?}", $what), || (TimeContaining::contains(&$x, &$y), TimeOverlapping::overlaps(&$x, &$y)))?;
        cx.obs += 2;
        if ry.is_empty() || rx.is_empty() { cx.tag("with an empty window") }
        ensure!(gc == c, "{}: {rx:?} contains {ry:?}: observed {gc}, expected {c}", $what);
        ensure!(go == o, "{}: {rx:?} overlaps {ry:?}: observed {go}, expected {o}", $what);
    }} }
    chk!("set/set", sa, sb, a, b);
    // nested operand: often contained
    let sub = inter(&a, &b);
    let ssub = set_or_skip::<T>(&sub, rt)?;
    chk!("set/set", sa, ssub, a, sub);
    // set with convex, convex with set, convex with convex
    let w1 = match cx.rng.below(5) { 0 => a.first().copied(), 1 => None, 2 => rawiv(&mut cx.rng, z), _ => near(&mut cx.rng, &a, z) };
    let o1 = op_of(&mut cx.rng, w1);
    let r1 = o1.raw();
    let w2 = match cx.rng.below(6) { 0 => b.first().copied(), 1 => None, 2 => rawiv(&mut cx.rng, z), _ => near(&mut cx.rng, &r1, z) };
    let o2 = op_of(&mut cx.rng, w2);
    let r2 = o2.raw();
    with_op!(T, o1, w => chk!(format!("set/{:?}", o1), sa, w, a, r1));
    with_op!(T, o1, w => chk!(format!("{:?}/set", o1), w, sa, r1, a));
    let i2: TimeInterval<T> = op_iv(o2);
    with_op!(T, o1, w => chk!(format!("{:?}/interval {:?}", o1, o2), w, i2, r1, r2));
    with_op!(T, o1, w => chk!(format!("interval {:?}/{:?}", o2, o1), i2, w, r2, r1));
    let k = cx.rng.below(8);
    let t1 = tick(&mut cx.rng, z);
    if k == 0 { // range with range, point with range
        let (p, q) = (tick(&mut cx.rng, z), tick(&mut cx.rng, z));
        let x = T::mk(p)..=T::mk(q);
        let rx = canon(&[(p, q)]);
        with_op!(T, o1, w => chk!(format!("{:?}/inclusive", o1), w, x, r1, rx));
        let y = T::mk(p)..T::mk(q);
        let ry = canon(&[(p, q - 1)]);
        with_op!(T, o1, w => chk!(format!("{:?}/range", o1), w, y, r1, ry));
        with_op!(T, o1, w => chk!(format!("range/{:?}", o1), y, w, ry, r1));
        chk!("point/point", T::mk(p), T::mk(q), vec![(p, p)], vec![(q, q)]);
    }
    // membership of single instants agrees with the enumeration
    let probe = if cx.rng.pct(15) { critical(&[&a]) } else { vec![t1] };
    for t in probe {
        cx.obs += 1;
        let g = nopanic(|| format!("contains({t})"), || sa.contains(&T::mk(t)))?;
        ensure!(g == mem(&a, t), "{a:?} contains instant {t}: observed {g}");
        let g = nopanic(|| format!("contains({t})"), || with_op!(T, o1, w => TimeContaining::contains(&w, &T::mk(t))))?;
        ensure!(g == mem(&r1, t), "{o1:?} contains instant {t}: observed {g}");
    }
    Ok(())
}

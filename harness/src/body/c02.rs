fn eqw(cx: &mut Cx, got: &TimeSet<T>, exp: &Raw, what: impl Fn() -> String) -> R {
    cx.obs += 1;
    ensure!(raw(got) == *exp, "{}: observed {:?}, expected {:?}", what(), raw(got), exp);
    Ok(())
}
pub fn case(cx: &mut Cx) -> R {
    let (a, b, z) = case_pair(cx);
    let rt = cx.rng.below(4);
    let (sa, sb) = (set_or_skip::<T>(&a, rt)?, set_or_skip::<T>(&b, rt)?);
    let e = union(&a, &b);
    cx.say(|| format!("{:?} | {:?}", a, b));
    let d = |s: &str| format!("{s}: {a:?} | {b:?}");
    nopanic(|| d("set|set"), || -> R {
        eqw(cx, &(&sa | &sb), &e, || d("&set|&set"))?;
        match cx.rng.below(5) {
            0 => eqw(cx, &(sa.clone() | sb.clone()), &e, || d("set|set"))?,
            1 => eqw(cx, &(sa.clone() | &sb), &e, || d("set|&set"))?,
            2 => eqw(cx, &(&sa | sb.clone()), &e, || d("&set|set"))?,
            3 => { let mut x = sa.clone(); x |= sb.clone(); eqw(cx, &x, &e, || d("set|=set"))? }
            _ => { let mut x = sa.clone(); x |= &sb; eqw(cx, &x, &e, || d("set|=&set"))? }
        }
        Ok(())
    })??;
    // with convex operands of every kind
    let conv = if b.len() <= 1 && cx.rng.pct(60) { b.first().copied() } else { near(&mut cx.rng, &a, z) };
    let ops = if cx.rng.pct(20) { ops_of(conv) } else { vec![op_of(&mut cx.rng, conv)] };
    let ops = if cx.rng.pct(2) { let x = *cx.rng.pick(&[INF, NEG]); vec![Op { k: K::EmptyPoint, a: x, b: x }] } else { ops };
    for o in ops {
        let e = union(&a, &o.raw());
        let d = |s: &str| format!("{s}: {a:?} | {o:?}");
        nopanic(|| d("set|convex"), || -> R {
            match cx.rng.below(3) {
                0 => eqw(cx, &with_op!(T, o, w => sa.clone() | w), &e, || d("set|convex")),
                1 => eqw(cx, &with_op!(T, o, w => &sa | w), &e, || d("&set|convex")),
                _ => eqw(cx, &{ let mut x = sa.clone(); with_op!(T, o, w => x |= w); x }, &e, || d("set|=convex")),
            }
        })??;
        eqw(cx, &with_op!(T, o, w => TimeSet::from(w)), &o.raw(), || format!("TimeSet::from({o:?})"))?;
        // interval (point) with convex
        let l = if a.len() == 1 && cx.rng.pct(70) { Some(a[0]) } else { near(&mut cx.rng, &o.raw(), z) };
        let lo = op_of(&mut cx.rng, l);
        let e = union(&lo.raw(), &o.raw());
        let li: TimeInterval<T> = op_iv(lo);
        let d = |s: &str| format!("{s}: {lo:?} | {o:?}");
        nopanic(|| d("interval|convex"), || -> R {
            eqw(cx, &with_op!(T, o, w => li | w), &e, || d("interval|convex"))?;
            if cx.rng.pct(30) { eqw(cx, &with_op!(T, o, w => &li | w), &e, || d("&interval|convex"))?; }
            if lo.k == K::Point { eqw(cx, &with_op!(T, o, w => T::mk(lo.a) | w), &e, || d("point|convex"))?; }
            Ok(())
        })??;
    }
    // collections, in any order, with empty, nested and duplicated pieces
    let mut ivs: Vec<Option<(i64, i64)>> = a.iter().chain(b.iter()).map(|x| Some(*x)).collect();
    for _ in 0..cx.rng.us(4) { ivs.push(if cx.rng.pct(40) { None } else { near(&mut cx.rng, &a, z) }) }
    match cx.rng.below(4) { 0 => ivs.sort(), 1 => { ivs.sort(); ivs.reverse() } _ => cx.rng.shuffle(&mut ivs) }
    let e = canon(&ivs.iter().flatten().copied().collect::<Vec<_>>());
    let items: Vec<TimeInterval<T>> = ivs.iter().map(|x| match x { Some(x) => iv(*x), None => op_iv(op_of(&mut cx.rng, None)) }).collect();
    let got = nopanic(|| format!("collect {ivs:?}"), || items.iter().copied().collect::<TimeSet<T>>())?;
    eqw(cx, &got, &e, || format!("collecting intervals {ivs:?}"))?;
    if cx.rng.pct(30) {
        let n = cx.rng.us(5);
        let mut rs: Vec<Raw> = (0..n).map(|_| nearset(&mut cx.rng, &a, z)).collect();
        rs.push(a.clone());
        if cx.rng.pct(30) { rs.push(vec![]) }
        cx.rng.shuffle(&mut rs);
        if cx.rng.pct(20) { rs.clear() }
        let mut v = vec![];
        for r in &rs { v.push(set_or_skip::<T>(r, rt)?) }
        let e = canon(&rs.concat());
        let got = nopanic(|| format!("collect sets {rs:?}"), || v.into_iter().collect::<TimeSet<T>>())?;
        eqw(cx, &got, &e, || format!("collecting sets {rs:?}"))?;
        cx.tag("collected-sets");
    }
    Ok(())
}

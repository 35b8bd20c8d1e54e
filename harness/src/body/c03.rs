fn eqw(cx: &mut Cx, got: &TimeSet<T>, exp: &Raw, what: impl Fn() -> String) -> R {
    cx.obs += 1;
    ensure!(raw(got) == *exp, "{}: observed {:?}, expected {:?}", what(), raw(got), exp);
    ensure!(got.is_empty() == exp.is_empty(), "{}: is_empty()={} but the operands share {:?}", what(), got.is_empty(), exp);
    if exp.is_empty() {
        ensure!(got.convex_count() == 0 && *got == TimeSet::<T>::empty(), "{}: the result shares nothing but is not the empty window: {:?}", what(), raw(got));
    }
    Ok(())
}
fn eqi(cx: &mut Cx, got: TimeInterval<T>, exp: &Raw, what: impl Fn() -> String) -> R {
    cx.obs += 1;
    let (l, u) = iv_raw(&got);
    if exp.is_empty() {
        ensure!(got.is_empty() && got.convex_count() == 0 && got.iter().next().is_none() && got == TimeInterval::<T>::empty(),
            "{}: nothing is shared but the result [{l},{u}] is not the empty interval", what());
    } else {
        ensure!(!got.is_empty() && (l, u) == exp[0], "{}: observed [{l},{u}], expected {:?}", what(), exp);
    }
    Ok(())
}
pub fn case(cx: &mut Cx) -> R {
    let (a, b, z) = case_pair(cx);
    let rt = cx.rng.below(4);
    let (sa, sb) = (set_or_skip::<T>(&a, rt)?, set_or_skip::<T>(&b, rt)?);
    let e = inter(&a, &b);
    cx.say(|| format!("{:?} & {:?}", a, b));
    if e.is_empty() { cx.tag("disjoint") }
    let d = |s: &str| format!("{s}: {a:?} & {b:?}");
    nopanic(|| d("set&set"), || -> R {
        eqw(cx, &(&sa & &sb), &e, || d("&set&&set"))?;
        match cx.rng.below(5) {
            0 => eqw(cx, &(sa.clone() & sb.clone()), &e, || d("set&set"))?,
            1 => eqw(cx, &(sa.clone() & &sb), &e, || d("set&&set"))?,
            2 => eqw(cx, &(&sa & sb.clone()), &e, || d("&set&set"))?,
            3 => { let mut x = sa.clone(); x &= sb.clone(); eqw(cx, &x, &e, || d("set&=set"))? }
            _ => { let mut x = sa.clone(); x &= &sb; eqw(cx, &x, &e, || d("set&=&set"))? }
        }
        Ok(())
    })??;
    let conv = if b.len() <= 1 && cx.rng.pct(60) { b.first().copied() } else { near(&mut cx.rng, &a, z) };
    let ops = if cx.rng.pct(20) { ops_of(conv) } else { vec![op_of(&mut cx.rng, conv)] };
    let ops = if cx.rng.pct(2) { let x = *cx.rng.pick(&[INF, NEG]); vec![Op { k: K::EmptyPoint, a: x, b: x }] } else { ops };
    for o in ops {
        let e = inter(&a, &o.raw());
        let d = |s: &str| format!("{s}: {a:?} & {o:?}");
        nopanic(|| d("set&convex"), || -> R {
            match cx.rng.below(3) {
                0 => eqw(cx, &with_op!(T, o, w => sa.clone() & w), &e, || d("set&convex")),
                1 => eqw(cx, &with_op!(T, o, w => &sa & w), &e, || d("&set&convex")),
                _ => eqw(cx, &{ let mut x = sa.clone(); with_op!(T, o, w => x &= w); x }, &e, || d("set&=convex")),
            }
        })??;
        let l = if a.len() == 1 && cx.rng.pct(70) { Some(a[0]) } else { near(&mut cx.rng, &o.raw(), z) };
        let lo = op_of(&mut cx.rng, l);
        let e = inter(&lo.raw(), &o.raw());
        let li: TimeInterval<T> = op_iv(lo);
        let d = |s: &str| format!("{s}: {lo:?} & {o:?}");
        nopanic(|| d("interval&convex"), || -> R {
            eqi(cx, with_op!(T, o, w => li & w), &e, || d("interval&convex"))?;
            eqi(cx, { let mut x = li; with_op!(T, o, w => x &= w); x }, &e, || d("interval&=convex"))?;
            if cx.rng.pct(30) { eqi(cx, with_op!(T, o, w => &li & w), &e, || d("&interval&convex"))?; }
            if lo.k == K::Point { eqi(cx, with_op!(T, o, w => T::mk(lo.a) & w), &e, || d("point&convex"))?; }
            Ok(())
        })??;
    }
    Ok(())
}

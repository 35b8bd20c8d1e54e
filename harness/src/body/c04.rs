fn eqw(cx: &mut Cx, got: &Raw, exp: &Raw, what: impl Fn() -> String) -> R {
    cx.obs += 1;
    ensure!(lazy_is(got, exp), "{}: observed {:?}, expected {:?}", what(), got, exp);
    Ok(())
}
/// the finite instants held (the last finite tick and +oo[ denote the same end)
fn fin(r: &Raw) -> Raw { compl(&compl(r)) }
const CAP: usize = 60_000;
pub fn case(cx: &mut Cx) -> R {
    let (a, b, z) = case_pair(cx);
    let rt = cx.rng.below(4);
    let (sa, sb) = (set_or_skip::<T>(&a, rt)?, set_or_skip::<T>(&b, rt)?);
    cx.say(|| format!("!{:?}, {:?} minus {:?}", a, a, b));
    let e = compl(&a);
    let cs = nopanic(|| format!("!{a:?}"), || !sa.clone())?;
    eqw(cx, &raw(&cs), &e, || format!("complement of {a:?}"))?;
    let ccs = nopanic(|| format!("!!{a:?}"), || !cs.clone())?;
    // (a bound on the last finite tick and an unbounded side hold the same instants)
    let twice = fin(&a);
    eqw(cx, &raw(&ccs), &twice, || format!("double complement of {a:?}"))?;
    ensure!(twice != a || ccs == sa, "complementing {a:?} twice gives {:?}, not the original", raw(&ccs));
    let l = nopanic(|| format!("lazy complement {a:?}"), || match cx.rng.below(2) { 0 => drain(sa.iter().complementary(), CAP), _ => drain((&sa).into_iter().complementary(), CAP) })?;
    eqw(cx, &l, &e, || format!("lazy complement of {a:?}"))?;
    let l = nopanic(|| format!("lazy complement x2 {a:?}"), || drain(sa.iter().complementary().complementary(), CAP))?;
    eqw(cx, &l, &twice, || format!("lazy double complement of {a:?}"))?;
    // every kind of convex window
    let conv = match cx.rng.below(6) { 0..=1 => near(&mut cx.rng, &a, z), 2 => b.first().copied(),
        // next to the end of the finite range
        3 => { let d = cx.rng.i(0, 3); let x = INF - 1 - d; let y = x + cx.rng.i(0, d); Some(if cx.rng.pct(50) { (x, y) } else { (-y, -x) }) }
        4 => Some((if cx.rng.pct(50) { NEG + cx.rng.i(0, 2) } else { fit(tick(&mut cx.rng, z) as i128 - 100 - z.span as i128) }, if cx.rng.pct(50) { INF - cx.rng.i(0, 2) } else { fit(tick(&mut cx.rng, z) as i128 + 100 + z.span as i128) })),
        _ => rawiv(&mut cx.rng, z) }.filter(|(x, y)| x <= y);
    let o = op_of(&mut cx.rng, conv);
    let ro = o.raw();
    let e = compl(&ro);
    let i: TimeInterval<T> = op_iv(o);
    let got = nopanic(|| format!("!{o:?}"), || !i)?;
    eqw(cx, &raw(&got), &e, || format!("complement of interval {o:?}"))?;
    if o.k == K::Point { let got = nopanic(|| format!("!{o:?}"), || !T::mk(o.a))?; eqw(cx, &raw(&got), &e, || format!("complement of point {o:?}"))?; }
    let back = nopanic(|| format!("!!{o:?}"), || !got.clone())?;
    eqw(cx, &fin(&raw(&back)), &fin(&ro), || format!("double complement of {o:?}"))?;
    let l = nopanic(|| format!("lazy !{o:?}"), || with_op!(T, o, w => drain(w.iter().complementary(), CAP)))?;
    eqw(cx, &l, &e, || format!("lazy complement of {o:?}"))?;
    // exclusion
    let e = excl(&a, &b);
    let got = nopanic(|| format!("{a:?} exclusion {b:?}"), || match cx.rng.below(3) {
        0 => drain(sa.iter().exclusion(sb.iter()), CAP),
        1 => drain((&sa).into_iter().exclusion((&sb).into_iter()), CAP),
        _ => drain(sa.clone().into_iter().exclusion(sb.clone().into_iter()), CAP),
    })?;
    eqw(cx, &got, &e, || format!("lazy exclusion of {b:?} from {a:?}"))?;
    let got = nopanic(|| format!("{a:?} & !{b:?}"), || &sa & !sb.clone())?;
    eqw(cx, &raw(&got), &e, || format!("{a:?} & !{b:?}"))?;
    let got = nopanic(|| format!("{a:?} exclusion {o:?}"), || with_op!(T, o, w => drain(sa.iter().exclusion(w.iter()), CAP)))?;
    eqw(cx, &got, &excl(&a, &ro), || format!("lazy exclusion of {o:?} from {a:?}"))?;
    let got = nopanic(|| format!("{o:?} exclusion {a:?}"), || with_op!(T, o, w => drain(w.iter().exclusion(sa.iter()), CAP)))?;
    eqw(cx, &got, &excl(&ro, &a), || format!("lazy exclusion of {a:?} from {o:?}"))?;
    Ok(())
}

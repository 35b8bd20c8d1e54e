use std::cmp::Ordering;
/// all the comparisons of x with y, for windows of which the instants are rx and ry
fn cmp<X, Y>(cx: &mut Cx, x: &X, y: &Y, rx: &Raw, ry: &Raw, what: impl Fn() -> String) -> R
    where X: PartialEq<Y> + PartialOrd<Y>
{
    let (eq, ne, pc, lt, le, gt, ge) = nopanic(&what, || (x == y, x != y, x.partial_cmp(y), x < y, x <= y, x > y, x >= y))?;
    let e = rx == ry;
    cx.obs += 2;
    ensure!(eq == e && ne == !e, "{}: {rx:?} == {ry:?}: observed {eq} (!= {ne})", what());
    if !rx.is_empty() && !ry.is_empty() {
        let l = rx[rx.len() - 1].1 < ry[0].0;
        let g = ry[ry.len() - 1].1 < rx[0].0;
        let p = if l { Some(Ordering::Less) } else if g { Some(Ordering::Greater) } else if e { Some(Ordering::Equal) } else { None };
        cx.obs += 5;
        ensure!(lt == l && le == (l || e) && gt == g && ge == (g || e) && pc == p,
            "{}: {rx:?} vs {ry:?}: observed < {lt}, <= {le}, > {gt}, >= {ge}, {pc:?}; expected {l}, {}, {g}, {}, {p:?}", what(), l || e, g || e);
        cx.tag(match p { Some(Ordering::Less) => "before", Some(Ordering::Greater) => "after", Some(_) => "equal", None => "incomparable" });
    }
    Ok(())
}
pub fn case(cx: &mut Cx) -> R {
    let (mut a, mut b, z) = case_pair(cx);
    // separated windows are otherwise rare
    if cx.idx >= PAIRS && cx.rng.pct(40) && a.len() > 1 {
        let k = cx.rng.us(a.len() - 1) + 1;
        b = a.split_off(k);
        if cx.rng.pct(30) { let c = a.len() - 1; a[c].1 = if cx.rng.pct(50) { b[0].0 } else { b[0].0 - 1 }; b = canon(&b); a = canon(&a); }
        if cx.rng.pct(50) { std::mem::swap(&mut a, &mut b) }
    }
    let rt = cx.rng.below(4);
    let (sa, sb) = (set_or_skip::<T>(&a, rt)?, set_or_skip::<T>(&b, rt + 1)?);
    cx.say(|| format!("{a:?} <=> {b:?}"));
    cmp(cx, &sa, &sb, &a, &b, || "set/set".into())?;
    cmp(cx, &sb, &sa, &b, &a, || "set/set".into())?;
    let again = set_or_skip::<T>(&a, rt + 2)?;
    cmp(cx, &sa, &again, &a, &a, || "set/set".into())?;
    cx.obs += 1;
    ensure!(hash_of(&sa) == hash_of(&again), "equal sets {a:?} hash differently");
    let w1 = match cx.rng.below(4) { 0 => a.first().copied(), 1 => None, _ => near(&mut cx.rng, &a, z) };
    let o1 = op_of(&mut cx.rng, w1);
    let r1 = o1.raw();
    let w2 = match cx.rng.below(6) { 0 => None, 1 | 2 => w1, _ => near(&mut cx.rng, &r1, z) };
    let o2 = op_of(&mut cx.rng, w2);
    let r2 = o2.raw();
    let i2: TimeInterval<T> = op_iv(o2);
    with_op!(T, o1, w => cmp(cx, &sa, &w, &a, &r1, || format!("set/{o1:?}")))?;
    with_op!(T, o1, w => cmp(cx, &i2, &w, &r2, &r1, || format!("interval {o2:?}/{o1:?}")))?;
    cmp(cx, &i2, &sa, &r2, &a, || format!("interval {o2:?}/set"))?;
    cmp(cx, &sa, &i2, &a, &r2, || format!("set/interval {o2:?}"))?;
    let i1: TimeInterval<T> = op_iv(o1);
    if r1 == r2 {
        cx.obs += 1;
        ensure!(hash_of(&i1) == hash_of(&i2), "intervals {o1:?} and {o2:?} are equal but hash differently");
        cx.tag("equal intervals");
    }
    // empty windows obtained by computation
    if r1.len() == 1 && r1[0].1 != INF && r1[0].1 < INF - 5 {
        let e = i1 & TimeInterval::after(T::mk(r1[0].1 + 1 + cx.rng.i(0, 2)));
        cmp(cx, &e, &TimeInterval::<T>::empty(), &vec![], &vec![], || format!("disjoint intersection of {o1:?}"))?;
        ensure!(hash_of(&e) == hash_of(&TimeInterval::<T>::empty()), "an empty intersection of {o1:?} hashes unlike the empty interval");
        cmp(cx, &TimeSet::<T>::empty(), &e, &vec![], &vec![], || format!("empty set/disjoint intersection of {o1:?}"))?;
        cmp(cx, &e, &sa, &vec![], &a, || format!("disjoint intersection of {o1:?}/set"))?;
    }
    // instants themselves
    let (p, q) = (tick(&mut cx.rng, z), tick(&mut cx.rng, z));
    let (x, y) = (T::mk(p), T::mk(q));
    cx.obs += 1;
    ensure!(x.cmp(&y) == p.cmp(&q) && (x == y) == (p == q) && x.partial_cmp(&y) == Some(p.cmp(&q)) && T::mk(p) == x && hash_of(&T::mk(p)) == hash_of(&x), "instants {p} and {q} compare wrongly");
    Ok(())
}

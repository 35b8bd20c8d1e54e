pub fn case(cx: &mut Cx) -> R {
    let (a, z) = case_one(cx);
    let rt = cx.rng.below(4);
    let sa = set_or_skip::<T>(&a, rt)?;
    let mut cuts = vec![tick(&mut cx.rng, z)];
    if cx.rng.pct(40) { cuts.extend(critical(&[&a])) } else { for _ in 0..2 { if let Some((x, y)) = near(&mut cx.rng, &a, z) { cuts.extend([x, y]) } } }
    cuts.extend([NEG, NEG + 1, INF - 1, INF, 0]);
    cx.say(|| format!("{a:?} cut at {cuts:?}"));
    for t in cuts {
        cx.h(t as u64);
        for after in [false, true] {
            let what = || format!("{a:?}.{}({t})", if after { "truncate_after" } else { "truncate_before" });
            let e = if after { model::before(&a, t) } else { model::after(&a, t) };
            let mut s = sa.clone();
            let ch = nopanic(what, || if after { s.truncate_after(T::mk(t)) } else { s.truncate_before(T::mk(t)) })?;
            cx.obs += 2;
            ensure!(raw(&s) == e, "{}: kept {:?}, expected {:?}", what(), raw(&s), e);
            ensure!(s.is_empty() == e.is_empty() && s.convex_count() == e.len(), "{}: {} parts, expected {}", what(), s.convex_count(), e.len());
            ensure!(ch == (e != a), "{}: reported changed={ch} while the window {} changed", what(), if e != a { "has" } else { "has not" });
            // an interval
            let i0 = match a.len() { 0 => None, n => Some(a[cx.rng.us(n)]) };
            let o = op_of(&mut cx.rng, i0);
            let mut i: TimeInterval<T> = op_iv(o);
            let ro = o.raw();
            let e = if after { model::before(&ro, t) } else { model::after(&ro, t) };
            let ch = nopanic(|| format!("{o:?} cut at {t}"), || if after { i.truncate_after(T::mk(t)) } else { i.truncate_before(T::mk(t)) })?;
            cx.obs += 2;
            let got: Raw = i.iter().map(|i| iv_raw(&i)).collect();
            ensure!(got == e && i.is_empty() == e.is_empty(), "interval {o:?} {} {t}: kept {:?}, expected {:?}", if after { "truncate_after" } else { "truncate_before" }, iv_raw(&i), e);
            ensure!(e.is_empty() == (i == TimeInterval::<T>::empty()), "interval {o:?} cut at {t} becomes {:?}: is it the empty one?", iv_raw(&i));
            ensure!(ch == (e != ro), "interval {o:?} {} {t}: reported changed={ch}, expected {}", if after { "truncate_after" } else { "truncate_before" }, e != ro);
        }
    }
    // a sequence of cuts
    let (mut s, mut e) = (sa.clone(), a.clone());
    for _ in 0..cx.rng.us(6) {
        let t = match near(&mut cx.rng, &e, z) { Some((x, y)) => if x == NEG { y } else { x }, None => tick(&mut cx.rng, z) };
        let t = match cx.rng.below(60) { 0 => INF, 1 => NEG, _ => t };
        let after = cx.rng.pct(50);
        let e2 = if after { model::before(&e, t) } else { model::after(&e, t) };
        let ch = nopanic(|| format!("cut sequence on {a:?}"), || if after { s.truncate_after(T::mk(t)) } else { s.truncate_before(T::mk(t)) })?;
        cx.obs += 1;
        ensure!(raw(&s) == e2 && ch == (e2 != e), "cutting {e:?} {} {t}: observed {:?} changed={ch}, expected {e2:?}", if after { "after" } else { "before" }, raw(&s));
        e = e2;
    }
    Ok(())
}

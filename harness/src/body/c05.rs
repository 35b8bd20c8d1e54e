/// every query of a window against the set of instants it denotes
fn queries<W: TimeWindow<TimePoint = T>>(cx: &mut Cx, w: &W, e: &Raw, what: impl Fn() -> String) -> R {
    let f = |x: i64| x != INF && x != NEG;
    macro_rules! q { ($n:literal, $got:expr, $exp:expr) => {{
        let got = nopanic(|| format!("{} of {}", $n, what()), || $got)?;
        cx.obs += 1;
        ensure!(got == $exp, "{} of {} (instants {:?}): observed {:?}, expected {:?}", $n, what(), e, got, $exp);
    }} }
    q!("is_empty", w.is_empty(), e.is_empty());
    q!("convex_count", w.convex_count(), e.len());
    q!("is_convex", w.is_convex(), e.len() <= 1);
    q!("is_singleton", w.is_singleton(), e.len() == 1 && e[0].0 == e[0].1);
    q!("is_low_bounded", w.is_low_bounded(), !e.is_empty() && f(e[0].0));
    q!("is_up_bounded", w.is_up_bounded(), !e.is_empty() && f(e[e.len() - 1].1));
    q!("is_bounded", w.is_bounded(), !e.is_empty() && f(e[0].0) && f(e[e.len() - 1].1));
    q!("is_all", w.is_all(), e.len() == 1 && e[0] == (NEG, INF));
    q!("iter", w.iter().take(50_000).map(|i| iv_raw(&i)).collect::<Vec<_>>(), *e);
    q!("iter count", w.iter().take(50_000).count(), e.len());
    if e.is_empty() {
        q!("convex_envelope is_empty", w.convex_envelope().is_empty(), true);
        q!("convex_envelope convex_count", w.convex_envelope().convex_count(), 0);
    } else {
        q!("lower_bound", w.lower_bound().tk(), e[0].0);
        q!("upper_bound", w.upper_bound().tk(), e[e.len() - 1].1);
        q!("convex_envelope", iv_raw(&w.convex_envelope()), (e[0].0, e[e.len() - 1].1));
    }
    Ok(())
}
pub fn case(cx: &mut Cx) -> R {
    let (a, z) = case_one(cx);
    let rt = cx.rng.below(4);
    let sa = set_or_skip::<T>(&a, rt)?;
    cx.say(|| format!("{a:?}"));
    queries(cx, &sa, &a, || format!("the set {a:?}"))?;
    queries(cx, &sa.convex_envelope(), &if a.is_empty() { vec![] } else { vec![(a[0].0, a[a.len() - 1].1)] }, || format!("the envelope of {a:?}"))?;
    // convex windows of every kind, also at the very ends of the finite range
    let conv = match cx.rng.below(5) {
        0 => { let x = INF - 1 - cx.rng.i(0, 4); let y = cx.rng.i(x, INF - 1); Some(if cx.rng.pct(50) { (x, y) } else { (-y, -x) }) }
        1 => near(&mut cx.rng, &a, z),
        2 => Some((NEG + cx.rng.i(0, 1), INF - cx.rng.i(0, 1))),
        _ => rawiv(&mut cx.rng, z)
    };
    for o in ops_of(conv) {
        let ro = o.raw();
        if ro.is_empty() { cx.tag("empty operand") }
        with_op!(T, o, w => queries(cx, &w, &ro, || format!("{o:?}")))?;
        with_op!(T, o, w => { let i: TimeInterval<T> = w.into(); queries(cx, &i, &ro, || format!("interval from {o:?}")) })?;
        with_op!(T, o, w => { let i: TimeSet<T> = w.into(); queries(cx, &i, &ro, || format!("set from {o:?}")) })?;
    }
    // named constructors
    let (p, q) = (tick(&mut cx.rng, z), tick(&mut cx.rng, z));
    let mut tv = |i: TimeInterval<T>, e: Raw, s: &str| queries(cx, &i, &e, || format!("{s}({p},{q})"));
    tv(TimeInterval::new(T::mk(p), T::mk(q)), canon(&[(p, q)]), "TimeInterval::new")?;
    tv(TimeInterval::from((T::mk(p), T::mk(q))), canon(&[(p, q)]), "TimeInterval::from pair")?;
    tv(TimeInterval::singleton(T::mk(p)), vec![(p, p)], "TimeInterval::singleton")?;
    tv(TimeInterval::from(T::mk(p)), vec![(p, p)], "TimeInterval::from point")?;
    tv(TimeInterval::after(T::mk(p)), vec![(p, INF)], "TimeInterval::after")?;
    tv(TimeInterval::before(T::mk(p)), vec![(NEG, p)], "TimeInterval::before")?;
    tv(TimeInterval::all(), vec![(NEG, INF)], "TimeInterval::all")?;
    tv(TimeInterval::empty(), vec![], "TimeInterval::empty")?;
    tv(TimeInterval::default(), vec![], "TimeInterval::default")?;
    tv(TimeInterval::from(..), vec![(NEG, INF)], "TimeInterval::from(..)")?;
    tv(TimeInterval::singleton(T::INFINITE), vec![], "TimeInterval::singleton(oo)")?;
    tv(TimeInterval::singleton(-T::INFINITE), vec![], "TimeInterval::singleton(-oo)")?;
    tv(TimeInterval::after(T::INFINITE), vec![], "TimeInterval::after(oo)")?;
    tv(TimeInterval::before(-T::INFINITE), vec![], "TimeInterval::before(-oo)")?;
    tv(TimeInterval::after(-T::INFINITE), vec![(NEG, INF)], "TimeInterval::after(-oo)")?;
    tv(TimeInterval::before(T::INFINITE), vec![(NEG, INF)], "TimeInterval::before(oo)")?;
    let mut ts = |i: TimeSet<T>, e: Raw, s: &str| queries(cx, &i, &e, || format!("{s}({p},{q})"));
    ts(TimeSet::convex(T::mk(p), T::mk(q)), canon(&[(p, q)]), "TimeSet::convex")?;
    ts(TimeSet::singleton(T::mk(p)), vec![(p, p)], "TimeSet::singleton")?;
    ts(TimeSet::singleton(T::INFINITE), vec![], "TimeSet::singleton(oo)")?;
    ts(TimeSet::singleton(-T::INFINITE), vec![], "TimeSet::singleton(-oo)")?;
    ts(TimeSet::from(T::INFINITE), vec![], "TimeSet::from(oo)")?;
    ts(TimeSet::from(-T::INFINITE), vec![], "TimeSet::from(-oo)")?;
    ts(T::INFINITE.iter().collect(), vec![], "oo.iter().collect()")?;
    ts((-T::INFINITE).iter().collect(), vec![], "-oo.iter().collect()")?;
    ts(TimeSet::all(), vec![(NEG, INF)], "TimeSet::all")?;
    ts(TimeSet::empty(), vec![], "TimeSet::empty")?;
    // windows which are empty because of an operation
    let p = p.clamp(NEG + 2, INF - 30);
    let x = iv::<T>((p, p + 1));
    let y = iv::<T>((p + 2 + cx.rng.i(0, 3), p + 20));
    let mut tv = |i: TimeInterval<T>, s: &str| queries(cx, &i, &vec![], || format!("{s} of disjoint intervals around {p}"));
    tv(x & y, "intersection")?; tv(y & x, "intersection")?;
    { let mut t = x; t &= y; tv(t, "in place intersection")?; }
    { let mut t = y; t.truncate_after(x.upper_bound()); tv(t, "truncation")?; }
    { let mut t = x; t.truncate_before(y.lower_bound()); tv(t, "truncation")?; }
    tv(-TimeInterval::<T>::empty(), "negation of empty")?;
    let mut ts = |i: TimeSet<T>, s: &str| queries(cx, &i, &vec![], || format!("{s} around {p}"));
    let (sx, sy) = (TimeSet::from(x), TimeSet::from(y));
    ts(&sx & &sy, "set intersection")?; ts(sx.clone() & y, "set&interval")?;
    ts([TimeInterval::empty(), x & y].into_iter().collect(), "collection of empty intervals")?;
    ts(TimeSet::<T>::empty() | (x & y), "union of empty windows")?;
    ts(!TimeSet::<T>::all(), "complement of all")?;
    ts(!TimeInterval::<T>::all(), "complement of all")?;
    ts(-TimeSet::<T>::empty(), "negation of empty set")?;
    Ok(())
}

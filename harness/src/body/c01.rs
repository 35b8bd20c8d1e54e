/// the set obtained is canonical, and indistinguishable from any other one with the same instants
fn ok(cx: &mut Cx, s: Result<TimeSet<T>, String>, what: impl Fn() -> String) -> R {
    let s = match s { Ok(s) => s, Err(_) => return Ok(()) }; // a panic is another property's concern
    let r = raw(&s);
    cx.obs += 1;
    if let Err(m) = is_canon(&r) { return viol(format!("{}: not canonical, {m}: {:?}", what(), r)) }
    ensure!(s.convex_count() == canon(&r).len(), "{}: {} parts reported, {} needed", what(), s.convex_count(), canon(&r).len());
    if let Some(o) = set::<T>(&r, cx.idx) {
        cx.obs += 1;
        ensure!(s == o && o == s, "{}: differs from another set with the same instants {:?}", what(), r);
        ensure!(hash_of(&s) == hash_of(&o), "{}: hashes unlike another set with the same instants {:?}", what(), r);
    }
    Ok(())
}
fn g<A>(f: impl FnOnce() -> A) -> Result<A, String> { guarded(f) }
pub fn case(cx: &mut Cx) -> R {
    let (a, b, z) = case_pair(cx);
    let rt = cx.rng.below(4);
    let (sa, sb) = (set_or_skip::<T>(&a, rt)?, set_or_skip::<T>(&b, rt)?);
    cx.say(|| format!("sets {a:?} and {b:?}"));
    let d = |s: &str| format!("{s} with {a:?}, {b:?}");
    ok(cx, g(|| &sa | &sb), || d("union"))?;
    ok(cx, g(|| &sa & &sb), || d("intersection"))?;
    ok(cx, g(|| !sa.clone()), || d("complement"))?;
    ok(cx, g(|| -sa.clone()), || d("negation"))?;
    let o = { let w = near(&mut cx.rng, &a, z); op_of(&mut cx.rng, w) };
    let o2 = { let w = near(&mut cx.rng, &o.raw(), z); op_of(&mut cx.rng, w) };
    let d = |s: &str| format!("{s} with {a:?}, {o:?}, {o2:?}");
    let (i, i2): (TimeInterval<T>, TimeInterval<T>) = (op_iv(o), op_iv(o2));
    match cx.rng.below(4) {
        0 => { ok(cx, g(|| with_op!(T, o, w => &sa | w)), || d("set|convex"))?; ok(cx, g(|| with_op!(T, o, w => &sa & w)), || d("set&convex"))?; }
        1 => { ok(cx, g(|| with_op!(T, o, w => { let mut x = sa.clone(); x |= w; x })), || d("set|=convex"))?; ok(cx, g(|| with_op!(T, o, w => { let mut x = sa.clone(); x &= w; x })), || d("set&=convex"))?; }
        2 => { ok(cx, g(|| with_op!(T, o, w => TimeSet::from(w))), || d("from convex"))?; ok(cx, g(|| !i), || d("complement of convex"))?; }
        _ => { ok(cx, g(|| with_op!(T, o, w => i2 | w)), || d("convex|convex"))?; ok(cx, g(|| TimeSet::from(i & i2)), || d("from convex&convex"))?; }
    }
    if o.k == K::Point { ok(cx, g(|| !T::mk(o.a)), || d("complement of point"))?; ok(cx, g(|| with_op!(T, o2, w => T::mk(o.a) | w)), || d("point|convex"))?; }
    // truncation
    let t = if o.a == NEG { o.b } else { o.a };
    if t != INF && t != NEG {
        ok(cx, g(|| { let mut x = sa.clone(); let _ = x.truncate_before(T::mk(t)); x }), || d("truncate_before"))?;
        ok(cx, g(|| { let mut x = sa.clone(); let _ = x.truncate_after(T::mk(t)); x }), || d("truncate_after"))?;
    }
    // collections
    let mut ivs: Vec<TimeInterval<T>> = a.iter().chain(b.iter()).map(|x| iv(*x)).collect();
    ivs.push(i); ivs.push(i2); ivs.push(i & i2);
    for _ in 0..cx.rng.us(3) { ivs.push(op_iv(op_of(&mut cx.rng, None))) }
    if cx.rng.pct(75) { cx.rng.shuffle(&mut ivs) }
    let txt: Vec<_> = ivs.iter().map(iv_raw).collect();
    ok(cx, g(|| ivs.iter().copied().collect()), || format!("collecting {txt:?}"))?;
    ok(cx, g(|| ivs.iter().map(|i| TimeSet::from(*i)).chain([sa.clone(), sb.clone(), TimeSet::empty()]).collect()), || format!("collecting sets of {txt:?}"))?;
    ok(cx, g(|| ivs.iter().copied().fold(TimeSet::empty(), |r, i| r | i)), || format!("folding {txt:?}"))?;
    // constructors
    let (p, q) = (tick(&mut cx.rng, z), tick(&mut cx.rng, z));
    ok(cx, g(|| TimeSet::convex(T::mk(p), T::mk(q))), || format!("TimeSet::convex({p},{q})"))?;
    let inf = *cx.rng.pick(&[p, INF, NEG]);
    ok(cx, g(|| TimeSet::singleton(T::mk(inf))), || format!("TimeSet::singleton({inf})"))?;
    ok(cx, g(|| TimeSet::convex(T::mk(inf), T::mk(*[INF, NEG, q].get(p as usize % 3).unwrap()))), || format!("TimeSet::convex({inf},..)"))?;
    // translation
    if !a.is_empty() {
        let small = a.iter().flat_map(|x| [x.0, x.1]).filter(|x| *x != INF && *x != NEG).all(|x| x.abs() < 1 << 61);
        if small {
            let v = TimeValue::from_ticks(cx.rng.i(-50, 50));
            let sp = { let x = cx.rng.i(-20, 20); TimeSpan::new(TimeValue::from_ticks(x), TimeValue::from_ticks(x + cx.rng.i(0, 5))) };
            let d = |s: &str| format!("{a:?} {s} {v:?} / {sp:?}");
            match cx.rng.below(4) {
                0 => { ok(cx, g(|| sa.clone() + v), || d("+"))?; ok(cx, g(|| sa.clone() - v), || d("-"))?; }
                1 => { ok(cx, g(|| { let mut x = sa.clone(); x += v; x }), || d("+="))?; ok(cx, g(|| { let mut x = sa.clone(); x -= v; x }), || d("-="))?; }
                2 => { ok(cx, g(|| sa.clone() + sp), || d("+"))?; ok(cx, g(|| sa.clone() - sp), || d("-"))?; }
                _ => { ok(cx, g(|| { let mut x = sa.clone(); x += sp; x }), || d("+="))?; ok(cx, g(|| { let mut x = sa.clone(); x -= sp; x }), || d("-="))?; }
            }
            let m = rawset_n(&mut cx.rng, Zone { base: 0, span: 10 }, 3);
            if let Some(sm) = set::<TimeValue>(&m, rt) {
                ok(cx, g(|| sa.clone() + sm.clone()), || format!("{a:?} + {m:?}"))?;
                ok(cx, g(|| { let mut x = sa.clone(); x -= sm.clone(); x }), || format!("{a:?} -= {m:?}"))?;
            }
        }
    }
    // a random chain of operations: canonical forms must survive any history
    let mut s = sa.clone();
    let mut hist = vec![];
    for _ in 0..cx.rng.us(5) {
        let w = { let r = raw(&s); let w = near(&mut cx.rng, &r, z); op_of(&mut cx.rng, w) };
        let k = cx.rng.below(7);
        hist.push((k, w));
        let r = g(|| { let s = s.clone(); match k {
            0 => with_op!(T, w, w => s | w), 1 => with_op!(T, w, w => s & w), 2 => !s, 3 => -s, 4 => s & !op_iv::<T>(w), 5 => s | sb.clone(),
            _ => { let mut s = s; let l = op_iv::<T>(w).lower_bound(); if l.is_finite() { let _ = s.truncate_after(l); } s } } });
        ok(cx, r.clone(), || format!("history {hist:?} from {a:?} (with {b:?})"))?;
        match r { Ok(r) => s = r, Err(_) => break }
    }
    Ok(())
}

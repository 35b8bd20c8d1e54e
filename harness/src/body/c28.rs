use serde::{de::DeserializeOwned, Serialize};
/// every way through a serialised form and back
fn back<A: Serialize + DeserializeOwned + Clone>(a: &A, what: &str) -> R<Vec<(&'static str, A)>> {
    let w = || what.to_string();
    let j = nopanic(w, || serde_json::to_string(a))?.or_else(|e| viol(format!("{what} is not serialised: {e}")))?;
    let p = serde_json::to_string_pretty(a).unwrap();
    let v = nopanic(w, || serde_json::to_value(a))?.or_else(|e| viol(format!("{what} is not serialised as a value: {e}")))?;
    let b = nopanic(w, || bincode::serialize(a))?.or_else(|e| viol(format!("{what} is not serialised in binary: {e}")))?;
    let l = serde_json::to_string(&(1u8, Some(a), vec![a, a])).unwrap();
    let err = |f: &'static str, e: String| viol(format!("{what}, serialised as {j}, cannot be read back ({f}): {e}"));
    let mut r = vec![];
    macro_rules! way { ($f:literal, $e:expr) => { match nopanic(|| format!("{} of {what}", $f), || $e)? { Ok(x) => r.push(($f, x)), Err(e) => return err($f, e.to_string()) } } }
    way!("text", serde_json::from_str::<A>(&j));
    way!("bytes", serde_json::from_slice::<A>(p.as_bytes()));
    way!("reader", serde_json::from_reader::<_, A>(j.as_bytes()));
    way!("value", serde_json::from_value::<A>(v.clone()));
    way!("binary", bincode::deserialize::<A>(&b));
    way!("nested", serde_json::from_str::<(u8, Option<A>, Vec<A>)>(&l).map(|x| x.2[1].clone()));
    // the text is that of its own value tree
    if serde_json::from_str::<serde_json::Value>(&j).ok() != Some(v) { return viol(format!("{what}: text {j} and value differ")) }
    Ok(r)
}
fn same<A: Serialize + DeserializeOwned + Clone + PartialEq + std::hash::Hash + std::fmt::Debug + std::fmt::Display>(cx: &mut Cx, a: &A, what: &str, more: impl Fn(&A, &A) -> Option<String>) -> R {
    for (f, x) in back(a, what)? {
        cx.obs += 1;
        ensure!(x == *a && *a == x, "{what} through {f} gives {x:?}, which is not equal");
        ensure!(hash_of(&x) == hash_of(a) && format!("{x:?}") == format!("{a:?}") && format!("{x}") == format!("{a}"), "{what} through {f} gives {x:?}, equal but different");
        if let Some(m) = more(a, &x) { return viol(format!("{what} through {f}: {m}")) }
        ensure!(serde_json::to_string(&x).unwrap() == serde_json::to_string(a).unwrap(), "{what} through {f} is not serialised in the same way");
    }
    Ok(())
}
fn distinct<A: Serialize + PartialEq + std::fmt::Debug>(cx: &mut Cx, a: &A, b: &A) -> R {
    if a != b {
        cx.obs += 2;
        ensure!(serde_json::to_string(a).unwrap() != serde_json::to_string(b).unwrap(), "{a:?} and {b:?} are both serialised as {}", serde_json::to_string(a).unwrap());
        ensure!(bincode::serialize(a).unwrap() != bincode::serialize(b).unwrap(), "{a:?} and {b:?} have the same binary form");
    }
    Ok(())
}
fn val(cx: &mut Cx) -> i64 {
    let z = zone(&mut cx.rng);
    match cx.rng.below(14) { 0 => INF, 1 => NEG, 2 => INF - 1, 3 => NEG + 1, 4 => 0, 5 => cx.rng.i(NEG, INF), _ => tick(&mut cx.rng, z) }
}
pub fn case(cx: &mut Cx) -> R {
    let (a, b, z) = case_pair(cx);
    // points
    let (x, y) = (val(cx), val(cx));
    cx.h(x as u64); cx.h(y as u64);
    let (px, py) = (T::mk(x), T::mk(y));
    same(cx, &px, &format!("{px:?}"), |a, b| (a.tk() != b.tk() || a.is_finite() != b.is_finite() || a.cmp(&py) != b.cmp(&py)).then(|| format!("gives {} ticks", b.tk())))?;
    distinct(cx, &px, &py)?;
    let pz = T::mk(x.saturating_add(1).min(INF));
    distinct(cx, &px, &pz)?;
    // intervals
    let o = rand_op(&mut cx.rng, z);
    let i: TimeInterval<T> = op_iv(o);
    let probe = critical(&[&o.raw(), &a, &b]);
    let n = near(&mut cx.rng, &o.raw(), z);
    let i2: TimeInterval<T> = op_iv(op_of(&mut cx.rng, n.filter(|(x, y)| x <= y)));
    cx.say(|| format!("{px:?}, {i:?}, {a:?}, {b:?}"));
    same(cx, &i, &format!("{o:?} ({i:?})"), |a, b| {
        if iv_raw(a) != iv_raw(b) { return Some(format!("bounds become {:?}", iv_raw(b))) }
        if (a.is_empty(), a.is_singleton(), a.is_low_bounded(), a.is_up_bounded(), a.is_all(), win_raw(a)) != (b.is_empty(), b.is_singleton(), b.is_low_bounded(), b.is_up_bounded(), b.is_all(), win_raw(b)) { return Some("answers change".into()) }
        if a.partial_cmp(&i2) != b.partial_cmp(&i2) || *a & i2 != *b & i2 || *a | i2 != *b | i2 || !*a != !*b { return Some(format!("behaves differently with {i2:?}")) }
        probe.iter().find(|t| a.contains(&T::mk(**t)) != b.contains(&T::mk(**t))).map(|t| format!("instant {t} changes side"))
    })?;
    distinct(cx, &i, &i2)?;
    // sets
    let rt = cx.rng.below(4);
    let (sa, sb) = (set_or_skip::<T>(&a, rt)?, set_or_skip::<T>(&b, rt)?);
    same(cx, &sa, &format!("{sa:?}"), |p, q| {
        if raw(p) != raw(q) { return Some(format!("intervals become {:?}", raw(q))) }
        if (p.is_empty(), p.is_singleton(), p.is_low_bounded(), p.is_up_bounded(), p.is_convex(), p.convex_count()) != (q.is_empty(), q.is_singleton(), q.is_low_bounded(), q.is_up_bounded(), q.is_convex(), q.convex_count()) { return Some("answers change".into()) }
        if p & &sb != q & &sb || p.clone() | sb.clone() != q.clone() | sb.clone() || !p.clone() != !q.clone() || p.contains(&sb) != q.contains(&sb) || p.overlaps(&sb) != q.overlaps(&sb) { return Some(format!("behaves differently with {sb:?}")) }
        probe.iter().find(|t| p.contains(&T::mk(**t)) != q.contains(&T::mk(**t))).map(|t| format!("instant {t} changes side"))
    })?;
    distinct(cx, &sa, &sb)?;
    Ok(())
}

use vh::*;
use chronologic::*;
use chronologic::graph::*;
use std::cmp::Ordering;
type E = ((u32, u32), (i64, i64));
fn read<K: TimeConstraint>(k: &K) -> E { ((k.from(), k.to()), (k.lower_bound().tk(), k.upper_bound().tk())) }
/// drains an enumeration step by step, checking the sizes it announces
fn drain_k<'a>(cx: &mut Cx, mut it: impl Iterator<Item = impl TimeConstraint + 'a>, what: &str) -> R<Vec<E>> {
    let mut hints = vec![it.size_hint()];
    let mut v = vec![];
    while let Some(k) = it.next() {
        let e = read(&k);
        cx.obs += 1;
        ensure!(!k.is_empty(), "{what}: yields an empty constraint {e:?}");
        ensure!((k.is_low_bounded(), k.is_up_bounded()) == (e.1.0 != NEG, e.1.1 != INF), "{what}: the bounds of {e:?} are wrongly described");
        v.push(e);
        hints.push(it.size_hint());
        ensure!(v.len() < 200_000, "{what}: does not end");
    }
    for (k, (lo, hi)) in hints.iter().enumerate() {
        let left = v.len() - k;
        ensure!(*lo <= left && hi.is_none_or(|h| h >= left), "{what}: announces ({lo},{hi:?}) after {k} constraints while it still yields {left}");
    }
    ensure!(it.next().is_none() && it.next().is_none() && it.size_hint().0 == 0, "{what}: yields again once finished");
    Ok(v)
}
fn enumerations(cx: &mut Cx, g: &TimeGraph) -> R {
    let n = g.size();
    let w = |i: u32, j: u32| iv_raw(&g.timespan(i, j));
    let all = nopanic(|| format!("enumerating {g:?}"), || drain_k(cx, g.iter(), "the enumeration"))??;
    // every constrained pair once, in one orientation, with its window
    let mut seen = std::collections::BTreeSet::new();
    for ((i, j), x) in &all {
        ensure!(i != j && *i < n && *j < n, "the enumeration of {n} instants yields the pair (t{i},t{j})");
        ensure!(seen.insert((*i.min(j), *i.max(j))), "the enumeration yields the pair (t{i},t{j}) twice");
        ensure!(*x == w(*i, *j) && *x != (NEG, INF), "the enumeration yields (t{i},t{j}) in {x:?}, its window is {:?}", w(*i, *j));
    }
    for i in 0..n { for j in i + 1..n {
        cx.obs += 1;
        ensure!(seen.contains(&(i, j)) == (w(i, j) != (NEG, INF)), "the pair (t{i},t{j}) with window {:?} is {}enumerated", w(i, j), if seen.contains(&(i, j)) { "" } else { "not " });
    } }
    for i in 0..n + 1 {
        for to in [false, true] {
            let t = format!("the enumeration {} t{i} of {n}", if to { "to" } else { "from" });
            let mut v = nopanic(|| t.clone(), || if to { drain_k(cx, g.constraints_to(i), &t) } else { drain_k(cx, g.constraints_from(i), &t) })??;
            let mut e: Vec<E> = (0..n).filter(|j| i < n && *j != i && w(i, *j) != (NEG, INF)).map(|j| if to { ((j, i), w(j, i)) } else { ((i, j), w(i, j)) }).collect();
            v.sort(); e.sort();
            cx.obs += 1;
            ensure!(v == e, "{t}: observed {v:?}, expected {e:?}");
        }
    }
    // fully collected
    let c = nopanic(|| format!("collecting the enumeration of {g:?}"), || (g.iter().count(), g.iter().map(|k| -> ((u32, u32), TimeSpan) { k.into() }).collect::<Vec<_>>(),
        (0..n).map(|i| g.constraints_from(i).map(|k| read(&k)).collect::<Vec<_>>().len() + g.constraints_to(i).count()).collect::<Vec<_>>()))?;
    ensure_eq!(cx, c.0, all.len(), "count of the enumeration");
    ensure_eq!(cx, c.1.iter().map(|(p, s)| (*p, iv_raw(s))).collect::<Vec<_>>(), all, "collected enumeration");
    // queries
    for i in 0..n + 1 { for j in 0..n + 1 {
        let x = if i < n && j < n { w(i, j) } else { (NEG, INF) };
        let k = nopanic(|| format!("constraint(t{i},t{j})"), || g.constraint(i, j).map(|k| (read(&k), TimeSpan::from(k))))?;
        cx.obs += 3;
        match k {
            None => ensure!(x == (NEG, INF), "no constraint between t{i} and t{j}, whose window is {x:?}"),
            Some((e, s)) => ensure!(x != (NEG, INF) && e == ((i, j), x) && iv_raw(&s) == x, "constraint(t{i},t{j}) is {e:?}, its window {x:?}"),
        }
        let o = if i >= n || j >= n { None } else if x.0 > 0 { Some(Ordering::Less) } else if x.1 < 0 { Some(Ordering::Greater) } else if x == (0, 0) { Some(Ordering::Equal) } else { None };
        ensure!(g.instant_cmp(i, j) == o, "instant_cmp(t{i},t{j}) is {:?}, the window is {x:?}", g.instant_cmp(i, j));
        let d = i < n && j < n && (x.0 > 0 || x.1 < 0);
        ensure!(g.are_distinct_instants(i, j) == d, "are_distinct_instants(t{i},t{j}) is {}, the window is {x:?}", !d);
        if i < n && j < n {
            // two constraints are equivalent if and only if they say the same thing
            if let (Some(a), Some(b)) = (g.constraint(i, j), g.constraint(j, i)) {
                let m = ((i, j), TimeValue::mk(3)..=TimeValue::mk(3));
                cx.obs += 1;
                ensure!(a.equiv(&b) && b.equiv(&a) && a.equiv(&g.constraint(i, j).unwrap()), "the constraint (t{i},t{j}) is not equivalent to its reverse");
                ensure!(a.equiv(&m) == (x == (3, 3)), "equivalence of (t{i},t{j}) in {x:?} with {{3}}");
            }
        }
    } }
    Ok(())
}
fn case(cx: &mut Cx) -> R {
    let d = Driver::new(cx, 15);
    let mut h = d.start(cx);
    for _ in 0..steps(cx, 10) {
        let s = d.step(cx, &h, true);
        let o = apply(&mut h, &s)?;
        match (o.rep.is_none_or(|r| r.ok()), o.next) {
            (true, Some(m)) => h.m = m,
            (false, None) if o.rep == Some(Rep::Recovered) && h.g.size() as usize == h.m.n => {}
            (false, None) if h.g.size() == 0 => { h.m = Net::new(0); }
            _ => { cx.tag("misjudged"); h.m = Net::new(h.g.size() as usize); break }
        }
    }
    if h.g.size() > 14 && !cx.rng.pct(20) { h.g.resize(14) }
    cx.tag(match h.g.size() { 0 => "no instant", 1 => "one instant", 2..=4 => "2-4 instants", _ => "5+ instants" });
    cx.nontrivial = h.g.size() > 1;
    enumerations(cx, &h.g)
}
fn main() {
    run::main(Spec {
        id: "C22", quick: 3_000_000, thorough: 15_000_000,
        rule: "a case is distinct by the history which built the graph; non trivial when it has at least two instants. Every enumeration and query of the final graph is compared with its windows",
        case,
    })
}

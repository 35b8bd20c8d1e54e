use vh::*;
use chronologic::*;
use chronologic::graph::*;
/// what a way of building says: the graph, or a rejection
fn cmp(cx: &mut Cx, way: &str, got: Option<TimeGraph>, want: &Option<Net>, cs: &[Con]) -> R {
    cx.obs += 1;
    match (got, want) {
        (None, None) => Ok(()),
        (Some(g), None) => viol(format!("{way}: accepts the unsatisfiable set {cs:?}: {g:?}")),
        (None, Some(_)) => viol(format!("{way}: rejects the satisfiable set {cs:?}")),
        (Some(g), Some(m)) => {
            for i in 0..m.n { for j in 0..m.n {
                // (an instant which no constraint involves may be left out)
                if i == j && i >= g.size() as usize { continue }
                let w = iv_raw(&g.timespan(i as u32, j as u32));
                cx.obs += 1;
                ensure!(w == m.win(i, j), "{way}: the window of (t{i},t{j}) is {w:?}, another way gives {:?}, for {cs:?}", m.win(i, j));
            } }
            Ok(())
        }
    }
}
fn one_by_one(cs: &[Con], n0: u32) -> Option<TimeGraph> {
    let mut g = TimeGraph::with_size(n0);
    for c in cs { if !c.propagate(&mut g).ok() { return None } }
    Some(g)
}
fn case(cx: &mut Cx) -> R {
    let nmax = match cx.rng.below(12) { 0..=7 => 2 + cx.rng.us(4), 8..=10 => 3 + cx.rng.us(8), _ => 10 + if cx.rng.pct(98) { cx.rng.us(12) } else { cx.tag("big graph"); cx.rng.us(60) } };
    let noise = *cx.rng.pick(&[0, 0, 10, 30]);
    let src = Src::new(&mut cx.rng, nmax, noise);
    let n = 1 + cx.rng.us(3 * nmax);
    let cs: Vec<Con> = (0..n).map(|_| src.con(&mut cx.rng, None, nmax)).collect();
    for c in &cs { hcon(cx, c) }
    cx.say(|| format!("{cs:?}"));
    let want = Net::new(0).batch(&cs);
    cx.nontrivial = n > 1;
    cx.tag(if want.is_some() { "satisfiable" } else { "unsatisfiable" });
    let n0 = if cx.rng.pct(50) { 0 } else { cx.rng.below(nmax as u64 + 2) as u32 };
    let p = |w: &str| format!("{w} of {cs:?}");
    // the order given, then others, with any orientation of each constraint
    let g = nopanic(|| p("one by one"), || one_by_one(&cs, n0))?;
    cmp(cx, "one by one", g, &want, &cs)?;
    for k in 0..2 {
        let mut v = cs.clone();
        cx.rng.shuffle(&mut v);
        if k == 1 || cx.rng.pct(50) { for c in v.iter_mut() { if cx.rng.pct(50) { *c = c.flip(&mut cx.rng) } } }
        let g = nopanic(|| p("shuffled"), || one_by_one(&v, n0))?;
        cmp(cx, &format!("one by one in the order {v:?}"), g, &want, &cs)?;
    }
    // in one batch
    let mut v = cs.clone();
    cx.rng.shuffle(&mut v);
    let way = cx.rng.below(WAYS);
    let g = nopanic(|| p("batch"), || { let mut g = TimeGraph::with_size(n0); if batch(&mut g, &v, way).ok() { Some(g) } else { None } })?;
    cmp(cx, "one batch", g, &want, &cs)?;
    // collected
    let c: Vec<_> = v.iter().map(|c| c.span()).collect();
    let g = guarded(|| if way >= 4 { hinted(c.clone(), way - 4).collect::<TimeGraph>() } else if way % 2 == 0 { c.clone().into_iter().collect::<TimeGraph>() } else { vague(c.clone().into_iter()).collect::<TimeGraph>() });
    if let (Err(m), true) = (&g, want.is_some()) { return viol(format!("collecting {cs:?} panicked: {m}")) }
    cmp(cx, "collecting", g.ok(), &want, &cs)?;
    // by the Extend trait
    let g = guarded(|| { let mut g = TimeGraph::with_size(n0); if way % 2 == 0 { Extend::extend(&mut g, c.clone()) } else { Extend::extend(&mut g, hinted(c.clone(), way)) } g });
    cmp(cx, "the Extend trait", g.ok(), &want, &cs)?;
    // merging graphs built from a partition
    let parts = 2 + cx.rng.us(3);
    let mut ps: Vec<Vec<Con>> = vec![vec![]; parts];
    for c in &v { let k = cx.rng.us(parts); ps[k].push(*c) }
    let lr = cx.rng.pct(50);
    let way2 = cx.rng.below(8);
    let g = nopanic(|| p("merging"), || {
        let mut gs = vec![];
        for (k, q) in ps.iter().enumerate() {
            let mut g = TimeGraph::with_size(0);
            let ok = if (way2 + k as u64) % 2 == 0 { batch(&mut g, q, way).ok() } else { match one_by_one(q, 0) { Some(x) => { g = x; true } None => false } };
            if !ok { return None }
            gs.push(g);
        }
        let mut acc = gs.remove(0);
        for g in gs { if lr { if !rep(acc.merge(g)).ok() { return None } } else { let mut g = g; if !rep(g.merge(acc)).ok() { return None } acc = g } }
        Some(acc)
    })?;
    cmp(cx, &format!("merging {ps:?}"), g, &want, &cs)?;
    // rebuilding from the enumerated constraints
    if let Some(m) = &want {
        let Some(g) = one_by_one(&cs, n0) else { return Ok(()) };
        let rb = nopanic(|| p("rebuilding"), || -> Vec<Option<TimeGraph>> { vec![
            { let mut x = TimeGraph::with_size(g.size()); if rep(x.extend(g.iter())).ok() { Some(x) } else { None } },
            { let mut x = TimeGraph::default(); if g.iter().all(|k| rep(x.propagate(k)).ok()) { Some(x) } else { None } },
            Some(g.iter().collect()),
            { let mut x = TimeGraph::default(); if (0..g.size()).all(|i| g.constraints_from(i).all(|k| rep(x.propagate(k)).ok())) { Some(x) } else { None } },
            { let mut x = TimeGraph::default(); if (0..g.size()).rev().all(|i| { let v: Vec<((u32, u32), TimeSpan)> = g.constraints_to(i).map(|k| k.into()).collect(); rep(x.extend(v)).ok() }) { Some(x) } else { None } },
        ] })?;
        for (k, x) in rb.into_iter().enumerate() { cmp(cx, &format!("rebuilding ({k})"), x, &Some(m.clone()), &cs)?; }
    }
    Ok(())
}
fn main() {
    run::main(Spec {
        id: "C20", quick: 1_000_000, thorough: 8_000_000,
        rule: "a case is distinct by its set of constraints; non trivial when it has at least two. Each set is built in about twelve ways, whose windows are all compared",
        case,
    })
}

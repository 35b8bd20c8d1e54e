use vh::*;
use chronologic::graph::*;
fn case(cx: &mut Cx) -> R {
    let Some((g, m, _)) = sched_net(cx, 1) else { return skip() };
    let mut s = TimeScheduler::new(&g);
    let mut w: Vec<Raw> = vec![vec![(NEG, INF)]; m.n];
    let mut cur = slots(&s);
    ensure_eq!(cx, cur, w, "slots of a new scheduler");
    let (mut yes, mut no, mut disj) = (0, 0, false);
    let mut row = if cx.rng.pct(25) { trap(cx, &m) } else { vec![] };
    for k in 0..1 + row.len() + steps(cx, 8) {
        let q = row.pop().unwrap_or_else(|| restriction(cx, &cur, false));
        let was = cur.clone();
        let what = || format!("restriction {k} {q:?} of slots {was:?} over {m:?}");
        let r = nopanic(what, || restrict(&mut s, &q))?;
        let now = slots(&s);
        let w2: Vec<Raw> = q.windows(m.n).iter().zip(&w).map(|(a, b)| inter(a, b)).collect();
        let ac = reduce(&m, &w2);
        cx.obs += 1;
        cx.tag(q.tag());
        match (r.ok(), ac) {
            (true, None) => return viol(format!("{}: accepted ({r:?}) although no assignment remains; slots are {now:?}", what())),
            (false, Some(e)) => return viol(format!("{}: rejected ({r:?}) although assignments remain within {e:?}", what())),
            (false, None) => { no += 1; ensure!(r == Rep::Recovered && now == cur, "{}: rejected ({r:?}) but the slots are now {now:?}", what()) }
            (true, Some(ac)) => {
                yes += 1;
                ensure!(now.len() == m.n, "{}: {} slots", what(), now.len());
                for j in 0..m.n {
                    cx.obs += 1;
                    ensure!(subset(&now[j], &w2[j]), "{}: the slot {:?} of t{j} is not within the windows retained {:?}", what(), now[j], w2[j]);
                    for i in 0..m.n {
                        cx.obs += 1;
                        ensure!(subset(&now[j], &image(&m, &now[i], i, j)), "{}: the slot {:?} of t{j} has dates without any compatible date in the slot {:?} of t{i}", what(), now[j], now[i]);
                    }
                    // a date which is no more in the slot takes part in no solution
                    let lost = excl(&ac[j], &now[j]);
                    if !lost.is_empty() {
                        for t in critical(&[&lost, &ac[j], &now[j]]) { if mem(&lost, t) {
                            let mut x = ac.clone();
                            x[j] = vec![(t, t)];
                            cx.obs += 1;
                            if let Some(y) = reduce(&m, &x) { return viol(format!("{}: the date {t} of t{j} is lost (slot {:?}) though it has the solution {:?}", what(), now[j], y.iter().map(|z| z[0].0).collect::<Vec<_>>())) }
                        } }
                    }
                    if now[j].len() > 1 { disj = true }
                }
                w = w2; cur = now;
            }
        }
    }
    cx.nontrivial = yes > 0 && m.n > 1;
    if no > 0 { cx.tag("with rejections") }
    if disj { cx.tag("with disjoint slots") }
    Ok(())
}
fn main() {
    run::main(Spec {
        id: "C24", quick: 1_200_000, thorough: 8_000_000,
        rule: "a case is distinct by its graph and its history of restrictions; non trivial with at least two instants and one accepted restriction. Satisfiability is decided by an independent arc-consistency fixpoint, exact for differences",
        case,
    })
}

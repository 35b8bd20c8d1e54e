use vh::*;
use chronologic::graph::*;
fn case(cx: &mut Cx) -> R {
    let Some((g, m, _)) = sched_net(cx, 1) else { return skip() };
    let mut s = TimeScheduler::new(&g);
    let mut w: Vec<(i64, i64)> = vec![(NEG, INF); m.n];
    let mut cur: Vec<Raw> = vec![vec![(NEG, INF)]; m.n];
    ensure_eq!(cx, slots(&s), cur, "slots of a new scheduler");
    let (mut yes, mut no) = (0, 0);
    for k in 0..1 + steps(cx, 9) {
        if cx.rng.pct(8) { s = s.clone() }
        let q = restriction(cx, &cur, true);
        let was = cur.clone();
        let what = || format!("restriction {k} {q:?} of slots {was:?} over {m:?}");
        let r = nopanic(what, || restrict(&mut s, &q))?;
        let now = slots(&s);
        // the windows retained so far with this one
        let mut w2 = w.clone();
        let mut void = false;
        for (i, x) in q.windows(m.n).iter().enumerate() {
            match inter(&[w2[i]], x).first() { Some(y) => w2[i] = *y, None => void = true }
        }
        let exp = if void { None } else { convex_slots(&m, &w2) };
        cx.obs += 1 + m.n as u64;
        cx.tag(q.tag());
        match (r.ok(), exp) {
            (true, None) => return viol(format!("{}: accepted ({r:?}) although no assignment remains; slots are {now:?}", what())),
            (false, Some(e)) => return viol(format!("{}: rejected ({r:?}) although the dates {e:?} remain", what())),
            (false, None) => { no += 1; ensure!(r == Rep::Recovered && now == cur, "{}: rejected ({r:?}) but the slots are now {now:?}", what()) }
            (true, Some(e)) => {
                yes += 1;
                ensure!(now == e, "{}: slots are {now:?}, the possible dates {e:?}", what());
                w = w2; cur = e;
            }
        }
        for i in 0..m.n { ensure!(s.scheduling(i as u32).map(raw) == Some(cur[i].clone()), "{}: slot of t{i} is {:?}, expected {:?}", what(), s.scheduling(i as u32), cur[i]) }
        ensure!(s.scheduling(m.n as u32).is_none(), "{}: there is a slot for an instant outside of the graph", what());
    }
    cx.nontrivial = yes > 0 && m.n > 1;
    if no > 0 { cx.tag("with rejections") }
    Ok(())
}
fn main() {
    run::main(Spec {
        id: "C23", quick: 2_400_000, thorough: 14_000_000,
        rule: "a case is distinct by its graph and its history of convex restrictions; non trivial with at least two instants and one accepted restriction. Slots are compared with the closure of the network extended with the origin of time",
        case,
    })
}

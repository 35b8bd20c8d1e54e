use vh::*;
use chronologic::graph::*;
fn case(cx: &mut Cx) -> R {
    let noise = *cx.rng.pick(&[15, 40, 60, 80]);
    let d = Driver::new(cx, noise);
    let mut h = d.start(cx);
    let n = 2 + if d.nmax > 12 { cx.rng.us(50) } else { steps(cx, 12) };
    // twin graph, started anew after each fatal failure
    let mut twin: Option<TimeGraph> = None;
    for k in 0..n {
        let rs = cx.rng.pct(50);
        let s = d.step(cx, &h, rs);
        let o = apply(&mut h, &s)?;
        cx.tag(s.tag());
        let w = || format!("step {k} {s:?}");
        if let Some(t) = &mut twin {
            // the same on the twin: same answer, same windows
            let mut ht = Hist { g: std::mem::take(t), m: h.m.clone() };
            let ot = apply(&mut ht, &s)?;
            cx.obs += 2;
            ensure!(o.rep == ot.rep, "{}: a graph emptied by a fatal failure reports {:?}, a brand new one {:?}", w(), o.rep, ot.rep);
            ensure!(h.g.size() == ht.g.size() && wins(&h.g) == wins(&ht.g), "{}: a graph emptied by a fatal failure does not behave like a brand new one: {:?} instead of {:?}", w(), h.g, ht.g);
            *t = ht.g;
        }
        let Some(r) = o.rep else { h.m = o.next.unwrap(); continue };
        cx.obs += 1;
        match (r.ok(), o.next) {
            (true, Some(m)) => { cx.tag("accepted"); h.m = m }
            (true, None) => return viol(format!("{}: accepted ({r:?}) although nothing satisfies it with the constraints accepted so far", w())),
            (false, Some(_)) => return viol(format!("{}: rejected ({r:?}) although it can be satisfied with the constraints accepted so far", w())),
            (false, None) => {
                cx.nontrivial = true;
                cx.obs += 1;
                if matches!(s, Step::Add(_)) { ensure!(r == Rep::Recovered, "{}: reports {r:?} instead of a recovered failure", w()) }
                if r == Rep::Recovered {
                    cx.tag("recovered");
                    ensure!(h.g.size() == o.size0, "{}: recovered, but the size went from {} to {}", w(), o.size0, h.g.size());
                    ensure!(wins(&h.g) == o.wins0, "{}: recovered, but windows have changed: {:?}", w(), h.g);
                } else {
                    cx.tag("fatal");
                    ensure!(h.g.size() == 0, "{}: fatal, but the graph is left with {} instants", w(), h.g.size());
                    ensure!(h.g.iter().next().is_none() && (0..5).all(|i| h.g.timespan(i, i + 1) == chronologic::TimeSpan::all()), "{}: fatal, but constraints remain", w());
                    h.m = Net::new(0);
                    twin = Some(TimeGraph::default());
                }
            }
        }
    }
    // what the windows promise is tested too: one tick inside is accepted, one tick outside is not
    Ok(())
}
fn main() {
    run::main(Spec {
        id: "C18", quick: 1_800_000, thorough: 12_000_000,
        rule: "a case is distinct by its history; non trivial when at least one addition, batch or merge was rejected. Satisfiability is decided by an independent shortest path closure over unbounded integers",
        case,
    })
}

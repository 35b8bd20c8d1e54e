use vh::*;
fn case(cx: &mut Cx) -> R {
    let noise = *cx.rng.pick(&[0, 10, 25, 40]);
    let d = Driver::new(cx, noise);
    let mut h = d.start(cx);
    let n = 1 + if d.nmax > 12 { cx.rng.us(50) } else { steps(cx, 14) };
    let mut added = 0;
    for k in 0..n {
        let s = d.step(cx, &h, true);
        let o = apply(&mut h, &s)?;
        cx.tag(s.tag());
        match (o.rep.is_none_or(|r| r.ok()), o.next) {
            (true, Some(m)) => { if o.rep.is_some() { added += 1 } h.m = m; }
            // a rejected addition, rightly: what remains of the graph is its previous state
            (false, None) if h.g.size() as usize == h.m.n && o.rep == Some(Rep::Recovered) => cx.tag("rejected"),
            (false, None) => { cx.tag("fatal"); break }
            // wrongly accepted or rejected: another property
            _ => { cx.tag("misjudged"); break }
        }
        same(cx, &h.g, &h.m, || format!("after step {k} {s:?}"))?;
    }
    cx.nontrivial = added > 1;
    Ok(())
}
fn main() {
    run::main(Spec {
        id: "C17", quick: 2_000_000, thorough: 12_000_000,
        rule: "a case is distinct by its history (initial size, constraints, batches, merges, resizes); non trivial when at least two constraint additions were accepted. Every window of the graph is read after every step",
        case,
    })
}

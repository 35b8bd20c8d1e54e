use vh::*;
use chronologic::*;
use chronologic::graph::*;
/// windows as they are read, out of range instants included
fn w(g: &TimeGraph, i: usize, j: usize) -> (i64, i64) { iv_raw(&g.timespan(i as u32, j as u32)) }
fn look(cx: &mut Cx, g: &TimeGraph, n: usize, exp: impl Fn(usize, usize) -> (i64, i64), what: &str) -> R {
    ensure!(g.size() as usize == n, "{what}: size {} instead of {n}", g.size());
    for i in 0..n + 2 { for j in 0..n + 2 {
        let e = if i >= n || j >= n { (NEG, INF) } else { exp(i, j) };
        cx.obs += 1;
        ensure!(w(g, i, j) == e, "{what}: the window of (t{i},t{j}) is {:?} instead of {e:?}", w(g, i, j));
    } }
    for (i, j) in [(n as u32, 0), (0, n as u32), (n as u32, n as u32), (n as u32 + 7, n as u32 + 9), (1000, 0), (0, 60000)] {
        cx.obs += 1;
        ensure!(g.timespan(i, j) == TimeSpan::all() && g.constraint(i, j).is_none() && g.instant_cmp(i, j).is_none() && !g.are_distinct_instants(i, j)
            && (i < n as u32 || g.constraints_from(i).next().is_none()) && (j < n as u32 || g.constraints_to(j).next().is_none()), "{what}: (t{i},t{j}) is outside of the {n} instants but is constrained");
    }
    Ok(())
}
fn fresh(i: usize, j: usize) -> (i64, i64) { if i == j { (0, 0) } else { (NEG, INF) } }
fn case(cx: &mut Cx) -> R {
    let d = Driver::new(cx, 20);
    let mut h = d.start(cx);
    look(cx, &h.g, h.m.n, fresh, "new graph")?;
    let n = 2 + steps(cx, 14);
    let mut steps = 0;
    for k in 0..n {
        let mut s = d.step(cx, &h, true);
        if cx.rng.pct(45) {
            // more of what this property is about
            s = match cx.rng.below(6) {
                0 => Step::Grow(h.m.n + cx.rng.us(4)), 1 => Step::Cut(cx.rng.us(h.m.n + 1)), 2 => Step::Fit, 3 => Step::Cap(cx.rng.below(9) as u32), 4 => Step::Reset, _ => Step::Cut(h.m.n.saturating_sub(1)) };
            cx.say(|| format!("instead {s:?}"));
            cx.h(match s { Step::Grow(k) | Step::Cut(k) => 1000 + k as u64, _ => 77 });
        }
        // (the windows before are those read from the graph itself)
        let n0 = h.g.size() as usize;
        let w0: Vec<Vec<(i64, i64)>> = (0..n0).map(|i| (0..n0).map(|j| w(&h.g, i, j)).collect()).collect();
        if cx.rng.pct(10) { h.g = h.g.clone(); cx.tag("clone") }
        let o = apply(&mut h, &s)?;
        let t = format!("step {k} {s:?} on {n0} instants");
        match s {
            Step::Add(_) | Step::Batch(..) | Step::Merge(..) => {
                // (the other properties judge these)
                match (o.rep.unwrap().ok(), o.next) {
                    (true, Some(m)) => h.m = m,
                    (false, None) if h.g.size() as usize == n0 && o.rep == Some(Rep::Recovered) => {}
                    (false, None) if h.g.size() == 0 => h.m = Net::new(0),
                    _ => return Ok(()),
                }
                if h.g.size() as usize != h.m.n || (0..h.m.n).any(|i| (0..h.m.n).any(|j| w(&h.g, i, j) != h.m.win(i, j))) { return Ok(()) }
                continue
            }
            Step::Grow(n) | Step::Cut(n) => look(cx, &h.g, n, |i, j| if i < n0 && j < n0 { w0[i][j] } else { fresh(i, j) }, &t)?,
            Step::Cap(_) => look(cx, &h.g, n0, |i, j| w0[i][j], &t)?,
            Step::Reset => look(cx, &h.g, n0, fresh, &t)?,
            Step::Fit => {
                let n = (0..n0).rev().find(|&i| (0..n0).any(|j| i != j && w0[i][j] != (NEG, INF))).map_or(0, |i| i + 1);
                look(cx, &h.g, n, |i, j| w0[i][j], &t)?
            }
        }
        cx.tag(s.tag());
        steps += 1;
        h.m = o.next.unwrap();
    }
    cx.nontrivial = steps > 0;
    Ok(())
}
fn main() {
    run::main(Spec {
        id: "C21", quick: 3_000_000, thorough: 15_000_000,
        rule: "a case is distinct by its history; non trivial when it resizes, shrinks or resets at least once. Every window, and some outside of the graph, are read after each such step",
        case,
    })
}

use vh::*;
use chronologic::*;
use chronologic::graph::*;
use std::collections::BTreeMap;
/// "t3 - t1 in W" -> ((1,3), W)
fn relation(l: &str) -> Option<((u32, u32), &str)> {
    let (p, w) = l.trim().split_once(" in ")?;
    let (j, i) = p.split_once(" - ")?;
    Some(((i.strip_prefix('t')?.parse().ok()?, j.strip_prefix('t')?.parse().ok()?), w))
}
fn number(l: &str) -> Option<usize> { let d: String = l.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect(); d.parse().ok() }
fn graph_text(cx: &mut Cx, g: &TimeGraph) -> R {
    let n = g.size();
    let s = nopanic(|| "text of a graph".into(), || g.to_string())?;
    let l: Vec<&str> = s.lines().collect();
    ensure!(l.len() >= 2, "the text of a graph of {n} instants is {s:?}");
    ensure_eq!(cx, number(l[0]), Some(n as usize), "number of instants in the text of a graph ({:?})", l[0]);
    let mut seen = BTreeMap::new();
    for x in &l[1..l.len() - 1] {
        let Some(((i, j), w)) = relation(x) else { return viol(format!("line {x:?} in the text of a graph")) };
        cx.obs += 1;
        ensure!(i != j && i < n && j < n, "the text of a graph of {n} instants tells {x:?}");
        ensure!(w == g.timespan(i, j).to_string(), "the text of a graph tells {x:?}, the window is {}", g.timespan(i, j));
        ensure!(seen.insert((i.min(j), i.max(j)), ()).is_none(), "the text of a graph tells the pair of {x:?} twice");
    }
    for i in 0..n { for j in i + 1..n {
        cx.obs += 1;
        let k = iv_raw(&g.timespan(i, j)) != (NEG, INF);
        ensure!(seen.contains_key(&(i, j)) == k, "the text of a graph does {}tell (t{i},t{j}) in {}", if k { "not " } else { "" }, g.timespan(i, j));
    } }
    ensure_eq!(cx, number(l[l.len() - 1]), Some(seen.len()), "number of constraints in the text of a graph ({:?})", l[l.len() - 1]);
    // each constraint
    for i in 0..n.min(12) { for j in 0..n.min(12) { if let Some(k) = g.constraint(i, j) {
        let w = g.timespan(i, j);
        ensure_eq!(cx, guarded(|| relation(&k.to_string()).map(|(p, w)| (p, w.to_string()))), Ok(Some(((i, j), w.to_string()))), "text of the constraint (t{i},t{j})");
        ensure_eq!(cx, guarded(|| format!("{k:?}")), Ok(format!("({i}->{j})={w:?}")), "debug text of the constraint (t{i},t{j})");
    } } }
    // the matrix of the lower bounds
    let s = nopanic(|| "debug text of a graph".into(), || format!("{g:?}"))?;
    let rows: Vec<Vec<String>> = s.lines().filter(|l| !l.trim().is_empty()).map(|l| l.trim().trim_start_matches('[').trim_end_matches(']').split_whitespace().map(|x| x.to_string()).collect()).collect();
    let want: Vec<Vec<String>> = (0..n).map(|i| (0..n).map(|j| format!("{:?}", g.timespan(i, j).lower_bound())).collect()).collect();
    ensure_eq!(cx, rows, want, "debug text of a graph of {n} instants");
    Ok(())
}
fn schedule_text(cx: &mut Cx, s: &TimeScheduler, n: usize) -> R {
    let slots = s.schedule();
    ensure_eq!(cx, slots.len(), n, "number of slots");
    let fmt = *cx.rng.pick(&["%Y-%m-%d %H:%M:%S%.9f", "%Y-%m-%d %H:%M:%S%.9f", "%F", "", "%s%%", "t1 in %T"]);
    let want = |f: &dyn Fn(&TimeSlots) -> String| slots.iter().enumerate().map(|(i, x)| format!("t{i} in {}", f(x))).collect::<Vec<_>>();
    let lines = |s: String| s.lines().map(|l| l.to_string()).collect::<Vec<_>>();
    ensure_eq!(cx, guarded(|| lines(s.to_string())), Ok(want(&|x| x.to_string())), "text of a schedule");
    ensure_eq!(cx, guarded(|| lines(format!("{s:?}"))), Ok(want(&|x| format!("{x:?}"))), "debug text of a schedule");
    let t = guarded(|| s.format_timeset(fmt));
    if n == 0 { ensure!(t.as_ref().is_ok_and(|t| !t.is_empty() && relation(t).is_none() && !t.contains("t0")), "formatted text of a schedule without instant: {t:?}"); cx.obs += 1 }
    else { ensure_eq!(cx, t.map(lines), Ok(want(&|x| x.format_timeset(fmt))), "formatted text of a schedule"); }
    Ok(())
}
fn case(cx: &mut Cx) -> R {
    if cx.idx % 2000 == 9 {
        // many instants and thousands of constraints
        let n = 40 + cx.rng.us(80) as u32;
        let mut g = TimeGraph::with_size(n);
        for i in 0..n - 1 { if !cx.rng.pct(2) {
            let a = cx.rng.i(-9, 9);
            let k = ((i, i + 1), TimeValue::mk(a)..=TimeValue::mk(a + cx.rng.i(0, 9)));
            if g.propagate(k).is_err() { return viol(format!("constraint {i} of a chain of {n} instants: not propagated")) }
        } }
        cx.tag("thousands of constraints");
        cx.nontrivial = true;
        return graph_text(cx, &g);
    }
    if cx.idx % 3 < 2 {
        let d = Driver::new(cx, 15);
        let mut h = d.start(cx);
        for _ in 0..steps(cx, 10) {
            let s = d.step(cx, &h, true);
            let o = apply(&mut h, &s)?;
            match (o.rep.is_none_or(|r| r.ok()), o.next) {
                (true, Some(m)) => h.m = m,
                (false, None) if o.rep == Some(Rep::Recovered) && h.g.size() as usize == h.m.n => {}
                (false, None) if h.g.size() == 0 => { h.m = Net::new(0); }
                _ => break,
            }
        }
        if h.g.size() > 14 && !cx.rng.pct(20) { h.g.resize(14) }
        cx.tag("graph");
        cx.nontrivial = h.g.size() > 1;
        return graph_text(cx, &h.g);
    }
    let Some((g, m, _)) = sched_net(cx, 0) else { return skip() };
    let mut s = TimeScheduler::new(&g);
    let mut row = if cx.rng.pct(8) { trap(cx, &m) } else { vec![] };
    for _ in 0..row.len() + steps(cx, 6) {
        if m.n == 0 { break }
        let before = slots(&s);
        if before.iter().any(|x| x.is_empty()) { break }
        let q = row.pop().unwrap_or_else(|| restriction(cx, &before, false));
        cx.say(|| format!("{q:?}"));
        nopanic(|| format!("{q:?}"), || restrict(&mut s, &q))?;
    }
    cx.tag("schedule");
    cx.nontrivial = m.n > 0;
    schedule_text(cx, &s, m.n)
}
fn main() {
    run::main(Spec {
        id: "C30", quick: 1_900_000, thorough: 8_000_000,
        rule: "a case is distinct by the history of its graph or of its schedule; non trivial when it has instants to tell about. Every text is read back line by line and compared with the windows and slots",
        case,
    })
}

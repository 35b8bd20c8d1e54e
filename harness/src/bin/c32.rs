use vh::*;
use chronologic::*;
use chronologic::graph::*;
type W = Option<(i64, i64)>;
fn rev(w: W) -> W { w.map(|(a, b)| (-b, -a)) }
/// a constraint written by hand
struct Own(u32, u32, TimeSpan);
impl TimeBounds for Own {
    type TimePoint = TimeValue;
    fn is_empty(&self) -> bool { self.2.is_empty() }
    fn is_low_bounded(&self) -> bool { self.2.is_low_bounded() }
    fn is_up_bounded(&self) -> bool { self.2.is_up_bounded() }
    fn lower_bound(&self) -> TimeValue { self.2.lower_bound() }
    fn upper_bound(&self) -> TimeValue { self.2.upper_bound() }
}
impl TimeConvex for Own {}
impl TimeConstraint for Own {
    fn from(&self) -> u32 { self.0 }
    fn to(&self) -> u32 { self.1 }
}
/// the same relation: same pair and same window, either way round
fn same_rel(a: &Con, b: &Con) -> bool {
    a.win().is_some() && b.win().is_some() && ((a.i, a.j) == (b.i, b.j) && a.win() == b.win() || (a.i, a.j) == (b.j, b.i) && rev(a.win()) == b.win())
}
fn reads(cx: &mut Cx, c: &Con) -> R {
    let c = *c;
    let w = c.win();
    let (ends, s, emp, lb, ub, b, all, si, raw) = nopanic(|| format!("reading {c:?}"), || with_op!(TimeValue, c.o, w => {
        let k = ((c.i, c.j), w);
        let flags = (TimeBounds::is_empty(&k), k.is_low_bounded(), k.is_up_bounded(), k.is_bounded(), k.is_all(), k.is_singleton());
        let lo = (k.lower_bound().tk(), k.upper_bound().tk());
        ((TimeConstraint::from(&k), TimeConstraint::to(&k)), lo, flags.0, flags.1, flags.2, flags.3, flags.4, flags.5, { let s = TimeSpan::from(k); if s.is_empty() { None } else { Some(iv_raw(&s)) } })
    }))?;
    ensure_eq!(cx, ends, (c.i, c.j), "ends of {c:?}");
    ensure_eq!(cx, raw, w, "window of {c:?}");
    ensure_eq!(cx, emp, w.is_none(), "emptiness of {c:?}");
    if let Some((x, y)) = w {
        ensure_eq!(cx, s, (x, y), "bounds of {c:?}");
        ensure_eq!(cx, (lb, ub, b, all, si), (x != NEG, y != INF, x != NEG && y != INF, (x, y) == (NEG, INF), x == y), "(low bounded, up bounded, bounded, all, singleton) of {c:?}");
    }
    Ok(())
}
/// everything a constraint read from a graph tells, and what it converts to
macro_rules! told { ($k:expr) => {{ let k = $k; let t = format!("{k:?} / {k}");
    let own = (TimeConstraint::from(&k), TimeConstraint::to(&k), k.lower_bound().tk(), k.upper_bound().tk(),
        (TimeBounds::is_empty(&k), k.is_low_bounded(), k.is_up_bounded(), k.is_bounded(), k.is_all(), k.is_singleton(), k.is_convex(), k.convex_count()),
        iv_raw(&k.convex_envelope()), k.iter().map(|w| iv_raw(&w)).collect::<Vec<_>>());
    let p: ((u32, u32), TimeSpan) = k.into(); (own, p.0, iv_raw(&p.1), t) }} }
fn of_graph(cx: &mut Cx, g: &TimeGraph) -> R {
    let n = g.size();
    // (sums beyond the finite range are not judged)
    for i in 0..n { for j in 0..n { let (a, b) = iv_raw(&g.timespan(i, j)); if a == INF || b == NEG { return Ok(()) } } }
    let mut l = vec![];
    nopanic(|| "reading the constraints of a graph".into(), || {
        for k in g.iter() { l.push((1, told!(k))) }
        for i in 0..n {
            for k in g.constraints_from(i) { l.push((2, told!(k))) }
            for k in g.constraints_to(i) { l.push((3, told!(k))) }
            for j in 0..n { if i != j { if let Some(k) = g.constraint(i, j) {
                let s = iv_raw(&TimeSpan::from(g.constraint(i, j).unwrap()));
                l.push((0, told!(k))); let e = l.len() - 1;
                if l[e].1.2 != s { l[e].1.2 = s }
            } } }
        }
    })?;
    for (by, ((i, j, lo, up, f, env, parts), ends, conv, text)) in l {
        let by = ["constraint", "iter", "constraints_from", "constraints_to"][by];
        ensure!(i < n && j < n && i != j, "instants {i} and {j} told by {by} in a graph with {n} instants");
        let w = iv_raw(&g.timespan(i, j));
        ensure_eq!(cx, (lo, up), w, "bounds of the constraint from t{i} to t{j} told by {by}");
        ensure_eq!(cx, f, (false, lo != NEG, up != INF, lo != NEG && up != INF, w == (NEG, INF), lo == up, true, 1), "(empty, low bounded, up bounded, bounded, all, singleton, convex, parts) of {text} told by {by}");
        ensure_eq!(cx, (env, &parts[..]), (w, &[w][..]), "envelope and parts of {text} told by {by}");
        ensure_eq!(cx, (ends, conv), ((i, j), w), "pair to which {text} told by {by} converts");
    }
    cx.tag("read from a graph");
    Ok(())
}
fn case(cx: &mut Cx) -> R {
    let n = 2 + cx.rng.us(3);
    let src = Src::new(&mut cx.rng, n, 0);
    let base = src.con(&mut cx.rng, None, n);
    if base.i == base.j { return skip() }
    // constraints which look like the first one
    let mut v = vec![base, base.flip(&mut cx.rng)];
    for _ in 0..4 {
        let r = &mut cx.rng;
        let p = v[r.us(v.len())];
        let w = p.win().map(|(a, b)| match r.below(9) {
            0 => (fit(a as i128 + 1), b), 1 => (a, fit(b as i128 - 1)), 2 => (NEG, b), 3 => (a, INF), 4 => (-b, -a), 5 => (a, a.max(b)), 6 => (b, b), _ => (a, b),
        }).filter(|(a, b)| a <= b && *b != NEG && *a != INF);
        let w = if r.pct(4) { None } else { w };
        let (i, j) = match r.below(8) { 0 => (p.j, p.i), 1 => (p.i, (p.j + 1) % n as u32), 2 => ((p.i + 1) % n as u32, p.j), 3 => (r.us(n) as u32, r.us(n) as u32), _ => (p.i, p.j) };
        if i == j { continue }
        let w = if w.is_some_and(|(a, b)| (a == NEG) != (b == INF) && false) { None } else { w };
        v.push(Con { i, j, o: op_of(r, w) });
    }
    for c in &v { hcon(cx, c); cx.say(|| format!("{c:?}")); reads(cx, c)? }
    cx.nontrivial = v.iter().any(|c| c.win().is_some_and(|w| w != (NEG, INF)));
    for a in &v { for b in &v {
        let e = same_rel(a, b);
        let (p, q) = (*a, *b);
        // (two ways of writing an impossible constraint need not be equivalent)
        if a.win().is_none() && b.win().is_none() { continue }
        let own = Own(q.i, q.j, op_iv(q.o));
        let got = nopanic(|| format!("{a:?} equiv {b:?}"), || {
            let x = with_op!(TimeValue, p.o, w => ((p.i, p.j), w).equiv(&own));
            let y = with_op!(TimeValue, p.o, w => own.equiv(&((p.i, p.j), w)));
            (x, y, p.span().equiv(&q.span()))
        })?;
        ensure_eq!(cx, got, (e, e, e), "{a:?} equivalent to {b:?}");
        cx.tag(if !e { "not equivalent" } else if a.i == b.i { "equivalent" } else { "reversed" });
    } }
    let mut g = TimeGraph::with_size(n as u32);
    // (sums beyond the finite range are refused by a panic)
    let added = guarded(|| { for c in &v { if !c.propagate(&mut g).ok() { break } } g });
    if let Ok(g) = added { of_graph(cx, &g)? }
    // with the constraint which a graph tells, once it is the only one
    let k = v[cx.rng.us(v.len())];
    if let Some(w) = k.win() { if w != (NEG, INF) {
        let mut g = TimeGraph::with_size(n as u32);
        if k.propagate(&mut g).ok() {
            for (i, j) in [(k.i, k.j), (k.j, k.i)] {
                let Some(t) = g.constraint(i, j) else { return skip() };
                if iv_raw(&TimeSpan::from(g.constraint(i, j).unwrap())) != if i == k.i { w } else { rev(Some(w)).unwrap() } { return skip() }
                for c in &v { let c = *c; if c.win().is_none() { continue }
                    let e = same_rel(&k, &c);
                    ensure_eq!(cx, guarded(|| (t.equiv(&c.span()), with_op!(TimeValue, c.o, w => ((c.i, c.j), w).equiv(&t)))), Ok((e, e)), "{k:?} of a graph, read from t{i} to t{j}, equivalent to {c:?}");
                }
                // and adding an equivalent one changes nothing
                for c in &v { if same_rel(&k, c) { let mut h = g.clone(); ensure_eq!(cx, c.propagate(&mut h), Rep::Unchanged, "adding {c:?}, which is equivalent to {k:?}"); } }
            }
        }
    } }
    Ok(())
}
fn main() {
    run::main(Spec {
        id: "C32", quick: 4_000_000, thorough: 8_000_000,
        rule: "a case is distinct by its constraints; non trivial when one of them really constrains. All pairs are compared, in the type of each operand",
        case,
    })
}

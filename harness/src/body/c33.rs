use std::cell::Cell;
use std::rc::Rc;
type Iv = TimeInterval<T>;
/// what has been observed at a source
#[derive(Default)]
struct Log { calls: Cell<usize>, ended: Cell<bool>, again: Cell<usize> }
/// A source which logs what is taken from it; past the horizon it stops the run.
struct Tap { src: Box<dyn Iterator<Item = Iv>>, log: Rc<Log>, horizon: i64, hint: (usize, Option<usize>), junk: Iv }
impl Iterator for Tap {
    type Item = Iv;
    fn next(&mut self) -> Option<Iv> {
        self.log.calls.set(self.log.calls.get() + 1);
        // a source which begins again once finished: nobody should notice
        if self.log.ended.get() { self.log.again.set(self.log.again.get() + 1); return Some(self.junk) }
        let x = self.src.next();
        match &x {
            None => self.log.ended.set(true),
            Some(i) if i.lower_bound().tk() > self.horizon => panic!("horizon reached"),
            _ => {}
        }
        let (lo, hi) = &mut self.hint;
        if x.is_some() && *lo != usize::MAX { *lo = lo.saturating_sub(1); *hi = hi.map(|h| h.saturating_sub(1)) }
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) { self.hint }
}
impl TimeConvexIterator for Tap { type TimePoint = T; }
struct Dyn(Box<dyn Iterator<Item = Iv>>);
impl Iterator for Dyn {
    type Item = Iv;
    fn next(&mut self) -> Option<Iv> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
}
impl TimeConvexIterator for Dyn { type TimePoint = T; }
fn dy(it: impl Iterator<Item = Iv> + 'static) -> Dyn { Dyn(Box::new(it)) }

enum K { Source(Rc<Log>), Fixed, Or, And, Not, Shift }
struct Node {
    k: K, kids: Vec<Node>, name: String,
    /// what it yields (known up to the horizon), and if it finishes before the horizon
    raw: Raw, fin: bool,
    /// the end of the last interval known to be yielded (nothing may follow it, or not before the horizon)
    reach: i64,
}
const H: i64 = 3000; // past which sources stop the run
const KNOWN: i64 = H - 300; // up to which the yielded intervals are known
/// how many items may have been taken from each source when n intervals have
/// been yielded (and the end, maybe): those which begin before the end of the
/// last yielded one, and one more
fn bounds(n: &Node, out: usize, end: bool, acc: &mut Vec<(Rc<Log>, usize)>) {
    let x = if end {
        match n.k { K::And => n.kids.iter().filter(|k| k.fin).map(|k| k.raw.last().map_or(NEG, |x| x.1)).min().unwrap_or(INF), _ => INF }
    } else if out == 0 { i64::MIN } else { n.raw[out - 1].1 };
    // once a source of an union goes on up to +oo, there is nothing to wait from the others
    let x = if x == INF && matches!(n.k, K::Or) { n.kids.iter().filter(|k| k.fin).filter_map(|k| k.raw.last()).filter(|x| x.1 == INF).map(|x| x.0).min().unwrap_or(INF) } else { x };
    match &n.k {
        K::Fixed => return,
        K::Source(l) => return acc.push((l.clone(), out + end as usize + 1)),
        K::Shift => return bounds(&n.kids[0], out, end, acc),
        _ => {}
    }
    for k in &n.kids {
        if x == i64::MIN { bounds(k, 0, false, acc); continue }
        let m = k.raw.iter().take_while(|i| i.0 <= x.saturating_add(1)).count();
        if m < k.raw.len() && k.raw[m].1 <= k.reach { bounds(k, m + 1, false, acc) }
        else if k.fin { if m < k.raw.len() { bounds(k, m + 1, false, acc) } else { bounds(k, m, true, acc) } }
    }
}
fn sources(n: &Node, safe: bool, f: &mut impl FnMut(&Rc<Log>)) {
    let safe = safe || matches!(n.k, K::Or | K::And | K::Not);
    if let K::Source(l) = &n.k { if safe { f(l) } }
    for k in &n.kids { sources(k, safe, f) }
}
fn source(cx: &mut Cx) -> (Dyn, Node) {
    let log = Rc::new(Log::default());
    let (junk, horizon) = (iv((-50, 50)), H);
    let endless = cx.rng.pct(50);
    let mut t = match cx.rng.below(4) { 0 => 0, 1 => cx.rng.i(-60, 60), 2 => cx.rng.i(0, 12), _ => NEG };
    let (gap, width) = (cx.rng.i(1, 40), *cx.rng.pick(&[0, 1, 5, 30]));
    let mut v: Raw = vec![];
    let n = if endless { usize::MAX } else { *cx.rng.pick(&[0, 1, 1, 2, 3, 5, 8, 20]) };
    // regular slots of the library's own sequences
    if endless && t != NEG && cx.rng.pct(40) {
        let (p, w) = (gap.max(2), cx.rng.i(0, gap.max(2) - 2));
        if let Some(src) = periodic(t, p, w) {
            cx.h(t as u64); cx.h(p as u64); cx.h(w as u64);
            let mut x = t;
            while x <= H { v.push((x, x + w)); x += p }
            cx.nontrivial = true;
            let name = format!("endless slots of {w} each {p} from {t}");
            return (dy(Tap { src, log: log.clone(), horizon, hint: (usize::MAX, None), junk }), Node { k: K::Source(log), kids: vec![], name, raw: v, fin: false, reach: KNOWN });
        }
    }
    let mut u;
    while v.len() < n {
        u = if t == NEG { cx.rng.i(-80, 20) } else { t + cx.rng.i(0, width) };
        if !endless && v.len() + 1 == n && cx.rng.pct(15) { u = INF }
        v.push((t, u));
        if u == INF || u > H { break }
        t = u + 1 + cx.rng.i(1, gap);
        if endless && t > H { v.push((t, t)); break }
    }
    cx.hraw(&v); cx.h(endless as u64);
    if !v.is_empty() { cx.nontrivial = true }
    let w: Vec<Iv> = v.iter().map(|x| iv(*x)).collect();
    // (an endless one goes on, but the run stops there)
    let src: Box<dyn Iterator<Item = Iv>> = if endless { let last = *w.last().unwrap(); Box::new(w.into_iter().chain(std::iter::repeat(iv((H + 1, H + 1))))) } else { Box::new(w.into_iter()) };
    let hint = if endless { *cx.rng.pick(&[(usize::MAX, None), (0, None)]) } else { *cx.rng.pick(&[(0, None), (v.len(), Some(v.len())), (0, Some(v.len())), (0, Some(usize::MAX))]) };
    let name = format!("{} {:?}", if endless { "endless" } else { "finite" }, &v[..v.len().min(12)]);
    let fin = !endless;
    (dy(Tap { src, log: log.clone(), horizon, hint, junk }), Node { k: K::Source(log), kids: vec![], name, raw: v, fin, reach: if fin { INF } else { KNOWN } })
}
fn node(k: K, kids: Vec<Node>, name: String, raw: Raw) -> Node {
    let all = kids.iter().all(|k| k.fin);
    let fin = all || match k {
        // as soon as one is finished, the other having something beyond
        K::And => (0..2).any(|i| kids[i].fin && {
            let end = kids[i].raw.last().map_or(NEG, |x| x.1);
            let o = &kids[1 - i];
            o.reach > end
        }),
        K::Or => kids.iter().any(|k| k.fin && k.raw.last().is_some_and(|x| x.1 == INF && x.0 < KNOWN)) && {
            let low = kids.iter().filter(|k| k.fin).filter_map(|k| k.raw.last()).filter(|x| x.1 == INF).map(|x| x.0).min().unwrap();
            kids.iter().all(|k| k.reach > low)
        },
        _ => false,
    };
    let r = kids.iter().map(|k| k.reach).min().unwrap();
    let reach = if fin { INF } else { raw.iter().map(|x| x.1).take_while(|u| *u < r.saturating_sub(30)).last().unwrap_or(NEG) };
    Node { k, kids, name, raw, fin, reach }
}
fn tree(cx: &mut Cx, depth: usize) -> R<(Dyn, Node)> {
    if depth == 0 { return Ok(source(cx)) }
    let (m, a) = tree(cx, depth - 1)?;
    let k = cx.rng.below(10);
    cx.h(k);
    let n = a.name.clone();
    Ok(match k {
        0..=5 => {
            let d = cx.rng.us(depth);
            let (m2, b) = tree(cx, d)?;
            let n2 = b.name.clone();
            match k {
                0..=1 => { let r = union(&a.raw, &b.raw); (dy(m.union(m2)), node(K::Or, vec![a, b], format!("({n} | {n2})"), r)) }
                2..=4 => { let r = inter(&a.raw, &b.raw); (dy(m.intersection(m2)), node(K::And, vec![a, b], format!("({n} & {n2})"), r)) }
                _ => {
                    let (r, rb) = (excl(&a.raw, &b.raw), compl(&b.raw));
                    let nb = node(K::Not, vec![b], String::new(), rb);
                    (dy(m.exclusion(m2)), node(K::And, vec![a, nb], format!("({n} minus {n2})"), r))
                }
            }
        }
        6 => { let r = compl(&a.raw); (dy(m.complementary()), node(K::Not, vec![a], format!("!{n}"), r)) }
        7 => { let t = cx.rng.i(-20, 20); cx.h(t as u64); let r = msum(&a.raw, &[(t, t)]); (dy(m.translation(TimeValue::from_ticks(t))), node(K::Shift, vec![a], format!("({n} + {t})"), r)) }
        // a set or an interval
        _ => {
            let c = cx.rng.i(0, 400);
            let r2 = match cx.rng.below(4) { 0 => vec![(c, c + cx.rng.i(0, 300))], 1 => vec![(NEG, c)], 2 => vec![(c, INF)], _ => { let x = c + cx.rng.i(2, 50); vec![(c, c + 1), (x + 2, x + cx.rng.i(3, 300))] } };
            cx.hraw(&r2);
            let f = Node { k: K::Fixed, kids: vec![], name: String::new(), raw: r2.clone(), fin: true, reach: INF };
            let (u, i) = (union(&a.raw, &r2), inter(&a.raw, &r2));
            let one = r2.len() == 1 && cx.rng.pct(60);
            let w: Iv = iv(r2[0]);
            let s: TimeSet<T> = set_or_skip(&r2, cx.idx)?;
            let by_ref = cx.rng.pct(50);
            if cx.rng.pct(40) {
                let m = match (one, by_ref) { (true, true) => dy(m.union(&w)), (true, _) => dy(m.union(w)), (_, true) => dy(m.union(&s)), _ => dy(m.union(s)) };
                (m, node(K::Or, vec![a, f], format!("({n} | {r2:?})"), u))
            } else {
                let m = match (one, by_ref) { (true, true) => dy(m.intersection(&w)), (true, _) => dy(m.intersection(w)), (_, true) => dy(m.intersection(&s)), _ => dy(m.intersection(s)) };
                (m, node(K::And, vec![a, f], format!("({n} & {r2:?})"), i))
            }
        }
    })
}
fn laziness(cx: &mut Cx, n: &Node, out: usize, end: bool) -> R {
    let mut acc = vec![];
    bounds(n, out, end, &mut acc);
    for (l, max) in acc {
        cx.obs += 1;
        ensure!(l.calls.get() <= max, "{}: {} items were taken from a source although {max} are enough, once {out} intervals {}were yielded ({:?})", n.name, l.calls.get(), if end { "and the end " } else { "" }, &n.raw[..out]);
    }
    let mut again = 0;
    sources(n, false, &mut |l| again += l.again.get());
    ensure!(again == 0, "{}: a source which was finished is asked again ({out} intervals yielded)", n.name);
    Ok(())
}
pub fn case(cx: &mut Cx) -> R {
    let depth = match cx.rng.below(8) { 0..=2 => 1, 3..=5 => 2, 6 => 3, _ => 4 };
    let (mut m, n) = nopanic(|| "building a lazy composition".into(), || tree(cx, depth))??;
    cx.say(|| format!("{} yields {:?}… ({})", n.name, &n.raw[..n.raw.len().min(20)], if n.fin { "and finishes" } else { "on and on" }));
    cx.tag(if n.fin { "finishes" } else { "endless" });
    if n.fin { let mut e = false; fn any(n: &Node, e: &mut bool) { if matches!(n.k, K::Source(_)) && !n.fin { *e = true } for k in &n.kids { any(k, e) } } any(&n, &mut e); if e { cx.tag("finishes although a source is endless") } }
    laziness(cx, &n, 0, false)?;
    let known = if n.fin { n.raw.len() } else { n.raw.iter().take_while(|x| x.1 <= n.reach).count() };
    let steps = if cx.rng.pct(30) { usize::MAX } else { cx.rng.us(12) };
    let mut k = 0;
    loop {
        let (lo, hi) = nopanic(|| format!("{}: size_hint", n.name), || m.size_hint())?;
        let left = known - k;
        ensure!((!n.fin || lo <= left) && hi.is_none_or(|h| h >= left), "{}: announces ({lo},{hi:?}) after {k} intervals while it still yields {}{left}", n.name, if n.fin { "" } else { "at least " });
        if k == steps {
            // the others at once
            if n.fin {
                let s = nopanic(|| format!("{}: collecting the others", n.name), || m.collect::<TimeSet<T>>())?;
                ensure_eq!(cx, raw(&s), canon(&n.raw[k..]), "{} after {k} intervals, collected", n.name);
            }
            return Ok(());
        }
        match guarded(|| m.next()) {
            Err(e) if e.contains("horizon reached") => {
                cx.obs += 1;
                ensure!(!n.fin, "{}: goes on for ever once {k} intervals were yielded, while {}", n.name, if k < n.raw.len() { format!("{:?} is the next one", n.raw[k]) } else { "it should be finished".into() });
                ensure!(k >= known, "{}: goes on for ever while {:?} is the next interval", n.name, n.raw[k]);
                cx.tag("horizon");
                return Ok(());
            }
            Err(e) => return viol(format!("{}: panicked after {k} intervals: {e}", n.name)),
            Ok(Some(i)) => {
                if !n.fin && k >= known { return Ok(()) }
                ensure_eq!(cx, Some(iv_raw(&i)), n.raw.get(k).copied(), "{}: interval number {k}", n.name);
                k += 1;
                laziness(cx, &n, k, false)?;
            }
            Ok(None) => {
                if !n.fin { if n.raw.get(k).is_none_or(|x| x.1 >= KNOWN) { return Ok(()) } }
                ensure!(n.fin && k == n.raw.len(), "{}: finishes after {k} intervals, while {:?} is the next one", n.name, n.raw.get(k));
                laziness(cx, &n, k, true)?;
                let mut before = vec![];
                sources(&n, false, &mut |l| before.push(l.calls.get()));
                if !matches!(n.k, K::Source(_) | K::Shift) { for _ in 0..3 {
                    let x = nopanic(|| format!("{}: next once finished", n.name), || m.next())?;
                    ensure!(x.is_none(), "{}: yields {:?} once finished", n.name, x.map(|i| iv_raw(&i)));
                } }
                let mut after = vec![];
                sources(&n, false, &mut |l| after.push(l.calls.get()));
                ensure_eq!(cx, after, before, "{}: items taken from its sources, once finished and asked again", n.name);
                return Ok(());
            }
        }
    }
}

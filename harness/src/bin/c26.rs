//! Hostile sequences of safe calls. What decides is the instrumentation under
//! which this program runs (checked build, address sanitizer, Miri); the
//! program itself judges that out of range requests are answered as such.
use vh::*;
use chronologic::*;
use chronologic::graph::*;
use chronologic::iter::*;
use std::cell::Cell;

/// a constraint of the user's own, whose answers vary from one call to the next
struct Fickle { f: Cell<u32>, t: Cell<u32>, by: u32, w: (i64, i64), e: Cell<u32> }
impl Fickle { fn turn(c: &Cell<u32>, by: u32) -> u32 { let v = c.get(); c.set(v.wrapping_add(by) % (MAXG + 2)); v } }
impl TimeBounds for Fickle {
    type TimePoint = TimeValue;
    fn is_empty(&self) -> bool { let v = self.e.get(); self.e.set(v / 2); v % 2 == 1 }
    fn is_low_bounded(&self) -> bool { self.w.0 != NEG }
    fn is_up_bounded(&self) -> bool { self.w.1 != INF }
    fn lower_bound(&self) -> TimeValue { TimeValue::mk(self.w.0) }
    fn upper_bound(&self) -> TimeValue { TimeValue::mk(self.w.1) }
}
impl TimeConvex for Fickle {}
impl TimeConstraint for Fickle {
    fn from(&self) -> u32 { Fickle::turn(&self.f, self.by) }
    fn to(&self) -> u32 { Fickle::turn(&self.t, self.by) }
}
/// an iterator which lies about its size, and may panic on the way
struct Lying<I> { i: I, h: (usize, Option<usize>), bomb: Option<usize> }
impl<I: Iterator> Iterator for Lying<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if let Some(n) = &mut self.bomb { if *n == 0 { panic!("user panic") } *n -= 1 }
        self.i.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) { self.h }
}
fn lying<I: Iterator>(r: &mut Rng, i: I) -> Lying<I> {
    let h = *r.pick(&[(0, None), (0, Some(0)), (0, Some(1)), (1, Some(1)), (3, Some(2)), (7, Some(100)), (0, Some(usize::MAX))]);
    Lying { i, h, bomb: if r.pct(25) { Some(r.us(4)) } else { None } }
}
/// small values, and values next to every limit
fn hv(r: &mut Rng) -> i64 {
    match r.below(16) { 0 => INF, 1 => NEG, 2 => INF - 1, 3 => NEG + 1, 4 => r.i(NEG, INF), 5 => 1 << 62, 6 => -(1 << 62), 7 => r.i(-(1 << 62), 1 << 62), 8 => (1i64 << 31) * *r.pick(&[1, -1]), 9 => 0, _ => r.i(-60, 60) }
}
fn small(r: &mut Rng) -> i64 { r.i(-60, 60) }
fn wnd(r: &mut Rng) -> Op {
    let h = r.pct(20);
    let (a, b) = if h { (hv(r), hv(r)) } else { (small(r), small(r)) };
    let (a, b) = (a.min(b), a.max(b));
    let w = match r.below(10) { 0 => None, 1 => Some((NEG, b)), 2 => Some((a, INF)), 3 => Some((NEG, INF)), 4 => Some((a, a)), _ => Some((a, b)) };
    op_of(r, w.filter(|(a, b)| *a != INF && *b != NEG))
}
fn hset(r: &mut Rng) -> Raw {
    let n = r.us(6);
    canon(&(0..n).map(|_| { let a = if r.pct(15) { hv(r) } else { small(r) }; (a, a.saturating_add(r.i(0, 9)).min(INF)) }).collect::<Vec<_>>())
}
/// an instant, often around the end of the graph
fn idx(r: &mut Rng, n: u32) -> u32 {
    match r.below(14) { 0..=6 => r.below(n as u64 + 1) as u32, 7..=8 => n, 9 => n + r.below(4) as u32, 10 => n + r.below(60) as u32, 11 => n.wrapping_sub(1), 12 => if r.pct(10) { r.below(290) as u32 } else { r.below(12) as u32 }, _ => 0 }
}
/// an instant for a query only: any value at all
fn qidx(r: &mut Rng, n: u32) -> u32 { if r.pct(20) { *r.pick(&[u32::MAX, u32::MAX - 1, 65535, 65536, 65537, 46341, 1 << 31, 4096, n + 1, n * 2]) } else { idx(r, n) } }
const MAXG: u32 = if cfg!(miri) { 11 } else { 300 };
fn con(r: &mut Rng, n: u32) -> Con { Con { i: idx(r, n).min(MAXG), j: idx(r, n).min(MAXG), o: wnd(r) } }

struct W { g: Vec<TimeGraph>, s: Vec<TimeSpans>, d: Vec<TimeSlots> }
/// a call; a panic is an answer
fn call<A>(cx: &mut Cx, name: &'static str, what: impl Fn() -> String, f: impl FnOnce() -> A) -> Option<A> {
    cx.say(|| format!("{name} {}", what()));
    cx.tag(name);
    cx.obs += 1;
    match guarded(f) { Ok(a) => Some(a), Err(m) => { if m.contains("with overflow") { OVERFLOW.with(|o| *o.borrow_mut() = Some(format!("{name} {}: {m}", what()))) } cx.tag("panics"); cx.say(|| format!("(panic: {m})")); None } }
}
thread_local! { static OVERFLOW: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) }; }
fn out<A>(v: A) { std::hint::black_box(v); }
fn graph_op(cx: &mut Cx, w: &mut W) -> R {
    let p = cx.rng.us(w.g.len());
    let n = w.g[p].size();
    let small_pool = cfg!(miri);
    match cx.rng.below(22) {
        0..=5 => { let c = con(&mut cx.rng, n); call(cx, "propagate", || format!("{c:?}"), || rep_any(&mut w.g[p], c)); }
        6 => {
            let f = Fickle { f: Cell::new(idx(&mut cx.rng, n)), t: Cell::new(idx(&mut cx.rng, n)), by: *cx.rng.pick(&[0, 1, 2, 7, 50, 111, 290]), w: { let o = wnd(&mut cx.rng); if o.empty() { (1, 3) } else { (o.a, o.b) } }, e: Cell::new(cx.rng.below(16) as u32) };
            let few = small_pool || cx.rng.pct(90);
            if few { f.f.set(f.f.get() % (MAXG + 1).min(40)); f.t.set(f.t.get() % (MAXG + 1).min(40)); }
            let by = if few { f.by.min(50) } else { f.by };
            let f = Fickle { by, ..f };
            let way = cx.rng.below(2);
            let (x, y) = (f.f.get(), f.t.get());
            call(cx, "propagate a fickle constraint", || format!("from {x} to {y} by {by}"), || if way == 0 { out(w.g[p].propagate(f).is_ok()) } else { out(w.g[p].extend(vec![f]).is_ok()) });
        }
        7..=8 => { let k = cx.rng.us(6); let v: Vec<Con> = (0..k).map(|_| con(&mut cx.rng, n)).collect(); let r = cx.rng.clone();
            let o = call(cx, "extend", || format!("{v:?}"), || { let mut r = r; let i = lying(&mut r, v.iter().map(|c| c.span())); out(w.g[p].extend(i).is_ok()) }); cx.rng.u64();
            if o.is_none() {
                // abandoned by the user's panic: what it holds is unspecified, but it is still safe to look at it
                call(cx, "look at an abandoned graph", String::new, || { let g = &w.g[p]; let n = g.size(); for i in 0..n.min(20) { for j in 0..=n.min(20) { out((g.timespan(i, j), g.constraint(j, i).is_some())) } } out((g.iter().take(500).count(), format!("{g:?}").len() )); let mut h = g.clone(); h.shrink_to_fit(); h.resize(n + 3); out(h.iter().take(500).count()) });
                w.g[p].reset();
            } }
        9 => { let q = cx.rng.us(w.g.len()); call(cx, "merge", || format!("{q}"), || { let o = w.g[q].clone(); out(w.g[p].merge(o).is_ok()) }); }
        10..=11 => { let k = match cx.rng.below(10) { 0 => 0, 1..=5 => idx(&mut cx.rng, n), 6 => n / 2, _ => cx.rng.below(20) as u32 }.min(MAXG); call(cx, "resize", || format!("{k}"), || w.g[p].resize(k)); }
        12 => { call(cx, "shrink_to_fit", String::new, || w.g[p].shrink_to_fit()); }
        13 => { let k = qidx(&mut cx.rng, n); call(cx, "shrink_to", || format!("{k}"), || w.g[p].shrink_to(k)); }
        14 => { call(cx, "reset", String::new, || w.g[p].reset()); }
        15 => { call(cx, "clone and drop", String::new, || { let c = w.g[p].clone(); w.g[p] = c }); }
        16 => { call(cx, "collect a graph", String::new, || { let c: TimeGraph = w.g[p].iter().collect(); w.g[p] = c }); }
        _ => {
            for _ in 0..4 {
                let (i, j) = (qidx(&mut cx.rng, n), qidx(&mut cx.rng, n));
                let o = call(cx, "query", || format!("(t{i},t{j}) of {n}"), || {
                    let g = &w.g[p];
                    (g.timespan(i, j), g.instant_cmp(i, j), g.are_distinct_instants(i, j), g.constraint(i, j).is_some(), (i >= n || g.constraints_from(i).take(2000).count() < 2000) && (j >= n || g.constraints_to(j).take(2000).count() < 2000),
                     if i >= n { g.constraints_from(i).next().is_some() || g.constraints_to(i).next().is_some() } else { false })
                });
                match o {
                    None => return viol(format!("a query about (t{i},t{j}) of a graph of {n} instants panics")),
                    Some((t, c, d, k, fin, x)) => {
                        ensure!(fin, "constraints around (t{i},t{j}) of a graph of {n} instants never end");
                        if i >= n || j >= n { ensure!(t == TimeSpan::all() && c.is_none() && !d && !k && !x, "outside of a graph of {n} instants, (t{i},t{j}) is answered {t:?} {c:?} {d} {k} {x}") }
                    }
                }
            }
            if n <= 60 { call(cx, "text of a graph", String::new, || out((format!("{:?}", w.g[p]).len(), format!("{}", w.g[p]).len(), w.g[p].iter().map(|k| format!("{k:?}{k}").len()).sum::<usize>()))); }
        }
    }
    // every cell which is reachable
    let n = w.g[p].size();
    if n <= if small_pool { 6 } else { 60 } {
        let mut x = 0i64;
        for i in 0..n { for j in 0..n { x = x.wrapping_add(w.g[p].timespan(i, j).lower_bound().tk()) } }
        out(x);
        let c = w.g[p].clone();
        out(c.iter().count());
    }
    Ok(())
}
fn rep_any(g: &mut TimeGraph, c: Con) { out(c.propagate(g).ok()) }
fn sched_ops(cx: &mut Cx, w: &mut W) -> R {
    let p = cx.rng.us(w.g.len());
    let g = w.g[p].clone();
    let n = g.size();
    if n > 40 { return Ok(()) }
    if cx.verbose { let t = format!("{g:?}"); cx.say(|| t) }
    let mut s = match call(cx, "schedule", || format!("{n} instants"), || TimeScheduler::new(&g)) { Some(s) => s, None => return viol("a new scheduler panics") };
    for _ in 0..1 + cx.rng.us(6) {
        let i = if cx.rng.pct(70) && n > 0 { cx.rng.below(n as u64) as u32 } else { qidx(&mut cx.rng, n) };
        let o = wnd(&mut cx.rng);
        let r = hset(&mut cx.rng);
        let t = Timestamp::mk(if cx.rng.pct(30) { hv(&mut cx.rng) } else { small(&mut cx.rng) });
        let rt = cx.rng.below(4);
        let k = cx.rng.below(9);
        let ok = call(cx, "restrict", || format!("t{i} of {n} with {o:?}, {r:?} or {t:?} ({k})"), || match k {
            0..=2 => s.retain(i, op_iv::<Timestamp>(o)).is_ok() as u8,
            3 => match set::<Timestamp>(&r, rt) { Some(x) => s.retain(i, x).is_ok() as u8, None => 9 },
            4 => s.remove(i, op_iv::<Timestamp>(o)).is_ok() as u8,
            5 => match set::<Timestamp>(&r, rt) { Some(x) => s.remove(i, x).is_ok() as u8, None => 9 },
            6 => { out(s.set_deadline(t).is_ok()); 9 }
            7 => { out(s.set_startline(t).is_ok()); 9 }
            _ => { s = s.clone(); 9 }
        });
        // (an instant outside is refused, before anything else)
        if i >= n && ok.is_some_and(|x| x != 9) { return viol(format!("a restriction of t{i}, outside of the {n} instants, is answered {ok:?}")) }
        let l = s.schedule().len();
        ensure!(l == n as usize && s.scheduling(n).is_none() && s.scheduling(u32::MAX).is_none() && (i >= n) == s.scheduling(i).is_none(), "a scheduler of {n} instants tells {l} slots, or none for an instant of its own");
        call(cx, "read slots", String::new, || { out(slots(&s)); if n > 0 { out((s.latest_beginning(), s.earliest_ending())) } if !cfg!(miri) { out(format!("{s:?}{s}").len()) } });
    }
    Ok(())
}
fn set_ops<T: Pt + std::ops::Neg<Output = T> + std::ops::BitAnd<TimeInterval<T>, Output = TimeInterval<T>>>(cx: &mut Cx, v: &mut Vec<TimeSet<T>>, more: fn(&mut Cx, &mut TimeSet<T>)) {
    let (p, q) = (cx.rng.us(v.len()), cx.rng.us(v.len()));
    let o = wnd(&mut cx.rng);
    let i: TimeInterval<T> = op_iv(o);
    let t = T::mk(if cx.rng.pct(30) { hv(&mut cx.rng) } else { small(&mut cx.rng) });
    let d = || format!("{o:?} {t:?}");
    let b = v[q].clone();
    let a = &mut v[p];
    let r: Option<TimeSet<T>> = match cx.rng.below(22) {
        0 => call(cx, "union", d, || &*a | &b), 1 => call(cx, "intersection", d, || &*a & &b), 2 => call(cx, "complement", d, || !b), 3 => call(cx, "negation", d, || -b),
        4 => { call(cx, "in-place union", d, || *a |= b); None } 5 => { call(cx, "in-place intersection", d, || *a &= b); None }
        6 => { call(cx, "in-place union with an interval", d, || *a |= i); None } 7 => { call(cx, "in-place intersection with an interval", d, || *a &= i); None }
        8 => { call(cx, "truncate before", d, || a.truncate_before(t)); None } 9 => { call(cx, "truncate after", d, || a.truncate_after(t)); None }
        10 => { call(cx, "shrink a set", d, || a.shrink_to_fit()); None }
        11 => { let mut r = cx.rng.clone(); let x = call(cx, "collect", d, || lying(&mut r, a.iter().chain(b.iter()).chain([i, TimeInterval::empty()])).collect::<TimeSet<T>>()); cx.rng.u64(); x }
        12 => call(cx, "collect sets", d, || [a.clone(), b, TimeSet::from(i), TimeSet::empty()].into_iter().collect::<TimeSet<T>>()),
        13 => call(cx, "lazy", d, || a.iter().union(b.iter().complementary()).intersection(i.iter()).exclusion(a.iter()).collect()),
        14 => { call(cx, "past the end", d, || { let mut x = a.iter().union(b.iter()); for _ in 0..40 { out(x.next()); out(x.size_hint()); } let mut y = b.iter().complementary(); for _ in 0..40 { out(y.next()); out(y.size_hint()); } }); None }
        15 => { call(cx, "questions", d, || out((a.is_empty(), a.is_singleton(), a.is_bounded(), a.is_low_bounded(), a.is_up_bounded(), a.is_all(), a.is_convex(), a.convex_count()))); None }
        16 => { call(cx, "bounds", d, || { out(a.convex_envelope()); if !a.is_empty() { out((a.lower_bound(), a.upper_bound())) } }); call(cx, "bounds of maybe nothing", d, || out((a.lower_bound(), a.upper_bound()))); None }
        17 => { call(cx, "relations", d, || out((TimeContaining::contains(&*a, &b), a.overlaps(&b), TimeContaining::contains(&*a, &i), a.overlaps(&i), TimeContaining::contains(&i, &TimeInterval::singleton(t)), TimeContaining::contains(&i, &*a), *a == b, (*a).partial_cmp(&b), *a == i))); None }
        18 => { call(cx, "text", d, || out(format!("{a:?}{a}{i:?}{i}{t:?}{t}").len())); call(cx, "text in a format", d, || out((i.format_timeset("%F %T%.f"), i.format_timeset("%Q %"), a.format_timeset("%s")))); None }
        19 => call(cx, "constructors", d, || { let _ = TimeInterval::new(t, i.lower_bound()).convex_envelope(); out((TimeInterval::after(t), TimeInterval::before(t), TimeInterval::singleton(t))); TimeSet::convex(t, i.upper_bound()) }),
        20 => { let x = iv::<T>((if o.empty() { 3 } else { o.a }, if o.empty() { 1 } else { o.b })); call(cx, "interval", d, || { let mut x = x; out(x.truncate_after(t)); out(x.truncate_before(t)); out(-x); TimeSet::from(x) }) }
        _ => { more(cx, a); None }
    };
    if let Some(r) = r { if r.convex_count() < 64 { if v.len() < 5 { v.push(r) } else { v[p] = r } } }
    if v[p].convex_count() > 64 { v[p] = TimeSet::empty() }
}
fn spans(cx: &mut Cx, a: &mut TimeSpans) {
    let o = wnd(&mut cx.rng);
    let i: TimeSpan = op_iv(o);
    let f = *cx.rng.pick(&[0.0, -0.0, 1.0, -1.5, 1e300, -1e300, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e-300, f64::MIN_POSITIVE]);
    let k = *cx.rng.pick(&[0i64, 1, -1, 2, 7, -9, 1 << 40, i64::MAX, i64::MIN, i64::MAX - 1]);
    let t = TimeValue::mk(hv(&mut cx.rng));
    let d = || format!("{o:?} by {f} or {k}, {t:?}");
    let x = a.clone();
    match cx.rng.below(12) {
        0 => { if let Some(r) = call(cx, "set * integer", d, || x * k) { *a = r } }
        1 => { if let Some(r) = call(cx, "set / integer", d, || x / k) { *a = r } }
        2 => { if let Some(r) = call(cx, "set * float", d, || x * f) { *a = r } }
        3 => { if let Some(r) = call(cx, "set / float", d, || x / f) { *a = r } }
        4 => { if let Some(r) = call(cx, "set + interval", d, || x + i) { *a = r } }
        5 => { call(cx, "interval arithmetic", d, || out((i * k, i + i))); call(cx, "interval * float", d, || out((i * f, i / f))); call(cx, "interval / integer", d, || out(i / k)); }
        6 => { call(cx, "in-place translation", d, || *a += t); }
        7 => { call(cx, "in-place scaling", d, || { *a *= k; }); }
        8 => { call(cx, "duration arithmetic", d, || out(t + t)); call(cx, "duration * integer", d, || out(t * k)); call(cx, "duration / integer", d, || out(t / k)); call(cx, "duration * float", d, || out((t * f, t / f))); }
        9 => { let p = TimeValue::mk(hv(&mut cx.rng)); call(cx, "rounding", d, || out((t.floor(p), t.ceil(p)))); call(cx, "units", d, || out((t.years(), t.months(), t.secs(), t.nanos(), k.years(), k.nanos(), f.hours_or()))); }
        10 => { call(cx, "conversions", d, || { let c: chrono::Duration = t.into(); out(TimeValue::from(c)); out((t.as_secs(), t.subsec_millis(), t.subsec_micros(), t.subsec_nanos())) }); call(cx, "standard duration", d, || out(std::time::Duration::from(t))); }
        _ => { call(cx, "enlarge", d, || out((i.enlarge(t), TimeSpan::centered(t, i.upper_bound())))); }
    }
}
trait Hours { fn hours_or(self) -> TimeValue; }
impl Hours for f64 { fn hours_or(self) -> TimeValue { TimeValue::mk(self as i64) } }
fn dates(cx: &mut Cx, a: &mut TimeSlots) {
    let o = wnd(&mut cx.rng);
    let i: TimeSlot = op_iv(o);
    let t = Timestamp::mk(hv(&mut cx.rng));
    let p = TimeValue::mk(hv(&mut cx.rng));
    let d = || format!("{o:?} {t:?} {p:?}");
    let x = a.clone();
    match cx.rng.below(8) {
        0 => { if let Some(r) = call(cx, "dates + duration", d, || x + p) { *a = r } }
        1 => { call(cx, "interval of dates", d, || out((i.duration(), i + p))); call(cx, "difference", d, || out(i - i)); }
        2 => { let n = cx.rng.u64() as usize; for k in 0..4 { call(cx, "sequence", d, || match k {
            0 => { let mut s = t.forward_sequence(p); out((s.next(), s.nth(n), s.next(), s.size_hint(), s.count())) }
            1 => { let mut s = t.backward_sequence(p); out((s.next(), s.nth(n), s.next(), s.size_hint(), s.count())) }
            2 => { let mut s = t.forward_periods(p); out((s.next(), s.nth(n), s.next(), s.size_hint(), s.last())) }
            _ => { let mut s = t.backward_periods(p); out((s.next(), s.nth(n), s.next(), s.size_hint(), s.last())) }
        }); } }
        3 => { call(cx, "calendar", d, || { let x = t.to_datetime(); out(Timestamp::from(x)); out(x.to_rfc2822()) }); }
        4 => { let k = cx.rng.us(4); let f = ["%Y-%m-%d", "%+", "%", "%!%Q%9f"][k]; call(cx, "formatted date", d, || out((t.format_timepoint(f), x.format_timeset(f)))); }
        5 => { call(cx, "rounded date", d, || out((t.floor(p), t.ceil(p)))); }
        6 => { call(cx, "just after", d, || out((t.just_after(), t.just_before(), -t, t.elapsed()))); }
        _ => { call(cx, "enlarge a slot", d, || out((i.enlarge(p), TimeSlot::centered(t, p)))); }
    }
}
fn case(cx: &mut Cx) -> R {
    no_alloc_budget();
    let mut w = W { g: vec![], s: vec![], d: vec![] };
    for _ in 0..1 + cx.rng.us(2) { let n = if cx.rng.pct(85) { cx.rng.below(6) } else { cx.rng.below(if cfg!(miri) { 9 } else { 40 }) }; cx.h(n); w.g.push(TimeGraph::with_size(n as u32)) }
    for _ in 0..3 { let (r, q) = (hset(&mut cx.rng), hset(&mut cx.rng)); cx.hraw(&r); w.s.push(set::<TimeValue>(&r, 0).unwrap_or(TimeSet::empty())); w.d.push(set::<Timestamp>(&q, 1).unwrap_or(TimeSet::empty())) }
    let n = if cfg!(miri) { 14 } else { 8 + cx.rng.us(40) };
    let focus = cx.rng.below(4);
    for _ in 0..n {
        match if cx.rng.pct(60) { focus } else { cx.rng.below(4) } {
            0 => graph_op(cx, &mut w)?,
            1 => sched_ops(cx, &mut w)?,
            2 => set_ops(cx, &mut w.s, spans),
            _ => set_ops(cx, &mut w.d, dates),
        }
        if let Some(m) = OVERFLOW.with(|o| o.take()) { return viol(format!("{m}")) }
        for g in &mut w.g { if g.size() > 200 && cx.rng.pct(60) { g.resize(20) } }
    }
    cx.h(cx.rng.clone().u64());
    cx.nontrivial = true;
    Ok(())
}
/// Requests far too big for the memory: run in a process of its own, in which
/// allocations over 1 GiB fail.
const PROBES: u32 = 34;
fn probe(k: u32) {
    limit_alloc(1 << 30);
    let big = [65_535, 65_536, 65_537, 70_000, 92_682, 131_072, 1 << 20, 1 << 24, 1 << 31, u32::MAX - 1, u32::MAX];
    let n = big[(k % 11) as usize];
    let one = |i, j| ((i, j), TimeValue::mk(1)..=TimeValue::mk(5));
    let mut g = TimeGraph::with_size(3);
    let _ = g.propagate(one(0, 1));
    match k / 11 {
        0 => { g.resize(n); }
        1 => { let _ = g.propagate(one(1, n)); }
        2 => { let _ = g.extend(vec![one(1, 2), one(n, 2), one(0, n)]); }
        _ => { g.shrink_to(u32::MAX); g = TimeGraph::with_size(65_536) }
    }
    // it has been possible
    let n = g.size();
    println!("size {n}");
    for i in [0, 1, 2, n / 2, n.saturating_sub(2), n.saturating_sub(1), n] { for j in [0, 1, n / 3, n.saturating_sub(1), n] { out((g.timespan(i, j), g.instant_cmp(i, j))) } }
    let _ = g.propagate(one(n - 1, 0));
    out(g.timespan(n - 1, 1));
    g.shrink_to_fit();
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("--probe") { probe(a[2].parse().unwrap()); return }
    if a.get(1).map(|s| s.as_str()) == Some("--probes") { println!("{PROBES}"); return }
    run::main(Spec {
        id: "C26", quick: 150_000, thorough: 4_000_000,
        rule: "a case is distinct by its initial objects and random sequence of hostile safe calls (each one being an observation; a panic is an answer, a crash is not)",
        case,
    })
}

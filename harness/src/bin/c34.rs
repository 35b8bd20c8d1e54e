use chronologic::graph::*;
use chronologic::iter::*;
use chronologic::*;
use vh::*;

type G = TimeGraph;
type S = TimeSet<TimeValue>;
fn v(t: i64) -> TimeValue { TimeValue::from_ticks(t) }

/// what is measured: the instructions executed here are counted by callgrind
#[no_mangle]
#[inline(never)]
pub fn vp_measured(f: &mut dyn FnMut()) { f() }
fn measured<A>(f: impl FnOnce() -> A) -> A {
    let (mut f, mut r) = (Some(f), None);
    vp_measured(&mut || r = Some((f.take().unwrap())()));
    r.unwrap()
}
fn d(t: i64) -> Timestamp { Timestamp::from_origin(v(t)) }
fn keep<A>(a: A) { std::hint::black_box(a); }

/// dates of n instants
fn dates(n: u32) -> Vec<i64> { let mut r = Rng::new(7, n as u64); (0..n).map(|_| r.i(0, 1 << 30)).collect() }
type K = ((Instant, Instant), std::ops::RangeInclusive<TimeValue>);
/// constraints around the dates: the sparse ones, then all pairs
fn sparse(n: u32, d: &[i64]) -> Vec<K> {
    let mut r = Rng::new(8, n as u64);
    (0..3 * n).map(|_| { let (i, j) = (r.us(n as usize), r.us(n as usize)); let w = d[j] - d[i]; let (a, b) = if i == j { (0, 0) } else { (r.i(0, 1000), r.i(0, 1000)) }; ((i as u32, j as u32), v(w - a)..=v(w + b)) }).collect()
}
fn dense(n: u32, d: &[i64]) -> Vec<K> {
    let mut r = Rng::new(9, n as u64);
    let mut o = vec![];
    for i in 0..n { for j in 0..n { if i != j { let w = d[j as usize] - d[i as usize]; o.push(((i, j), v(w - r.i(0, 100000))..=v(w + r.i(0, 100000)))) } } }
    o
}
fn graph(n: u32) -> G { let mut g = G::with_size(n); g.extend(sparse(n, &dates(n))).unwrap(); g }
fn chain(n: u32) -> G { let mut g = G::with_size(n); g.extend((1..n).map(|i| ((i - 1, i), v(1)..=v(10)))).unwrap(); g }
fn set(n: u32, seed: u64) -> S { let mut r = Rng::new(10, seed * 100000 + n as u64); let mut t = 0; (0..n).map(|_| { t += r.i(3, 20); let a = t; t += r.i(0, 10); TimeInterval::new(v(a), v(t)) }).collect() }

/// a chain with one more constraint
fn tighter(n: u32) -> G { let mut g = chain(n); keep(g.propagate(((0, n - 1), v(3 * n as i64)..=v(5 * n as i64)))); g }
type Sc = (&'static str, f64, [u32; 2], fn(u32));
/// a graph of n instants with few constraints
fn some(n: u32) -> G { let d = dates(n); let mut g = G::with_size(n); for q in 0..12 { let (i, j) = (q * n / 13, n - 1 - q * n / 14); let w = d[j as usize] - d[i as usize]; keep(g.propagate(((i, j), v(w - 5)..=v(w + 5)))) } g }
fn sch(g: &G) -> TimeScheduler<'_> { TimeScheduler::new(g) }
/// name, exponent of the size in the cost, sizes compared, what is done
const SC: &[Sc] = &[
    ("a constraint which tightens every window", 2., [64, 256], |n| { let mut g = chain(n); measured(|| keep(g.propagate(((0, n - 1), v(n as i64)..=v(n as i64 + 1))))) }),
    ("a constraint which tightens every window backward", 2., [64, 256], |n| { let mut g = chain(n); measured(|| keep(g.propagate(((n - 1, 0), ..=v(-5 * n as i64))))) }),
    ("constraints which tighten the graph more and more", 2., [64, 256], |n| { let mut g = chain(n); measured(|| for k in 0..8i64 { let (i, j) = (k as u32 * n / 20, n - 1 - k as u32 * n / 24); let w = (j - i) as i64; keep(g.propagate(((i, j), v(w + w * k / 16)..=v(10 * w - w * k / 2)))); keep(g.propagate(((j, i), v(w * k / 2 + w / 8 - 10 * w)..))) }) }),
    ("an entailed constraint", 2., [64, 256], |n| { let mut g = chain(n); measured(|| keep(g.propagate(((0, n - 1), v(0)..)))) }),
    ("a refused constraint", 2., [64, 256], |n| { let mut g = chain(n); measured(|| keep(g.propagate(((0, n - 1), ..v(3))))) }),
    ("a constraint of an instant with itself", 2., [64, 256], |n| { let mut g = chain(n); measured(|| { keep(g.propagate(((n / 2, n / 2), v(-3)..=v(3)))); keep(g.propagate(((n / 3, n / 3), v(1)..=v(3)))) }) }),
    ("a constraint on a new instant", 2., [64, 256], |n| { let mut g = chain(n); measured(|| keep(g.propagate(((n, 0), v(3)..=v(7))))) }),
    ("a constraint which creates all the instants", 2., [64, 256], |n| { let mut g = G::default(); measured(|| keep(g.propagate(((n, 0), v(3)..=v(7))))) }),
    ("n constraints added one by one on new instants", 3., [32, 128], |n| { let mut g = G::default(); measured(|| for i in 1..n { keep(g.propagate(((i - 1, i), v(1)..=v(3)))) }) }),
    ("a batch of one constraint", 2., [64, 256], |n| { let mut g = chain(n); measured(|| keep(g.extend(Some(((0, n - 1), v(n as i64)..=v(n as i64 + 1)))))) }),
    ("a sparse batch", 3., [32, 128], |n| { let k = sparse(n, &dates(n)); let mut g = G::default(); measured(|| keep(g.extend(k))) }),
    ("a dense batch", 3., [32, 128], |n| { let k = dense(n, &dates(n)); let mut g = G::default(); measured(|| keep(g.extend(k))) }),
    ("a dense batch on a populated graph", 3., [32, 128], |n| { let k = dense(n, &dates(n)); let mut g = graph(n); measured(|| keep(g.extend(k))) }),
    ("a batch which brings nothing", 3., [32, 128], |n| { let k = sparse(n, &dates(n)); let mut g = graph(n); measured(|| keep(g.extend(k))) }),
    ("a refused batch", 3., [32, 128], |n| { let mut k = dense(n, &dates(n)); k.push(((n - 1, n - 2), v(1 << 50)..=v(1 << 51))); let mut g = G::with_size(n); measured(|| keep(g.extend(k))) }),
    ("the constraints of a graph added to another", 3., [32, 128], |n| { let a = graph(n); let mut g = G::default(); measured(|| keep(g.extend(a.iter()))) }),
    ("a merge", 3., [32, 128], |n| { let a = graph(n); let mut b = G::with_size(n); keep(b.extend(dense(n, &dates(n)))); measured(|| keep(b.merge(a))) }),
    ("a merge with a bigger graph", 3., [32, 128], |n| { let a = chain(n); let mut b = tighter(n / 2); measured(|| keep(b.merge(a))) }),
    ("a merge with a smaller graph", 3., [32, 128], |n| { let mut a = chain(n); let b = tighter(n / 2); measured(|| keep(a.merge(b))) }),
    ("a merge which brings nothing", 3., [32, 128], |n| { let mut a = graph(n); let b = a.clone(); measured(|| keep(a.merge(b))) }),
    ("a clone", 2., [64, 256], |n| { let g = some(n); measured(|| keep(g.clone())) }),
    ("a reset", 2., [64, 256], |n| { let mut g = some(n); measured(|| g.reset()) }),
    ("a resize", 2., [64, 256], |n| { let mut g = some(n); measured(|| { g.resize(n / 2); g.resize(2 * n) }) }),
    ("a shrink", 2., [64, 256], |n| { let mut g = some(n); g.resize(2 * n); measured(|| g.shrink_to_fit()) }),
    ("queries", 0., [64, 1024], |n| { let g = some(n); measured(|| { keep(g.constraint(n / 2, n - 1)); keep(g.timespan(n - 1, n / 3)); keep(g.instant_cmp(1, n - 1)); keep(g.are_distinct_instants(n - 2, n / 2)); keep(g.size()) }) }),
    ("the constraints from an instant, and to an instant", 1., [256, 1024], |n| { let g = some(n); measured(|| { keep(g.constraints_from(n / 2).count()); keep(g.constraints_to(n / 2).count()) }) }),
    ("all the constraints", 2., [64, 256], |n| { let g = some(n); measured(|| keep(g.iter().count())) }),
    ("the text of a graph", 2., [32, 128], |n| { let g = graph(n); measured(|| keep(g.to_string())) }),
    ("a new scheduler, and its clone", 1., [128, 512], |n| { let g = some(n); measured(|| { let s = sch(&g); keep(s.clone()); keep(s) }) }),
    ("a window retained in a scheduler", 2., [32, 128], |n| { let g = chain(n); let mut s = sch(&g); measured(|| keep(s.retain(0, d(0)..=d(100)))) }),
    ("a second window retained in a scheduler", 2., [32, 128], |n| { let g = chain(n); let mut s = sch(&g); keep(s.retain(n / 2, d(0)..=d(100))); measured(|| keep(s.retain(n / 2, d(0)..=d(50)))) }),
    ("a refused window in a scheduler", 2., [32, 128], |n| { let g = chain(n); let mut s = sch(&g); keep(s.retain(n / 2, d(0)..=d(100))); measured(|| keep(s.retain(n / 3, d(1 << 50)..))) }),
    ("the slots of a scheduler", 0., [64, 1024], |n| { let g = some(n); let s = sch(&g); measured(|| { keep(s.scheduling(n / 2)); keep(s.schedule().len()) }) }),
    ("a set collected from sorted intervals", 1., [1000, 4000], |n| { let w: Vec<_> = set(n, 1).into_iter().collect(); measured(|| keep(w.into_iter().collect::<S>())) }),
    ("a | b", 1., [1000, 4000], |n| { let (a, b) = (set(n, 1), set(n, 2)); measured(|| keep(a | b)) }),
    ("&a | &b", 1., [1000, 4000], |n| { let (a, b) = (set(n, 1), set(n, 2)); measured(|| keep(&a | &b)) }),
    ("a |= b", 1., [1000, 4000], |n| { let (mut a, b) = (set(n, 1), set(n, 2)); measured(|| a |= b) }),
    ("a | interval", 1., [1000, 4000], |n| { let a = set(n, 1); measured(|| keep(a | TimeInterval::new(v(3 * n as i64), v(5 * n as i64)))) }),
    ("a & b", 1., [1000, 4000], |n| { let (a, b) = (set(n, 1), set(n, 2)); measured(|| keep(a & b)) }),
    ("&a & &b", 1., [1000, 4000], |n| { let (a, b) = (set(n, 1), set(n, 2)); measured(|| keep(&a & &b)) }),
    ("a &= b", 1., [1000, 4000], |n| { let (mut a, b) = (set(n, 1), set(n, 2)); measured(|| a &= b) }),
    ("a & interval", 1., [1000, 4000], |n| { let a = set(n, 1); measured(|| keep(a & TimeInterval::new(v(3 * n as i64), v(9 * n as i64)))) }),
    ("!a", 1., [1000, 4000], |n| { let a = set(n, 1); measured(|| keep(!a)) }),
    ("-a", 1., [1000, 4000], |n| { let a = set(n, 1); measured(|| keep(-a)) }),
    ("a + duration", 1., [1000, 4000], |n| { let a = set(n, 1); measured(|| keep(a + v(5))) }),
    ("a contains an instant, overlaps an interval", 1., [1000, 4000], |n| { let a = set(n, 1); measured(|| { keep(a.contains(&v(9 * n as i64))); keep(a.overlaps(&TimeInterval::new(v(11 * n as i64), v(11 * n as i64)))) }) }),
    ("a == b", 1., [1000, 4000], |n| { let (a, b) = (set(n, 1), set(n, 1)); measured(|| keep(a == b)) }),
    ("a truncated", 1., [2000, 8000], |n| { let mut a = set(n, 1); measured(|| { keep(a.truncate_before(v(3 * n as i64))); keep(a.truncate_after(v(6 * n as i64))) }) }),
    ("a lazy composition", 1., [1000, 4000], |n| { let (a, b, c) = (set(n, 1), set(n, 2), set(n, 3)); measured(|| keep((&a).into_iter().union((&b).into_iter()).intersection((&c).into_iter().complementary()).translation(v(3)).exclusion((&a).into_iter()).count())) }),
    ("a lazy union with a far interval", 1., [1000, 4000], |n| { let a = set(n, 1); measured(|| keep((&a).into_iter().union(TimeInterval::new(v(1 << 40), v(1 << 41))).count())) }),
    ("a lazy composition collected", 1., [1000, 4000], |n| { let (a, b) = (set(n, 1), set(n, 2)); measured(|| keep((&a).into_iter().exclusion((&b).into_iter()).collect::<S>())) }),
];


#[allow(unused)] mod tv { use vh::*; use chronologic::*; use chronologic::iter::*; type T = chronologic::TimeValue; include!("../body/c34.rs"); }
#[allow(unused)] mod ts { use vh::*; use chronologic::*; use chronologic::iter::*; type T = chronologic::Timestamp; include!("../body/c34.rs"); }
/// a graph of n instants takes some n x n bounds, whatever is done to it
fn space(cx: &mut Cx) -> R {
    cx.tag("space of graphs");
    let noise = cx.rng.below(30);
    let nmax = 4 + match cx.rng.below(40) { 0..=35 => cx.rng.us(12), 36..=38 => cx.rng.us(36), _ => cx.rng.us(90) };
    let src = Src::new(&mut cx.rng, nmax, noise);
    let mut g = G::default();
    let mut top = 0u64;
    cx.h(nmax as u64);
    cx.nontrivial = true;
    for _ in 0..2 + cx.rng.us(12) {
        let k = cx.rng.below(12);
        cx.h(k);
        let (mut cs, mut n) = (vec![], 0);
        if k < 8 {
            let nn = nmax.min(1 + g.size() as usize + cx.rng.us(nmax));
            for _ in 0..if k < 5 { 1 } else { many(&mut cx.rng) } { let c = src.con(&mut cx.rng, None, nn); hcon(cx, &c); cs.push(c) }
        } else { n = cx.rng.us(nmax + 1) as u32; cx.h(n as u64) }
        let other = if k == 7 { let mut h = G::default(); for c in &cs { if c.win().is_some() { keep(nopanic(|| format!("{c:?}"), || c.propagate(&mut h))?) } } Some(h) } else { None };
        let what = match k { 0..=4 => format!("{:?}", cs[0]), 5..=6 => format!("the batch {cs:?}"), 7 => format!("the merge of {cs:?}"), 8..=9 => format!("resize({n})"), 10 => "shrink_to_fit()".to_string(), _ => "clone, then reset".to_string() };
        cx.say(|| format!("{what} in {} instants", g.size()));
        let spans: Vec<_> = cs.iter().map(|c| c.span()).collect();
        let (r, _, peak, _) = nopanic(|| what.clone(), || alloc_of(|| match k {
            0..=4 => keep(g.propagate(spans[0])),
            5..=6 => keep(g.extend(spans)),
            7 => keep(g.merge(other.unwrap())),
            8..=9 => g.resize(n),
            10 => g.shrink_to_fit(),
            _ => { let h = g.clone(); g.reset(); g = h }
        }))?;
        keep(r);
        top = top.max(g.size() as u64).max(cs.iter().map(|c| c.i.max(c.j) as u64 + 1).max().unwrap_or(0)).max(n as u64);
        let lim = 6 * 8 * (top + 2) * (top + 2) + 4096 + 100 * cs.len() as u64;
        cx.obs += 1;
        ensure!(peak <= lim as i64, "{what} takes {peak} bytes more in a graph which had {top} instants at most: over {lim}");
    }
    Ok(())
}
/// schedulers share their graph
fn shared(cx: &mut Cx) -> R {
    cx.tag("space of schedulers");
    let n = 60 + cx.rng.us(60);
    let src = Src::new(&mut cx.rng, n, 0);
    let mut g = G::with_size(n as u32);
    for _ in 0..cx.rng.us(12) { let c = src.con(&mut cx.rng, None, n); hcon(cx, &c); if c.win().is_some() { keep(nopanic(|| format!("{c:?}"), || c.propagate(&mut g))?) } }
    cx.h(n as u64);
    cx.nontrivial = true;
    cx.say(|| format!("schedulers on a graph of {n} instants"));
    let (mut s, _, peak, _) = alloc_of(|| TimeScheduler::new(&g));
    let lim = 200 * n as i64 + 512;
    cx.obs += 2;
    ensure!(peak <= lim, "a new scheduler on {n} instants takes {peak} bytes, over {lim}: the graph is shared");
    for _ in 0..cx.rng.us(3) { let (i, t) = (cx.rng.us(n) as u32, cx.rng.i(-50, 50)); keep(s.retain(i, d(t)..=d(t + 100))); }
    let (c, _, peak, _) = alloc_of(|| s.clone());
    ensure!(peak <= lim, "a clone of a scheduler on {n} instants takes {peak} bytes, over {lim}: the graph is shared");
    keep(c);
    Ok(())
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("--list") => for (k, s) in SC.iter().enumerate() { println!("{k} {} {} {} {}", s.1, s.2[0], s.2[1], s.0) },
        Some("--measure") => SC[a[2].parse::<usize>().unwrap()].3(a[3].parse().unwrap()),
        _ => run::main(Spec {
            id: "C34", quick: 2_000_000, thorough: 30_000_000,
            rule: "a case is distinct by its operands and operations; non trivial when it holds a set of several intervals or a graph. The allocations made by the library are counted during each operation",
            case: |cx| match cx.rng.below(100) { 0..=69 => if cx.idx % 2 == 0 { tv::lazy(cx) } else { ts::lazy(cx) }, 70..=91 => if cx.idx % 2 == 0 { tv::eager(cx) } else { ts::eager(cx) }, 92..=97 => space(cx), _ => shared(cx) },
        }),
    }
}

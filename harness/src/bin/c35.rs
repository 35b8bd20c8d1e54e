//! Values shared by, or moved to, several threads. The same queries are asked
//! by several threads at once on shared values, and by one thread on values
//! built the same way: the answers must be the same. Under ThreadSanitizer and
//! Miri, a data race is reported whatever the answers.
use chronologic::graph::*;
use chronologic::iter::*;
use chronologic::*;
use std::sync::atomic::{AtomicUsize, Ordering::*};
use vh::*;

type D = TimeValue;
type S = Timestamp;
/// whatever the library hands over may be shared and sent
fn both_ways<A: Send + Sync>() {}
#[allow(unused)]
fn shareable() {
    both_ways::<D>(); both_ways::<S>(); both_ways::<TimeInterval<D>>(); both_ways::<TimeInterval<S>>();
    both_ways::<TimeSet<D>>(); both_ways::<TimeSet<S>>(); both_ways::<TimeGraph>(); both_ways::<TimeScheduler<'static>>();
    fn it<I: Send + Sync>(_: I) {}
    fn lazies(a: &TimeSet<D>) {
        it(a.iter()); it(a.into_iter()); it(a.into_iter().union(a.into_iter())); it(a.into_iter().intersection(a.into_iter()));
        it(a.into_iter().complementary()); it(a.into_iter().exclusion(a.into_iter())); it(a.into_iter().translation(D::default()));
        it(S::default().forward_sequence(D::from_ticks(1))); it(S::default().backward_sequence(D::from_ticks(1)));
    }
    fn graph(g: &TimeGraph) { it(g.iter()); it(g.constraints_from(0)); it(g.constraints_to(0)); it(g.constraint(0, 0)); it(TimeGraph::default().propagate(((0, 1), D::from_ticks(1)..))) }
}

/// how a world is built
#[derive(Clone)]
struct Plan { n: usize, cons: Vec<Con>, qs: Vec<Vec<Q>>, sets: [Raw; 4], w: (i64, i64), route: u64 }
struct World { g: TimeGraph, a: TimeSet<D>, b: TimeSet<D>, p: TimeSet<S>, q: TimeSet<S>, i: TimeSpan }
struct View<'a> { w: &'a World, s: &'a [TimeScheduler<'a>] }
impl Plan {
    fn world(&self) -> Option<World> {
        let mut g = TimeGraph::with_size(self.n as u32);
        for c in &self.cons { let _ = guarded(|| c.propagate(&mut g)).ok()?; }
        let [a, b, p, q] = &self.sets;
        Some(World { g, a: set(a, self.route)?, b: set(b, self.route)?, p: set(p, self.route)?, q: set(q, self.route)?, i: iv(self.w) })
    }
    fn schedulers<'a>(&self, g: &'a TimeGraph) -> Option<Vec<TimeScheduler<'a>>> {
        self.qs.iter().map(|qs| { let mut s = TimeScheduler::new(g); for q in qs { guarded(|| restrict(&mut s, q)).ok()?; } Some(s) }).collect()
    }
}
#[derive(Clone, Debug)]
struct Job { k: u64, x: u64, y: u64, t: i64, op: Op, con: Con, q: Option<Q> }
const KINDS: u64 = 44;
fn ask(v: &View, j: &Job) -> String {
    let World { g, a, b, p, q, i } = v.w;
    let n = g.size().max(1) as u64;
    let (x, y, t) = ((j.x % n) as u32, (j.y % n) as u32, j.t);
    let s = &v.s[(j.x % v.s.len() as u64) as usize];
    let (d, dt) = (D::mk(t), S::mk(t));
    let o = j.op;
    match j.k {
        0 | 1 => format!("{:?}", iv_raw(&g.timespan(x, y))),
        2 => format!("{:?}", wins(g)),
        3 => g.to_string(),
        4 => format!("{g:?}"),
        5 => format!("{:?} {:?}", g.instant_cmp(x, y), g.are_distinct_instants(x, y)),
        6 => g.constraints_from(x).map(|k| format!("{k}")).collect(),
        7 => g.constraints_to(x).map(|k| format!("{k}")).collect(),
        8 => g.iter().map(|k| format!("{:?}", (k.from(), k.to(), iv_raw(&TimeSpan::from(k))))).collect(),
        9 => { let mut h = g.clone(); let r = j.con.propagate(&mut h); format!("{r:?} {:?} {:?}", wins(&h), h.size()) }
        10 => { let mut h = g.clone(); let r = rep(h.extend(vec![j.con.span(), ((y, x), TimeSpan::from(d..))])); format!("{r:?} {:?}", wins(&h)) }
        11 => { let mut h = TimeGraph::with_size(1); let r = rep(h.extend(g.iter())); format!("{r:?} {:?}", wins(&h)) }
        12 => { let mut h = TimeGraph::default(); let _ = j.con.propagate(&mut h); let r = rep(h.merge(g.clone())); format!("{r:?} {:?}", wins(&h)) }
        13 => { let mut h = g.clone(); h.resize(x); h.resize(n as u32 + 2); h.shrink_to_fit(); format!("{:?}", wins(&h)) }
        14 => format!("{:?}", slots(s)),
        15 => s.to_string(),
        16..=18 => { let mut c = s.clone(); let r = j.q.as_ref().map(|q| restrict(&mut c, q)); format!("{r:?} {:?}", slots(&c)) }
        // holes, then dates which are refused only once the slots of the other instants are compared
        19 => {
            let mut h = Rng::new(j.x, j.y);
            let (m, l) = (3 + h.below(3) as u32, 1 + h.i(0, 3));
            let mut k = TimeGraph::with_size(m);
            for ((i, j), (a, b)) in [((0, 1), (-5, 5)), ((0, 2), (-5, 5)), ((1, 2), (0, 10))] { let _ = k.propagate(((i, j), D::from_ticks(a * l)..=D::from_ticks(b * l))); }
            for i in 3..m { let _ = k.propagate(((i - 1, i), D::from_ticks(0)..=D::from_ticks(h.i(0, 9)))); }
            let base = h.i(-1000, 1000) * 1000;
            let mut c = TimeScheduler::new(&k);
            let o: Vec<_> = [(0, [0, 5, 10]), (1, [-3, 10, 10]), (2, [0, 12, 12])].iter().map(|(i, p)| rep(c.retain(*i, p.iter().map(|x| TimeSlot::from(S::mk(base + l * x))).collect::<TimeSlots>()))).collect();
            let first = format!("{o:?} {:?}", slots(&c));
            let tries: String = (0..if cfg!(miri) { 2 } else { 20 }).map(|_| {
                let mut c = c.clone();
                let r = rep(c.retain(0, S::mk(base + l * 5 * h.i(0, 2))));
                format!(" {r:?} {:?}", slots(&c))
            }).collect();
            first + &tries
        }
        20 => { let mut c = TimeScheduler::new(g); let r = j.q.as_ref().map(|q| restrict(&mut c, q)); format!("{r:?} {:?}", slots(&c)) }
        21 => format!("{:?} {:?}", s.latest_beginning(), s.earliest_ending()),
        22 => format!("{:?}", s.scheduling(x).map(raw)),
        23 => format!("{:?}", raw(&(a | b))),
        24 => format!("{:?}", raw(&(p | q))),
        25 => format!("{:?}", raw(&(a & b))),
        26 => format!("{:?}", raw(&(p & q))),
        27 => format!("{:?}", raw(&!a.clone())),
        28 => format!("{:?} {}", hash_of(a), a == b),
        29 => format!("{} {} {:?}", a.contains(b), a.overlaps(b), with_op!(D, o, w => a.contains(&TimeInterval::from(w)))),
        30 => format!("{} {} {}", p.contains(q), p.overlaps(q), p.contains(&dt)),
        31 => format!("{a} {b:?}"),
        32 => format!("{p} {q:?}"),
        33 => p.format_timeset("%Y-%m-%d %H:%M:%S"),
        34 => format!("{:?}", raw(&(a.clone() + d))),
        35 => format!("{:?}", raw(&(p.clone() + *i))),
        36 => format!("{:?}", drain(a.into_iter().union(b.into_iter()).complementary(), 5000)),
        37 => format!("{:?}", drain(p.into_iter().exclusion(q.into_iter()).translation(d), 5000)),
        38 => format!("{:?}", drain(a.into_iter().intersection(b.into_iter().translation(i)), 5000)),
        39 => { let mut c = p.clone(); let r = c.truncate_before(dt); format!("{r} {:?}", raw(&c)) }
        40 => { let mut c = a.clone(); c |= with_op!(D, o, w => TimeInterval::from(w)); format!("{:?}", raw(&c)) }
        41 => { let mut c = q.clone(); c &= p; format!("{:?}", raw(&c)) }
        42 => format!("{d} {dt} {:?} {:?}", dt.format_timepoint("%c"), d * 3),
        _ => dt.forward_sequence(D::mk(t.abs().max(1))).take(4).map(|x| format!("{x} ")).collect(),
    }
}
fn answer(v: &View, j: &Job) -> String { guarded(|| ask(v, j)).unwrap_or_else(|_| "panic".into()) }

fn case(cx: &mut Cx) -> R {
    let small = cfg!(miri);
    let n = 1 + cx.rng.us(if small { 3 } else { 7 });
    let src = Src::new(&mut cx.rng, n, 5);
    let mut cons = vec![];
    for _ in 0..cx.rng.us(if small { 4 } else { 2 * n + 2 }) { let c = src.con(&mut cx.rng, None, n); hcon(cx, &c); cons.push(c) }
    let z = if cx.rng.pct(70) { Zone { base: *cx.rng.pick(&[0, 0, -7, 1 << 40]), span: *cx.rng.pick(&[12, 25]) } } else { midzone(&mut cx.rng) };
    let sets = [0; 4].map(|_| { let k = cx.rng.us(if small { 3 } else { 7 }); let r = rawset_n(&mut cx.rng, z, k); cx.hraw(&r); r });
    let w = (cx.rng.i(-9, 0), cx.rng.i(0, 9));
    let mut plan = Plan { n, cons, qs: vec![], sets, w, route: cx.idx };
    let Some(w1) = plan.world() else { return skip() };
    for _ in 0..1 + cx.rng.us(2) {
        let mut s = TimeScheduler::new(&w1.g);
        let mut qs = vec![];
        for _ in 0..cx.rng.us(3) { let q = restriction(cx, &slots(&s), false); if guarded(|| restrict(&mut s, &q)).is_err() { return skip() } qs.push(q) }
        plan.qs.push(qs);
    }
    let Some(w2) = plan.world() else { return skip() };
    let (Some(s1), Some(s2)) = (plan.schedulers(&w1.g), plan.schedulers(&w2.g)) else { return skip() };
    // in some of the cases, the threads all do the same few things, without any delay
    let focus: Vec<u64> = if cx.rng.pct(40) { (0..1 + cx.rng.us(2)).map(|_| if cx.rng.pct(35) { 16 + cx.rng.below(4) } else { cx.rng.below(KINDS) }).collect() } else { vec![] };
    let hot = !focus.is_empty();
    if hot { cx.tag("the same operation at the same time") }
    let jobs: Vec<Job> = (0..if small { 4 } else { 40 }).map(|_| {
        let r = &mut cx.rng;
        let k = if hot { *r.pick(&focus) } else { r.below(KINDS) };
        let (x, y, t) = ( r.u64(), r.u64(), tick(r, z));
        let op = rand_op(r, z);
        let con = src.con(r, None, n);
        let q = if (16..=20).contains(&k) { Some(restriction(cx, &slots(&s1[(x % s1.len() as u64) as usize]), false)) } else { None };
        cx.h(k); cx.h(t as u64); cx.h(x % 8);
        Job { k, x, y, t, op, con, q }
    }).collect();
    cx.say(|| format!("{} threads' worth of {jobs:?} on {:?} and {:?}, schedulers {:?}", 3, plan.cons, plan.sets, plan.qs));
    cx.nontrivial = true;
    let nt = if small { 2 } else { 2 + cx.rng.us(3) };
    cx.tag(["", "", "2 threads", "3 threads", "4 threads"][nt]);
    let (v1, v2) = (View { w: &w1, s: &s1 }, View { w: &w2, s: &s2 });
    // the answers of one thread, before or after
    let first = cx.rng.pct(50);
    let mut alone: Vec<String> = vec![];
    if first { alone = jobs.iter().map(|j| answer(&v2, j)).collect() }
    let seeds: Vec<u64> = (0..nt).map(|_| cx.rng.u64()).collect();
    let gate = AtomicUsize::new(0);
    // some values are given away: a lazy iterator half consumed, a clone, a scheduler
    let moved_at = cx.rng.us(3);
    let per: Vec<Vec<(usize, String)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..nt).map(|t| {
            let (v1, jobs, gate, seed) = (&v1, &jobs, &gate, seeds[t]);
            let mut lazy = (&w1.a).into_iter().union((&w1.b).into_iter()).complementary();
            let head: Raw = lazy.by_ref().take(moved_at).map(|i| iv_raw(&i)).collect();
            let (own, sch) = (w1.p.clone(), s1[0].clone());
            sc.spawn(move || {
                let mut r = Rng::new(seed, t as u64);
                let mut order: Vec<usize> = (0..jobs.len()).collect();
                r.shuffle(&mut order);
                if t % 2 == 1 { let m = order.iter().position(|x| *x == 0).unwrap(); order.swap(0, m) }
                gate.fetch_add(1, SeqCst);
                if !cfg!(miri) { let mut k = 0; while gate.load(SeqCst) < nt && k < 20_000 { k += 1; std::hint::spin_loop() } }
                let mut out = vec![];
                for k in order {
                    if hot {} else if r.pct(10) { std::thread::yield_now() } else { for _ in 0..r.below(40) { std::hint::spin_loop() } }
                    out.push((k, answer(v1, &jobs[k])));
                }
                let mut all = head;
                all.extend(lazy.map(|i| iv_raw(&i)));
                out.push((usize::MAX, format!("{all:?} {:?} {:?}", raw(&own), slots(&sch))));
                out
            })
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    if !first { alone = jobs.iter().map(|j| answer(&v2, j)).collect() }
    let given = format!("{:?} {:?} {:?}", drain((&w2.a).into_iter().union((&w2.b).into_iter()).complementary(), 5000), raw(&w2.p), slots(&s2[0]));
    for (t, out) in per.iter().enumerate() { for (k, s) in out {
        cx.obs += 1;
        let e = if *k == usize::MAX { &given } else { &alone[*k] };
        ensure!(s == e, "thread {t} of {nt} is answered {s:?}, a single thread is answered {e:?}: {}", if *k == usize::MAX { "values moved to the thread".to_string() } else { format!("{:?}", jobs[*k]) });
    } }
    // and what was shared has not changed
    for j in &jobs { cx.obs += 1; ensure!(answer(&v1, j) == answer(&v2, j), "after the threads are over, {j:?} has another answer") }
    Ok(())
}
fn main() {
    run::main(Spec {
        id: "C35", quick: 40_000, thorough: 900_000,
        rule: "a case is distinct by the values shared and the queries asked. In each case 2 to 4 threads ask the same queries in orders of their own, with random delays",
        case,
    })
}

//! Reference model of a time graph: the textbook Floyd-Warshall closure over
//! unbounded integers, and a driver which applies the same history to the
//! model and to the real graph.
use chronologic::graph::*;
use chronologic::*;
use crate::{gen::*, model::*, op::*, pt::*, run::*};
use crate::{ensure, with_op};

#[derive(Clone, Debug, PartialEq)]
pub struct Net { pub n: usize, /** l[i][j]: greatest known lower bound of t_j - t_i */ pub l: Vec<Vec<Option<i128>>> }
impl Net {
    pub fn new(n: usize) -> Net { let mut m = Net { n: 0, l: vec![] }; m.resize(n); m }
    pub fn resize(&mut self, n: usize) {
        let old = std::mem::replace(self, Net { n, l: vec![vec![None; n]; n] });
        for i in 0..n { for j in 0..n { self.l[i][j] = if i < old.n && j < old.n { old.l[i][j] } else if i == j { Some(0) } else { None } } }
    }
    fn cell(&mut self, i: usize, j: usize, v: Option<i128>) { if v > self.l[i][j] { self.l[i][j] = v } }
    /// adds without closing (None: empty constraint)
    pub fn put(&mut self, i: usize, j: usize, w: Option<(i64, i64)>) -> bool {
        if self.n <= i.max(j) { self.resize(i.max(j) + 1) }
        let Some((a, b)) = w else { return false };
        if a != NEG { self.cell(i, j, Some(a as i128)) }
        if b != INF { self.cell(j, i, Some(-(b as i128))) }
        true
    }
    /// minimal network; false if there is no solution
    pub fn close(&mut self) -> bool {
        for k in 0..self.n { for i in 0..self.n { if let Some(a) = self.l[i][k] { for j in 0..self.n { if let Some(b) = self.l[k][j] {
            self.cell(i, j, Some(a + b))
        } } } }
            // (beyond this point, the bounds could grow without limit)
            if (0..self.n).any(|i| self.l[i][i] != Some(0)) { return false }
        }
        (0..self.n).all(|i| self.l[i][i] == Some(0))
    }
    /// adds to a minimal network: any new shortest path goes once through the new bound
    pub fn add(&self, i: usize, j: usize, w: Option<(i64, i64)>) -> Option<Net> {
        let (a, b) = w?;
        let mut m = self.clone();
        if m.n <= i.max(j) { m.resize(i.max(j) + 1) }
        for (i, j, v) in [(i, j, if a == NEG { None } else { Some(a as i128) }), (j, i, if b == INF { None } else { Some(-(b as i128)) })] {
            let Some(v) = v else { continue };
            if m.l[j][i].is_some_and(|x| x + v > 0) { return None }
            if m.l[i][j].is_some_and(|x| x >= v) { continue }
            let (to, from): (Vec<_>, Vec<_>) = ((0..m.n).map(|p| m.l[p][i]).collect(), m.l[j].clone());
            for p in 0..m.n { if let Some(x) = to[p] { for q in 0..m.n { if let Some(y) = from[q] { m.cell(p, q, Some(x + v + y)) } } } }
        }
        Some(m)
    }
    pub fn batch(&self, ks: &[Con]) -> Option<Net> {
        let mut m = self.clone();
        let mut ok = true;
        for k in ks { ok &= m.put(k.i as usize, k.j as usize, k.win()) }
        if ok && m.close() { Some(m) } else { None }
    }
    pub fn merge(&self, o: &Net) -> Option<Net> {
        let mut m = self.clone();
        if m.n < o.n { m.resize(o.n) }
        for i in 0..o.n { for j in 0..o.n { m.cell(i, j, o.l[i][j]) } }
        if m.close() { Some(m) } else { None }
    }
    /// window from i to j (the whole line if an instant is not in the graph)
    pub fn win(&self, i: usize, j: usize) -> (i64, i64) {
        if i >= self.n || j >= self.n { return (NEG, INF) }
        (self.l[i][j].map_or(NEG, |x| x as i64), self.l[j][i].map_or(INF, |x| -x as i64))
    }
    pub fn constrained(&self, i: usize, j: usize) -> bool { self.l[i][j].is_some() || self.l[j][i].is_some() }
    /// size once the trailing unconstrained instants are removed
    pub fn trimmed(&self) -> usize {
        (0..self.n).rev().find(|&i| (0..self.n).any(|j| i != j && self.constrained(i, j))).map_or(0, |i| i + 1)
    }
}
/// a constraint: t_j - t_i in the window denoted by the operand
#[derive(Clone, Copy)]
pub struct Con { pub i: u32, pub j: u32, pub o: Op }
impl std::fmt::Debug for Con { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    match self.win() { Some((a, b)) => write!(f, "t{}-t{} in {:?}", self.j, self.i, TimeSpan::new(TimeValue::mk(a), TimeValue::mk(b))), None => write!(f, "t{}-t{} in {{}}", self.j, self.i) } } }
impl Con {
    pub fn win(&self) -> Option<(i64, i64)> { if self.o.empty() { None } else { Some((self.o.a, self.o.b)) } }
    /// as the library takes it, in the operand's own type
    pub fn propagate(&self, g: &mut TimeGraph) -> Rep { let c = *self; rep(with_op!(TimeValue, c.o, w => g.propagate(((c.i, c.j), w)))) }
    pub fn span(&self) -> ((u32, u32), TimeSpan) { ((self.i, self.j), op_iv(self.o)) }
    pub fn flip(&self, r: &mut Rng) -> Con { let o = match self.win() { None => self.o, Some((a, b)) => op_of(r, Some((-b, -a))) }; Con { i: self.j, j: self.i, o } }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rep { Unchanged, Propagated, Recovered, Fatal }
/// (the result type has no public name: it is read through its debug text)
pub fn rep<A: std::fmt::Debug>(r: A) -> Rep {
    match format!("{r:?}").as_str() {
        "Ok(Unchanged)" => Rep::Unchanged, "Ok(Propagated)" => Rep::Propagated, "Err(Recovered)" => Rep::Recovered, "Err(Fatal)" => Rep::Fatal,
        s => panic!("unknown report {s}"),
    }
}
impl Rep { pub fn ok(self) -> bool { matches!(self, Rep::Unchanged | Rep::Propagated) } }

/// windows between all pairs of instants, as the graph tells them
pub fn wins(g: &TimeGraph) -> Vec<(i64, i64)> {
    let n = g.size();
    let mut v = Vec::with_capacity((n * n) as usize);
    for i in 0..n { for j in 0..n { v.push(iv_raw(&g.timespan(i, j))) } }
    v
}
/// the real windows against the model
pub fn same(cx: &mut Cx, g: &TimeGraph, m: &Net, what: impl Fn() -> String) -> R {
    ensure!(g.size() as usize == m.n, "{}: the graph has {} instants, expected {}", what(), g.size(), m.n);
    for i in 0..m.n { for j in 0..m.n {
        let w = iv_raw(&g.timespan(i as u32, j as u32));
        cx.obs += 1;
        ensure!(w == m.win(i, j), "{}: window of (t{i},t{j}) is {:?}, the tightest implied one is {:?}", what(), w, m.win(i, j));
    } }
    Ok(())
}

/// Generator of constraints around a hidden assignment
pub struct Src { pub x: Vec<i64>, pub scale: i64, pub noise: u64 }
impl Src {
    pub fn new(r: &mut Rng, nmax: usize, noise: u64) -> Src {
        // (the last one: no window of it is exact in floating point)
        let scale = *r.pick(&[1, 1, 1, 1, 7, 1 << 20, 1 << 30, 1 << 45, if nmax <= 24 { (1 << 49) + 3 } else { (1 << 44) + 1 }]);
        let sp = *r.pick(&[0, 3, 10, 10, 40]);
        Src { x: (0..nmax).map(|_| r.i(-sp, sp) * scale).collect(), scale, noise }
    }
    pub fn con(&self, r: &mut Rng, m: Option<&Net>, n: usize) -> Con {
        let n = n.min(self.x.len());
        let i = r.us(n);
        let j = if r.pct(5) { i } else { r.us(n) };
        let s = self.scale;
        let d = self.x[j] - self.x[i];
        let side = |r: &mut Rng| match r.below(6) { 0 => 0, 1 => s, 2..=3 => s * r.i(0, 4), _ => s * r.i(0, 15) };
        let w = if r.pct(self.noise) {
            match (r.below(8), m) {
                (0, _) => None,
                (1, _) => { let (a, b) = (s * r.i(-20, 20), s * r.i(-20, 20)); Some((a.min(b), a.max(b))) }
                // right at, or one tick beyond, the edge of the present window
                (k, Some(m)) if i < m.n && j < m.n && m.win(i, j) != (NEG, INF) => {
                    let (l, u) = m.win(i, j);
                    let e = r.i(-1, 1);
                    if (k % 2 == 0 && u != INF) || l == NEG { let a = u + e; Some((a, if r.pct(50) { INF } else { a + side(r) })) }
                    else { let b = l + e; Some((if r.pct(50) { NEG } else { b - side(r) }, b)) }
                }
                _ => { let a = d + s * r.i(-4, 4); Some((a, a + side(r))) }
            }
        } else {
            let (p, q) = (side(r), side(r));
            Some(match r.below(8) { 0 | 1 => (NEG, d + q), 2 | 3 => (d - p, INF), 4 if r.pct(30) => (NEG, INF), _ => (d - p, d + q) })
        };
        Con { i: i as u32, j: j as u32, o: op_of(r, w) }
    }
}
pub fn hcon(cx: &mut Cx, c: &Con) { cx.h(c.i as u64 * 131 + c.j as u64); match c.win() { None => cx.h(5), Some((a, b)) => { cx.h(a as u64); cx.h(b as u64) } } }

/// a rare, big number of instants
pub fn big(cx: &mut Cx) -> usize {
    if cx.rng.pct(6) { cx.tag("huge graph"); return 250 + cx.rng.us(30) }
    cx.tag("big graph"); 30 + if cx.rng.pct(80) { cx.rng.us(45) } else { cx.rng.us(if cx.thorough { 240 } else { 110 }) }
}
/// a number of constraints added together
pub fn many(r: &mut Rng) -> usize { match r.below(2000) { 0..=1899 => r.us(6), 1900..=1997 => r.us(40), _ => 40 + r.us(260) } }
/// a number of steps of a history: up to `n`, and rarely many more
pub fn steps(cx: &mut Cx, n: usize) -> usize { if cx.rng.below(4000) == 0 { cx.tag("long history"); n + cx.rng.us(300) } else { cx.rng.us(n) } }
/// One step of a history
#[derive(Clone, Debug)]
pub enum Step { Add(Con), Batch(Vec<Con>, u64), Merge(Vec<Con>, usize), Grow(usize), Cut(usize), Fit, Cap(u32), Reset }
pub struct Driver { pub src: Src, pub nmax: usize }
/// a graph under observation with its model
pub struct Hist { pub g: TimeGraph, pub m: Net }
pub struct Out { pub rep: Option<Rep>, /** model after the step if it is satisfiable */ pub next: Option<Net>, pub size0: u32, pub wins0: Vec<(i64, i64)> }

impl Driver {
    pub fn new(cx: &mut Cx, noise: u64) -> Driver {
        let nmax = match cx.rng.below(4000) { 0..=2799 => 2 + cx.rng.us(5), 2800..=3794 => 3 + cx.rng.us(9), 3795..=3996 => 12 + cx.rng.us(if cx.thorough { 40 } else { 16 }), _ => big(cx) };
        Driver { src: Src::new(&mut cx.rng, nmax, noise), nmax }
    }
    pub fn start(&self, cx: &mut Cx) -> Hist {
        let n = if cx.rng.pct(50) { cx.rng.us(self.nmax + 1) } else { 0 };
        cx.h(n as u64);
        let g = match cx.rng.below(3) { 0 if n == 0 => TimeGraph::default(), 1 => { let mut g = TimeGraph::with_size(cx.rng.us(4) as u32); g.resize(n as u32); g } _ => TimeGraph::with_size(n as u32) };
        cx.say(|| format!("graph of size {n}"));
        Hist { g, m: Net::new(n) }
    }
    /// only the additions, or every kind of change
    pub fn step(&self, cx: &mut Cx, h: &Hist, resizes: bool) -> Step {
        let r = &mut cx.rng;
        let n = self.nmax;
        let s = match r.below(if resizes { 26 } else { 20 }) {
            0..=13 => Step::Add(self.src.con(r, Some(&h.m), n)),
            14..=16 => { let k = many(r); Step::Batch((0..k).map(|_| self.src.con(r, Some(&h.m), n)).collect(), r.below(WAYS)) }
            17..=19 => { let k = many(r); Step::Merge((0..k).map(|_| self.src.con(r, Some(&h.m), n)).collect(), r.us(n + 1)) }
            20..=21 => Step::Grow(h.m.n + r.us(3)),
            22 => Step::Cut(if h.m.n == 0 { 0 } else { h.m.n - r.us((h.m.n + 1).min(3)) }),
            23 => Step::Fit,
            24 => Step::Cap(r.below(12) as u32),
            _ => if r.pct(40) { Step::Reset } else { Step::Fit },
        };
        match &s {
            Step::Add(c) => hcon(cx, c),
            Step::Batch(v, _) => for c in v { hcon(cx, c) },
            Step::Merge(v, k) => { cx.h(*k as u64); for c in v { hcon(cx, c) } }
            Step::Grow(k) | Step::Cut(k) => cx.h(*k as u64),
            _ => cx.h(99),
        }
        cx.say(|| format!("{s:?}"));
        s
    }
}
pub const TAGS: [&str; 8] = ["add", "batch", "merge", "grow", "cut", "shrink_to_fit", "shrink_to", "reset"];
impl Step { pub fn tag(&self) -> &'static str { TAGS[match self { Step::Add(_) => 0, Step::Batch(..) => 1, Step::Merge(..) => 2, Step::Grow(_) => 3, Step::Cut(_) => 4, Step::Fit => 5, Step::Cap(_) => 6, Step::Reset => 7 }] } }

/// an iterator hiding its exact size, as a filtered one does
pub fn vague<I: Iterator>(i: I) -> impl Iterator<Item = I::Item> { i.filter(|_| true) }
/// an iterator which announces between `lo` and `hi` items (and keeps its word)
pub struct Hinted<I> { pub it: I, pub lo: usize, pub hi: Option<usize> }
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { let x = self.it.next(); if x.is_some() { self.lo = self.lo.saturating_sub(1); self.hi = self.hi.map(|h| h.saturating_sub(1)); } x }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.lo, self.hi) }
}
/// ways of telling the number of items
pub const HINTS: u64 = 6;
pub fn hinted<T>(v: Vec<T>, way: u64) -> Hinted<std::vec::IntoIter<T>> {
    let n = v.len();
    let (lo, hi) = match way % HINTS { 0 => (n.min(1), None), 1 => (n.min(1), Some(n + 1)), 2 => (n, None), 3 => (0, None), 4 => (n.min(1), Some(n)), _ => (0, Some(usize::MAX)) };
    Hinted { it: v.into_iter(), lo, hi }
}
pub const WAYS: u64 = 4 + HINTS;
pub fn batch(g: &mut TimeGraph, v: &[Con], way: u64) -> Rep {
    let s: Vec<_> = v.iter().map(|c| c.span()).collect();
    match way {
        0 => rep(g.extend(s)),
        1 => rep(g.extend(vague(s.into_iter()))),
        2 => rep(g.extend(s.iter().map(|x| (x.0, x.1)))),
        4.. => rep(g.extend(hinted(s, way - 4))),
        // the windows in another form
        _ => if v.iter().all(|c| c.win().is_some_and(|(a, b)| a != NEG && b != INF)) { rep(g.extend(v.iter().map(|c| ((c.i, c.j), TimeValue::mk(c.o.a)..=TimeValue::mk(c.o.b))))) } else { rep(g.extend(s)) },
    }
}
/// Applies a step to the real graph, and computes what the model says of it.
pub fn apply(h: &mut Hist, s: &Step) -> R<Out> {
    let (size0, wins0) = (h.g.size(), wins(&h.g));
    let g = &mut h.g;
    let m = &h.m;
    let p = |s: &Step| format!("{s:?}");
    let (rep, next) = match s {
        Step::Add(c) => (Some(nopanic(|| p(s), || c.propagate(g))?), m.add(c.i as usize, c.j as usize, c.win())),
        Step::Batch(v, w) => (Some(nopanic(|| p(s), || batch(g, v, *w))?), m.batch(v)),
        Step::Merge(v, k) => {
            // the other graph is built one constraint at a time, those it rejects being left out
            let mut g2 = TimeGraph::with_size(*k as u32);
            let mut m2 = Net::new(*k);
            for c in v {
                if c.win().is_none() { continue }
                if let Some(x) = m2.add(c.i as usize, c.j as usize, c.win()) {
                    if !nopanic(|| p(s), || c.propagate(&mut g2))?.ok() { return skip() }
                    m2 = x;
                }
            }
            // (another graph which is not what it should be is somebody else's concern)
            if g2.size() as usize != m2.n || (0..m2.n).any(|i| (0..m2.n).any(|j| iv_raw(&g2.timespan(i as u32, j as u32)) != m2.win(i, j))) { return skip() }
            (Some(nopanic(|| p(s), || rep(g.merge(g2)))?), m.merge(&m2))
        }
        Step::Grow(k) | Step::Cut(k) => { nopanic(|| p(s), || g.resize(*k as u32))?; let mut x = m.clone(); x.resize(*k); (None, Some(x)) }
        Step::Fit => { nopanic(|| p(s), || g.shrink_to_fit())?; let mut x = m.clone(); let t = x.trimmed(); x.resize(t); (None, Some(x)) }
        Step::Cap(k) => { nopanic(|| p(s), || g.shrink_to(*k))?; (None, Some(m.clone())) }
        Step::Reset => { nopanic(|| p(s), || g.reset())?; (None, Some(Net::new(m.n))) }
    };
    Ok(Out { rep, next, size0, wins0 })
}

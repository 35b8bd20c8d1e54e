type Iv = TimeInterval<T>;
/// A monitored lazy iterator of any shape: it may be combined again by the
/// library, and watches everything which goes through it.
pub struct Mon { it: Box<dyn Iterator<Item = Iv>>, name: String }
impl Mon {
    fn new(name: String, it: impl Iterator<Item = Iv> + 'static) -> Mon { Mon { it: Box::new(it), name } }
}
impl Iterator for Mon {
    type Item = Iv;
    fn next(&mut self) -> Option<Iv> { self.it.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.it.size_hint() }
}
impl TimeConvexIterator for Mon { type TimePoint = T; }

/// drains the iterator, checking its contract at each step
fn judge(cx: &mut Cx, mut m: Mon, exp: &Raw) -> R {
    let name = std::mem::take(&mut m.name);
    let cap = 60_000;
    let mut hints = vec![m.size_hint()];
    let mut out: Raw = vec![];
    while let Some(i) = m.next() {
        let (l, u) = iv_raw(&i);
        ensure!(!i.is_empty() && l <= u && l != INF && u != NEG && l != i64::MIN, "{name}: yields the empty interval ({l},{u}) after {out:?}");
        if let Some(p) = out.last() { ensure!(p.1 < l, "{name}: yields ({l},{u}) after {p:?}: not sorted or overlapping") }
        out.push((l, u));
        hints.push(m.size_hint());
        ensure!(out.len() < cap, "{name}: does not end");
    }
    cx.obs += 2 + out.len() as u64;
    ensure!(canon(&out) == *exp, "{name}: yields {out:?}, expected {exp:?}");
    for (k, (lo, hi)) in hints.iter().enumerate() {
        let left = out.len() - k;
        ensure!(*lo <= left && hi.is_none_or(|h| h >= left), "{name}: announces ({lo},{hi:?}) after {k} intervals while it still yields {left}");
    }
    for _ in 0..3 {
        let (lo, _) = m.size_hint();
        ensure!(lo == 0, "{name}: announces at least {lo} once finished");
        if let Some(i) = m.next() { return viol(format!("{name}: yields {:?} once finished (after {out:?})", iv_raw(&i))) }
    }
    Ok(())
}
const LIM: i64 = 1 << 61;
fn fits(r: &Raw) -> bool { r.iter().flat_map(|x| [x.0, x.1]).all(|x| x == INF || x == NEG || x.abs() < LIM) }

struct Vague(Box<dyn Iterator<Item = Iv>>, Option<usize>);
impl Iterator for Vague {
    type Item = Iv;
    fn next(&mut self) -> Option<Iv> { let x = self.0.next(); if x.is_some() { if let Some(k) = &mut self.1 { *k -= 1 } } x }
    fn size_hint(&self) -> (usize, Option<usize>) { (0, self.1) }
}
/// the same ticks, some parts being cut into touching intervals
fn split(cx: &mut Cx, r: &Raw) -> Raw {
    let mut v = vec![];
    for &(a, b) in r {
        let mut a = a;
        for _ in 0..cx.rng.us(4) {
            let c = if a == NEG { if b == INF { cx.rng.i(-9, 9) } else { b - cx.rng.i(1, 9) } } else if b == INF || cx.rng.pct(50) { a + cx.rng.i(0, 9) } else { b - cx.rng.i(1, 9) };
            if c >= b || c < a || a == INF { break }
            v.push((a, c)); a = c + 1;
        }
        v.push((a, b));
    }
    cx.hraw(&v);
    v
}

struct B { z: Zone }
impl B {
    fn leafraw(&self, cx: &mut Cx) -> Raw {
        let r = match cx.rng.below(4) { 0 => mask_set(cx.rng.below(512), self.z.base), 1 => rawset_n(&mut cx.rng, self.z, 1), _ => rawset(&mut cx.rng, self.z) };
        cx.hraw(&r);
        if !r.is_empty() { cx.nontrivial = true }
        r
    }
    fn leaf(&self, cx: &mut Cx) -> R<(Mon, Raw)> {
        if cx.rng.pct(30) {
            let w = rawiv(&mut cx.rng, self.z);
            let o = op_of(&mut cx.rng, w);
            let r = o.raw();
            cx.hraw(&r); cx.h(o.k as u64);
            let m = match cx.rng.below(2) {
                0 => Mon::new(format!("{o:?}.iter()"), with_op!(T, o, w => w.iter()).collect::<Vec<_>>().into_iter()),
                _ => with_op!(T, o, w => Mon::new(format!("{o:?}.iter()"), w.iter())),
            };
            return Ok((m, r));
        }
        let r = self.leafraw(cx);
        let s: TimeSet<T> = set_or_skip(&r, cx.idx)?;
        let n = cx.rng.us(4);
        Ok(match cx.rng.below(15) {
            // an iterator of the user's own, which may yield touching intervals (they do not overlap)
            12..=13 => {
                let v = split(cx, &r);
                cx.tag("touching intervals");
                let w: Vec<Iv> = v.iter().map(|x| iv(*x)).collect();
                (Mon::new(format!("split {v:?}"), w.into_iter()), r)
            }
            // or which knows next to nothing of its length
            14 => { let h = *cx.rng.pick(&[None, Some(usize::MAX), Some(usize::MAX - 1), Some(r.len())]); (Mon::new(format!("{r:?} announced as (0,{h:?})"), Vague(Box::new(s.into_iter()), h)), r) }
            0 => (Mon::new(format!("{r:?}.skip({n})"), s.into_iter().skip(n)), r.iter().skip(n).copied().collect()),
            1 => (Mon::new(format!("{r:?}.take({n})"), s.iter().take(n)), r.iter().take(n).copied().collect()),
            2 => (Mon::new(format!("{r:?}.step_by({})", n + 1), s.iter().step_by(n + 1)), r.iter().step_by(n + 1).copied().collect()),
            3 => { let p = tick(&mut cx.rng, self.z); (Mon::new(format!("{r:?}.skip_while(<{p})"), s.iter().skip_while(move |i| i.upper_bound().tk() < p)), r.iter().skip_while(|i| i.1 < p).copied().collect()) }
            4 => { let p = tick(&mut cx.rng, self.z); (Mon::new(format!("{r:?}.take_while(<{p})"), s.iter().take_while(move |i| i.upper_bound().tk() < p)), r.iter().take_while(|i| i.1 < p).copied().collect()) }
            5 => { let p = tick(&mut cx.rng, self.z); (Mon::new(format!("{r:?}.filter(!{p})"), s.iter().filter(move |i| i.lower_bound().tk() != p)), r.iter().filter(|i| i.0 != p).copied().collect()) }
            6 => (Mon::new(format!("{r:?}.peekable()"), s.iter().peekable()), r),
            7 => (Mon::new(format!("{r:?}.inspect()"), s.iter().inspect(|_| ())), r),
            8..=9 => (Mon::new(format!("{r:?}.iter()"), s.iter()), r),
            _ => (Mon::new(format!("{r:?}.into_iter()"), s.into_iter()), r),
        })
    }
    /// a random composition
    fn tree(&self, cx: &mut Cx, depth: usize) -> R<(Mon, Raw)> {
        if depth == 0 { return self.leaf(cx) }
        let (m, r) = self.tree(cx, depth - 1)?;
        let n = m.name.clone();
        let k = cx.rng.below(if T::DATE { 13 } else { 15 });
        cx.h(k);
        let (x, y) = match k {
            // with another composition
            0..=4 => {
                let d = cx.rng.us(depth);
                let (m2, r2) = self.tree(cx, d)?;
                let n2 = m2.name.clone();
                match k {
                    0 | 4 => (Mon::new(format!("({n} | {n2})"), m.union(m2)), union(&r, &r2)),
                    1 | 3 => (Mon::new(format!("({n} & {n2})"), m.intersection(m2)), inter(&r, &r2)),
                    _ => (Mon::new(format!("({n} minus {n2})"), m.exclusion(m2)), excl(&r, &r2)),
                }
            }
            // with a set or an interval
            5..=6 => {
                let r2 = if cx.rng.pct(50) { nearset(&mut cx.rng, &r, self.z) } else { self.leafraw(cx) };
                cx.hraw(&r2);
                let s: TimeSet<T> = set_or_skip(&r2, cx.idx)?;
                match cx.rng.below(4) {
                    0 => (Mon::new(format!("({n} | set {r2:?})"), m.union(s)), union(&r, &r2)),
                    1 => (Mon::new(format!("({n} | &set {r2:?})"), m.union(&s)), union(&r, &r2)),
                    2 => (Mon::new(format!("({n} & set {r2:?})"), m.intersection(s)), inter(&r, &r2)),
                    _ => (Mon::new(format!("({n} & &set {r2:?})"), m.intersection(&s)), inter(&r, &r2)),
                }
            }
            7..=8 => {
                let w = near(&mut cx.rng, &r, self.z);
                let o = op_of(&mut cx.rng, w);
                cx.hraw(&o.raw());
                let i: Iv = op_iv(o);
                macro_rules! range { ($w:expr) => {{ let w = $w; if cx.rng.pct(50) { (Mon::new(format!("({n} | range {o:?})"), m.union(w)), union(&r, &o.raw())) } else { (Mon::new(format!("({n} & range {o:?})"), m.intersection(w)), inter(&r, &o.raw())) } }} }
                let (a, b, up) = (T::mk(o.a), T::mk(o.b), T::mk(if o.b == INF { INF } else { o.b + 1 }));
                if cx.rng.pct(40) { match o.k {
                    // ranges as they are
                    K::Range => range!(a..up), K::Incl => range!(a..=b), K::From => range!(a..), K::To => range!(..up), K::ToIncl => range!(..=b),
                    K::EmptyRange => range!(a..b), K::EmptyIncl => range!(a..=b), K::EmptyFrom => range!(a..), K::EmptyTo => range!(..b), K::EmptyToIncl => range!(..=b),
                    _ => (Mon::new(format!("({n} minus {o:?})"), m.exclusion(i.into_iter())), excl(&r, &o.raw())),
                } } else { match cx.rng.below(5) {
                    0 => (Mon::new(format!("({n} | {o:?})"), m.union(i)), union(&r, &o.raw())),
                    1 => (Mon::new(format!("({n} | &{o:?})"), m.union(&i)), union(&r, &o.raw())),
                    2 => (Mon::new(format!("({n} & {o:?})"), m.intersection(i)), inter(&r, &o.raw())),
                    3 => (Mon::new(format!("({n} & &{o:?})"), m.intersection(&i)), inter(&r, &o.raw())),
                    _ => (Mon::new(format!("({n} minus {o:?})"), m.exclusion(i.into_iter())), excl(&r, &o.raw())),
                } }
            }
            9..=10 => (Mon::new(format!("!{n}"), m.complementary()), compl(&r)),
            11 => { let t = cx.rng.i(-9, 9); cx.h(t as u64); (Mon::new(format!("({n} + {t})"), m.translation(TimeValue::from_ticks(t))), msum(&r, &[(t, t)])) }
            12 => {
                let w = match cx.rng.below(9) { 0 => None, 1 => Some((NEG, 3)), 2 => Some((-2, INF)), _ => { let a = cx.rng.i(-9, 9); Some((a, a + cx.rng.i(0, 7))) } };
                let o = op_of(&mut cx.rng, w);
                cx.hraw(&o.raw());
                let i: TimeSpan = op_iv(o);
                (Mon::new(format!("({n} + {o:?})"), m.translation(&i)), msum(&r, &o.raw()))
            }
            // (which scales the intervals as they come)
            _ if n.contains("split") => return skip(),
            _ => return scaled(cx, m, r),
        };
        if !fits(&y) { return skip() }
        Ok((x, y))
    }
}
pub fn case(cx: &mut Cx) -> R {
    let z = if cx.rng.pct(70) { Zone { base: *cx.rng.pick(&[0, 0, 0, -7, 1 << 40]), span: *cx.rng.pick(&[8, 12, 25]) } } else { midzone(&mut cx.rng) };
    let b = B { z };
    let depth = match cx.rng.below(8) { 0 => 0, 1..=3 => 1, 4..=5 => 2, 6 => 3, _ => 4 };
    cx.tag(["depth 0", "depth 1", "depth 2", "depth 3", "depth 4"][depth]);
    let (m, r) = nopanic(|| "building a lazy composition".into(), || b.tree(cx, depth))??;
    cx.say(|| format!("{} should hold {r:?}", m.name));
    let n = m.name.clone();
    nopanic(|| n, || judge(cx, m, &r))??;
    // the collecting and jumping methods of a set's own iterator
    if cx.idx % 5 == 0 {
        let r = b.leafraw(cx);
        let s: TimeSet<T> = set_or_skip(&r, cx.idx)?;
        let k = cx.rng.us(r.len() + 2);
        let (rv, rest) = (r.get(k).copied(), r.len().saturating_sub(k + 1));
        let mut it = s.iter();
        ensure_eq!(cx, it.nth(k).map(|i| iv_raw(&i)), rv, "{r:?}.iter().nth({k})");
        ensure_eq!(cx, it.count(), rest, "{r:?}.iter() count after nth({k})");
        ensure_eq!(cx, s.iter().count(), r.len(), "{r:?}.iter().count()");
        ensure_eq!(cx, s.iter().last().map(|i| iv_raw(&i)), r.last().copied(), "{r:?}.iter().last()");
        ensure_eq!(cx, (&s).into_iter().last().map(|i| iv_raw(&i)), r.last().copied(), "(&{r:?}).into_iter().last()");
        let h = (&s).into_iter().size_hint();
        cx.obs += 1;
        ensure!(h.0 <= r.len() && h.1.is_none_or(|x| x >= r.len()), "(&{r:?}).into_iter() announces {h:?}");
    }
    Ok(())
}

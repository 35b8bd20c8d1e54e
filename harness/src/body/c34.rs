type Iv = TimeInterval<T>;
/// A lazy iterator; the allocations made while it is built or runs are counted
struct Lz(Box<dyn Iterator<Item = Iv>>, String);
impl Iterator for Lz {
    type Item = Iv;
    fn next(&mut self) -> Option<Iv> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
}
impl TimeConvexIterator for Lz { type TimePoint = T; }
/// the operation must not allocate; what it builds is then boxed, which is not counted
fn quiet<I: Iterator<Item = Iv> + 'static>(name: String, f: impl FnOnce() -> I) -> R<Lz> {
    let (i, n, peak, _) = alloc_of(f);
    ensure!(n == 0, "building {name} makes {n} allocations ({peak} bytes)");
    Ok(Lz(Box::new(i), name))
}
struct B { z: Zone }
impl B {
    fn some(&self, cx: &mut Cx) -> Raw {
        let r = match cx.rng.below(4) { 0 => mask_set(cx.rng.below(512), self.z.base), _ => rawset(&mut cx.rng, self.z) };
        cx.hraw(&r);
        if r.len() > 1 { cx.nontrivial = true }
        r
    }
    fn leaf(&self, cx: &mut Cx) -> R<(Lz, usize)> {
        if cx.rng.pct(20) {
            let w = rawiv(&mut cx.rng, self.z);
            let o = op_of(&mut cx.rng, w);
            cx.hraw(&o.raw());
            let l = if cx.rng.pct(50) { with_op!(T, o, w => quiet(format!("{o:?}.iter()"), move || w.iter())) } else { let i: Iv = op_iv(o); quiet(format!("{o:?}.into_iter()"), move || i.into_iter()) }?;
            return Ok((l, 1));
        }
        let r = self.some(cx);
        let s: TimeSet<T> = set_or_skip(&r, cx.idx)?;
        let n = cx.rng.us(4);
        let p = T::mk(tick(&mut cx.rng, self.z));
        let k = cx.rng.below(11);
        cx.h(k); cx.h(n as u64);
        let (name, len) = (format!("{r:?}"), r.len());
        // the set is borrowed: the case frees it when it is over
        let b: &'static TimeSet<T> = unsafe { &*cx.keep(s) };
        Ok((match k {
            0 => { let s = b.clone(); quiet(format!("{name}.into_iter()"), move || s.into_iter()) }
            1 => quiet(format!("&{name}.skip({n})"), || b.into_iter().skip(n)),
            2 => quiet(format!("&{name}.take({n})"), || b.into_iter().take(n)),
            3 => quiet(format!("&{name}.step_by({})", n + 1), || b.into_iter().step_by(n + 1)),
            4 => quiet(format!("&{name}.skip_while(<{p:?})"), || b.into_iter().skip_while(move |i| i.upper_bound() < p)),
            5 => quiet(format!("&{name}.take_while(<{p:?})"), || b.into_iter().take_while(move |i| i.upper_bound() < p)),
            6 => quiet(format!("&{name}.peekable()"), || b.into_iter().peekable()),
            _ => quiet(format!("&{name}"), || b.into_iter()),
        }?, len))
    }
    fn tree(&self, cx: &mut Cx, depth: usize) -> R<(Lz, usize)> {
        if depth == 0 { return self.leaf(cx) }
        let (m, len) = self.tree(cx, depth - 1)?;
        let n = m.1.clone();
        let k = cx.rng.below(13);
        cx.h(k);
        Ok(match k {
            0..=4 => {
                let d = cx.rng.us(depth);
                let (m2, l2) = self.tree(cx, d)?;
                let n2 = m2.1.clone();
                (match k {
                    0 | 4 => quiet(format!("({n} | {n2})"), || m.union(m2)),
                    1 | 3 => quiet(format!("({n} & {n2})"), || m.intersection(m2)),
                    _ => quiet(format!("({n} minus {n2})"), || m.exclusion(m2)),
                }?, len + l2 + 1)
            }
            5 => {
                let r2 = self.some(cx);
                let s: TimeSet<T> = set_or_skip(&r2, cx.idx)?;
                (if cx.rng.pct(50) { quiet(format!("({n} | set {r2:?})"), || m.union(s)) } else { quiet(format!("({n} & set {r2:?})"), || m.intersection(s)) }?, len + r2.len())
            }
            6..=8 => {
                let w = rawiv(&mut cx.rng, self.z);
                let o = op_of(&mut cx.rng, w);
                cx.hraw(&o.raw());
                let i: Iv = op_iv(o);
                (match cx.rng.below(5) {
                    0 => quiet(format!("({n} | {o:?})"), || m.union(i)),
                    1 => quiet(format!("({n} | &{o:?})"), || m.union(&i)),
                    2 => quiet(format!("({n} & {o:?})"), || m.intersection(i)),
                    3 => quiet(format!("({n} & &{o:?})"), || m.intersection(&i)),
                    _ => quiet(format!("({n} minus {o:?})"), || m.exclusion(i.into_iter())),
                }?, len + 1)
            }
            9..=10 => (quiet(format!("!{n}"), || m.complementary())?, len + 1),
            _ => { let t = cx.rng.i(-9, 9); cx.h(t as u64); (quiet(format!("({n} + {t})"), || m.translation(TimeValue::from_ticks(t)))?, len) }
        })
    }
}
/// lazy operations make no intermediate structure
pub fn lazy(cx: &mut Cx) -> R {
    let z = if cx.rng.pct(70) { Zone { base: *cx.rng.pick(&[0, 0, 0, -7, 1 << 40]), span: *cx.rng.pick(&[8, 12, 25]) } } else { midzone(&mut cx.rng) };
    let b = B { z };
    let depth = match cx.rng.below(8) { 0 => 0, 1..=3 => 1, 4..=5 => 2, 6 => 3, _ => 4 };
    cx.tag(["lazy depth 0", "lazy depth 1", "lazy depth 2", "lazy depth 3", "lazy depth 4"][depth]);
    let (mut m, len) = nopanic(|| "building a lazy composition".into(), || b.tree(cx, depth))??;
    cx.say(|| format!("{} is run, its allocations being counted", m.1));
    let name = m.1.clone();
    let (n, c, peak, _) = alloc_of(|| { let mut n = 0usize; let mut h = m.size_hint().0; while m.next().is_some() { n += 1; h ^= m.size_hint().0; if n > 60_000 { break } } std::hint::black_box(h); n });
    cx.obs += 1 + n as u64;
    ensure!(n <= 60_000, "{name}: does not end");
    ensure!(c == 0, "{name}: makes {c} allocations ({peak} bytes) while it yields {n} intervals");
    let _ = len;
    Ok(())
}
/// the operators make little more than their results
pub fn eager(cx: &mut Cx) -> R {
    cx.tag("set operators");
    let (ra, rb, _) = case_pair(cx);
    let (a, b): (TimeSet<T>, TimeSet<T>) = (set_or_skip(&ra, cx.idx)?, set_or_skip(&rb, cx.idx)?);
    let lim = 8 * 16 * (ra.len() + rb.len() + 8) as i64;
    cx.say(|| format!("memory taken by the operators on {ra:?} and {rb:?}"));
    if ra.len() + rb.len() > 2 { cx.nontrivial = true }
    macro_rules! small { ($n:expr, $f:expr) => {{
        let (s, _, peak, _) = alloc_of(|| $f);
        cx.obs += 1;
        ensure!(peak <= lim, "{} takes {peak} bytes with {ra:?} and {rb:?}, over {lim}", $n);
        drop(s);
    }} }
    small!("&a | &b", &a | &b);
    small!("&a & &b", &a & &b);
    small!("!a", !a.clone());
    small!("a | b", a.clone() | b.clone());
    small!("a & b", a.clone() & b.clone());
    small!("a |= b", { let mut x = a.clone(); x |= b.clone(); x });
    small!("a &= b", { let mut x = a.clone(); x &= &b; x });
    small!("the collected lazy union", (&a).into_iter().union((&b).into_iter()).collect::<TimeSet<T>>());
    small!("the collected lazy intersection", (&a).into_iter().intersection((&b).into_iter()).collect::<TimeSet<T>>());
    Ok(())
}

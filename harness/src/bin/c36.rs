use vh::*;
use vh::user::*;
use chronologic::*;
use chronologic::graph::*;
use chronologic::iter::*;
macro_rules! with { ($m:ident, $t:ty, $f:literal) => {
    #[allow(unused)] mod $m { use vh::*; use chronologic::*; use chronologic::iter::*; type T = $t;
        fn periodic(_: i64, _: i64, _: i64) -> Option<Box<dyn Iterator<Item = TimeInterval<T>>>> { None }
        include!(concat!("../body/", $f)); }
} }
with!(b01, vh::user::Up, "c01.rs"); with!(b02, vh::user::Up, "c02.rs"); with!(b03, vh::user::Up, "c03.rs"); with!(b04, vh::user::Up, "c04.rs");
with!(b05, vh::user::Up, "c05.rs"); with!(b06, vh::user::Up, "c06.rs"); with!(b07, vh::user::Up, "c07.rs"); with!(b08, vh::user::Up, "c08.rs");
with!(b29, vh::user::Up, "c29.rs"); with!(b33, vh::user::Up, "c33.rs");
#[allow(unused)] mod b16 { use vh::*; use chronologic::*; use chronologic::iter::*; type T = vh::user::Up;
    fn scaled(_: &mut Cx, _: Mon, _: Raw) -> R<(Mon, Raw)> { skip() }
    include!("../body/c16.rs"); }
with!(wv, TimeValue, "c36.rs"); with!(ws, Timestamp, "c36.rs"); with!(wu, vh::user::Up, "c36.rs");

/// translations of windows of the user's instants
fn moved(cx: &mut Cx) -> R {
    let z = Zone { base: *cx.rng.pick(&[0, 0, 100, -100, 1 << 40, -(1 << 40)]), span: *cx.rng.pick(&[9, 30, 1000]) };
    let (a, y) = (rawset(&mut cx.rng, z), Zone { base: cx.rng.i(-20, 20), span: *cx.rng.pick(&[3, 10, 100]) });
    let n = cx.rng.us(4);
    let b = rawset_n(&mut cx.rng, y, n);
    cx.hraw(&a); cx.hraw(&b);
    cx.nontrivial = !a.is_empty() && !b.is_empty();
    cx.tag("translations of the user's instants");
    cx.say(|| format!("{a:?} moved by {b:?}"));
    let (sa, sb) = (set_or_skip::<Up>(&a, 0)?, set_or_skip::<TimeValue>(&b, 0)?);
    let w = |r: &[(i64, i64)]| format!("{a:?} moved by {r:?}");
    let nb = neg(&b);
    macro_rules! st { ($x:expr, $r:expr) => {{ let r: &Raw = &$r; let got = nopanic(|| w(r), || raw::<Up>(&$x))?; let e = msum(&a, r); ensure_eq!(cx, got, e, "{}: {}", stringify!($x), w(r)); }} }
    st!(sa.clone() + sb.clone(), b); st!(sa.clone() - sb.clone(), nb);
    st!({ let mut s = sa.clone(); s += sb.clone(); s }, b); st!({ let mut s = sa.clone(); s -= sb.clone(); s }, nb);
    if let Some(&x) = b.first() {
        let (i, r, nr) = (iv::<TimeValue>(x), vec![x], vec![(-x.1, -x.0)]);
        st!(sa.clone() + i, r); st!(sa.clone() - i, nr); st!({ let mut s = sa.clone(); s += i; s }, r); st!({ let mut s = sa.clone(); s -= i; s }, nr);
        st!(sa.iter().translation(&i).collect::<TimeSet<Up>>(), r);
        if let Some(&y) = a.last() {
            let k = iv::<Up>(y);
            macro_rules! one { ($x:expr, $r:expr) => {{ let got = nopanic(|| w(&$r), || $x)?; ensure_eq!(cx, iv_raw::<Up>(&got), msum(&[y], &$r)[0], "{}: {y:?} moved by {:?}", stringify!($x), $r); }} }
            one!(k + i, r); one!(k - i, nr); one!({ let mut k = k; k += i; k }, r); one!({ let mut k = k; k -= i; k }, nr);
        }
    }
    let t = tick(&mut cx.rng, y);
    let d = TimeValue::from_ticks(t);
    let (r, nr) = (vec![(t, t)], vec![(-t, -t)]);
    st!(sa.clone() + d, r); st!(sa.clone() - d, nr); st!({ let mut s = sa.clone(); s += d; s }, r); st!({ let mut s = sa.clone(); s -= d; s }, nr);
    st!(sa.iter().translation(d).collect::<TimeSet<Up>>(), r);
    if let Some(&y) = a.first() {
        let k = iv::<Up>(y);
        let got = nopanic(|| w(&r), || [k + d, d + k, { let mut k = k; k += d; k }].map(|i| iv_raw(&i)))?;
        ensure_eq!(cx, got, [msum(&[y], &r)[0]; 3], "{y:?} + {t}");
        let got = nopanic(|| w(&nr), || [k - d, { let mut k = k; k -= d; k }].map(|i| iv_raw(&i)))?;
        ensure_eq!(cx, got, [msum(&[y], &nr)[0]; 2], "{y:?} - {t}");
        let got = nopanic(|| w(&r), || iv_raw(&(d - k)))?;
        ensure_eq!(cx, got, msum(&neg(&[y]), &r)[0], "{t} - {y:?}");
    }
    Ok(())
}

/// Every pair of windows of a line of seven instants, every operation.
/// The oracle is a set of bits: instants -3 to 3 are the bits 1 to 7, the bits
/// 0 and 8 tell that the window goes on to the infinities.
mod small {
    use super::*;
    type S = TimeSet<Small>;
    pub const CELLS: u64 = 9;
    pub fn valid(m: u64) -> bool { (m & 1 == 0 || m & 2 != 0) && (m >> 8 & 1 == 0 || m >> 7 & 1 != 0) }
    /// without what lies beyond the last instants only
    fn fix(mut m: u64) -> u64 { if m & 2 == 0 { m &= !1 } if m >> 7 & 1 == 0 { m &= !(1 << 8) } m }
    pub fn runs(m: u64) -> Raw {
        let mut v: Raw = vec![];
        for i in 0..CELLS { if m >> i & 1 == 1 {
            let x = i as i64 - 4;
            match v.last_mut() { Some(l) if l.1 == x - 1 => l.1 = x, _ => v.push((x, x)) }
        } }
        v.iter().map(|&(a, b)| (if a < -3 { NEG } else { a }, if b > 3 { INF } else { b })).collect()
    }
    fn set(m: u64, route: u64) -> S {
        let r = runs(m);
        match route % 3 {
            0 => r.iter().map(|x| iv::<Small>(*x)).collect(),
            1 => r.iter().fold(S::empty(), |s, x| s | iv::<Small>(*x)),
            _ => r.iter().rev().fold(S::empty(), |mut s, x| { s |= Win::<Small>::new(Some(*x), (0, 0)); s }),
        }
    }
    pub fn pair(cx: &mut Cx, ma: u64, mb: u64) -> R {
        let full = 511;
        cx.h(ma); cx.h(mb);
        cx.nontrivial = ma != 0 && mb != 0 && ma != mb;
        cx.tag("line of seven instants");
        let (ra, rb) = (runs(ma), runs(mb));
        cx.say(|| format!("{ra:?} with {rb:?} on a line of seven instants"));
        let w = || format!("{ra:?} with {rb:?} on a line of seven instants");
        let rt = cx.rng.below(3);
        let (a, b) = nopanic(w, || (set(ma, rt), set(mb, rt + 1)))?;
        ensure_eq!(cx, (raw(&a), raw(&b)), (ra.clone(), rb.clone()), "sets built");
        macro_rules! st { ($n:literal, $x:expr, $m:expr) => {{
            let got = nopanic(|| format!("{}: {}", $n, w()), || { let s: S = $x; s })?;
            let e = runs($m);
            ensure_eq!(cx, (raw(&got), got.is_empty(), got.convex_count()), (e.clone(), e.is_empty(), e.len()), "{}: {}", $n, w());
        }} }
        st!("union", &a | &b, ma | mb); st!("union", a.clone() | b.clone(), ma | mb);
        st!("union in place", { let mut s = a.clone(); s |= &b; s }, ma | mb);
        st!("intersection", &a & &b, ma & mb); st!("intersection in place", { let mut s = a.clone(); s &= b.clone(); s }, ma & mb);
        st!("complement", !a.clone(), fix(full & !ma));
        let nb = fix(full & !mb);
        st!("exclusion", &a & !b.clone(), ma & nb);
        st!("lazy union", a.iter().union(&b).collect(), ma | mb);
        st!("lazy intersection", a.iter().intersection(b.iter()).collect(), ma & mb);
        st!("lazy exclusion", a.iter().exclusion(b.iter()).collect(), ma & nb);
        st!("lazy complement", a.iter().complementary().collect(), fix(full & !ma));
        st!("lazy xor", a.iter().exclusion(b.iter()).union(b.iter().exclusion(a.iter())).collect(), ma & nb | mb & fix(full & !ma));
        st!("opposite", -a.clone(), { let m: u64 = ma; (0..CELLS).filter(|i| m >> i & 1 == 1).map(|i| 1 << (8 - i)).sum() });
        let got = nopanic(w, || (a.contains(&b), a.overlaps(&b), a == b))?;
        ensure_eq!(cx, got, (mb & !ma == 0, ma & mb & 0xfe != 0, ma == mb), "(contains, overlaps, equals): {}", w());
        if ma == mb { ensure_eq!(cx, hash_of(&a), hash_of(&b), "hashes of {}", w()); }
        if ma != 0 && mb != 0 {
            let (l, g) = ((63 - ma.leading_zeros()) < mb.trailing_zeros(), (63 - mb.leading_zeros()) < ma.trailing_zeros());
            // (windows which go on to the same infinity are not ordered)
            ensure_eq!(cx, nopanic(w, || (a < b, a > b))?, (l, g), "order: {}", w());
        }
        // b in one piece: as each kind of convex window
        if rb.len() <= 1 {
            let i: TimeInterval<Small> = rb.first().map_or(TimeInterval::empty(), |x| iv(*x));
            let junk = (cx.rng.i(-3, 3), cx.rng.i(-3, 3));
            let win = Win::<Small>::new(rb.first().copied(), junk);
            st!("union with an interval", &a | i, ma | mb); st!("intersection with an interval", &a & i, ma & mb);
            st!("union with a window", a.clone() | win, ma | mb); st!("intersection with a window", a.clone() & win, ma & mb);
            st!("intersection in place with a window", { let mut s = a.clone(); s &= win; s }, ma & mb);
            st!("complement of an interval", !i, nb);
            let e = (mb & !ma == 0, ma & mb & 0xfe != 0, ma & !mb == 0, ma & mb & 0xfe != 0);
            ensure_eq!(cx, nopanic(w, || (a.contains(&i), a.overlaps(&i), i.contains(&a), i.overlaps(&a)))?, e, "interval: (contains, overlaps, contained, overlapped): {}", w());
            ensure_eq!(cx, nopanic(w, || (a.contains(&win), a.overlaps(&win), win.contains(&a), win.overlaps(&a)))?, e, "window: (contains, overlaps, contained, overlapped): {}", w());
            ensure_eq!(cx, nopanic(w, || (i == a, a == i, a == win, i == win))?, (ma == mb, ma == mb, ma == mb, true), "interval or window: equality: {}", w());
        }
        // truncations at every instant, infinities included
        for t in -4..=4i64 {
            let p = Small::mk(if t == 4 { INF } else if t == -4 { NEG } else { t });
            let low = (1u64 << (t + 5)) - 1; // up to t
            let (ka, kb) = (if t == 4 { ma } else { ma & low & if t == -4 { 0 } else { full } }, if t == -4 { ma } else if t == 4 { 0 } else { ma & !(low >> 1) });
            let (mut x, mut y) = (a.clone(), a.clone());
            let got = nopanic(w, || (x.truncate_after(p), y.truncate_before(p)))?;
            ensure_eq!(cx, (raw(&x), raw(&y), got), (runs(ka), runs(kb), (ka != ma, kb != ma)), "{ra:?} cut after and before {t}, on a line of seven instants");
        }
        Ok(())
    }
}
/// the set of valid masks
fn masks() -> &'static Vec<u64> { use std::sync::OnceLock; static M: OnceLock<Vec<u64>> = OnceLock::new(); M.get_or_init(|| (0..512).filter(|m| small::valid(*m)).collect()) }

/// a constraint of the user, between instants and with a window of its own
struct Own(u32, u32, Win<TimeValue>);
impl TimeBounds for Own {
    type TimePoint = TimeValue;
    fn is_empty(&self) -> bool { self.2.is_empty() }
    fn is_low_bounded(&self) -> bool { self.2.is_low_bounded() }
    fn is_up_bounded(&self) -> bool { self.2.is_up_bounded() }
    fn lower_bound(&self) -> TimeValue { self.2.lower_bound() }
    fn upper_bound(&self) -> TimeValue { self.2.upper_bound() }
}
impl TimeConvex for Own {}
impl TimeConstraint for Own { fn from(&self) -> u32 { self.0 } fn to(&self) -> u32 { self.1 } }
fn junk(r: &mut Rng, s: i64) -> (i64, i64) { match r.below(4) { 0 => (INF, NEG), 1 => (0, 0), 2 => (NEG, INF), _ => (s * r.i(-9, 9), s * r.i(-9, 9)) } }
/// graphs: the same history, written with the library's windows and with the user's
fn graphs(cx: &mut Cx) -> R {
    let n = 2 + cx.rng.us(5);
    let noise = *cx.rng.pick(&[0, 20, 50]);
    let src = Src::new(&mut cx.rng, n, noise);
    let (mut g, mut h) = (TimeGraph::with_size(n as u32), TimeGraph::with_size(n as u32));
    cx.tag("constraints of the user");
    for step in 0..2 + cx.rng.us(6) {
        let k = if cx.rng.pct(60) { 1 } else { 1 + cx.rng.us(5) };
        let mut cs: Vec<Con> = (0..k).map(|_| src.con(&mut cx.rng, None, n)).collect();
        if cx.rng.pct(7) { let p = cx.rng.us(k); cs[p].o = op_of(&mut cx.rng, None) }
        let js: Vec<(i64, i64)> = cs.iter().map(|_| junk(&mut cx.rng, src.scale)).collect();
        for c in &cs { hcon(cx, c); cx.say(|| format!("{c:?}")) }
        if cs.iter().any(|c| c.win().is_none()) { cx.tag("impossible constraint of the user") }
        let one = k == 1 && cx.rng.pct(70);
        let own = cx.rng.pct(50);
        let what = || format!("step {step}: {cs:?}, as the user's (bounds told when empty: {js:?})");
        let a = nopanic(what, || rep(if one { g.propagate(cs[0].span()) } else { g.extend(cs.iter().map(|c| c.span())) }))?;
        let win = |p: usize| Win::<TimeValue>::new(cs[p].win(), js[p]);
        let b = nopanic(what, || rep(match (one, own) {
            (true, true) => h.propagate(Own(cs[0].i, cs[0].j, win(0))),
            (true, false) => h.propagate(((cs[0].i, cs[0].j), win(0))),
            (false, true) => h.extend((0..k).map(|p| Own(cs[p].i, cs[p].j, win(p)))),
            (false, false) => h.extend((0..k).filter(|_| true).map(|p| ((cs[p].i, cs[p].j), win(p)))),
        }))?;
        ensure_eq!(cx, b, a, "{}", what());
        if !a.ok() && a != Rep::Recovered { break }
        ensure_eq!(cx, (h.size(), wins(&h)), (g.size(), wins(&g)), "{}: windows", what());
        if a == Rep::Propagated { cx.nontrivial = true }
    }
    // a graph made from an iterator
    let cs: Vec<Con> = (0..1 + cx.rng.us(6)).map(|_| src.con(&mut cx.rng, None, n)).collect();
    let js: Vec<(i64, i64)> = cs.iter().map(|_| junk(&mut cx.rng, src.scale)).collect();
    // (the constraints of an instant with itself aside: see C32)
    for (c, j) in cs.iter().zip(&js) { if c.i != c.j && c.win().is_some() {
        let own = Own(c.i, c.j, Win::new(c.win(), *j));
        ensure_eq!(cx, nopanic(|| format!("{c:?}"), || (own.equiv(&c.span()), c.span().equiv(&own)))?, (true, true), "{c:?} as the user's, equivalent to itself");
        let none = Own(c.i, c.j, Win::new(None, c.win().unwrap()));
        ensure_eq!(cx, nopanic(|| format!("{c:?}"), || (none.equiv(&c.span()), c.span().equiv(&none)))?, (false, false), "{c:?} equivalent to an impossible constraint which tells the same bounds");
    } }
    Ok(())
}
struct Holes(Pieces<Timestamp>);
impl std::ops::Not for Holes { type Output = Pieces2; fn not(self) -> Pieces2 { let r: Raw = self.0.v.iter().map(|(a, b)| (a.tk(), b.tk())).collect(); Pieces2(Pieces::new(&compl(&r), (self.0.junk.0.tk(), self.0.junk.1.tk()))) } }
/// a window of the user which a scheduler may be given
#[derive(Clone, Debug)]
struct Pieces2(Pieces<Timestamp>);
impl Pieces2 { fn raw(&self) -> Raw { self.0.v.iter().map(|(a, b)| (a.tk(), b.tk())).collect() } }
impl TimeBounds for Pieces2 {
    type TimePoint = Timestamp;
    fn is_empty(&self) -> bool { self.0.is_empty() }
    fn is_low_bounded(&self) -> bool { self.0.is_low_bounded() }
    fn is_up_bounded(&self) -> bool { self.0.is_up_bounded() }
    fn lower_bound(&self) -> Timestamp { self.0.lower_bound() }
    fn upper_bound(&self) -> Timestamp { self.0.upper_bound() }
}
impl TimeWindow for Pieces2 {
    fn convex_count(&self) -> usize { self.0.convex_count() }
    type ConvexIter = PiecesIter<Timestamp>;
    fn iter(&self) -> PiecesIter<Timestamp> { self.0.iter() }
}
impl TimeContaining<TimeSlots> for Pieces2 { fn contains(&self, s: &TimeSlots) -> bool { subset(&raw(s), &self.raw()) } }
impl TimeOverlapping<TimeSlots> for Pieces2 { fn overlaps(&self, s: &TimeSlots) -> bool { !inter(&raw(s), &self.raw()).is_empty() } }
impl std::ops::BitAndAssign<Pieces2> for TimeSlots { fn bitand_assign(&mut self, w: Pieces2) { *self = inter(&raw(self), &w.raw()).iter().map(|x| iv::<Timestamp>(*x)).collect() } }
/// schedulers: the same restrictions, written with the library's windows and with the user's
fn schedulers(cx: &mut Cx) -> R {
    let Some((g, m, _)) = sched_net(cx, 1) else { return skip() };
    let (mut s, mut t) = (TimeScheduler::new(&g), TimeScheduler::new(&g));
    cx.tag("restrictions of the user");
    for step in 0..2 + cx.rng.us(7) {
        let before = slots(&s);
        let q = restriction(cx, &before, false);
        let jk = { let p = before[cx.rng.us(m.n)].clone(); match cx.rng.below(3) { 0 => (0, 0), 1 => p.first().copied().unwrap_or((0, 0)), _ => (NEG, INF) } };
        let what = || format!("step {step}, {q:?} on slots {before:?}, as the user's (bounds told when empty: {jk:?})");
        let a = nopanic(what, || restrict(&mut s, &q))?;
        let pcs = |r: &Raw| Pieces::new(r, jk);
        let b = nopanic(what, || rep(match &q {
            Q::Retain(i, o) => t.retain(*i, Win::<Timestamp>::new(o.win(), jk)),
            Q::RetainSet(i, r, _) => t.retain(*i, Pieces2(pcs(r))),
            Q::Remove(i, o) => t.remove(*i, Holes(pcs(&o.raw()))),
            Q::RemoveSet(i, r, _) => t.remove(*i, Holes(pcs(r))),
            Q::Deadline(d) => t.set_deadline(Timestamp::mk(*d)), Q::Startline(d) => t.set_startline(Timestamp::mk(*d)),
        }))?;
        ensure_eq!(cx, b, a, "{}", what());
        ensure_eq!(cx, slots(&t), slots(&s), "{}: slots", what());
        if a == Rep::Propagated { cx.nontrivial = true }
    }
    Ok(())
}
fn main() {
    run::main(Spec {
        id: "C36", quick: 1_500_000, thorough: 15_000_000,
        rule: "a case is distinct by its windows, compositions, constraints or restrictions; non trivial when windows are not empty (or something was really constrained)",
        case: |cx| {
            let v = masks();
            let n = v.len() as u64;
            match cx.idx % 18 {
                0 => b01::case(cx), 1 => b02::case(cx), 2 => b03::case(cx), 3 => b04::case(cx), 4 => b05::case(cx), 5 => b06::case(cx), 6 => b07::case(cx), 7 => b08::case(cx),
                8 => b29::case(cx), 9 => b33::case(cx), 10 => b16::case(cx), 11 => moved(cx),
                12 => wv::case(cx), 13 => ws::case(cx), 14 => wu::case(cx), 15 => graphs(cx), 16 => schedulers(cx),
                _ => { let k = (cx.idx / 18) % (n * n); small::pair(cx, v[(k % n) as usize], v[(k / n) as usize]) }
            }
        },
    })
}

use vh::*;
use chronologic::*;
const MAX: i128 = INF as i128 - 1; // greatest finite tick
/// dates x0, x0+d, x0+2d... within the finite range
#[derive(Clone, Copy)]
struct M { x: i128, d: i128 }
impl M {
    fn fin(x: i128) -> bool { -MAX <= x && x <= MAX }
    fn len(&self) -> u128 { if !M::fin(self.x) { 0 } else if self.d > 0 { ((MAX - self.x) / self.d + 1) as u128 } else { ((self.x + MAX) / -self.d + 1) as u128 } }
    fn at(&self, k: u128) -> Option<i64> { if k >= self.len() { None } else { Some((self.x + k as i128 * self.d) as i64) } }
    fn skip(&self, k: u128) -> M { let k = k.min(self.len()); M { x: self.x + k as i128 * self.d, d: self.d } }
}
fn hint(cx: &mut Cx, s: &impl Iterator, m: M, what: &str) -> R {
    let (lo, hi) = nopanic(|| format!("{what}: size_hint"), || s.size_hint())?;
    let l = m.len();
    cx.obs += 1;
    ensure!(lo as u128 <= l && hi.is_none_or(|h| h as u128 >= l), "{what}: announces ({lo},{hi:?}) but {l} dates remain");
    Ok(())
}
fn go<S: Iterator<Item = Timestamp> + Clone + Timestamped>(cx: &mut Cx, s: S, m: M, what: &str) -> R {
    let l = m.len();
    cx.tag(if l > 1 << 63 { "over 2^63 dates" } else if l > 1000 { "many dates" } else if l > 1 { "few dates" } else { "one date at most" });
    let tk = |t: Option<Timestamp>| t.map(|t| t.tk());
    // step by step, the size being announced at each step
    let mut it = s.clone();
    let mut at = m;
    let n = 2 + cx.rng.us(24);
    for k in 0..n {
        hint(cx, &it, at, &format!("{what} after {k} dates"))?;
        let x = nopanic(|| format!("{what}: date {k}"), || it.next())?;
        ensure_eq!(cx, tk(x), m.at(k as u128), "{what}: date {k}");
        // its own timestamp is the date it yielded last
        if x.is_some() { ensure_eq!(cx, (Some(it.timestamp().tk()), Some((&it).timestamp().tk())), (tk(x), tk(x)), "{what}: timestamp, and that of a reference, after date {k}"); }
        if let Some(x) = x { ensure_eq!(cx, (x.timestamp().tk(), (&&x).timestamp().tk()), (x.tk(), x.tk()), "timestamp of a date, and of a reference to it"); }
        at = at.skip(1);
        // the rest, from here
        if cx.rng.pct(15) { counts(cx, it.clone(), at, &format!("{what} after {} dates", k + 1))?; }
    }
    counts(cx, s.clone(), m, what)?;
    // jumps
    let mut it = s.clone();
    let mut at = m;
    for _ in 0..1 + cx.rng.us(5) {
        let r = at.len();
        let k = match cx.rng.below(8) { 0 => 0, 1 => 1, 2..=3 => cx.rng.below(12) as u128, 4 => r.saturating_sub(1), 5 => if cx.rng.pct(30) { r } else { r / 2 }, 6 => if cx.rng.pct(30) { r + cx.rng.below(5) as u128 } else { r / 7 }, _ => cx.rng.below(r.min(u64::MAX as u128) as u64 + 2) as u128 };
        if k > usize::MAX as u128 { continue }
        let how = cx.rng.below(3);
        let x = nopanic(|| format!("{what}: jump of {k}"), || match how { 0 => it.clone().skip(k as usize).next(), 1 if k < usize::MAX as u128 => it.clone().step_by(k as usize + 1).nth(1).or(None), _ => it.clone().nth(k as usize) })?;
        // (step_by gives the first, then jumps)
        let e = if how == 1 && k < usize::MAX as u128 { at.at(k + 1) } else { at.at(k) };
        ensure_eq!(cx, tk(x), e, "{what}: jump ({how}) of {k} with {r} dates left");
        let x = it.nth(k as usize);
        ensure_eq!(cx, tk(x), at.at(k), "{what}: date number {k} of {r}");
        if x.is_some() { ensure_eq!(cx, Some(it.timestamp().tk()), tk(x), "{what}: timestamp after a jump to date {k}"); }
        at = at.skip(k + 1);
        hint(cx, &it, at, &format!("{what} after a jump of {k}"))?;
        if cx.rng.pct(50) { counts(cx, it.clone(), at, &format!("{what} after a jump of {k}"))?; }
        let x = nopanic(|| format!("{what}: next after a jump"), || it.next())?;
        ensure_eq!(cx, tk(x), at.at(0), "{what}: date next to a jump of {k} with {r} dates");
        at = at.skip(1);
    }
    // to the end
    if l <= 60 {
        let mut it = s.clone();
        let all: Vec<i64> = it.by_ref().take(100).map(|t| t.tk()).collect();
        ensure_eq!(cx, all, (0..l).map(|k| m.at(k).unwrap()).collect::<Vec<_>>(), "{what}: all dates");
        for _ in 0..3 { ensure!(it.next().is_none(), "{what}: yields again once finished") }
        hint(cx, &it, m.skip(l), &format!("finished {what}"))?;
        counts(cx, it, m.skip(l), &format!("finished {what}"))?;
    }
    Ok(())
}
fn counts<S: Iterator<Item = Timestamp> + Clone>(cx: &mut Cx, s: S, m: M, what: &str) -> R {
    let l = m.len();
    if l <= usize::MAX as u128 {
        let c = nopanic(|| format!("{what}: count"), || s.clone().count())?;
        ensure_eq!(cx, c as u128, l, "{what}: count");
    }
    let x = nopanic(|| format!("{what}: last"), || s.clone().last())?;
    ensure_eq!(cx, x.map(|t| t.tk()), if l == 0 { None } else { m.at(l - 1) }, "{what}: last date");
    Ok(())
}
fn case(cx: &mut Cx) -> R {
    let r = &mut cx.rng;
    // a date, and a period which leaves few or many steps up to the end
    let z = zone(r);
    let t: i64 = match r.below(8) { 0 => INF - 1 - r.i(0, 40), 1 => NEG + 1 + r.i(0, 40), 2 => r.i(NEG + 1, INF - 1), 3 => 0, _ => tick(r, z) };
    let fwd = r.pct(50);
    let room = if fwd { MAX - t as i128 } else { t as i128 + MAX };
    let d: i64 = match r.below(10) {
        0 => 1, 1 => r.i(1, 20), 2 => r.i(1, 1 << 40), 3 => *r.pick(&[1i64 << 30, 3600 << 30, 86400 << 30, 7 * (86400 << 30)]), 4 => r.i(1, INF - 1),
        _ => { let k = 1 + r.i(0, 20) as i128; (room / k + r.i(-2, 2) as i128).clamp(1, MAX) as i64 }
    };
    cx.h(t as u64); cx.h(d as u64); cx.h(fwd as u64);
    let (ts, p) = (Timestamp::mk(t), TimeValue::mk(d));
    let aligned = cx.rng.pct(40);
    cx.say(|| format!("{}{} from {t} by {d}", if fwd { "forward" } else { "backward" }, if aligned { " aligned" } else { "" }));
    // (a start next to the other end of the range is refused)
    let prev = |x: i128| if fwd { x - d as i128 } else { x + d as i128 };
    if !aligned {
        if !M::fin(prev(t as i128)) {
            cx.tag("refused start");
            return match run::guarded(|| if fwd { ts.forward_sequence(p).next() } else { ts.backward_sequence(p).next() }) {
                Err(m) if m.contains("infinite start value") => skip(),
                r => viol(format!("sequence (forward: {fwd}) of {t} by {d}, whose date one period before is out of the finite range, is not refused: {r:?}")),
            }
        }
        cx.nontrivial = true;
        let m = M { x: t as i128, d: if fwd { d as i128 } else { -(d as i128) } };
        if fwd { let s = nopanic(|| format!("forward sequence of {t} by {d}"), || ts.forward_sequence(p))?; go(cx, s, m, &format!("forward sequence of {t} by {d}")) }
        else { let s = nopanic(|| format!("backward sequence of {t} by {d}"), || ts.backward_sequence(p))?; go(cx, s, m, &format!("backward sequence of {t} by {d}")) }
    } else {
        let up = (t as i128 + d as i128 - 1).div_euclid(d as i128) * d as i128;
        let dn = (t as i128).div_euclid(d as i128) * d as i128;
        if ![up, dn].iter().all(|x| M::fin(*x) && M::fin(prev(*x))) { cx.tag("refused start"); return skip() }
        cx.nontrivial = true;
        if fwd {
            let s = nopanic(|| format!("forward periods of {t} by {d}"), || ts.forward_periods(p))?;
            go(cx, s, M { x: up, d: d as i128 }, &format!("forward periods of {t} by {d}"))
        } else {
            let s = nopanic(|| format!("backward periods of {t} by {d}"), || ts.backward_periods(p))?;
            let x = nopanic(|| "first".into(), || s.clone().next())?.map(|x| x.tk() as i128);
            ensure!(x == Some(up) || x == Some(dn), "backward periods of {t} by {d}: starts at {x:?}, which is not a multiple less than a period away");
            go(cx, s, M { x: x.unwrap(), d: -(d as i128) }, &format!("backward periods of {t} by {d}"))
        }
    }
}
fn main() {
    run::main(Spec {
        id: "C27", quick: 5_000_000, thorough: 30_000_000,
        rule: "a case is distinct by date, period and direction; non trivial when the sequence starts. Every sequence is stepped, jumped through, counted and, when short, drained",
        case,
    })
}

use vh::*;
use chronologic::*;
use chrono::NaiveDateTime;
const S: i128 = 1_000_000_000;
/// units in nanoseconds, longest first
const UNITS: [(&str, i128); 9] = [("y", 31556952 * S), ("mo", 2629746 * S), ("d", 86400 * S), ("h", 3600 * S), ("min", 60 * S), ("s", S), ("ms", 1_000_000), ("us", 1000), ("ns", 1)];
/// nanoseconds denoted by the text of a positive duration
fn parse_pos(s: &str) -> Result<i128, String> {
    if s == "0" { return Ok(0) }
    let (mut tot, mut last) = (0i128, None::<usize>);
    for w in s.split(' ') {
        let k = w.find(|c: char| !c.is_ascii_digit()).ok_or(format!("no unit in {w:?}"))?;
        let n: i128 = w[..k].parse().map_err(|_| format!("no count in {w:?}"))?;
        let u = UNITS.iter().position(|u| u.0 == &w[k..]).ok_or(format!("unknown unit in {w:?}"))?;
        if n == 0 { return Err(format!("null count in {w:?}")) }
        if last.is_some_and(|l| l >= u) { return Err("units out of order".into()) }
        if u > 0 && n * UNITS[u].1 >= UNITS[u - 1].1 { return Err(format!("{w:?} is not less than one {}", UNITS[u - 1].0)) }
        tot += n * UNITS[u].1;
        last = Some(u);
    }
    if last.is_none() { return Err("empty text".into()) }
    Ok(tot)
}
fn judge_dur(t: i64, s: &str) -> Result<(), String> {
    if t.abs() == INF { return if s == if t > 0 { "+oo" } else { "-oo" } { Ok(()) } else { Err("not shown as infinite".into()) } }
    let (neg, p) = match s.strip_prefix('-') { Some(p) => (true, p.trim_start()), None => (false, s) };
    if neg != (t < 0) { return Err("wrong sign".into()) }
    let ns = parse_pos(p)?;
    let ns = if neg { -ns } else { ns };
    if ((t as i128 * S) - (ns << 30)).abs() <= (1 << 30) + (1 << 28) { Ok(()) } else { Err(format!("denotes {ns} ns, which is {} ns away", ((t as i128 * S) >> 30) - ns)) }
}
fn judge_date(t: i64, s: &str) -> Result<(), String> {
    if t.abs() == INF { return if s == if t > 0 { "+oo" } else { "-oo" } { Ok(()) } else { Err("not shown as infinite".into()) } }
    if let Some(p) = s.strip_suffix(" before 1970-01-01 00:00:00 UTC") { return if t < 0 { judge_dur(-t, p) } else { Err("not before the origin".into()) } }
    let n = NaiveDateTime::parse_from_str(s.strip_suffix(" UTC").ok_or("no UTC mark")?, "%Y-%m-%d %H:%M:%S%.f").map_err(|e| e.to_string())?;
    judge_naive(t, n)
}
fn judge_naive(t: i64, n: NaiveDateTime) -> Result<(), String> {
    let ns = n.and_utc().timestamp() as i128 * S + n.and_utc().timestamp_subsec_nanos() as i128;
    if ((t as i128 * S) - (ns << 30)).abs() <= (1 << 31) { Ok(()) } else { Err(format!("denotes {n}")) }
}
const FMT: &str = "%Y-%m-%d %H:%M:%S%.9f";
const FMTS: [&str; 20] = [FMT, FMT, FMT, "%F", "%T", "%s", "%H:%M", "%d/%m/%y", "%Y-%m-%dT%H:%M:%S%.3fZ", "%A %e %B %Y", "%%", "", "the day", "\u{65e5}%j \u{e9}t\u{e9}", "%Z%z", "[%c]", "%YU%m,{%d}", "%P %I%.6f", "%G-W%V-%u\n", "%D%t%R"];
/// the text of a date is the one chrono gives to a date within two nanoseconds
fn judge_fmt(t: i64, fmt: &str, s: &str) -> Result<(), String> {
    use chrono::{TimeZone, Utc};
    if t.abs() == INF { return judge_date(t, s) }
    let ns = (t as i128 * S) >> 30;
    let c: Vec<String> = [0, 1, -1, 2, -2].iter().filter_map(|d| { let n = ns + d; Utc.timestamp_opt(n.div_euclid(S) as i64, n.rem_euclid(S) as u32).single() }).map(|d| d.format(fmt).to_string()).collect();
    if c.iter().any(|x| x == s) { Ok(()) } else { Err(format!("expected {:?}", c[0])) }
}
fn dbg(t: i64) -> String { if t == INF { "+oo".into() } else if t == NEG { "-oo".into() } else { t.to_string() } }
fn ok(cx: &mut Cx, r: Result<(), String>, what: impl Fn() -> String) -> R { cx.obs += 1; match r { Ok(()) => Ok(()), Err(m) => viol(format!("{}: {m}", what())) } }

fn value(cx: &mut Cx, t: i64) -> R {
    let v = TimeValue::from_ticks(t);
    let s = nopanic(|| format!("text of {t}"), || v.to_string())?;
    ok(cx, judge_dur(t, &s), || format!("text of {t} ticks is {s:?}"))?;
    let s = nopanic(|| format!("formatted text of {t}"), || v.format_timepoint(FMT))?;
    ok(cx, judge_dur(t, &s), || format!("formatted text of {t} ticks is {s:?}"))?;
    ensure_eq!(cx, guarded(|| format!("{v:?}")), Ok(dbg(t)), "debug text of {t}");
    let d = Timestamp::from_origin(v);
    let s = nopanic(|| format!("text of date {t}"), || d.to_string())?;
    ok(cx, judge_date(t, &s), || format!("text of date {t} is {s:?}"))?;
    let s = nopanic(|| format!("formatted text of date {t}"), || d.format_timepoint(FMT))?;
    let r = if t.abs() == INF { judge_date(t, &s) } else { NaiveDateTime::parse_from_str(&s, FMT).map_err(|e| e.to_string()).and_then(|n| judge_naive(t, n)) };
    ok(cx, r, || format!("formatted text of date {t} is {s:?}"))?;
    let f = *cx.rng.pick(&FMTS);
    let s = nopanic(|| format!("text of date {t} formatted as {f:?}"), || d.format_timepoint(f))?;
    ok(cx, judge_fmt(t, f, &s), || format!("text of date {t} formatted as {f:?} is {s:?}"))?;
    ensure_eq!(cx, guarded(|| v.format_timepoint(f)), Ok(v.to_string()), "text of {t} ticks formatted as {f:?}");
    ensure_eq!(cx, guarded(|| format!("{d:?}")), Ok(format!("t={}", dbg(t))), "debug text of date {t}");
    Ok(())
}
fn text(r: &Raw, f: impl Fn(i64) -> String) -> String {
    if r.is_empty() { return "{}".into() }
    r.iter().map(|(a, b)| match (*a, *b) {
        (NEG, INF) => "]-oo,+oo[".into(),
        (NEG, b) => format!("]-oo,{}]", f(b)),
        (a, INF) => format!("[{},+oo[", f(a)),
        (a, b) if a == b => format!("{{{}}}", f(a)),
        (a, b) => format!("[{},{}]", f(a), f(b)),
    }).collect::<Vec<_>>().join("U")
}
fn windows<T: Pt>(cx: &mut Cx, a: &Raw, o: Op) -> R
where TimeInterval<T>: std::fmt::Display + std::fmt::Debug, TimeSet<T>: std::fmt::Display + std::fmt::Debug, T: TimeWindow<TimePoint = T>,
      std::ops::Range<T>: TimeWindow<TimePoint = T>, std::ops::RangeInclusive<T>: TimeWindow<TimePoint = T>, std::ops::RangeFrom<T>: TimeWindow<TimePoint = T>,
      std::ops::RangeTo<T>: TimeWindow<TimePoint = T>, std::ops::RangeToInclusive<T>: TimeWindow<TimePoint = T>, TimeInterval<T>: TimeWindow<TimePoint = T>, TimeSet<T>: TimeWindow<TimePoint = T>
{
    let ft = *cx.rng.pick(&FMTS);
    let rt = cx.rng.below(4);
    let s: TimeSet<T> = set_or_skip(a, rt)?;
    let (dsp, deb, fmt) = (|t: i64| T::mk(t).to_string(), |t: i64| format!("{:?}", T::mk(t)), |t: i64| T::mk(t).format_timepoint(ft));
    ensure_eq!(cx, guarded(|| s.to_string()), Ok(text(a, dsp)), "text of set {a:?}");
    ensure_eq!(cx, guarded(|| format!("{s:?}")), Ok(text(a, deb)), "debug text of set {a:?}");
    ensure_eq!(cx, guarded(|| s.format_timeset(ft)), Ok(text(a, fmt)), "text of set {a:?} formatted as {ft:?}");
    let r = o.raw();
    let i: TimeInterval<T> = op_iv(o);
    ensure_eq!(cx, guarded(|| i.to_string()), Ok(text(&r, dsp)), "text of interval {o:?}");
    ensure_eq!(cx, guarded(|| format!("{i:?}")), Ok(text(&r, deb)), "debug text of interval {o:?}");
    ensure_eq!(cx, guarded(|| i.format_timeset(ft)), Ok(text(&r, fmt)), "text of interval {o:?} formatted as {ft:?}");
    ensure_eq!(cx, guarded(|| with_op!(T, o, w => w.format_timeset(ft))), Ok(text(&r, fmt)), "text of {o:?} formatted as {ft:?}");
    Ok(())
}
fn anytick(r: &mut Rng) -> i64 {
    match r.below(14) {
        0 => INF, 1 => NEG, 2 => r.i(-9, 9), 3 => INF - 1 - r.i(0, 9), 4 => NEG + 1 + r.i(0, 9),
        5..=8 => {
            // sums of unit counts at their limits
            let mut ns = 0i128;
            for (k, (_, u)) in UNITS.iter().enumerate() {
                let m = if k == 0 { 270 } else { (UNITS[k - 1].1 / u) as i64 };
                let c = match r.below(6) { 0 | 1 | 2 => 0, 3 => 1, 4 => (m - 1).max(0), _ => r.i(0, m) };
                ns += u * c as i128;
            }
            let t = (ns << 30) / S + r.i(-1, 1) as i128;
            clamp(if r.pct(40) { -t } else { t })
        }
        9 => (r.i(-3000, 3000) << 30) / *r.pick(&[1, 1000, 1_000_000, 1_000_000_000]) + r.i(-1, 1),
        10 => (*r.pick(&[31556952i64, 2629746, 86400, 3600, 60, 1]) << 30).saturating_mul(r.i(-272, 272)) + r.i(-1, 1),
        _ => r.i(NEG + 1, INF - 1) >> r.below(60),
    }
}
fn case(cx: &mut Cx) -> R {
    let t = anytick(&mut cx.rng);
    cx.h(t as u64);
    cx.say(|| format!("value {t}"));
    if t.abs() == INF { cx.tag("infinite value") }
    value(cx, t)?;
    let (a, z) = case_one(cx);
    cx.nontrivial |= t != 0;
    let w = match cx.rng.below(5) { 0 => None, 1 => a.first().copied(), _ => near(&mut cx.rng, &a, z) };
    let o = op_of(&mut cx.rng, w);
    if o.empty() { cx.tag("empty window") }
    cx.say(|| format!("set {a:?} operand {o:?}"));
    if cx.idx % 2 == 0 { windows::<TimeValue>(cx, &a, o) } else { windows::<Timestamp>(cx, &a, o) }
}
fn main() {
    run::main(Spec {
        id: "C15", quick: 2_000_000, thorough: 12_000_000,
        rule: "a case is distinct by its value and its set of intervals (an operand of another kind goes with them); non trivial when the value is not zero or the set not empty. Texts are parsed back by an independent reader",
        case,
    })
}

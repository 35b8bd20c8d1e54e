use vh::*;
use chronologic::*;
use std::time::{Duration, SystemTime, UNIX_EPOCH};
/// the system clock, in ticks (2^30 a second)
fn sys() -> i128 { let d = SystemTime::now().duration_since(UNIX_EPOCH).unwrap_or_default(); ((d.as_nanos() as i128) << 30) / 1_000_000_000 }
/// what is read is between two readings of the system clock
fn bracket<X>(f: impl Fn() -> X) -> Option<(i128, X, i128)> {
    for _ in 0..20 { let a = sys(); let x = f(); let b = sys(); if a <= b { return Some((a, x, b)) } }
    None
}
/// (durations are truncated to ticks)
const EPS: i128 = 4;
fn case(cx: &mut Cx) -> R {
    cx.nontrivial = true;
    let Some((a, t, b)) = bracket(Timestamp::now) else { return skip() };
    cx.obs += 1;
    ensure!(t.is_finite() && a - EPS <= t.tk() as i128 && t.tk() as i128 <= b + EPS, "now() is {} between two clock readings {a} and {b}", t.tk());
    // as a date of the calendar
    let d = nopanic(|| "now as a date".into(), || t.to_datetime())?;
    let n = ((d.timestamp() as i128) << 30) + (((d.timestamp_subsec_nanos() as i128) << 30) / 1_000_000_000);
    cx.obs += 1;
    ensure!((n - t.tk() as i128).abs() <= EPS, "now() is {} whose date is {d}", t.tk());
    // from any date
    for _ in 0..4 {
        let r = &mut cx.rng;
        let x: i64 = match r.below(10) {
            0 => 0, 1 => r.i(NEG + 1, INF - 1), 2 => INF, 3 => NEG, 4 => INF - 1 - r.i(0, 5), 5 => NEG + 1 + r.i(0, 5),
            6 => fit(t.tk() as i128 + r.i(-(1 << 40), 1 << 40) as i128), 7 => t.tk(),
            _ => r.i(NEG + 1, INF - 1) >> r.below(60),
        };
        cx.h(x as u64);
        cx.say(|| format!("elapsed since {x}"));
        let s = Timestamp::mk(x);
        let Some((a, e, b)) = bracket(|| guarded(|| s.elapsed())) else { return skip() };
        let e = match e { Ok(e) => e.as_ticks(), Err(m) => return viol(format!("elapsed since {x} panics: {m}")) };
        cx.obs += 1;
        let lim = |c: i128| if x == INF { NEG as i128 } else if x == NEG { INF as i128 } else { clamp(c - x as i128) as i128 };
        ensure!(lim(a - EPS) <= e as i128 && e as i128 <= lim(b + EPS), "elapsed() since {x} is {e} between two clock readings {a} and {b}");
        cx.tag(if x == INF || x == NEG { "infinite" } else if e < 0 { "future" } else { "past" });
    }
    // from dates given by the system
    let back = cx.rng.below(1 << 50);
    let Some((_, (st, w), _)) = bracket(|| { let st = SystemTime::now().checked_sub(Duration::from_nanos(back)).unwrap_or(UNIX_EPOCH); (st, TimeValue::from(st.duration_since(UNIX_EPOCH).unwrap_or_default())) }) else { return skip() };
    let Some((a, e, b)) = bracket(|| Timestamp::from_origin(w).elapsed()) else { return skip() };
    let o = ((st.duration_since(UNIX_EPOCH).unwrap_or_default().as_nanos() as i128) << 30) / 1_000_000_000;
    cx.obs += 1;
    ensure!(a - o - 2 * EPS <= e.as_ticks() as i128 && e.as_ticks() as i128 <= b - o + 2 * EPS, "elapsed() since {o} (of the system) is {} between two clock readings {a} and {b}", e.as_ticks());
    Ok(())
}
fn main() {
    run::main(Spec {
        id: "C31", quick: 2_000_000, thorough: 8_000_000,
        rule: "a case is distinct by the dates from which time elapses; each reads the clock and four elapsed times, each between two readings of the system clock",
        case,
    })
}

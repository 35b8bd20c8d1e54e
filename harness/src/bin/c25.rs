use vh::*;
use chronologic::*;
use chronologic::graph::*;
fn horizons(cx: &mut Cx, s: &TimeScheduler, sl: &[Raw]) -> R {
    if sl.is_empty() || sl.iter().any(|x| x.is_empty()) { return Ok(()) }
    let lb = sl.iter().map(|x| x[x.len() - 1].1).min().unwrap();
    let ee = sl.iter().map(|x| x[0].0).max().unwrap();
    let (a, b) = nopanic(|| format!("horizons of {sl:?}"), || (s.latest_beginning().tk(), s.earliest_ending().tk()))?;
    ensure_eq!(cx, a, lb, "latest beginning of slots {sl:?}");
    ensure_eq!(cx, b, ee, "earliest ending of slots {sl:?}");
    Ok(())
}
fn case(cx: &mut Cx) -> R {
    let Some((g, m, _)) = sched_net(cx, 0) else { return skip() };
    let gw = wins(&g);
    let all: Vec<Raw> = vec![vec![(NEG, INF)]; m.n];
    let mut ss: Vec<TimeScheduler> = (0..1 + cx.rng.us(3)).map(|_| TimeScheduler::new(&g)).collect();
    let mut known: Vec<Vec<Raw>> = vec![all.clone(); ss.len()];
    let out = *cx.rng.pick(&[m.n as u32, m.n as u32 + 1, 256, 65536, 65537, 1 << 31, u32::MAX]);
    for s in &ss { ensure!((out as usize) < m.n || s.scheduling(out).is_none(), "a scheduler of {} instants has a slot for t{out}", m.n); }
    for s in &ss { ensure_eq!(cx, slots(s), all, "slots of a new scheduler over {} instants", m.n); }
    let mut changes = 0;
    let mut row = if cx.rng.pct(8) { trap(cx, &m) } else { vec![] };
    for k in 0..2 + steps(cx, 10) {
        let p = cx.rng.us(ss.len());
        match cx.rng.below(10) {
            0 if ss.len() < 6 => { let c = ss[p].clone(); ensure_eq!(cx, slots(&c), known[p], "slots of a clone"); ss.push(c); known.push(known[p].clone()); cx.tag("clone"); }
            1 if ss.len() < 6 => { let c = TimeScheduler::new(&g); ensure_eq!(cx, slots(&c), all, "slots of a new scheduler"); ss.push(c); known.push(all.clone()); cx.tag("new"); }
            2 if ss.len() > 1 => { ss.remove(p); known.remove(p); cx.tag("drop"); }
            // deadlines and startlines, some of them infinite
            n => {
                let line = n < 7 && row.is_empty();
                if m.n == 0 && !line { continue }
                let before = known[p].clone();
                let q = if line {
                    let q = if m.n == 0 { Q::Deadline(cx.rng.i(-50, 50)) } else { restriction(cx, &before, true) };
                    let t = match q { Q::Deadline(t) | Q::Startline(t) => t, Q::Retain(_, o) if o.b != INF && !o.empty() => o.b, Q::Retain(_, o) if o.a != NEG && !o.empty() => o.a, _ => 0 };
                    let t = match cx.rng.below(40) { 0 => INF, 1 => NEG, _ => t };
                    if cx.rng.pct(50) { Q::Deadline(t) } else { Q::Startline(t) }
                } else { row.pop().unwrap_or_else(|| restriction(cx, &before, false)) };
                cx.say(|| format!("on scheduler {p}: {q:?}"));
                cx.h(p as u64);
                let what = || format!("step {k}, {q:?} on slots {before:?}");
                let r = nopanic(what, || restrict(&mut ss[p], &q))?;
                let now = slots(&ss[p]);
                match q {
                    Q::Deadline(t) | Q::Startline(t) => {
                        let win = q.windows(1)[0].clone();
                        let fail = before.iter().any(|s| inter(s, &win).is_empty());
                        cx.tag(if matches!(q, Q::Deadline(_)) { "deadline" } else { "startline" });
                        cx.obs += 2;
                        ensure!(r.ok() != fail, "{}: reports {r:?} but {}", what(), if fail { "a slot has no such date" } else { "every slot has such dates" });
                        if fail { ensure!(now == before, "{}: fails but the slots are now {now:?}", what()) }
                        else { for s in &now { ensure!(subset(s, &win), "{}: the slot {s:?} is not on the right side of {t}", what()) } }
                    }
                    _ => cx.tag("other restriction"),
                }
                if now != before { changes += 1 }
                known[p] = now;
            }
        }
        for (i, s) in ss.iter().enumerate() {
            ensure_eq!(cx, slots(s), known[i], "slots of scheduler {i} after step {k} on scheduler {p}");
            ensure!(std::ptr::eq(s.constraints(), &g), "the scheduler does not tell its graph");
            horizons(cx, s, &known[i])?;
        }
        ensure_eq!(cx, wins(&g), gw, "windows of the shared graph");
    }
    cx.nontrivial = changes > 1;
    let _ = TimeSpan::all();
    Ok(())
}
fn main() {
    run::main(Spec {
        id: "C25", quick: 2_500_000, thorough: 14_000_000,
        rule: "a case is distinct by its graph and the history of restrictions of its several schedulers; non trivial when slots changed at least twice. Every slot of every scheduler and every window of the graph are read after each step",
        case,
    })
}

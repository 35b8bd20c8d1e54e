use vh::*;
use chronologic::*;
use chronologic::graph::*;
fn narrower(a: (i64, i64), b: (i64, i64)) -> bool { a.0 >= b.0 && a.1 <= b.1 }
fn graphs(cx: &mut Cx) -> R {
    let noise = *cx.rng.pick(&[5, 20, 40]);
    let d = Driver::new(cx, noise);
    let mut h = d.start(cx);
    for k in 0..2 + steps(cx, 12) {
        let mut s = d.step(cx, &h, false);
        if let Step::Add(c) = s {
            // often a constraint which is already implied, exactly or not
            if cx.rng.pct(35) && (c.i as usize) < h.m.n && (c.j as usize) < h.m.n {
                let (l, u) = h.m.win(c.i as usize, c.j as usize);
                let w = ((if l != NEG { l - cx.rng.i(-1, 1) } else { l }), (if u != INF { u + cx.rng.i(-1, 1) } else { u }));
                if w.0 <= w.1 { let o = op_of(&mut cx.rng, Some(w)); let c = Con { o, ..c }; hcon(cx, &c); cx.say(|| format!("instead {c:?}")); s = Step::Add(c) }
            }
        }
        if let Step::Batch(v, _) | Step::Merge(v, _) = &mut s {
            // often only constraints which are already implied, but perhaps one
            if cx.rng.pct(40) && h.m.n > 0 {
                let spoil = if cx.rng.pct(30) { cx.rng.us(v.len() + 1) } else { usize::MAX };
                for (q, c) in v.iter_mut().enumerate() {
                    *c = Con { i: cx.rng.us(h.m.n) as u32, j: cx.rng.us(h.m.n) as u32, o: c.o };
                    let (l, u) = h.m.win(c.i as usize, c.j as usize);
                    let e = if q == spoil { cx.rng.i(-1, 1) } else { 0 };
                    let w = ((if l != NEG { l - cx.rng.i(0, 1) + e } else { l }), (if u != INF { u + cx.rng.i(0, 1) + e } else { u }));
                    if w.0 <= w.1 { c.o = op_of(&mut cx.rng, Some(w)) }
                    hcon(cx, c)
                }
                if let Step::Merge(_, k) = &mut s { *k = (*k).min(h.m.n) }
                cx.say(|| format!("instead {s:?}"));
            }
        }
        let o = apply(&mut h, &s)?;
        let Some(r) = o.rep else { return skip() };
        let w = || format!("step {k} {s:?}");
        if !r.ok() {
            if r == Rep::Fatal || o.next.is_some() || h.g.size() != o.size0 || wins(&h.g) != o.wins0 { return Ok(()) }
            continue
        }
        cx.tag(s.tag());
        let now = wins(&h.g);
        let changed = h.g.size() != o.size0 || now != o.wins0;
        cx.obs += 2;
        if changed { cx.nontrivial = true }
        match &s {
            Step::Add(c) if c.i.max(c.j) < o.size0 => {
                let implied = narrower(h.m.win(c.i as usize, c.j as usize), c.win().unwrap_or((INF, NEG)));
                cx.tag(if implied { "implied" } else { "not implied" });
                ensure!((r == Rep::Unchanged) != changed, "{}: reports {r:?} but the windows {}", w(), if changed { "changed" } else { "did not change" });
                ensure!((r == Rep::Unchanged) == implied, "{}: reports {r:?} but it was {} implied", w(), if implied { "already" } else { "not" });
            }
            _ => {
                if !changed { cx.tag("nothing new") }
                ensure!((r == Rep::Unchanged) != changed, "{}: reports {r:?} but {}", w(), if changed { "a window or the size changed" } else { "neither a window nor the size changed" })
            }
        }
        // nothing is ever widened
        let (n0, n1) = (o.size0 as usize, h.g.size() as usize);
        ensure!(n1 >= n0, "{}: accepted, but the size went from {n0} to {n1}", w());
        for i in 0..n0 { for j in 0..n0 {
            let (a, b) = (now[i * n1 + j], o.wins0[i * n0 + j]);
            ensure!(narrower(a, b), "{}: accepted, but the window of (t{i},t{j}) was widened from {b:?} to {a:?}", w());
        } }
        match o.next { Some(m) => h.m = m, None => return Ok(()) }
        if h.g.size() as usize != h.m.n || (0..h.m.n).any(|i| (0..h.m.n).any(|j| now[i * h.m.n + j] != h.m.win(i, j))) { return Ok(()) }
    }
    Ok(())
}
fn schedulers(cx: &mut Cx) -> R {
    let Some((g, m, _)) = sched_net(cx, 1) else { return skip() };
    let mut s = TimeScheduler::new(&g);
    let conv = cx.rng.pct(40);
    let mut row = if cx.rng.pct(12) { trap(cx, &m) } else { vec![] };
    for k in 0..1 + row.len() + steps(cx, 8) {
        let before: Vec<Raw> = s.schedule().iter().map(raw).collect();
        let q = row.pop().unwrap_or_else(|| restriction(cx, &before, conv));
        let w = || format!("restriction {k} {q:?} of {before:?}");
        let r = nopanic(w, || restrict(&mut s, &q))?;
        let after: Vec<Raw> = s.schedule().iter().map(raw).collect();
        if !r.ok() { cx.tag("rejected restriction"); if after != before { return Ok(()) } continue }
        cx.tag(if r == Rep::Unchanged { "slots unchanged" } else { "slots restricted" });
        cx.nontrivial = true;
        cx.obs += 1 + after.len() as u64;
        ensure!((r == Rep::Unchanged) == (after == before), "{}: reports {r:?} but the slots become {after:?}", w());
        for (a, b) in after.iter().zip(&before) { ensure!(subset(a, b), "{}: a slot was widened from {b:?} to {a:?}", w()) }
    }
    Ok(())
}
fn main() {
    run::main(Spec {
        id: "C19", quick: 3_000_000, thorough: 15_000_000,
        rule: "a case is distinct by its history of additions, or of scheduler restrictions; non trivial when at least one of them changed something. Reports are compared with the observed windows before and after",
        case: |cx| if cx.idx % 3 == 2 { schedulers(cx) } else { graphs(cx) },
    })
}

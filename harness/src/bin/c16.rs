use vh::*;
// only durations may be scaled
macro_rules! scaled_tv { () => {
    fn scaled(cx: &mut Cx, m: Mon, r: Raw) -> R<(Mon, Raw)> {
        let n = m.name.clone();
        let bounded = r.iter().all(|x| x.0 != NEG && x.1 != INF);
        let mul = |t: i64, k: i64| if t.abs() == INF { if (k > 0) == (t > 0) { INF } else { NEG } } else { clamp(t as i128 * k as i128) };
        if cx.rng.pct(70) {
            let k = if cx.rng.pct(50) { cx.rng.i(1, 4) } else { cx.rng.i(-5, 5) };
            cx.h(k as u64);
            if k == 0 && !bounded { return skip() }
            if r.iter().flat_map(|x| [x.0, x.1]).any(|t| t.abs() != INF && t.abs() > 1 << 58) { return skip() }
            let y = if k == 0 { if r.is_empty() { vec![] } else { vec![(0, 0)] } } else { canon(&r.iter().map(|(a, b)| if k < 0 { (mul(*b, k), mul(*a, k)) } else { (mul(*a, k), mul(*b, k)) }).collect::<Vec<_>>()) };
            if !fits(&y) || y.iter().any(|x| x.0 == INF || x.1 == NEG) { return skip() }
            let x = if cx.rng.pct(50) { Mon::new(format!("({n} * {k}i32)"), m.scaling(k as i32)) } else { Mon::new(format!("({n} * {k}i64)"), m.scaling(k)) };
            Ok((x, y))
        } else {
            let f = *cx.rng.pick(&[0.5f64, -0.5, 0.25, -1.5, 0.125, 2.5]);
            cx.h(f.to_bits());
            // (exact for the small magnitudes kept here)
            if r.iter().flat_map(|x| [x.0, x.1]).any(|t| t.abs() != INF && t.abs() > 1 << 45) { return skip() }
            let mul = |t: i64| if t.abs() == INF { if (f > 0.) == (t > 0) { INF } else { NEG } } else { (t as f64 * f) as i64 };
            let y = canon(&r.iter().map(|(a, b)| if f < 0. { (mul(*b), mul(*a)) } else { (mul(*a), mul(*b)) }).collect::<Vec<_>>());
            Ok((Mon::new(format!("({n} * {f}f64)"), m.scaling(f)), y))
        }
    }
} }
#[allow(unused)] mod tv { use vh::*; use chronologic::*; use chronologic::iter::*; type T = chronologic::TimeValue; scaled_tv!(); include!("../body/c16.rs"); }
#[allow(unused)] mod ts { use vh::*; use chronologic::*; use chronologic::iter::*; type T = chronologic::Timestamp;
    fn scaled(_: &mut Cx, _: Mon, _: Raw) -> R<(Mon, Raw)> { skip() }
    include!("../body/c16.rs"); }
fn main() {
    run::main(Spec {
        id: "C16", quick: 5_000_000, thorough: 30_000_000,
        rule: "a case is distinct by the windows at the leaves and the operations of its composition; non trivial when a leaf is not empty. The whole composition is drained step by step under the monitor",
        case: |cx| if cx.idx % 2 == 0 { tv::case(cx) } else { ts::case(cx) },
    })
}

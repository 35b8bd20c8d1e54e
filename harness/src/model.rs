//! Reference model of windows: a sorted list of (lower, upper) ticks, both
//! inclusive, where NEG/INF stand for open unbounded sides. Every operation is
//! the most naive one possible, in i128, independent from the library's code.
pub const INF: i64 = i64::MAX;
pub const NEG: i64 = -i64::MAX;
pub type Raw = Vec<(i64, i64)>;

/// canonical form of any list of intervals (possibly empty, unsorted, overlapping)
pub fn canon(v: &[(i64, i64)]) -> Raw {
    let mut w: Vec<(i64, i64)> = v.iter().copied().filter(|(a, b)| a <= b && *a != INF && *b != NEG).collect();
    w.sort();
    let mut r: Raw = vec![];
    for (a, b) in w {
        match r.last_mut() {
            Some(l) if l.1 == INF || (a as i128) <= l.1 as i128 + 1 => l.1 = l.1.max(b),
            _ => r.push((a, b)),
        }
    }
    r
}
pub fn is_canon(r: &[(i64, i64)]) -> Result<(), String> {
    for (k, (a, b)) in r.iter().enumerate() {
        if *a == i64::MIN || *b == i64::MIN { return Err(format!("part {k} has an invalid bound")) }
        if a > b || *a == INF || *b == NEG { return Err(format!("part {k} [{a},{b}] is empty")) }
        if k > 0 {
            let p = r[k - 1].1;
            if p == INF || (*a as i128) <= p as i128 + 1 { return Err(format!("parts {} and {k} (..{p}] [{a}..) are not separated", k - 1)) }
        }
    }
    Ok(())
}
/// the intervals a lazy iterator yields: non-empty, sorted, none overlapping
/// another one (adjacent ones need not be merged), holding exactly `exp`
pub fn lazy_is(got: &[(i64, i64)], exp: &[(i64, i64)]) -> bool {
    got.iter().all(|(a, b)| a <= b && *a != INF && *b != NEG) && got.windows(2).all(|w| w[0].1 < w[1].0) && canon(got) == exp
}
pub fn mem(r: &[(i64, i64)], t: i64) -> bool { r.iter().any(|(a, b)| *a <= t && t <= *b) }
pub fn union(a: &[(i64, i64)], b: &[(i64, i64)]) -> Raw { let mut v = a.to_vec(); v.extend_from_slice(b); canon(&v) }
pub fn inter(a: &[(i64, i64)], b: &[(i64, i64)]) -> Raw {
    let mut v = vec![];
    for x in a { for y in b { v.push((x.0.max(y.0), x.1.min(y.1))) } }
    canon(&v)
}
/// complement over the finite ticks
pub fn compl(a: &[(i64, i64)]) -> Raw {
    let mut v = vec![];
    let mut from = NEG;
    for (x, y) in canon(a) {
        if x != NEG { v.push((from, x - 1)) }
        if y == INF || y + 1 == INF { return canon(&v) }
        from = y + 1;
    }
    v.push((from, INF));
    // "]-oo, NEG]" holds no finite tick
    canon(&v)
}
pub fn excl(a: &[(i64, i64)], b: &[(i64, i64)]) -> Raw { inter(a, &compl(b)) }
pub fn neg(a: &[(i64, i64)]) -> Raw { canon(&a.iter().map(|(x, y)| (-y, -x)).collect::<Vec<_>>()) }
/// saturating sum of bounds of which none, or only same-signed ones, are infinite
pub fn addb(a: i64, b: i64) -> i64 {
    if a == INF || b == INF { INF } else if a == NEG || b == NEG { NEG } else { clamp(a as i128 + b as i128) }
}
pub fn clamp(v: i128) -> i64 { if v >= INF as i128 { INF } else if v <= NEG as i128 { NEG } else { v as i64 } }
pub fn msum(a: &[(i64, i64)], b: &[(i64, i64)]) -> Raw {
    let mut v = vec![];
    for x in a { for y in b { v.push((addb(x.0, y.0), addb(x.1, y.1))) } }
    canon(&v)
}
pub fn before(a: &[(i64, i64)], t: i64) -> Raw { inter(a, &[(NEG, t)]) }
pub fn after(a: &[(i64, i64)], t: i64) -> Raw { inter(a, &[(t, INF)]) }
pub fn subset(a: &[(i64, i64)], b: &[(i64, i64)]) -> bool { inter(a, b) == canon(a) }
/// the finite ticks at which membership of the given lists can change
pub fn critical(rs: &[&[(i64, i64)]]) -> Vec<i64> {
    let mut v = vec![0, NEG + 1, INF - 1];
    for r in rs { for (a, b) in r.iter() { for x in [*a, *b] { for d in -1..=1i128 {
        let y = x as i128 + d;
        if y > NEG as i128 && y < INF as i128 { v.push(y as i64) }
    } } } }
    v.sort(); v.dedup(); v
}

#[cfg(test)]
mod tests {
    use super::*;
    // the model itself is checked against sets of small integers
    #[test] fn model_vs_bits() {
        let all: Vec<Raw> = (0..256u32).map(|m| canon(&(0..8).filter(|i| m >> i & 1 == 1).map(|i| {
            (if i == 0 { NEG } else { i }, if i == 7 { INF } else { i }) }).collect::<Vec<_>>())).collect();
        for (i, a) in all.iter().enumerate() {
            is_canon(a).unwrap();
            let inv = compl(a);
            is_canon(&inv).unwrap();
            assert_eq!(inv, all[255 - i]);
            for (j, b) in all.iter().enumerate() {
                assert_eq!(union(a, b), all[i | j]);
                assert_eq!(inter(a, b), all[i & j]);
                assert_eq!(excl(a, b), all[i & !j]);
                assert_eq!(subset(a, b), i & !j == 0);
            }
        }
    }
}

use vh::*;
both!("c04.rs");
fn main() {
    run::main(Spec {
        id: "C04", quick: 4_000_000, thorough: 25_000_000,
        rule: "a case is distinct by the two lists of intervals complemented or excluded; it is non trivial when both are non empty and differ (the first 524288 cases enumerate every pair of subsets of a 9-cell line, for durations and for dates)",
        case: |cx| if cx.idx % 2 == 0 { tv::case(cx) } else { ts::case(cx) },
    })
}

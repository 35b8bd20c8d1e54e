use vh::*;
both!("c05.rs");
fn main() {
    run::main(Spec {
        id: "C05", quick: 1_000_000, thorough: 10_000_000,
        rule: "a case is distinct by the list of intervals of the set whose queries are observed (plus convex windows of every kind derived from it); non trivial when it is not empty",
        case: |cx| if cx.idx % 2 == 0 { tv::case(cx) } else { ts::case(cx) },
    })
}

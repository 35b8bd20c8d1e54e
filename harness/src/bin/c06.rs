use vh::*;
both!("c06.rs");
fn main() {
    run::main(Spec {
        id: "C06", quick: 1_500_000, thorough: 10_000_000,
        rule: "a case is distinct by the set and the instants at which it is cut; non trivial when the set is not empty",
        case: |cx| if cx.idx % 2 == 0 { tv::case(cx) } else { ts::case(cx) },
    })
}

use vh::*;
both!("c29.rs");
fn main() {
    run::main(Spec {
        id: "C29", quick: 5_000_000, thorough: 40_000_000,
        rule: "a case is distinct by its window and the durations by which it is enlarged or shrunk; non trivial when the window is not empty",
        case: |cx| if cx.idx % 2 == 0 { tv::case(cx) } else { ts::case(cx) },
    })
}

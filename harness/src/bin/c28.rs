vh::both!("c28.rs");
fn main() {
    vh::run::main(vh::Spec {
        id: "C28", quick: 900_000, thorough: 6_000_000,
        rule: "a case is distinct by its pair of windows (subsets of a small line, then random ones) and points; non trivial when both windows are non-empty and different. Each value is written and read back in six ways",
        case: |cx| if cx.idx % 2 == 0 { tv::case(cx) } else { ts::case(cx) },
    })
}

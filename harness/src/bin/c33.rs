use vh::*;
#[allow(unused)] mod tv { use vh::*; use chronologic::*; use chronologic::iter::*; type T = chronologic::TimeValue;
    fn periodic(_: i64, _: i64, _: i64) -> Option<Box<dyn Iterator<Item = TimeInterval<T>>>> { None }
    include!("../body/c33.rs"); }
#[allow(unused)] mod ts { use vh::*; use chronologic::*; use chronologic::iter::*; type T = chronologic::Timestamp;
    /// the slots of width w which begin at each date of a sequence
    fn periodic(t: i64, p: i64, w: i64) -> Option<Box<dyn Iterator<Item = TimeInterval<T>>>> {
        Some(Box::new(Timestamp::mk(t).forward_sequence(TimeValue::mk(p)).map(move |d| TimeInterval::new(d, d + TimeValue::mk(w)))))
    }
    include!("../body/c33.rs"); }
fn main() {
    run::main(Spec {
        id: "C33", quick: 900_000, thorough: 12_000_000,
        rule: "a case is distinct by its sources and the operations of its composition; non trivial when a source is not empty. Each source logs what is taken from it; the log is judged after each interval yielded",
        case: |cx| if cx.idx % 2 == 0 { tv::case(cx) } else { ts::case(cx) },
    })
}

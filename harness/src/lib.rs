//! Common part of the runtime monitors: deterministic workload generator,
//! case runner (with crash/hang/allocation watchdogs) and reference models.
pub mod model;
pub mod gen;
pub mod run;
pub mod pt;
pub mod user;
pub mod op;
pub mod net;
pub mod sched;
pub use gen::*;
pub use model::*;
pub use op::*;
pub use net::*;
pub use sched::*;
pub use pt::*;
pub use run::*;

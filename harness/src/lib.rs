//! Shared machinery of the monitors: replayable cases, workload generators, hash builders under the
//! monitor's control, watchdogs and evidence.
pub mod alloc;
pub mod defaults;
pub mod hashers;
pub mod positions;
pub mod rng;
pub mod run;
pub mod stats;
pub mod subject;

pub use hashers::HB;
pub use rng::Rng;
pub use run::{run, Ctx, Kind, Property, Tier, R};

/// Fails the current case with a violation message unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)+) => {
        if !$cond {
            return Err(format!($($arg)+));
        }
    };
}

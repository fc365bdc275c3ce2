//! Replays behaviours printed by the specification into cavalier_contours and records what
//! happened, one ndjson line per case.  Usage: cavh CASES OUT [START_LINE]
mod driver;
mod fx;
mod json;
mod ops;

pub use driver::guard;

/// Allocations are not followed in this program.
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    f()
}

fn main() {
    driver::drive(ops::run);
}

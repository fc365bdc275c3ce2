//! Replays histories of C API calls with an allocator that follows what the API allocates.
mod driver;
mod ffi;
mod fx;
mod json;
mod meter;

pub use driver::guard;
pub use meter::untracked;

#[global_allocator]
static METER: meter::Meter = meter::Meter;

fn main() {
    driver::drive(ffi::run);
}

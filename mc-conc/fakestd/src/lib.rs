//! The standard library with its blocking and sharing primitives replaced by ones whose every
//! operation is a scheduling point of the exploring scheduler.
pub use std::*;
pub mod sync;
pub mod thread {
    pub use shuttle::thread::{current, park, sleep, spawn, yield_now, Builder, JoinHandle, Thread, ThreadId};
    pub use std::thread::*;
}
pub mod hint {
    pub use shuttle::hint::spin_loop;
    pub use std::hint::*;
}

#![allow(clippy::missing_safety_doc)]
pub mod alloc;
pub mod fs;
pub mod interpose;
pub mod net;
pub mod raw;
pub mod run;
pub mod sched;

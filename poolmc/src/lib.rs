//! Checks of the pools under a scheduler.
pub mod asynchronous;
pub mod sched;
pub mod synchronous;
pub mod connections;

//! Bounded exhaustive exploration of mysql-connector against a reference server.
pub mod cases;
pub mod drive;
pub mod engine;
pub mod migr;
pub mod mock;
pub mod rsa;
pub mod rt;
pub mod scen;
pub mod server;
pub mod shape;
pub mod sql;
pub mod stored;
pub mod tcp;
pub mod wire;

pub use engine::{ask, scoped, main, Alloc, Chooser, Level, Run, Tier};

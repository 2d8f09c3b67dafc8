//! Shared parts of the checks: reporting, exploration, reference field, party set-up.

pub mod circ;
pub mod code;
pub mod explore;
pub mod gfref;
pub mod report;
pub mod proto;
pub mod lin;
pub mod garb;
pub mod pre;
pub mod pyscript;
pub mod script;
pub mod secrecy;

pub use explore::*;
pub use gfref::*;
pub use report::*;

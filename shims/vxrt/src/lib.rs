//! Deterministic runtime under the shims: symbolic inputs, coroutines, task scheduler, virtual time.
//!
//! Every source of non-determinism (data, schedule, preemption, time, chunking) is a value obtained from the
//! `vx_*` interface: the symbolic engine makes them symbolic variables, the native build reads a solver model.
pub mod exec;
#[cfg(feature = "native")]
mod native;
pub mod sym;
pub mod sys;
pub mod time;

pub use exec::*;
pub use sym::*;

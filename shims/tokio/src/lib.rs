//! Stand-in for tokio: `sync`, `io`, task-locals and the macros are tokio's own; tasks, time, sockets and signals run
//! on the deterministic scheduler (vxrt).
pub use tokio_real::{io, sync};
pub use tokio_real::{join, pin, task_local, try_join};
#[doc(hidden)]
pub use tokio_real::{select_priv_clean_pattern, select_priv_declare_output_enum};

// tokio's own select!, except that the branch it starts with is a choice of the scheduler
#[macro_use]
#[path = "../../../build/vendor/tokio/src/macros/select.rs"]
mod select;
#[doc(hidden)]
pub mod macros {
    pub mod support {
        pub use tokio_real::macros::support::*;
        pub fn thread_rng_n(n: u32) -> u32 {
            vxrt::any_of(n as usize, "select") as u32
        }
    }
}

pub mod net;
pub mod runtime;
pub mod signal;
pub mod task;
pub mod time;

pub use task::spawn;

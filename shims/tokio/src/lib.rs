//! tokio under a controlled scheduler: what runs tasks, waits for time, signals and files, or locks, is replaced; the rest is
//! the real thing.
#![allow(clippy::unused_async, clippy::missing_errors_doc)]
pub use real::*;
pub use task::spawn;

#[macro_use]
mod select;

pub mod fs;
pub mod net;
pub mod runtime;
pub mod signal;
pub mod sync;
pub mod task;
pub mod time;

pub mod macros {
    pub mod support {
        pub use real::macros::support::{maybe_done, poll_fn, Future, IntoFuture, Pin, Poll};

        ///Which branch of a `select!` comes first is random; it only matters when several are ready.
        pub fn thread_rng_n(n: u32) -> u32 {
            vsched::config().map_or(0, |c| c.select_start % n)
        }
    }
}

///Everything of an execution stays on its thread.
pub(crate) struct OneThread<T>(pub T);
unsafe impl<T> Send for OneThread<T> {}
unsafe impl<T> Sync for OneThread<T> {}

//! tokio as seen by the code under test inside the model checker.
pub use real_tokio::*;

pub mod sync;
pub mod task;
pub mod time;
pub use task::spawn;
pub mod runtime {
    //! The handle of the simulated runtime.
    use super::task::{spawn, spawn_blocking, JoinHandle};
    use std::future::Future;

    #[derive(Clone, Debug)]
    pub struct Handle(());
    #[derive(Debug)]
    pub struct TryCurrentError(());
    impl Handle {
        pub fn current() -> Self {
            Handle(())
        }
        pub fn try_current() -> Result<Self, TryCurrentError> {
            Ok(Handle(()))
        }
        pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
        where
            F: Future + Send + 'static,
            F::Output: Send + 'static,
        {
            spawn(f)
        }
        pub fn spawn_blocking<F, R>(&self, f: F) -> JoinHandle<R>
        where
            F: FnOnce() -> R + Send + 'static,
            R: Send + 'static,
        {
            spawn_blocking(f)
        }
    }
}

use crate::task::JoinHandle;
use std::{future::Future, io, time::Duration};

#[derive(Debug, Default)]
pub struct Builder;
impl Builder {
    pub fn new_multi_thread() -> Self {
        Self
    }
    pub fn new_current_thread() -> Self {
        Self
    }
    pub fn enable_all(&mut self) -> &mut Self {
        self
    }
    pub fn enable_io(&mut self) -> &mut Self {
        self
    }
    pub fn enable_time(&mut self) -> &mut Self {
        self
    }
    pub fn worker_threads(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn max_blocking_threads(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn thread_name(&mut self, _: impl Into<String>) -> &mut Self {
        self
    }
    pub fn thread_stack_size(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn thread_keep_alive(&mut self, _: Duration) -> &mut Self {
        self
    }
    pub fn event_interval(&mut self, _: u32) -> &mut Self {
        self
    }
    pub fn build(&mut self) -> io::Result<Runtime> {
        Ok(Runtime)
    }
}
#[derive(Debug)]
pub struct Runtime;
impl Runtime {
    pub fn new() -> io::Result<Self> {
        Ok(Self)
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        vsched::block_on(f)
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::task::spawn(f)
    }
    pub fn spawn_blocking<F, R>(&self, f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        crate::task::spawn_blocking(f)
    }
    pub fn handle(&self) -> &Handle {
        &Handle
    }
    pub fn enter(&self) -> EnterGuard {
        EnterGuard
    }
    pub fn shutdown_background(self) {}
    pub fn shutdown_timeout(self, _: Duration) {}
}
impl Drop for Runtime {
    fn drop(&mut self) {
        //tasks end wherever they are, but what has been given to the blocking threads gets done
        if !vsched::killed() {
            crate::task::abort_all();
            vsched::finish_jobs();
        }
    }
}
#[derive(Debug)]
pub struct EnterGuard;
#[derive(Clone, Debug)]
pub struct Handle;
impl Handle {
    pub fn current() -> Self {
        Self
    }
    pub fn try_current() -> Result<Self, real::runtime::TryCurrentError> {
        Ok(Self)
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        vsched::block_on(f)
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::task::spawn(f)
    }
    pub fn spawn_blocking<F, R>(&self, f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        crate::task::spawn_blocking(f)
    }
    pub fn enter(&self) -> EnterGuard {
        EnterGuard
    }
}

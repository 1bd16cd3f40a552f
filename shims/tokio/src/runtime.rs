use crate::task::JoinHandle;
use std::future::Future;
use std::time::Duration;

#[derive(Clone, Debug)]
pub struct Handle(());
#[derive(Debug)]
pub struct TryCurrentError(());
impl std::fmt::Display for TryCurrentError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("no runtime")
    }
}
impl std::error::Error for TryCurrentError {}
pub struct EnterGuard<'a>(std::marker::PhantomData<&'a ()>);
#[derive(Debug, PartialEq, Eq)]
#[non_exhaustive]
pub enum RuntimeFlavor {
    CurrentThread,
    MultiThread,
}
pub struct RuntimeMetrics(());
impl RuntimeMetrics {
    pub fn num_workers(&self) -> usize {
        8
    }
    pub fn num_alive_tasks(&self) -> usize {
        vxrt::x().alive()
    }
}
impl Handle {
    pub fn current() -> Handle {
        Handle(())
    }
    pub fn try_current() -> Result<Handle, TryCurrentError> {
        Ok(Handle(()))
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::task::spawn(f)
    }
    pub fn spawn_blocking<F, R>(&self, f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        crate::task::spawn_blocking(f)
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        vxrt::block_on(f)
    }
    pub fn metrics(&self) -> RuntimeMetrics {
        RuntimeMetrics(())
    }
    pub fn runtime_flavor(&self) -> RuntimeFlavor {
        RuntimeFlavor::MultiThread
    }
    pub fn enter(&self) -> EnterGuard<'_> {
        EnterGuard(std::marker::PhantomData)
    }
}
#[derive(Debug)]
pub struct Runtime(());
impl Runtime {
    pub fn new() -> std::io::Result<Runtime> {
        Ok(Runtime(()))
    }
    pub fn handle(&self) -> &Handle {
        static H: Handle = Handle(());
        &H
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::task::spawn(f)
    }
    pub fn spawn_blocking<F, R>(&self, f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        crate::task::spawn_blocking(f)
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        vxrt::block_on(f)
    }
    pub fn enter(&self) -> EnterGuard<'_> {
        EnterGuard(std::marker::PhantomData)
    }
    pub fn metrics(&self) -> RuntimeMetrics {
        RuntimeMetrics(())
    }
    pub fn shutdown_timeout(self, _: Duration) {}
    pub fn shutdown_background(self) {}
}
impl Drop for Runtime {
    fn drop(&mut self) {
        // a runtime that goes away cancels what still runs
        vxrt::cancel_all();
    }
}
#[derive(Debug)]
pub struct Builder(());
impl Builder {
    pub fn new_multi_thread() -> Builder {
        Builder(())
    }
    pub fn new_current_thread() -> Builder {
        Builder(())
    }
    pub fn enable_all(&mut self) -> &mut Self {
        self
    }
    pub fn enable_time(&mut self) -> &mut Self {
        self
    }
    pub fn enable_io(&mut self) -> &mut Self {
        self
    }
    pub fn worker_threads(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn max_blocking_threads(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn thread_name(&mut self, _: impl Into<String>) -> &mut Self {
        self
    }
    pub fn thread_stack_size(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn build(&mut self) -> std::io::Result<Runtime> {
        Runtime::new()
    }
}

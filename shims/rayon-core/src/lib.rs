//! Stand-in for rayon-core. The two sides of a `join` run one after the other; which goes first is
//! chosen by the checking environment (symx_sched: arbitrary when the harness asks for it).
#![allow(missing_docs)]
use std::error::Error;
use std::fmt;
use std::marker::PhantomData;

extern "C-unwind" {
    /// true: the second task runs first
    fn symx_sched() -> bool;
}

const THREADS: usize = 4;

#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
}
impl FnContext {
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}
pub fn current_num_threads() -> usize {
    THREADS
}
pub fn max_num_threads() -> usize {
    255
}
pub fn current_thread_index() -> Option<usize> {
    None
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    None
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    None
}
pub fn yield_local() -> Option<Yield> {
    None
}
pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    if unsafe { symx_sched() } {
        let rb = b(FnContext { migrated: false });
        let ra = a(FnContext { migrated: false });
        (ra, rb)
    } else {
        let ra = a(FnContext { migrated: false });
        let rb = b(FnContext { migrated: false });
        (ra, rb)
    }
}
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| a(), |_| b())
}

#[derive(Debug)]
pub struct Scope<'scope> {
    m: PhantomData<&'scope mut &'scope ()>,
}
#[derive(Debug)]
pub struct ScopeFifo<'scope> {
    m: PhantomData<&'scope mut &'scope ()>,
}
#[derive(Debug)]
pub struct BroadcastContext<'a> {
    i: usize,
    m: PhantomData<&'a mut dyn Fn()>,
}
impl<'a> BroadcastContext<'a> {
    pub fn index(&self) -> usize {
        self.i
    }
    pub fn num_threads(&self) -> usize {
        THREADS
    }
}
impl<'scope> Scope<'scope> {
    pub fn spawn<B: FnOnce(&Scope<'scope>) + Send + 'scope>(&self, body: B) {
        body(self)
    }
    pub fn spawn_broadcast<B: Fn(&Scope<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope>(&self, body: B) {
        for i in 0..THREADS {
            body(self, BroadcastContext { i, m: PhantomData })
        }
    }
}
impl<'scope> ScopeFifo<'scope> {
    pub fn spawn_fifo<B: FnOnce(&ScopeFifo<'scope>) + Send + 'scope>(&self, body: B) {
        body(self)
    }
}
pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    op(&Scope { m: PhantomData })
}
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    op(&Scope { m: PhantomData })
}
pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    op(&ScopeFifo { m: PhantomData })
}
pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    op(&ScopeFifo { m: PhantomData })
}
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    f()
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) {
    f()
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    (0..THREADS).map(|i| op(BroadcastContext { i, m: PhantomData })).collect()
}
pub fn spawn_broadcast<OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static>(op: OP) {
    broadcast(op);
}
pub struct ThreadPoolBuildError {}
impl fmt::Debug for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "ThreadPoolBuildError")
    }
}
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "ThreadPoolBuildError")
    }
}
impl Error for ThreadPoolBuildError {}
#[derive(Debug)]
pub struct ThreadBuilder {}
#[derive(Debug)]
pub struct ThreadPool {
    n: usize,
}
impl ThreadPool {
    pub fn install<OP: FnOnce() -> R + Send, R: Send>(&self, op: OP) -> R {
        op()
    }
    pub fn current_num_threads(&self) -> usize {
        self.n
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        scope(op)
    }
    pub fn spawn<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        op()
    }
}
#[derive(Debug, Default)]
pub struct ThreadPoolBuilder {
    n: usize,
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self { n: 0 }
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool { n: if self.n == 0 { THREADS } else { self.n } })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}

//! A hand-cranked executor: a future is polled only after its waker was woken, as a spawned
//! task would be (one waker for the task's whole life).
use std::{
    future::Future,
    pin::Pin,
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc,
    },
    task::{Context, Poll, Wake, Waker},
};

pub struct Flag(pub AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

pub enum Step<T> {
    Idle,
    Pending,
    Ready(T),
    Panicked(String),
}

/// A flag that can also run something on the waking thread.
pub struct Bell {
    pub flag: AtomicBool,
    pub hook: std::sync::OnceLock<fn()>,
}
impl Wake for Bell {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.flag.store(true, Ordering::SeqCst);
        if let Some(f) = self.hook.get() {
            f()
        }
    }
}

pub struct Manual<F: ?Sized + Future> {
    fut: Option<Pin<Box<F>>>,
    bell: Arc<Bell>,
}

impl<F: Future> Manual<F> {
    pub fn new(f: F) -> Self {
        Self {
            fut: Some(Box::pin(f)),
            bell: Arc::new(Bell { flag: AtomicBool::new(true), hook: Default::default() }),
        }
    }
    /// run `f` synchronously whenever the future is woken
    pub fn on_wake(&mut self, f: fn()) {
        let _ = self.bell.hook.set(f);
    }
    pub fn wake(&self) {
        self.bell.flag.store(true, Ordering::SeqCst);
    }
    pub fn live(&self) -> bool {
        self.fut.is_some()
    }
    pub fn woken(&self) -> bool {
        self.fut.is_some() && self.bell.flag.load(Ordering::SeqCst)
    }
    /// poll if woken; the future is dropped when it is ready or panicked
    pub fn step(&mut self) -> Step<F::Output> {
        if !self.woken() {
            return Step::Idle;
        }
        self.force()
    }
    pub fn force(&mut self) -> Step<F::Output> {
        let Some(fut) = self.fut.as_mut() else {
            return Step::Idle;
        };
        self.bell.flag.store(false, Ordering::SeqCst);
        let waker = Waker::from(self.bell.clone());
        let mut cx = Context::from_waker(&waker);
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| fut.as_mut().poll(&mut cx))) {
            Ok(Poll::Pending) => Step::Pending,
            Ok(Poll::Ready(t)) => {
                self.fut = None;
                Step::Ready(t)
            }
            Err(e) => {
                let m = if let Some(s) = e.downcast_ref::<String>() {
                    s.clone()
                } else if let Some(s) = e.downcast_ref::<&str>() {
                    s.to_string()
                } else {
                    "panic".into()
                };
                // dropping a half-polled future may panic again
                let f = self.fut.take();
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(f)));
                Step::Panicked(m)
            }
        }
    }
    pub fn abandon(&mut self) {
        self.fut = None;
    }
}

//! Schedule perturbation: on threads that asked for it, the driver's own code - reached from inside
//! the code under test - now and then takes its time, which widens the windows between that code's
//! own steps.
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

thread_local! {
    static RATE: Cell<u64> = const { Cell::new(0) };
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static RNG: Cell<u64> = const { Cell::new(1) };
}
/// one in `rate` opportunities is taken, 0 = none; at most `budget` of them on this thread
pub fn start(rate: u64, budget: u64, seed: u64) {
    RATE.with(|r| r.set(rate));
    LEFT.with(|r| r.set(budget));
    RNG.with(|r| r.set(seed | 1));
}
pub fn pause() {
    let rate = RATE.with(|r| r.get());
    if rate == 0 {
        return;
    }
    let x = RNG.with(|r| {
        let mut x = r.get();
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        r.set(x);
        x
    });
    let left = LEFT.with(|l| l.get());
    if left == 0 || (x >> 20) % rate != 0 {
        return;
    }
    LEFT.with(|l| l.set(left - 1));
    match (x >> 8) % 4 {
        0 => std::thread::yield_now(),
        1 => std::thread::sleep(Duration::from_micros(50)),
        2 => std::thread::sleep(Duration::from_micros(400)),
        _ => std::thread::sleep(Duration::from_micros(if left % 4 == 0 { 3000 } else { 700 })),
    }
}

struct Slow(Mutex<Option<Waker>>);
impl Wake for Slow {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        let w = self.0.lock().unwrap().clone();
        if let Some(w) = w {
            w.wake();
        }
        // whoever woke the task goes on a little later than the task does
        pause();
    }
}
/// a future whose wakers hold up the thread that uses them
pub struct Jittered<F> {
    f: Pin<Box<F>>,
    slow: Arc<Slow>,
}
impl<F: Future> Jittered<F> {
    pub fn new(f: F) -> Self {
        Self { f: Box::pin(f), slow: Arc::new(Slow(Mutex::new(None))) }
    }
}
impl<F: Future> Future for Jittered<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        *self.slow.0.lock().unwrap() = Some(cx.waker().clone());
        let w = Waker::from(self.slow.clone());
        let mut c = Context::from_waker(&w);
        self.f.as_mut().poll(&mut c)
    }
}

/// Preemption at any instruction: worker threads that are interrupted now and then, also while they
/// hold a lock or are between two steps of an update.
pub struct Preempt {
    threads: Arc<Mutex<Vec<libc::pthread_t>>>,
    stop: Arc<std::sync::atomic::AtomicBool>,
    driver: Option<std::thread::JoinHandle<()>>,
}
thread_local! {
    static NAP: Cell<u32> = const { Cell::new(0) };
}
extern "C" fn on_signal(_: i32) {
    unsafe {
        let e = *libc::__errno_location();
        let n = NAP.with(|n| {
            n.set(n.get().wrapping_mul(1664525).wrapping_add(1013904223));
            n.get()
        });
        let t = libc::timespec { tv_sec: 0, tv_nsec: [5_000, 20_000, 60_000, 200_000][(n >> 28) as usize % 4] };
        libc::nanosleep(&t, std::ptr::null_mut());
        *libc::__errno_location() = e;
    }
}
impl Preempt {
    /// an interruption of some worker every `every_us` microseconds; 0 = none
    pub fn new(every_us: u64, mut seed: u64) -> Self {
        static ONCE: std::sync::Once = std::sync::Once::new();
        ONCE.call_once(|| unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_signal as usize;
            a.sa_flags = libc::SA_RESTART;
            libc::sigaction(libc::SIGUSR2, &a, std::ptr::null_mut());
        });
        let threads: Arc<Mutex<Vec<libc::pthread_t>>> = Default::default();
        let stop: Arc<std::sync::atomic::AtomicBool> = Default::default();
        let driver = (every_us > 0).then(|| {
            let (threads, stop) = (threads.clone(), stop.clone());
            std::thread::spawn(move || {
                while !stop.load(std::sync::atomic::Ordering::SeqCst) {
                    seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    {
                        // a listed thread has not ended: it takes itself off the list first
                        let l = threads.lock().unwrap();
                        if !l.is_empty() {
                            unsafe { libc::pthread_kill(l[(seed >> 33) as usize % l.len()], libc::SIGUSR2) };
                        }
                    }
                    std::thread::sleep(Duration::from_micros(every_us / 2 + (seed >> 40) % every_us));
                }
            })
        });
        Self { threads, stop, driver }
    }
    pub fn list(&self) -> Arc<Mutex<Vec<libc::pthread_t>>> {
        self.threads.clone()
    }
}
impl Drop for Preempt {
    fn drop(&mut self) {
        self.stop.store(true, std::sync::atomic::Ordering::SeqCst);
        if let Some(d) = self.driver.take() {
            let _ = d.join();
        }
    }
}

//! Event recorder shared by all suites: one ordered list of JSON events per scenario.
use serde_json::Value;
use std::sync::{
    atomic::{AtomicU64, Ordering},
    Arc, Mutex,
};

const SHARDS: usize = 16;
/// Each event draws a number, which is its place in the list. They are kept apart by thread so that
/// recording does not line the threads up.
#[derive(Clone, Default)]
pub struct Trace {
    events: Arc<[Mutex<Vec<(u64, Value)>>; SHARDS]>,
    next: Arc<AtomicU64>,
    pub progress: Arc<AtomicU64>,
    stopped: Arc<std::sync::atomic::AtomicBool>,
}
const FLOOD: u64 = 400_000;
thread_local! {
    static SHARD: usize = {
        static N: AtomicU64 = AtomicU64::new(0);
        N.fetch_add(1, Ordering::Relaxed) as usize % SHARDS
    };
}

impl Trace {
    pub fn ev(&self, v: Value) {
        self.progress.fetch_add(1, Ordering::SeqCst);
        // after the last event, or endlessly many, nothing is recorded
        if self.stopped.load(Ordering::SeqCst) {
            return;
        }
        let n = self.next.fetch_add(1, Ordering::SeqCst);
        if n < FLOOD {
            self.events[SHARD.with(|s| *s)].lock().unwrap().push((n, v));
        }
    }
    pub fn flooded(&self) -> bool {
        self.next.load(Ordering::SeqCst) >= FLOOD
    }
    /// record a last event
    pub fn stop(&self, v: Value) {
        self.stopped.store(true, Ordering::SeqCst);
        let mut all = self.sorted();
        all.truncate(20_000);
        all.push((FLOOD, v));
        *self.events[0].lock().unwrap() = all;
    }
    /// progress that is not an event of its own (bytes moved)
    pub fn tick(&self) {
        self.progress.fetch_add(1, Ordering::SeqCst);
    }
    pub fn progress(&self) -> u64 {
        self.progress.load(Ordering::SeqCst)
    }
    fn sorted(&self) -> Vec<(u64, Value)> {
        let mut all: Vec<_> = self.events.iter().flat_map(|s| std::mem::take(&mut *s.lock().unwrap())).collect();
        all.sort_by_key(|(n, _)| *n);
        all
    }
    pub fn take(&self) -> Vec<Value> {
        self.sorted().into_iter().map(|(_, v)| v).collect()
    }
    pub fn len(&self) -> usize {
        self.next.load(Ordering::SeqCst) as usize
    }
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

mod anycodec;
mod client;
mod codec;
mod codecs;
mod conn;
mod e2e;
mod exec;
mod hold;
mod jitter;
mod peer;
mod serve;
mod server;
mod sys;
mod trace;

use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[global_allocator]
static ALLOC: hold::Counting = hold::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| {
        args.iter()
            .position(|a| a == k)
            .and_then(|i| args.get(i + 1))
            .cloned()
    };
    let scen = get("--scen").expect("--scen FILE");
    let out = get("--out").expect("--out FILE");
    let threads: usize = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(16);
    let idle_ms: u64 = get("--idle-ms").and_then(|s| s.parse().ok()).unwrap_or(1);
    let idle_rounds: u32 = get("--idle-rounds").and_then(|s| s.parse().ok()).unwrap_or(2);
    // panics of the code under test are data; keep them off the terminal
    std::panic::set_hook(Box::new(|_| {}));
    let list: Vec<Value> = std::io::BufReader::new(std::fs::File::open(&scen).expect("open scen"))
        .lines()
        .map(|l| serde_json::from_str(&l.unwrap()).expect("scenario json"))
        .collect();
    let n = list.len();
    let ids: Vec<Value> = list.iter().map(|s| s["id"].clone()).collect();
    let queue = Arc::new(Mutex::new(list.into_iter().enumerate().collect::<std::collections::VecDeque<_>>()));
    let results: Arc<Mutex<Vec<Option<Value>>>> = Arc::new(Mutex::new(vec![None; n]));
    // what is being run now, for the watchdog
    let running: Running = Default::default();
    // how many were taken from the queue and have no result yet (changed under the queue's lock when taken)
    let pending = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let idle = std::time::Duration::from_millis(idle_ms * idle_rounds as u64);
    let worker = {
        let (queue, results, running, pending) = (queue.clone(), results.clone(), running.clone(), pending.clone());
        move || {
            let (queue, results, running, pending) = (queue.clone(), results.clone(), running.clone(), pending.clone());
            std::thread::spawn(move || loop {
                let (i, s) = {
                    let mut q = queue.lock().unwrap();
                    let Some(x) = q.pop_front() else { break };
                    pending.fetch_add(1, SeqCst);
                    x
                };
                let tr = trace::Trace::default();
                running.lock().unwrap().insert(i, Watch { tr: tr.clone(), since: Instant::now(), progress: 0, moved: Instant::now() });
                let (id, t2) = (s["id"].clone(), tr.clone());
                if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_one(&s, t2, idle_ms, idle_rounds))).is_err() {
                    tr.ev(json!({"e":"crash"}));
                }
                if running.lock().unwrap().remove(&i).is_none() {
                    // given up on by the watchdog; another thread has taken over
                    break;
                }
                let res = json!({"id": id, "ev": tr.take()});
                results.lock().unwrap()[i] = Some(res);
                pending.fetch_sub(1, SeqCst);
            });
        }
    };
    for _ in 0..threads {
        worker();
    }
    // a scenario in which the code under test never returns is recorded up to there
    let mut hangs = 0;
    loop {
        std::thread::sleep(std::time::Duration::from_millis(10));
        let over_mem = rss_mb() > 12_000;
        let mut stuck = vec![];
        {
            let mut r = running.lock().unwrap();
            for (i, w) in r.iter_mut() {
                let p = w.tr.progress();
                if p != w.progress {
                    w.progress = p;
                    w.moved = Instant::now();
                }
                let ran = w.since.elapsed().as_secs_f64();
                let quiet = w.moved.elapsed().as_secs_f64();
                let id = idle.as_secs_f64();
                if (ran > 20.0 && quiet > 10.0 + 4.0 * id) || ran > 60.0 + 40.0 * id || w.tr.flooded() || (over_mem && ran > 5.0) {
                    stuck.push(*i);
                }
            }
            for i in &stuck {
                let w = r.remove(i).unwrap();
                w.tr.stop(json!({"e":"hang"}));
                results.lock().unwrap()[*i] = Some(json!({"id": ids[*i], "ev": w.tr.take()}));
                pending.fetch_sub(1, SeqCst);
            }
        }
        hangs += stuck.len();
        if hangs >= 6 || over_mem {
            queue.lock().unwrap().clear();
        }
        for _ in &stuck {
            worker();
        }
        if {
            let q = queue.lock().unwrap();
            q.is_empty() && pending.load(SeqCst) == 0
        } {
            break;
        }
        if over_mem {
            break;
        }
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(&out).expect("create out"));
    let r = results.lock().unwrap();
    let missing = r.iter().filter(|x| x.is_none()).count();
    for r in r.iter().flatten() {
        writeln!(f, "{r}").unwrap();
    }
    f.flush().unwrap();
    drop(f);
    std::process::exit(if missing > 0 && hangs == 0 && rss_mb() <= 12_000 { 3 } else { 0 });
}

struct Watch {
    tr: trace::Trace,
    since: Instant,
    progress: u64,
    moved: Instant,
}
type Running = Arc<Mutex<std::collections::HashMap<usize, Watch>>>;
fn rss_mb() -> usize {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<usize>().ok())).unwrap_or(0) / 256
}

fn run_one(s: &Value, tr: trace::Trace, idle_ms: u64, idle_rounds: u32) {
    let pre = jitter::Preempt::new(s["cfg"]["pre"].as_u64().unwrap_or(0), s["cfg"]["jseed"].as_u64().unwrap_or(7));
    let rt = if s["cfg"]["mt"] == true {
        let (list, list2) = (pre.list(), pre.list());
        let (rate, seed) = (s["cfg"]["jit"].as_u64().unwrap_or(0), Arc::new(std::sync::atomic::AtomicU64::new(s["cfg"]["jseed"].as_u64().unwrap_or(7) << 16)));
        tokio::runtime::Builder::new_multi_thread()
            .worker_threads(s["cfg"]["workers"].as_u64().unwrap_or(1) as usize)
            .enable_all()
            .on_thread_start(move || {
                list.lock().unwrap().push(unsafe { libc::pthread_self() });
                jitter::start(rate, 150, seed.fetch_add(7919, std::sync::atomic::Ordering::SeqCst))
            })
            .on_thread_stop(move || list2.lock().unwrap().retain(|t| *t != unsafe { libc::pthread_self() }))
            .build()
            .unwrap()
    } else {
        tokio::runtime::Builder::new_current_thread()
            .enable_all()
            .event_interval(1)
            .build()
            .unwrap()
    };
    let opts = conn::Opts { idle_ms, idle_rounds };
    match s["suite"].as_str().unwrap() {
        "conn" => rt.block_on(conn::run(s, tr.clone(), &opts)),
        "client" => rt.block_on(client::run(s, tr.clone(), &opts)),
        "server" => rt.block_on(server::run(s, tr.clone(), &opts)),
        "serve" => rt.block_on(serve::run(s, tr.clone(), &opts)),
        "codec" => codecs::dispatch(s, tr.clone()),
        "hold" => rt.block_on(hold::run(s, tr.clone(), &opts)),
        "e2e" => rt.block_on(e2e::run(s, tr.clone(), &opts)),
        x => panic!("suite {x}"),
    }
    drop(rt);
    drop(pre);
}

//! Suite "e2e": real clients calling a real server, all on a multi-threaded runtime.
//!
//! A scenario is a set of concurrent programs; the threads' schedule is the machine's own.
use crate::anycodec::*;
use crate::codec::{Msg, HDR};
use crate::conn::Opts;
use crate::server::fresh_addr;
use crate::trace::Trace;
use bytes::Buf;
use futures::{Stream, StreamExt};
use protosocket::{DeserializeError, Deserializer, Serializer};
use protosocket_rpc::client::{Configuration, RpcClient};
use protosocket_rpc::server::{ConnectionService, RpcKind, SocketRpcServer, SocketService};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;

thread_local! {
    static KIND: RefCell<Kind> = const { RefCell::new(Kind::Toy) };
}
pub fn set_kind(kind: Kind) {
    KIND.with(|k| *k.borrow_mut() = kind);
}
pub struct ESer(Hooked);
impl Default for ESer {
    fn default() -> Self {
        Self(Hooked::new(KIND.with(|k| *k.borrow())))
    }
}
impl Serializer for ESer {
    type Message = Msg;
    fn encode(&mut self, m: Msg, b: &mut Vec<u8>) {
        self.0.encode(m, b)
    }
}
pub struct EDe(Hooked);
impl Default for EDe {
    fn default() -> Self {
        Self(Hooked::new(KIND.with(|k| *k.borrow())))
    }
}
impl Deserializer for EDe {
    type Message = Msg;
    fn decode(&mut self, b: impl Buf) -> Result<(usize, Msg), DeserializeError> {
        self.0.decode(b)
    }
}

// what is asked for: ((((call * 4 + pace) * 1024) + items) * 2 + streaming) * 4096 + size
// pace: 0 at once, 1 after yielding, 2 after a moment, 3 never
struct Ask {
    c: i64,
    pace: i64,
    items: i64,
    streaming: bool,
    size: usize,
}
fn ask(a: &Ask) -> i64 {
    ((((a.c * 4 + a.pace) * 1024) + a.items) * 2 + a.streaming as i64) * 4096 + (a.size as i64 / 32).min(4095)
}
fn asked(v: i64) -> Ask {
    let size = (v % 4096) as usize * 32;
    let v = v / 4096;
    let streaming = v % 2 == 1;
    let v = v / 2;
    let items = v % 1024;
    let v = v / 1024;
    Ask { c: v / 4, pace: v % 4, items, streaming, size: size.max(HDR) }
}
fn answer(c: i64, j: i64) -> i64 {
    c * 2000 + j
}

#[derive(Clone)]
struct Ctl {
    tr: Trace,
    closing: Arc<AtomicBool>,
    im: IdMap,
}
impl Ctl {
    fn ev(&self, v: Value) {
        if !self.closing.load(Ordering::SeqCst) {
            self.tr.ev(v)
        }
    }
}

/// an RPC on the server; says when it goes away and whether it was done
struct Held {
    ctl: Ctl,
    c: i64,
    fin: bool,
}
impl Drop for Held {
    fn drop(&mut self) {
        self.ctl.ev(json!({"e":"rdrop","c":self.c,"fin":self.fin}));
    }
}
async fn pace(p: i64) {
    match p {
        0 => {}
        1 => {
            tokio::task::yield_now().await;
            tokio::task::yield_now().await;
        }
        2 => tokio::time::sleep(Duration::from_micros(700)).await,
        _ => std::future::pending().await,
    }
}
type UFut = Pin<Box<dyn Future<Output = Msg> + Send>>;
type SStr = Pin<Box<dyn Stream<Item = Msg> + Send>>;
struct Svc(Ctl);
impl ConnectionService for Svc {
    type Request = Msg;
    type Response = Msg;
    type UnaryFutureType = UFut;
    type StreamType = SStr;
    fn new_rpc(&mut self, m: Msg) -> RpcKind<UFut, SStr> {
        let a = asked(m.val);
        crate::jitter::pause();
        self.0.ev(json!({"e":"start","c":a.c,"id":self.0.im.from(m.id),"ok":m.ok && m.code == 0}));
        let mut held = Held { ctl: self.0.clone(), c: a.c, fin: false };
        let id = m.id;
        let (c, p, n, size) = (a.c, a.pace, a.items, a.size);
        if a.streaming {
            let st = futures::stream::unfold((held, 0i64), move |(mut held, j)| async move {
                if p == 3 && j >= n {
                    std::future::pending::<()>().await;
                }
                if j >= n {
                    held.fin = true;
                    return None;
                }
                pace(if p == 3 { 0 } else { p }).await;
                Some((Msg { id, code: 0, val: answer(c, j + 1), size, ok: true }, (held, j + 1)))
            });
            RpcKind::Streaming(Box::pin(st))
        } else {
            RpcKind::Unary(Box::pin(async move {
                let _whole = &held;
                pace(p).await;
                held.fin = true;
                Msg { id, code: 0, val: answer(c, 0), size, ok: true }
            }))
        }
    }
}
struct Sock(Ctl, Kind);
impl SocketService for Sock {
    type RequestDeserializer = Hooked;
    type ResponseSerializer = Hooked;
    type ConnectionService = Svc;
    fn deserializer(&self) -> Hooked {
        Hooked::new(self.1)
    }
    fn serializer(&self) -> Hooked {
        Hooked::new(self.1)
    }
    fn new_connection_service(&self, _: std::net::SocketAddr) -> Svc {
        Svc(self.0.clone())
    }
}

fn err_name(e: &protosocket_rpc::Error) -> &'static str {
    match e {
        protosocket_rpc::Error::IoFailure(_) => "io",
        protosocket_rpc::Error::CancelledRemotely => "cancelled",
        protosocket_rpc::Error::ConnectionIsClosed => "closed",
        protosocket_rpc::Error::Finished => "finished",
    }
}
enum Open {
    U(Pin<Box<dyn Future<Output = protosocket_rpc::Result<Msg>> + Send>>),
    S(Pin<Box<dyn Stream<Item = protosocket_rpc::Result<Msg>> + Send>>),
}
/// wait for at most n results; true when the call is over
async fn take(ctl: &Ctl, c: i64, o: &mut Open, n: usize, left: &mut usize) -> bool {
    match o {
        Open::U(f) => {
            match f.await {
                Ok(m) => ctl.ev(json!({"e":"resp","c":c,"val":m.val,"ok":m.ok && m.code == 0})),
                Err(e) => ctl.ev(json!({"e":"err","c":c,"k":err_name(&e)})),
            }
            true
        }
        Open::S(s) => {
            for _ in 0..n {
                if *left == 0 {
                    // nothing more ever comes
                    return false;
                }
                match s.next().await {
                    Some(Ok(m)) => {
                        *left -= 1;
                        ctl.ev(json!({"e":"item","c":c,"val":m.val,"ok":m.ok && m.code == 0}))
                    }
                    Some(Err(protosocket_rpc::Error::Finished)) | None => {
                        ctl.ev(json!({"e":"end","c":c}));
                        return true;
                    }
                    Some(Err(e)) => {
                        ctl.ev(json!({"e":"err","c":c,"k":err_name(&e)}));
                        return true;
                    }
                }
            }
            false
        }
    }
}
/// polls f once
struct Once<F>(F);
impl<F: Future<Output = bool> + Unpin> Future for Once<F> {
    type Output = bool;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<bool> {
        Poll::Ready(matches!(Pin::new(&mut self.0).poll(cx), Poll::Ready(true)))
    }
}

fn us(v: &Value) -> usize {
    v.as_u64().unwrap_or(0) as usize
}

/// one program: its own calls, one step after another
/// ["call", c, id, streaming, items, pace, size]  issue a call
/// ["take", c, n]   n results of it    ["wait", c]  all of it    ["drop", c]  drop it
/// ["peek", c]      poll it once       ["yield", n] ["race", [c..]]  wait for several at once
async fn program(ops: Vec<Value>, client: RpcClient<Msg, Msg>, ctl: Ctl) -> Vec<Open> {
    let mut open: HashMap<i64, (Open, bool, usize)> = HashMap::new();
    for op in &ops {
        let c = op[1].as_i64().unwrap_or(0);
        match op[0].as_str().unwrap() {
            "call" => {
                let a = Ask { c, pace: op[5].as_i64().unwrap_or(0), items: op[4].as_i64().unwrap_or(0), streaming: op[3] == true, size: us(&op[6]) };
                let id = op[2].as_u64().unwrap();
                let never = a.pace == 3;
                ctl.ev(json!({"e":"call","c":c,"id":id,"s":a.streaming,"n":a.items,"never":never}));
                let m = Msg { id: ctl.im.to(id), code: 0, val: ask(&a), size: us(&op[7]).max(HDR), ok: true };
                let r = if a.streaming {
                    client.send_streaming(m).await.map(|s| Open::S(Box::pin(s)))
                } else {
                    client.send_unary(m).await.map(|f| Open::U(Box::pin(f)))
                };
                match r {
                    Ok(o) => {
                        open.insert(c, (o, never, if never { us(&op[4]) } else { usize::MAX }));
                    }
                    Err(e) => ctl.ev(json!({"e":"err","c":c,"k":err_name(&e)})),
                }
            }
            "take" => {
                if let Some((mut o, n, mut left)) = open.remove(&c) {
                    if (matches!(o, Open::U(_)) && n) || !take(&ctl, c, &mut o, us(&op[2]), &mut left).await {
                        open.insert(c, (o, n, left));
                    }
                }
            }
            "peek" => {
                if let Some((mut o, n, mut left)) = open.remove(&c) {
                    // what is ready now is taken
                    if !Once(Box::pin(take(&ctl, c, &mut o, 1, &mut left))).await {
                        open.insert(c, (o, n, left));
                    }
                }
            }
            "wait" => {
                if let Some((mut o, n, mut left)) = open.remove(&c) {
                    if n || !take(&ctl, c, &mut o, usize::MAX, &mut left).await {
                        open.insert(c, (o, n, left));
                    }
                }
            }
            "drop" => {
                if let Some(o) = open.remove(&c) {
                    ctl.ev(json!({"e":"drop","c":c}));
                    drop(o);
                }
            }
            "yield" => {
                for _ in 0..us(&op[1]) {
                    tokio::task::yield_now().await;
                }
            }
            _ => {}
        }
    }
    // everything that will finish is waited for, all at once
    let (never, rest): (Vec<_>, Vec<_>) = open.into_iter().partition(|(_, (_, n, _))| *n);
    let ctl2 = &ctl;
    futures::future::join_all(rest.into_iter().map(|(c, (mut o, _, mut left))| async move {
        take(ctl2, c, &mut o, usize::MAX, &mut left).await;
    }))
    .await;
    never.into_iter().map(|(_, (o, _, _))| o).collect()
}

async fn settle(ctl: &Ctl, opts: &Opts, ms: u64) {
    // nothing has moved for a while
    let need = (opts.idle_ms * opts.idle_rounds as u64).max(ms);
    let mut last = ctl.tr.progress();
    let mut still = std::time::Instant::now();
    while still.elapsed() < Duration::from_millis(need) {
        tokio::time::sleep(Duration::from_millis(2)).await;
        let p = ctl.tr.progress();
        if p != last {
            last = p;
            still = std::time::Instant::now();
        }
    }
}

pub async fn run(scen: &Value, tr: Trace, opts: &Opts) {
    let cfg = &scen["cfg"];
    let kind = Kind::parse(cfg["codec"].as_str().unwrap_or("toy"));
    set_kind(kind);
    let ctl = Ctl { tr, closing: Default::default(), im: IdMap::parse(&cfg["idmap"]) };
    let addr = fresh_addr();
    let mut s = SocketRpcServer::new(addr, Sock(ctl.clone(), kind)).await.expect("bind");
    s.set_max_buffer_length(us(&cfg["maxbuf"]));
    s.set_max_queued_outbound_messages(us(&cfg["smaxq"]));
    let server = tokio::spawn(s);
    let mut cc = Configuration::default();
    cc.max_buffer_length(us(&cfg["maxbuf"]));
    cc.max_queued_outbound_messages(us(&cfg["cmaxq"]));
    let mut clients = vec![];
    let mut conns = vec![];
    for _ in 0..us(&cfg["conns"]).max(1) {
        let (c, conn) = protosocket_rpc::client::connect::<ESer, EDe>(addr, &cc).await.expect("connect");
        clients.push(c);
        conns.push(tokio::spawn(crate::jitter::Jittered::new(conn)));
    }
    ctl.ev(json!({"e":"cfg"}));
    let mut hs = vec![];
    for (i, p) in scen["programs"].as_array().expect("programs").iter().enumerate() {
        let c = clients[i % clients.len()].clone();
        hs.push(tokio::spawn(program(p.as_array().unwrap().clone(), c, ctl.clone())));
    }
    // what takes an unlikely coincidence cannot be tried again at leisure: such a scenario waits longer at once
    let rare = cfg["rare"] == true;
    let least = if rare { 300 } else { 80 };
    let limit = Duration::from_millis((opts.idle_ms * opts.idle_rounds as u64).max(if rare { 4000 } else { 1000 }));
    let mut held = vec![];
    let mut stuck = vec![];
    for mut h in hs {
        // a program that makes no progress for long is left where it is
        let mut last = ctl.tr.progress();
        loop {
            // ... and the others along with it
            let wait = if stuck.is_empty() { limit } else { limit / 40 };
            match tokio::time::timeout(wait, &mut h).await {
                Ok(r) => {
                    held.extend(r.expect("program"));
                    break;
                }
                Err(_) => {
                    let p = ctl.tr.progress();
                    if p == last {
                        stuck.push(h);
                        break;
                    }
                    last = p;
                }
            }
        }
    }
    settle(&ctl, opts, least).await;
    ctl.ev(json!({"e":"q"}));
    for c in &clients {
        ctl.ev(json!({"e":"alive","is":c.is_alive()}));
    }
    // the clients go: everything is released
    if stuck.is_empty() {
        ctl.ev(json!({"e":"bye"}));
        match cfg["bye"].as_str().unwrap_or("abort") {
            "drop" => {
                // the calls nobody will answer are dropped, and with them the last handles
                held.clear();
                clients.clear();
            }
            _ => conns.iter().for_each(|c| c.abort()),
        }
        settle(&ctl, opts, least).await;
        ctl.ev(json!({"e":"gone"}));
    }
    ctl.closing.store(true, Ordering::SeqCst);
    server.abort();
    conns.iter().for_each(|c| c.abort());
    stuck.iter().for_each(|c| c.abort());
}

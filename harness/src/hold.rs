//! Suite "hold": rounds of equal work on real clients and a real server, all on one thread, and how much
//! memory is in use whenever everything has come to rest.
use crate::anycodec::*;
use crate::codec::{Msg, HDR};
use crate::conn::Opts;
use crate::e2e::{set_kind, EDe, ESer};
use crate::server::fresh_addr;
use crate::trace::Trace;
use futures::{FutureExt, Stream, StreamExt};
use protosocket::{ConnectionBindings, MessageReactor, ReactorStatus};
use protosocket_rpc::client::{Configuration, RpcClient};
use protosocket_rpc::server::{ConnectionService, RpcKind, SocketRpcServer, SocketService};
use protosocket_server::{ProtosocketServer, ServerConnector};
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;

thread_local! {
    static NET: Cell<i64> = const { Cell::new(0) };
}
/// counts, per thread, the bytes allocated less the bytes given back
pub struct Counting;
fn add(n: i64) {
    let _ = NET.try_with(|x| x.set(x.get() + n));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
fn in_use() -> i64 {
    NET.with(|x| x.get())
}

#[derive(Clone, Default)]
struct Live {
    rpcs: Arc<AtomicUsize>,
    svcs: Arc<AtomicUsize>,
    moved: Arc<AtomicUsize>,
}
struct One(Arc<AtomicUsize>);
impl One {
    fn new(n: &Arc<AtomicUsize>) -> Self {
        n.fetch_add(1, SeqCst);
        One(n.clone())
    }
}
impl Drop for One {
    fn drop(&mut self) {
        self.0.fetch_sub(1, SeqCst);
    }
}

// what is asked for: (kind * 1024 + items) * 4096 + size / 16
const ANSWERED: i64 = 0;
const STREAM: i64 = 1;
const NEVER: i64 = 2;
const STREAM_NEVER: i64 = 3;
const UNKNOWN: i64 = 4;
const LATER: i64 = 5;
fn ask(kind: i64, items: i64, size: usize) -> i64 {
    (kind * 1024 + items) * 4096 + (size / 16) as i64
}

type UFut = Pin<Box<dyn Future<Output = Msg> + Send>>;
type SStr = Pin<Box<dyn Stream<Item = Msg> + Send>>;
struct Svc(Live, #[allow(dead_code)] One);
impl ConnectionService for Svc {
    type Request = Msg;
    type Response = Msg;
    type UnaryFutureType = UFut;
    type StreamType = SStr;
    fn new_rpc(&mut self, m: Msg) -> RpcKind<UFut, SStr> {
        let (size, items, kind) = ((m.val % 4096) as usize * 16, m.val / 4096 % 1024, m.val / 4096 / 1024);
        let resp = Msg { id: m.id, code: 0, val: m.val, size: size.max(HDR), ok: true };
        let one = One::new(&self.0.rpcs);
        match kind {
            STREAM | STREAM_NEVER => RpcKind::Streaming(Box::pin(futures::stream::unfold((one, 0), move |(one, j)| {
                let resp = resp.clone();
                async move {
                    if j >= items {
                        if kind == STREAM_NEVER {
                            std::future::pending::<()>().await;
                        }
                        return None;
                    }
                    Some((resp, (one, j + 1)))
                }
            }))),
            UNKNOWN => RpcKind::Unknown,
            _ => RpcKind::Unary(Box::pin(async move {
                let _one = one;
                match kind {
                    NEVER => std::future::pending().await,
                    LATER => tokio::task::yield_now().await,
                    _ => {}
                }
                resp
            })),
        }
    }
}
struct Sock(Live, Kind);
impl SocketService for Sock {
    type RequestDeserializer = Hooked;
    type ResponseSerializer = Hooked;
    type ConnectionService = Svc;
    fn deserializer(&self) -> Hooked {
        Hooked::new(self.1)
    }
    fn serializer(&self) -> Hooked {
        Hooked::new(self.1)
    }
    fn new_connection_service(&self, _: std::net::SocketAddr) -> Svc {
        Svc(self.0.clone(), One::new(&self.0.svcs))
    }
}

/// an echoing message server
struct Echo(Live, Kind);
struct EB;
impl ConnectionBindings for EB {
    type Deserializer = Hooked;
    type Serializer = Hooked;
    type Reactor = ER;
}
struct ER(tokio::sync::mpsc::Sender<Msg>, #[allow(dead_code)] One);
impl MessageReactor for ER {
    type Inbound = Msg;
    fn on_inbound_messages(&mut self, messages: impl IntoIterator<Item = Msg>) -> ReactorStatus {
        for m in messages {
            let _ = self.0.try_send(m);
        }
        ReactorStatus::Continue
    }
}
impl ServerConnector for Echo {
    type Bindings = EB;
    fn serializer(&self) -> Hooked {
        Hooked::new(self.1)
    }
    fn deserializer(&self) -> Hooked {
        Hooked::new(self.1)
    }
    fn new_reactor(&self, tx: tokio::sync::mpsc::Sender<Msg>) -> ER {
        ER(tx, One::new(&self.0.svcs))
    }
}
/// the other end of it, on a connection of its own
struct CB;
impl ConnectionBindings for CB {
    type Deserializer = Hooked;
    type Serializer = Hooked;
    type Reactor = CR;
}
struct CR(Arc<AtomicUsize>);
impl MessageReactor for CR {
    type Inbound = Msg;
    fn on_inbound_messages(&mut self, messages: impl IntoIterator<Item = Msg>) -> ReactorStatus {
        self.0.fetch_add(messages.into_iter().count(), SeqCst);
        ReactorStatus::Continue
    }
}
/// ... and on one that the prost client registry makes
struct PCR(Arc<AtomicUsize>);
impl MessageReactor for PCR {
    type Inbound = PMsg;
    fn on_inbound_messages(&mut self, messages: impl IntoIterator<Item = PMsg>) -> ReactorStatus {
        self.0.fetch_add(messages.into_iter().count(), SeqCst);
        ReactorStatus::Continue
    }
}

fn us(v: &Value) -> usize {
    v.as_u64().unwrap_or(0) as usize
}
async fn until(f: impl Fn() -> bool) -> bool {
    for k in 0..1500 {
        if f() {
            return true;
        }
        if k < 500 {
            tokio::task::yield_now().await;
        } else {
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
    }
    false
}

type Call = (Option<UFutC>, Option<SStrC>);
type UFutC = Pin<Box<dyn Future<Output = protosocket_rpc::Result<Msg>>>>;
type SStrC = Pin<Box<dyn Stream<Item = protosocket_rpc::Result<Msg>>>>;
async fn begin(client: &RpcClient<Msg, Msg>, id: u64, kind: i64, items: usize, size: usize) -> Option<Call> {
    let m = Msg { id, code: 0, val: ask(kind, items as i64, size), size: size.max(HDR), ok: true };
    if matches!(kind, STREAM | STREAM_NEVER) {
        client.send_streaming(m).await.ok().map(|s| (None, Some(Box::pin(s) as SStrC)))
    } else {
        client.send_unary(m).await.ok().map(|f| (Some(Box::pin(f) as UFutC), None))
    }
}

/// One round's calls, `par` at a time:
/// ["u"] answered  ["l"] answered later  ["s", n] streamed to the end  ["ud"] dropped, never answered
/// ["uk"] dropped with its answer there  ["sd", n, k] dropped after k of n items, the stream not at its end
/// ["sk", n] dropped with everything there, the end included   ["x"] not known to the service, dropped
/// ["w"] dropped while it waits for a place in the queue
async fn calls(client: &RpcClient<Msg, Msg>, ops: &[Value], par: usize, size: usize, live: &Live, id: &mut dyn FnMut() -> u64) {
    for chunk in ops.chunks(par) {
        let mut open: Vec<(&Value, Option<Call>)> = Vec::with_capacity(par);
        for op in chunk {
            let n = us(&op[1]);
            let kind = match op[0].as_str().unwrap() {
                "u" | "uk" => ANSWERED,
                "l" => LATER,
                "s" | "sk" => STREAM,
                "ud" => NEVER,
                "sd" => STREAM_NEVER,
                "x" => UNKNOWN,
                "w" => {
                    let _ = begin(client, id(), ANSWERED, 0, size).now_or_never();
                    continue;
                }
                x => panic!("unknown call {x}"),
            };
            let i = id();
            let c = tokio::time::timeout(Duration::from_secs(2), begin(client, i, kind, n, size)).await.ok().flatten();
            open.push((op, c));
        }
        for _ in 0..6 {
            tokio::task::yield_now().await;
        }
        for (op, c) in open {
            let Some((u, s)) = c else { continue };
            let how = op[0].as_str().unwrap();
            let work = async move {
                match (how, u, s) {
                    ("u" | "l", Some(u), _) => drop(u.await),
                    ("s", _, Some(mut s)) => while let Some(Ok(_)) = s.next().await {},
                    ("sd", _, Some(mut s)) => {
                        for _ in 0..us(&op[2]) {
                            let _ = s.next().await;
                        }
                    }
                    ("uk" | "sk", u, s) => {
                        tokio::time::sleep(Duration::from_micros(300)).await;
                        drop((u, s));
                    }
                    _ => {}
                }
            };
            let _ = tokio::time::timeout(Duration::from_secs(2), work).await;
        }
        live.moved.fetch_add(1, SeqCst);
    }
}

async fn rest() -> i64 {
    // the least of a few looks: nothing is under way any more in one of them
    let mut least = i64::MAX;
    for _ in 0..3 {
        tokio::time::sleep(Duration::from_millis(1)).await;
        least = least.min(in_use());
    }
    least
}

pub async fn run(scen: &Value, tr: Trace, _opts: &Opts) {
    let cfg = &scen["cfg"];
    let kind = Kind::parse(cfg["codec"].as_str().unwrap_or("toy"));
    set_kind(kind);
    let live = Live::default();
    let addr = fresh_addr();
    let (maxbuf, cq, sq, size) = (us(&cfg["maxbuf"]), us(&cfg["cmaxq"]), us(&cfg["smaxq"]), us(&cfg["size"]));
    let (rounds, warm, par) = (us(&cfg["rounds"]), us(&cfg["warm"]), us(&cfg["par"]).max(1));
    let mode = cfg["mode"].as_str().unwrap();
    let mut cc = Configuration::default();
    cc.max_buffer_length(maxbuf);
    cc.max_queued_outbound_messages(cq);
    let server: tokio::task::JoinHandle<()> = if mode == "echo" {
        let mut s = ProtosocketServer::new(addr, tokio::runtime::Handle::current(), Echo(live.clone(), kind)).await.expect("bind");
        s.set_max_buffer_length(maxbuf);
        s.set_max_queued_outbound_messages(sq);
        tokio::spawn(async move { drop(s.await) })
    } else {
        let mut s = SocketRpcServer::new(addr, Sock(live.clone(), kind)).await.expect("bind");
        s.set_max_buffer_length(maxbuf);
        s.set_max_queued_outbound_messages(sq);
        tokio::spawn(async move { drop(s.await) })
    };
    let ops = scen["ops"].as_array().unwrap();
    let mut next = 1u64;
    let same = cfg["same"] == true;
    let mut mems: Vec<(usize, i64)> = Vec::with_capacity(rounds);
    let mut stuck = false;
    let im = IdMap::parse(&cfg["idmap"]);
    match mode {
        "calls" => {
            let (client, conn) = protosocket_rpc::client::connect::<ESer, EDe>(addr, &cc).await.expect("connect");
            let conn = tokio::spawn(conn);
            for _ in 0..rounds {
                if same {
                    next = 1;
                }
                let mut id = || {
                    next += 1;
                    // fresh ids need not be small
                    if same { im.to(next) } else { next }
                };
                calls(&client, ops, par, size, &live, &mut id).await;
                // everything that was dropped is known to be dropped
                stuck |= !until(|| live.rpcs.load(SeqCst) == 0).await;
                calls(&client, &[json!(["u"])], 1, size, &live, &mut || u64::MAX).await;
                mems.push((ops.len() + 1, rest().await));
            }
            conn.abort();
        }
        "conns" => {
            for r in 0..rounds {
                let n = us(&cfg["conns"]).max(1);
                let mut cs = Vec::with_capacity(n);
                for _ in 0..n {
                    let (client, conn) = protosocket_rpc::client::connect::<ESer, EDe>(addr, &cc).await.expect("connect");
                    cs.push((client, tokio::spawn(conn)));
                }
                let mut left = Vec::with_capacity(3 * n);
                for (k, (client, conn)) in cs.into_iter().enumerate() {
                    let mut id = || {
                        next += 1;
                        next
                    };
                    calls(&client, ops, par, size, &live, &mut id).await;
                    // calls that are open when it ends
                    for kind in [NEVER, STREAM_NEVER, ANSWERED] {
                        if let Some((u, s)) = begin(&client, id(), kind, 1, size).await {
                            left.push((u, s, k));
                        }
                    }
                    for _ in 0..10 {
                        tokio::task::yield_now().await;
                    }
                    match cfg["bye"].as_str().unwrap_or("") {
                        "drop" => {
                            left.retain(|x| x.2 != k);
                            drop(client);
                            stuck |= tokio::time::timeout(Duration::from_secs(2), conn).await.is_err();
                        }
                        "over" => {
                            // a request above the limit
                            let _ = begin(&client, id(), NEVER, 0, 2 * maxbuf + 64).await;
                            stuck |= tokio::time::timeout(Duration::from_secs(2), conn).await.is_err();
                        }
                        _ => {
                            conn.abort();
                            let _ = conn.await;
                        }
                    }
                    let _ = r;
                }
                for (u, s, _) in left {
                    let w = async move {
                        if let Some(u) = u {
                            let _ = u.await;
                        }
                        if let Some(mut s) = s {
                            while let Some(Ok(_)) = s.next().await {}
                        }
                    };
                    stuck |= tokio::time::timeout(Duration::from_secs(2), w).await.is_err();
                }
                stuck |= !until(|| live.svcs.load(SeqCst) == 0 && live.rpcs.load(SeqCst) == 0).await;
                mems.push((n * (ops.len() + 3), rest().await));
            }
        }
        "echo" => {
            let seen = Arc::new(AtomicUsize::new(0));
            let reg = cfg["reg"] == true;
            let lasting = cfg["lasting"] == true;
            enum Tx {
                M(tokio::sync::mpsc::Sender<Msg>, tokio::task::JoinHandle<()>),
                P(tokio::sync::mpsc::Sender<PMsg>),
            }
            let mut registry = protosocket_prost::ClientRegistry::new(tokio::runtime::Handle::current());
            registry.set_max_read_buffer_length(maxbuf);
            registry.set_max_queued_outbound_messages(cq);
            let mut conns: Vec<Tx> = Vec::with_capacity(64);
            for _ in 0..rounds {
                let n = us(&cfg["conns"]).max(1);
                while conns.len() < n {
                    conns.push(if reg {
                        Tx::P(registry.register_client::<PMsg, PMsg, PCR>(addr.to_string(), PCR(seen.clone())).await.expect("register"))
                    } else {
                        let stream = tokio::net::TcpStream::connect(addr).await.expect("connect");
                        let (tx, rx) = tokio::sync::mpsc::channel(cq);
                        let c = protosocket::Connection::<CB>::new(stream, addr, Hooked::new(kind), Hooked::new(kind), maxbuf, cq, rx, CR(seen.clone()));
                        Tx::M(tx, tokio::spawn(async move { drop(c.await) }))
                    });
                }
                let mut over = 0;
                for c in &conns {
                    for op in ops {
                        next += 1;
                        let m = Msg { id: next, code: 0, val: 1, size: us(&op[1]).max(HDR), ok: true };
                        let want = seen.load(SeqCst) + 1;
                        let ok = match c {
                            Tx::M(t, _) => t.send(m).await.is_ok(),
                            Tx::P(t) => t.send(to_p(&m)).await.is_ok(),
                        };
                        over += 1;
                        if ok && over % par == 0 {
                            stuck |= !until(|| seen.load(SeqCst) >= want).await;
                        }
                    }
                }
                if !lasting {
                    for c in conns.drain(..) {
                        match c {
                            Tx::M(t, h) => {
                                drop(t);
                                stuck |= tokio::time::timeout(Duration::from_secs(2), h).await.is_err();
                            }
                            Tx::P(t) => drop(t),
                        }
                    }
                    stuck |= !until(|| live.svcs.load(SeqCst) == 0).await;
                    over += n;
                }
                mems.push((over, rest().await));
                if stuck {
                    break;
                }
            }
            for c in conns {
                if let Tx::M(_, h) = c {
                    h.abort();
                }
            }
        }
        x => panic!("mode {x}"),
    }
    tr.ev(json!({"e":"cfg","warm":warm,"per":us(&cfg["per"]),"slack":us(&cfg["slack"])}));
    for (n, b) in mems {
        tr.ev(json!({"e":"over","n":n}));
        // in units of 16 bytes, so that a checker with 32-bit numbers can add them up
        tr.ev(json!({"e":"mem","n":(b.max(0) + 15) / 16}));
    }
    if stuck {
        tr.ev(json!({"e":"stuck"}));
    }
    tr.ev(json!({"e":"end_"}));
    server.abort();
}

//! Suite "server": a real SocketRpcServer (its tasks run by tokio) with a gated service, against
//! scripted clients on raw sockets.
use crate::anycodec::*;
use crate::codec::{Msg, HDR};
use crate::conn::Opts;
use crate::peer::Peer;
use crate::sys;
use crate::trace::Trace;
use protosocket_rpc::server::{ConnectionService, RpcKind, SocketRpcServer, SocketService};
use serde_json::{json, Value};
use std::collections::{HashMap, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

// what a request asks for, carried in its value: ((seq * 256) + items) * 8 + kind
pub const UNARY: i64 = 0;
pub const STREAM: i64 = 1;
pub const UNKNOWN: i64 = 2;
pub const PANIC: i64 = 3;
/// output available from the start
pub const UNARY_NOW: i64 = 4;
pub const STREAM_NOW: i64 = 5;

enum Out {
    Item(i64, usize),
    End,
    Boom,
}
#[derive(Default)]
struct GateSt {
    val: i64,
    unary: bool,
    dropped: bool,
    q: VecDeque<Out>,
    waker: Option<Waker>,
    over: bool,
}
#[derive(Default)]
struct World {
    gates: Vec<GateSt>,
    ports: HashMap<u16, usize>,
    closing: bool,
    next_val: i64,
    made: HashMap<i64, usize>,
    rsize: usize,
    im: IdMap,
}
#[derive(Clone)]
struct Ctl {
    w: Arc<Mutex<World>>,
    tr: Trace,
    kind: Kind,
}
impl Ctl {
    fn ev(&self, v: Value) {
        if !self.w.lock().unwrap().closing {
            self.tr.ev(v)
        }
    }
    fn give(&self, r: usize, o: Out) {
        let (ev, wk) = {
            let mut w = self.w.lock().unwrap();
            let g = &mut w.gates[r - 1];
            if g.over || (g.unary && (matches!(o, Out::End) || !g.q.is_empty())) {
                return;
            }
            let ev = match &o {
                Out::Item(..) => json!({"e":"avail","r":r,"end":false}),
                Out::End => json!({"e":"avail","r":r,"end":true}),
                Out::Boom => json!({"e":"armed","r":r}),
            };
            if matches!(o, Out::End | Out::Boom) {
                g.over = true;
            }
            g.q.push_back(o);
            (ev, g.waker.take())
        };
        self.ev(ev);
        if let Some(w) = wk {
            w.wake()
        }
    }
    fn item(&self, size: usize) -> Out {
        let mut w = self.w.lock().unwrap();
        w.next_val += 1;
        Out::Item(w.next_val, size)
    }
}

struct Gate {
    ctl: Ctl,
    r: usize,
    n: usize,
    id: u64,
    unary: bool,
}
impl Gate {
    fn pop(&mut self, cx: &mut Context<'_>) -> Poll<Option<Msg>> {
        self.ctl.ev(json!({"e":"rpoll","r":self.r}));
        let o = {
            let mut w = self.ctl.w.lock().unwrap();
            let g = &mut w.gates[self.r - 1];
            match g.q.pop_front() {
                None => {
                    g.waker = Some(cx.waker().clone());
                    return Poll::Pending;
                }
                Some(o) => o,
            }
        };
        match o {
            Out::Item(val, size) => {
                let n = peer_msg(self.ctl.kind, &Msg { id: self.id, code: 0, val, size, ok: true }).bytes.len();
                self.ctl.w.lock().unwrap().made.insert(val, self.n);
                self.ctl.ev(json!({"e":"prod","r":self.r,"val":val,"n":n}));
                if self.unary {
                    self.ctl.w.lock().unwrap().gates[self.r - 1].over = true;
                }
                Poll::Ready(Some(Msg { id: self.id, code: 0, val, size, ok: true }))
            }
            Out::End => {
                self.ctl.ev(json!({"e":"rend","r":self.r}));
                Poll::Ready(None)
            }
            Out::Boom => {
                self.ctl.ev(json!({"e":"boom","r":self.r}));
                panic!("rpc failed")
            }
        }
    }
}
impl Drop for Gate {
    fn drop(&mut self) {
        let mut w = self.ctl.w.lock().unwrap();
        w.gates[self.r - 1].over = true;
        w.gates[self.r - 1].dropped = true;
        w.gates[self.r - 1].waker = None;
        drop(w);
        self.ctl.ev(json!({"e":"rdrop","r":self.r}));
    }
}
struct UnaryGate(Gate);
impl Future for UnaryGate {
    type Output = Msg;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Msg> {
        self.0.pop(cx).map(|o| o.expect("unary"))
    }
}
struct StreamGate(Gate);
impl futures::Stream for StreamGate {
    type Item = Msg;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Msg>> {
        self.0.pop(cx)
    }
}

struct Svc {
    ctl: Ctl,
    n: usize,
}
impl Drop for Svc {
    fn drop(&mut self) {
        self.ctl.ev(json!({"e":"sdrop","n":self.n}));
    }
}
impl ConnectionService for Svc {
    type Request = Msg;
    type Response = Msg;
    type UnaryFutureType = UnaryGate;
    type StreamType = StreamGate;
    fn new_rpc(&mut self, m: Msg) -> RpcKind<UnaryGate, StreamGate> {
        let kind = m.val & 7;
        let items = ((m.val >> 3) & 255) as usize;
        let (r, rsize) = {
            let mut w = self.ctl.w.lock().unwrap();
            w.gates.push(GateSt { val: m.val, unary: matches!(kind, UNARY | UNARY_NOW), ..Default::default() });
            let r = w.gates.len();
            // in the order of the numbers
            let ev = json!({"e":"start","n":self.n,"r":r,"id":w.im.from(m.id),"code":m.code,"val":m.val,"ok":m.ok});
            if !w.closing {
                self.ctl.tr.ev(ev);
            }
            (r, w.rsize)
        };
        let gate = |unary| Gate { ctl: self.ctl.clone(), r, n: self.n, id: m.id, unary };
        match kind {
            UNARY => RpcKind::Unary(UnaryGate(gate(true))),
            STREAM => RpcKind::Streaming(StreamGate(gate(false))),
            UNARY_NOW => {
                let g = gate(true);
                let o = self.ctl.item(rsize);
                self.ctl.give(r, o);
                RpcKind::Unary(UnaryGate(g))
            }
            STREAM_NOW => {
                let g = gate(false);
                for _ in 0..items {
                    let o = self.ctl.item(rsize);
                    self.ctl.give(r, o);
                }
                self.ctl.give(r, Out::End);
                RpcKind::Streaming(StreamGate(g))
            }
            PANIC => {
                self.ctl.ev(json!({"e":"boom","r":r}));
                panic!("service failed")
            }
            _ => RpcKind::Unknown,
        }
    }
}
struct Sock {
    ctl: Ctl,
    kind: Kind,
}
impl SocketService for Sock {
    type RequestDeserializer = Hooked;
    type ResponseSerializer = Hooked;
    type ConnectionService = Svc;
    fn deserializer(&self) -> Hooked {
        Hooked::new(self.kind)
    }
    fn serializer(&self) -> Hooked {
        let mut h = Hooked::new(self.kind);
        let ctl = self.ctl.clone();
        h.on_encode = Some(Box::new(move |m, _| {
            if m.code == 0 {
                let n = ctl.w.lock().unwrap().made.get(&m.val).copied().unwrap_or(0);
                if n > 0 {
                    ctl.ev(json!({"e":"oenc","n":n}));
                }
            }
        }));
        h
    }
    fn new_connection_service(&self, a: std::net::SocketAddr) -> Svc {
        let n = self.ctl.w.lock().unwrap().ports.get(&a.port()).copied().unwrap_or(0);
        self.ctl.ev(json!({"e":"svc","n":n}));
        Svc { ctl: self.ctl.clone(), n }
    }
}

static COUNTER: AtomicUsize = AtomicUsize::new(0);
/// a loopback address nobody else uses
pub fn fresh_addr() -> std::net::SocketAddr {
    let c = COUNTER.fetch_add(1, Ordering::SeqCst);
    let pid = std::process::id() as usize;
    let ip = std::net::Ipv4Addr::new(127, (1 + pid % 250) as u8, (1 + c / 250 % 250) as u8, (1 + c % 250) as u8);
    (ip, (20000 + c % 10000) as u16).into()
}

/// polls the server, which stays reachable for its setters
struct Drive<S: SocketService + Unpin>(Arc<Mutex<SocketRpcServer<S>>>);
impl<S: SocketService + Unpin> Future for Drive<S> {
    type Output = std::io::Result<()>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        Pin::new(&mut *self.0.lock().unwrap()).poll(cx)
    }
}

struct Client {
    peer: Peer,
    reads: bool,
    fd: i32,
    port: u16,
    /// ids in use: what was last asked under each, and whether leftovers of an earlier use may still arrive
    ids: HashMap<u64, Use>,
}
struct Use {
    busy: bool,
    tainted: bool,
    unary: bool,
    val: i64,
}
fn us(v: &Value) -> usize {
    v.as_u64().unwrap_or(0) as usize
}

struct Run {
    ctl: Ctl,
    clients: Vec<Client>,
    spun: bool,
    seq: i64,
    mt: bool,
    small: bool,
    tasks0: usize,
    port: u16,
    im: IdMap,
}
impl Run {
    fn polls(&self) -> u64 {
        let m = tokio::runtime::Handle::current().metrics();
        (0..m.num_workers()).map(|i| m.worker_poll_count(i)).sum()
    }
    fn tasks(&self) -> usize {
        tokio::runtime::Handle::current().metrics().num_alive_tasks()
    }
    async fn turn(&self, k: usize) {
        for _ in 0..k {
            tokio::task::yield_now().await;
        }
        if self.mt {
            tokio::time::sleep(Duration::from_micros(50)).await;
        }
    }
    fn pump(&mut self) -> bool {
        let mut any = false;
        for c in &mut self.clients {
            any |= c.peer.pump() > 0;
        }
        any
    }
    fn read(&mut self, n: usize, max: usize) -> bool {
        let tr = self.ctl.tr.clone();
        let p = &mut self.clients[n - 1].peer;
        let was = p.ended;
        let r = p.read(max);
        for m in &r.msgs {
            if let Some(u) = self.clients[n - 1].ids.get_mut(&self.im.from(m.id)) {
                if !u.tainted && ((u.unary && m.code == 0) || m.code == 2) {
                    u.busy = false;
                }
            }
            tr.ev(json!({"e":"crecv","n":n,"id":self.im.from(m.id),"code":m.code,"val":m.val,"ok":m.ok}));
        }
        let p = &mut self.clients[n - 1].peer;
        if r.garbage {
            tr.ev(json!({"e":"crecv","n":n,"id":0,"code":99,"val":0,"ok":false}));
        }
        if p.ended && !was {
            tr.ev(json!({"e":"ceof","n":n}));
        }
        if r.bytes > 0 {
            tr.tick();
        }
        r.bytes > 0 || (p.ended && !was)
    }
    async fn settle(&mut self, all: bool, opts: &Opts) {
        let mut idle = 0;
        let mut grace = 1500 / opts.idle_ms.max(1);
        let mut quiet_polls = 0;
        let mut polls = self.polls();
        let mut prog = self.ctl.tr.progress();
        let addr_port = self.port;
        loop {
            self.turn(8).await;
            let mut p = self.pump();
            for n in 1..=self.clients.len() {
                if all || self.clients[n - 1].reads {
                    p |= self.read(n, usize::MAX);
                }
            }
            let (np, npr) = (self.polls(), self.ctl.tr.progress());
            if p || npr != prog {
                idle = 0;
                quiet_polls = 0;
            } else {
                quiet_polls += np - polls;
                if quiet_polls > 800 {
                    if !self.spun {
                        self.ctl.ev(json!({"e":"spin"}));
                        self.spun = true;
                    }
                    break;
                }
                if self.small {
                    for c in self.clients.iter_mut().filter(|c| c.fd < 0 && c.peer.sock.is_some() && !c.peer.ended) {
                        c.fd = sys::find_fd_to(c.port, addr_port).unwrap_or(-1);
                    }
                }
                let waiting = self.small && grace > 0 && self.clients.iter().any(|c| (all || c.reads) && !c.peer.ended && c.peer.sock.is_some() && c.fd >= 0 && sys::outq(c.fd) > 0);
                if waiting {
                    grace -= 1;
                } else if np == polls {
                    idle += 1;
                }
                if idle > opts.idle_rounds {
                    break;
                }
                tokio::time::sleep(Duration::from_millis(opts.idle_ms)).await;
            }
            polls = np;
            prog = npr;
        }
        {
            // a client that has read everything knows which of its calls are over
            let w = self.ctl.w.lock().unwrap();
            for c in self.clients.iter_mut().filter(|c| (all || c.reads) && c.peer.tx_pos == c.peer.want) {
                for u in c.ids.values_mut().filter(|u| u.tainted) {
                    u.tainted = false;
                    u.busy = !w.gates.iter().any(|g| g.val == u.val && g.dropped);
                }
            }
        }
        let rd: Vec<bool> = self.clients.iter().map(|c| all || c.reads).collect();
        let wr: Vec<bool> = self.clients.iter().map(|c| c.peer.tx_pos == c.peer.want).collect();
        self.ctl.ev(json!({"e":"q","rd":rd,"wr":wr,"tasks":self.tasks() as i64 - self.tasks0 as i64}));
    }
}

pub async fn run(scen: &Value, tr: Trace, opts: &Opts) {
    sys::clear_faults();
    let cfg = &scen["cfg"];
    let kind = Kind::parse(cfg["codec"].as_str().unwrap_or("toy"));
    let mut maxq = us(&cfg["maxq"]);
    let mut maxbuf = us(&cfg["maxbuf"]);
    let sndbuf = us(&cfg["sndbuf"]);
    let crcv = us(&cfg["rcvbuf"]);
    let rsize = us(&cfg["rsize"]).max(HDR);
    let im = IdMap::parse(&cfg["idmap"]);
    let ctl = Ctl { w: Arc::new(Mutex::new(World { next_val: 1_000_000, rsize, im, ..Default::default() })), tr, kind };
    let addr = fresh_addr();
    let mut server = SocketRpcServer::new(addr, Sock { ctl: ctl.clone(), kind }).await.expect("bind");
    server.set_max_buffer_length(maxbuf);
    server.set_max_queued_outbound_messages(maxq);
    let lfd = sys::find_listener_fd(addr.port());
    if let (true, Some(fd)) = (sndbuf > 0, lfd) {
        sys::set_sndbuf(fd, sndbuf);
    }
    let server = Arc::new(Mutex::new(server));
    let task = tokio::spawn(Drive(server.clone()));
    let mut r = Run { ctl: ctl.clone(), clients: vec![], spun: false, seq: 0, mt: cfg["mt"] == true, small: sndbuf > 0, tasks0: 0, port: addr.port(), im };
    r.turn(2).await;
    r.tasks0 = r.tasks();
    ctl.ev(json!({"e":"cfg"}));
    let mut cur: HashMap<usize, ()> = HashMap::new();
    cur.clear();
    for op in scen["ops"].as_array().expect("ops") {
        let name = op[0].as_str().unwrap();
        let n = us(&op[1]);
        let has = n >= 1 && n <= r.clients.len() && r.clients[n - 1].peer.sock.is_some();
        match name {
            "dial" => {
                let k = r.clients.len() + 1;
                let minout = us(&cfg["minout"]);
                let cap = if sndbuf > 0 && crcv > 0 && minout > 0 { (4 * sndbuf + 4 * crcv) / minout + 2 } else { 1_000_000 };
                ctl.ev(json!({"e":"dial","n":k,"maxq":maxq,"cap":cap,"maxbuf":maxbuf}));
                let mut w = ctl.w.lock().unwrap();
                let s = sys::dial(addr, sys::PeerOpts { sndbuf: 0, rcvbuf: crcv, mss: us(&cfg["mss"]) }).expect("dial");
                s.set_nonblocking(true).unwrap();
                let port = s.local_addr().unwrap().port();
                w.ports.insert(port, k);
                drop(w);
                r.clients.push(Client { peer: Peer::new(s, kind), reads: op[1] == true, fd: -1, port: 0, ids: HashMap::new() });
                if op[2] != true {
                    r.turn(6).await;
                }
                r.clients[k - 1].port = port;
            }
            "reads" if n >= 1 && n <= r.clients.len() => r.clients[n - 1].reads = op[2] == true,
            "req" if has => {
                // ["req", n, id, kind, items, size]
                let kd = op[3].as_i64().unwrap();
                let items = op[4].as_i64().unwrap_or(0);
                r.seq += 1;
                let val = (r.seq * 256 + items) * 8 + kd;
                let size = us(&op[5]).max(HDR);
                let id = op[2].as_u64().unwrap();
                let unary = matches!(kd, UNARY | UNARY_NOW);
                if kd != UNKNOWN && kd != PANIC {
                    let u = r.clients[n - 1].ids.entry(id).or_insert(Use { busy: false, tainted: false, unary, val });
                    if u.busy {
                        continue; // ids of calls in progress are not reused
                    }
                    u.busy = true;
                    u.unary = unary;
                    u.val = val;
                } else if r.clients[n - 1].ids.get(&id).is_some_and(|u| u.busy) {
                    continue;
                }
                let f = peer_msg(kind, &Msg { id: im.to(id), code: 0, val, size, ok: true });
                let k = match kd {
                    UNARY | UNARY_NOW => "u",
                    STREAM | STREAM_NOW => "s",
                    _ => "x",
                };
                ctl.ev(json!({"e":"creq","n":n,"id":id,"code":0,"val":val,"k":k}));
                let p = &mut r.clients[n - 1].peer;
                p.tx.extend_from_slice(&f.bytes);
                p.want = p.tx.len();
                p.pump();
            }
            "ctl" if has => {
                // ["ctl", n, id, code]
                let id = op[2].as_u64().unwrap();
                let code = us(&op[3]) as u8;
                if let Some(u) = r.clients[n - 1].ids.get_mut(&id) {
                    if u.busy && code != 2 {
                        if u.tainted {
                            continue;
                        }
                        u.busy = false;
                        u.tainted = true;
                    }
                }
                let f = peer_msg(kind, &Msg { id: im.to(id), code, val: 0, size: HDR, ok: true });
                ctl.ev(json!({"e":"creq","n":n,"id":id,"code":code,"val":0,"k":"x"}));
                let p = &mut r.clients[n - 1].peer;
                p.tx.extend_from_slice(&f.bytes);
                p.want = p.tx.len();
                p.pump();
            }
            "bad" | "big" if has => {
                let f = if name == "bad" {
                    peer_bad(kind, us(&op[2]), 7, HDR)
                } else {
                    // a request above the limit this connection was accepted with
                    peer_msg(kind, &Msg { id: 1, code: 0, val: 2, size: us(&op[2]), ok: true })
                };
                ctl.ev(json!({"e":"cbad","n":n,"big":name == "big"}));
                let p = &mut r.clients[n - 1].peer;
                if name == "big" {
                    // the server sees the announced size before it can have the whole message
                    p.tx.extend_from_slice(&f.bytes[..HDR.min(f.bytes.len())]);
                    p.want = p.tx.len();
                    p.pump();
                    r.turn(16).await;
                    let p = &mut r.clients[n - 1].peer;
                    p.tx.extend_from_slice(&f.bytes[HDR.min(f.bytes.len())..]);
                } else {
                    p.tx.extend_from_slice(&f.bytes);
                }
                let p = &mut r.clients[n - 1].peer;
                p.want = p.tx.len();
                p.pump();
            }
            "out" | "fin" | "boom" => {
                if n >= 1 && n <= ctl.w.lock().unwrap().gates.len() {
                    let o = match name {
                        "out" => ctl.item(us(&op[2]).max(HDR)),
                        "fin" => Out::End,
                        _ => Out::Boom,
                    };
                    ctl.give(n, o);
                }
            }
            "cr" if has => {
                r.read(n, if op[2].is_null() { usize::MAX } else { us(&op[2]) });
            }
            "cfin" if has => {
                let p = &r.clients[n - 1].peer;
                if p.tx_pos == p.want {
                    // noted first: another thread may see it at once
                    ctl.ev(json!({"e":"cfin","n":n}));
                    let _ = p.sock.as_ref().unwrap().shutdown(std::net::Shutdown::Write);
                }
            }
            "crst" if has => {
                let p = &mut r.clients[n - 1].peer;
                if let Some(s) = p.sock.take() {
                    use std::os::fd::AsRawFd;
                    sys::set_linger0(s.as_raw_fd());
                    ctl.ev(json!({"e":"crst","n":n}));
                    drop(s);
                    p.want = p.tx_pos;
                }
            }
            "limits" => {
                maxbuf = us(&op[1]);
                maxq = us(&op[2]);
                let mut s = server.lock().unwrap();
                s.set_max_buffer_length(maxbuf);
                s.set_max_queued_outbound_messages(maxq);
            }
            "accfault" => {
                if let Some(fd) = lfd {
                    sys::fault_fd(fd);
                    sys::fault("accept", us(&op[1]) as u32, us(&op[2]) as i32);
                    ctl.ev(json!({"e":"accfault"}));
                }
            }
            "optfault" => {
                // the socket options of the next accepted connections cannot be set
                sys::fault_fd(-2);
                sys::fault("option", us(&op[1]) as u32, us(&op[2]) as i32);
                ctl.ev(json!({"e":"optfault"}));
            }
            "turn" => r.turn(n.max(1)).await,
            "nap" => tokio::time::sleep(std::time::Duration::from_millis(op[1].as_u64().unwrap_or(0))).await,
            "q" => r.settle(false, opts).await,
            "qd" => r.settle(true, opts).await,
            "dial_" | "reads" | "req" | "ctl" | "bad" | "big" | "cr" | "cfin" | "crst" => {}
            x => panic!("unknown op {x}"),
        }
    }
    r.settle(true, opts).await;
    if task.is_finished() {
        ctl.ev(json!({"e":"srvdone"}));
    }
    ctl.ev(json!({"e":"end_"}));
    ctl.w.lock().unwrap().closing = true;
    sys::clear_faults();
    task.abort();
}

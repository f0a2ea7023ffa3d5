//! Suite "serve": a real ProtosocketServer accepting many connections, each with a scripted peer.
//! Events on connection n are wrapped as {"e":"c","n":n,"x":event of one connection}.
use crate::anycodec::*;
use crate::codec::{Msg, HDR};
use crate::conn::Opts;
use crate::peer::Peer;
use crate::server::fresh_addr;
use crate::sys;
use crate::trace::Trace;
use protosocket::{ConnectionBindings, MessageReactor, ReactorStatus};
use protosocket_server::{ProtosocketServer, ServerConnector};
use serde_json::{json, Value};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;
use tokio::sync::mpsc;

/// the outbound queue of a connection: a server's, or one made by the prost client registry
#[derive(Clone)]
enum Tx {
    M(mpsc::Sender<Msg>),
    P(mpsc::Sender<PMsg>),
}
impl Tx {
    fn try_send(&self, m: Msg) -> bool {
        match self {
            Tx::M(t) => t.try_send(m).is_ok(),
            Tx::P(t) => t.try_send(to_p(&m)).is_ok(),
        }
    }
}
#[derive(Default)]
struct World {
    txs: Vec<Option<Tx>>,
    /// messages after which the handler of a connection disconnects (or panics)
    disc: Vec<Option<(usize, bool)>>,
    closing: bool,
}
#[derive(Clone)]
struct Ctl {
    w: Arc<Mutex<World>>,
    tr: Trace,
    readers: Arc<AtomicUsize>,
    writers: Arc<AtomicUsize>,
    kind: Kind,
}
impl Ctl {
    fn top(&self, v: Value) {
        if !self.w.lock().unwrap().closing {
            self.tr.ev(v)
        }
    }
    fn room(&self, n: usize) {
        let mut w = self.w.lock().unwrap();
        while w.txs.len() < n {
            w.txs.push(None);
            w.disc.push(None);
        }
    }
    fn ev(&self, n: usize, x: Value) {
        self.top(json!({"e":"c","n":n,"x":x}))
    }
}

struct SB;
impl ConnectionBindings for SB {
    type Deserializer = Hooked;
    type Serializer = Hooked;
    type Reactor = SR;
}
struct SR {
    ctl: Ctl,
    n: usize,
}
impl MessageReactor for SR {
    type Inbound = Msg;
    fn on_inbound_messages(&mut self, messages: impl IntoIterator<Item = Msg>) -> ReactorStatus {
        self.react(messages)
    }
}
/// the same handler on a connection of the prost client registry
struct PR(SR);
impl MessageReactor for PR {
    type Inbound = PMsg;
    fn on_inbound_messages(&mut self, messages: impl IntoIterator<Item = PMsg>) -> ReactorStatus {
        self.0.react(messages.into_iter().map(from_p))
    }
}
impl SR {
    fn react(&mut self, messages: impl IntoIterator<Item = Msg>) -> ReactorStatus {
        let mut ids: Vec<i64> = vec![];
        let mut end = None;
        for m in messages {
            ids.push(if m.ok { m.id as i64 } else { -1 });
            let mut w = self.ctl.w.lock().unwrap();
            if let Some((k, boom)) = w.disc[self.n - 1].as_mut() {
                if *k <= 1 {
                    end = Some(*boom);
                    break;
                }
                *k -= 1;
            }
        }
        if !ids.is_empty() {
            self.ctl.ev(self.n, json!({"e":"deliver","ids":ids}));
        }
        match end {
            None => ReactorStatus::Continue,
            Some(boom) => {
                self.ctl.ev(self.n, json!({"e":"disc"}));
                if boom {
                    panic!("handler failed");
                }
                ReactorStatus::Disconnect
            }
        }
    }
}
impl Drop for SR {
    fn drop(&mut self) {
        self.ctl.ev(self.n, json!({"e":"done"}));
    }
}

struct Conn(Ctl);
impl ServerConnector for Conn {
    type Bindings = SB;
    fn serializer(&self) -> Hooked {
        let mut s = Hooked::new(self.0.kind);
        let n = self.0.writers.fetch_add(1, Ordering::SeqCst) + 1;
        let ctl = self.0.clone();
        s.on_encode = Some(Box::new(move |m, len| ctl.ev(n, json!({"e":"enc","id":m.id,"n":len}))));
        s
    }
    fn deserializer(&self) -> Hooked {
        Hooked::new(self.0.kind)
    }
    fn new_reactor(&self, tx: mpsc::Sender<Msg>) -> SR {
        let n = self.0.readers.fetch_add(1, Ordering::SeqCst) + 1;
        self.0.room(n);
        self.0.w.lock().unwrap().txs[n - 1] = Some(Tx::M(tx));
        self.0.top(json!({"e":"open","n":n}));
        SR { ctl: self.0.clone(), n }
    }
}

struct Drive(Arc<Mutex<ProtosocketServer<Conn>>>);
impl Future for Drive {
    type Output = Result<(), std::io::Error>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        Pin::new(&mut *self.0.lock().unwrap()).poll(cx)
    }
}

struct Client {
    peer: Peer,
    reads: bool,
    port: u16,
    fd: i32,
}
fn us(v: &Value) -> usize {
    v.as_u64().unwrap_or(0) as usize
}
struct Run {
    ctl: Ctl,
    clients: Vec<Client>,
    small: bool,
    port: u16,
    spun: bool,
    next: u64,
    reg: bool,
}
impl Run {
    async fn turn(&self, k: usize) {
        for _ in 0..k {
            tokio::task::yield_now().await;
        }
    }
    fn polls(&self) -> u64 {
        let m = tokio::runtime::Handle::current().metrics();
        (0..m.num_workers()).map(|i| m.worker_poll_count(i)).sum()
    }
    fn pump(&mut self, n: usize) -> bool {
        let k = self.clients[n - 1].peer.pump();
        if k > 0 {
            self.ctl.ev(n, json!({"e":"pw","n":k}));
        }
        k > 0
    }
    fn read(&mut self, n: usize, max: usize) -> bool {
        let r = self.clients[n - 1].peer.read(max);
        let ids: Vec<i64> = r.msgs.iter().map(|m| if m.ok { m.id as i64 } else { -1 }).collect();
        if r.bytes > 0 {
            self.ctl.tr.tick();
        }
        if !ids.is_empty() {
            if self.reg {
                // this serializer cannot be watched: a message counts as serialized when it is read
                for id in &ids {
                    self.ctl.ev(n, json!({"e":"enc","id":id,"n":0}));
                }
            }
            self.ctl.ev(n, json!({"e":"recv","ids":ids}));
        }
        if r.garbage {
            self.ctl.ev(n, json!({"e":"garbage"}));
        }
        if r.eof || r.reset {
            let part = self.clients[n - 1].peer.rx.len();
            self.ctl.ev(n, json!({"e": if r.eof {"peof"} else {"prst"}, "part":part}));
        }
        r.bytes > 0 || r.eof || r.reset
    }
    async fn settle(&mut self, all: bool, opts: &Opts) {
        let mut idle = 0;
        let mut grace = 1500 / opts.idle_ms.max(1);
        let mut quiet = 0;
        let mut polls = self.polls();
        let mut prog = self.ctl.tr.progress();
        loop {
            self.turn(8).await;
            let mut p = false;
            for n in 1..=self.clients.len() {
                p |= self.pump(n);
                if all || self.clients[n - 1].reads {
                    p |= self.read(n, usize::MAX);
                }
            }
            let (np, npr) = (self.polls(), self.ctl.tr.progress());
            if p || npr != prog {
                idle = 0;
                quiet = 0;
            } else {
                quiet += np - polls;
                if quiet > 800 {
                    if !self.spun {
                        self.ctl.top(json!({"e":"spin"}));
                        self.spun = true;
                    }
                    break;
                }
                if self.small && !self.reg {
                    let port = self.port;
                    for c in self.clients.iter_mut().filter(|c| c.fd < 0 && c.peer.sock.is_some() && !c.peer.ended) {
                        c.fd = sys::find_fd_to(c.port, port).unwrap_or(-1);
                    }
                }
                let waiting = self.small && grace > 0 && self.clients.iter().any(|c| (all || c.reads) && !c.peer.ended && c.peer.sock.is_some() && c.fd >= 0 && sys::outq(c.fd) > 0);
                if waiting {
                    grace -= 1;
                } else if np == polls {
                    idle += 1;
                }
                if idle > opts.idle_rounds {
                    break;
                }
                tokio::time::sleep(Duration::from_millis(opts.idle_ms)).await;
            }
            polls = np;
            prog = npr;
        }
        let rd: Vec<bool> = self.clients.iter().map(|c| all || c.reads).collect();
        self.ctl.top(json!({"e":"q","rd":rd}));
    }
}

pub async fn run(scen: &Value, tr: Trace, opts: &Opts) {
    sys::clear_faults();
    let cfg = &scen["cfg"];
    let kind = Kind::parse(cfg["codec"].as_str().unwrap_or("toy"));
    let (mut maxbuf, mut maxq) = (us(&cfg["maxbuf"]), us(&cfg["maxq"]));
    let (sndbuf, rcvbuf) = (us(&cfg["sndbuf"]), us(&cfg["rcvbuf"]));
    let ctl = Ctl { w: Default::default(), tr, readers: Default::default(), writers: Default::default(), kind };
    let reg = cfg["reg"] == true;
    let mut registry = protosocket_prost::ClientRegistry::new(tokio::runtime::Handle::current());
    registry.set_max_read_buffer_length(maxbuf);
    registry.set_max_queued_outbound_messages(maxq);
    let kmsgs = if cfg["kmsgs"].is_null() { 1_000_000 } else { us(&cfg["kmsgs"]) };
    let addr = fresh_addr();
    let mut s = ProtosocketServer::new(addr, tokio::runtime::Handle::current(), Conn(ctl.clone())).await.expect("bind");
    s.set_max_buffer_length(maxbuf);
    s.set_max_queued_outbound_messages(maxq);
    let lfd = sys::find_listener_fd(addr.port());
    if let (true, Some(fd)) = (sndbuf > 0, lfd) {
        sys::set_sndbuf(fd, sndbuf);
    }
    let server = Arc::new(Mutex::new(s));
    let task = tokio::spawn(Drive(server.clone()));
    let mut r = Run { ctl: ctl.clone(), clients: vec![], small: sndbuf > 0, port: addr.port(), spun: false, next: 0, reg };
    r.turn(2).await;
    ctl.top(json!({"e":"cfg"}));
    for op in scen["ops"].as_array().expect("ops") {
        let name = op[0].as_str().unwrap();
        let n = us(&op[1]);
        let known = n >= 1 && n <= r.clients.len();
        let has = known && r.clients[n - 1].peer.sock.is_some();
        let opened = n >= 1 && n <= ctl.w.lock().unwrap().txs.len();
        match name {
            "dial" if reg => {
                let k = r.clients.len() + 1;
                ctl.top(json!({"e":"dial","n":k}));
                ctl.ev(k, json!({"e":"cfg","maxbuf":maxbuf,"maxq":maxq,"chan":2 * maxq + kmsgs,"kcap":1_000_000,"ahead":0}));
                let l = sys::listen(rcvbuf, 0, us(&cfg["mss"]));
                ctl.room(k);
                ctl.top(json!({"e":"open","n":k}));
                let tx = registry
                    .register_client::<PMsg, PMsg, PR>(l.local_addr().unwrap().to_string(), PR(SR { ctl: ctl.clone(), n: k }))
                    .await
                    .expect("register");
                let (s, _) = l.accept().expect("accept");
                ctl.w.lock().unwrap().txs[k - 1] = Some(Tx::P(tx));
                s.set_nonblocking(true).unwrap();
                s.set_nodelay(true).unwrap();
                let (lp, pp) = (s.local_addr().unwrap().port(), s.peer_addr().unwrap().port());
                let mut fd = -1;
                if sndbuf > 0 {
                    fd = sys::find_fd_to(lp, pp).unwrap_or(-1);
                    if fd >= 0 {
                        sys::set_sndbuf(fd, sndbuf);
                    }
                }
                r.clients.push(Client { peer: Peer::new(s, kind), reads: op[1] == true, port: lp, fd });
                if op[2] != true {
                    r.turn(6).await;
                }
            }
            // ["dial", reads, noturn]
            "dial" => {
                let k = r.clients.len() + 1;
                ctl.top(json!({"e":"dial","n":k}));
                ctl.ev(k, json!({"e":"cfg","maxbuf":maxbuf,"maxq":maxq,"chan":maxq,"kcap":1_000_000,"ahead":0}));
                let s = sys::dial(addr, sys::PeerOpts { sndbuf: 0, rcvbuf, mss: us(&cfg["mss"]) }).expect("dial");
                s.set_nonblocking(true).unwrap();
                let port = s.local_addr().unwrap().port();
                r.clients.push(Client { peer: Peer::new(s, kind), reads: op[1] == true, port, fd: -1 });
                if op[2] != true {
                    r.turn(6).await;
                }
            }
            "reads" if known => r.clients[n - 1].reads = op[2] == true,
            // ["msg"|"skip"|"bad", n, size, bytes to hold back | variant]
            "msg" | "skip" | "bad" if has => {
                r.next += 1;
                let id = r.next;
                let size = us(&op[2]).max(HDR);
                let toy = matches!(kind, Kind::Toy | Kind::ToyBody);
                let (f, k) = match name {
                    "skip" if toy => (peer_skip(id, size), "skip"),
                    "bad" => (peer_bad(kind, us(&op[3]), id, size), "bad"),
                    _ => (peer_msg(kind, &Msg { id, code: 0, val: 0, size, ok: true }), "msg"),
                };
                ctl.ev(n, json!({"e":"frame","k":k,"id":id,"len":f.bytes.len(),"vis":f.vis,"hint":f.hint(kind)}));
                let p = &mut r.clients[n - 1].peer;
                p.tx.extend_from_slice(&f.bytes);
                p.want = p.tx.len() - if name == "bad" { 0 } else { us(&op[3]).min(f.bytes.len()) };
                r.pump(n);
            }
            "pwall" if has => {
                let p = &mut r.clients[n - 1].peer;
                if !p.ended {
                    p.want = p.tx.len();
                }
                r.pump(n);
            }
            // ["send", n, count, size]
            "send" if opened => {
                let tx = ctl.w.lock().unwrap().txs[n - 1].clone();
                if let Some(tx) = tx {
                    for _ in 0..us(&op[2]).max(1) {
                        r.next += 1;
                        let m = Msg { id: r.next, code: 0, val: 0, size: us(&op[3]).max(HDR), ok: true };
                        let len = peer_msg(kind, &m).bytes.len();
                        let id = m.id;
                        if !tx.try_send(m) {
                            break;
                        }
                        ctl.ev(n, json!({"e":"send","ids":[id],"ns":[len]}));
                    }
                }
            }
            "droptx" if opened => {
                let t = ctl.w.lock().unwrap().txs[n - 1].take();
                if t.is_some() {
                    ctl.ev(n, json!({"e":"droptx"}));
                }
            }
            // ["disc", n, messages, panic?]
            "disc" if opened => ctl.w.lock().unwrap().disc[n - 1] = Some((us(&op[2]).max(1), op[3] == true)),
            "cr" if known => {
                r.read(n, if op[2].is_null() { usize::MAX } else { us(&op[2]) });
            }
            "cfin" if has => {
                let p = &mut r.clients[n - 1].peer;
                p.want = p.tx_pos;
                ctl.ev(n, json!({"e":"fin"}));
                let _ = p.sock.as_ref().unwrap().shutdown(std::net::Shutdown::Write);
            }
            "crst" if has => {
                use std::os::fd::AsRawFd;
                let p = &mut r.clients[n - 1].peer;
                if let Some(s) = p.sock.take() {
                    sys::set_linger0(s.as_raw_fd());
                    ctl.ev(n, json!({"e":"rst"}));
                    drop(s);
                    p.want = p.tx_pos;
                }
            }
            "limits" => {
                // what was made before has been accepted before
                r.settle(false, opts).await;
                maxbuf = us(&op[1]);
                maxq = us(&op[2]);
                registry.set_max_read_buffer_length(maxbuf);
                registry.set_max_queued_outbound_messages(maxq);
                let mut s = server.lock().unwrap();
                s.set_max_buffer_length(maxbuf);
                s.set_max_queued_outbound_messages(maxq);
            }
            "accfault" if !reg => {
                if let Some(fd) = lfd {
                    sys::fault_fd(fd);
                    sys::fault("accept", us(&op[1]) as u32, us(&op[2]) as i32);
                    ctl.top(json!({"e":"accfault"}));
                }
            }
            "optfault" if !reg => {
                sys::fault_fd(-2);
                sys::fault("option", us(&op[1]) as u32, us(&op[2]) as i32);
                ctl.top(json!({"e":"optfault"}));
            }
            "turn" => r.turn(n.max(1)).await,
            "nap" => tokio::time::sleep(std::time::Duration::from_millis(op[1].as_u64().unwrap_or(0))).await,
            "q" => r.settle(false, opts).await,
            "qd" => r.settle(true, opts).await,
            _ => {}
        }
    }
    r.settle(true, opts).await;
    if task.is_finished() {
        ctl.top(json!({"e":"srvdone"}));
    }
    ctl.top(json!({"e":"end_"}));
    ctl.w.lock().unwrap().closing = true;
    sys::clear_faults();
    task.abort();
}

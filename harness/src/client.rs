//! Suite "client": a real RpcClient and its Connection, cranked by hand, against a scripted server.
use crate::anycodec::*;
use crate::codec::{Msg, HDR};
use crate::conn::Opts;
use crate::exec::*;
use crate::peer::Peer;
use crate::sys;
use crate::trace::Trace;
use bytes::Buf;
use futures::Stream;
use protosocket::{DeserializeError, Deserializer, Serializer};
use protosocket_rpc::client::{Configuration, RpcClient};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;

thread_local! {
    static SETUP: RefCell<Option<(Kind, Trace, IdMap)>> = const { RefCell::new(None) };
}

pub struct CSer(Hooked);
impl Default for CSer {
    fn default() -> Self {
        let (k, tr, im) = SETUP.with(|s| s.borrow().clone()).expect("setup");
        let mut h = Hooked::new(k);
        h.on_encode = Some(Box::new(move |m, _| tr.ev(json!({"e":"enc","id":im.from(m.id),"code":m.code}))));
        Self(h)
    }
}
impl Serializer for CSer {
    type Message = Msg;
    fn encode(&mut self, m: Msg, b: &mut Vec<u8>) {
        self.0.encode(m, b)
    }
}
pub struct CDe(Hooked);
impl Default for CDe {
    fn default() -> Self {
        Self(Hooked::new(SETUP.with(|s| s.borrow().as_ref().map(|x| x.0)).expect("setup")))
    }
}
impl Deserializer for CDe {
    type Message = Msg;
    fn decode(&mut self, b: impl Buf) -> Result<(usize, Msg), DeserializeError> {
        self.0.decode(b)
    }
}

type Unary = Pin<Box<dyn Future<Output = protosocket_rpc::Result<Msg>>>>;
type Streaming = Pin<Box<dyn Stream<Item = protosocket_rpc::Result<Msg>>>>;

enum Comp {
    U(Unary),
    S(Streaming),
}
enum Out {
    U(protosocket_rpc::Result<Msg>),
    S(Option<protosocket_rpc::Result<Msg>>),
}
impl Future for Comp {
    type Output = Out;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Out> {
        match &mut *self {
            Comp::U(f) => f.as_mut().poll(cx).map(Out::U),
            Comp::S(s) => s.as_mut().poll_next(cx).map(Out::S),
        }
    }
}

type Sending = Pin<Box<dyn Future<Output = protosocket_rpc::Result<Comp>>>>;

enum St {
    Sending(Keep<Sending>),
    Open(Keep<Comp>),
    /// resolved; the completion may still be alive
    Over(Option<Comp>),
    Gone,
}
struct Call {
    st: St,
    held: bool,
    keep: bool,
}

/// like Manual, but the future can be taken back out (a stream yields many times)
struct Keep<F> {
    fut: F,
    flag: std::sync::Arc<Flag>,
}
impl<F: Future + Unpin> Keep<F> {
    fn new(fut: F) -> Self {
        Self { fut, flag: std::sync::Arc::new(Flag(true.into())) }
    }
    fn woken(&self) -> bool {
        self.flag.0.load(std::sync::atomic::Ordering::SeqCst)
    }
    fn poll(&mut self) -> Result<Poll<F::Output>, String> {
        self.flag.0.store(false, std::sync::atomic::Ordering::SeqCst);
        let w = std::task::Waker::from(self.flag.clone());
        let mut cx = Context::from_waker(&w);
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Pin::new(&mut self.fut).poll(&mut cx)))
            .map_err(|_| "panic".into())
    }
    fn again(&self) {
        self.flag.0.store(true, std::sync::atomic::Ordering::SeqCst);
    }
}

type ConnFut = Pin<Box<dyn Future<Output = ()>>>;

/// the connection and the server's side of the wire
struct Link {
    conn: Manual<ConnFut>,
    done: bool,
    peer: Peer,
    tr: Trace,
    next_val: i64,
    im: IdMap,
    /// answer every request the moment it is read: how many responses for a stream, 0 = unary
    auto: bool,
    mute: bool,
    unsent: std::collections::VecDeque<(usize, Value)>,
    idle_polls: u32,
    last_progress: u64,
}
impl Link {
    fn step(&mut self) -> bool {
        match self.conn.step() {
            Step::Idle => false,
            Step::Pending => {
                let p = self.tr.progress();
                if p != self.last_progress {
                    self.last_progress = p;
                    self.idle_polls = 0;
                } else {
                    self.idle_polls += 1;
                }
                true
            }
            Step::Ready(()) => {
                self.done = true;
                self.tr.ev(json!({"e":"done"}));
                true
            }
            Step::Panicked(m) => {
                self.done = true;
                self.tr.ev(json!({"e":"panic","m":m}));
                self.tr.ev(json!({"e":"done"}));
                true
            }
        }
    }
    fn pread(&mut self, max: usize) -> bool {
        let r = self.peer.read(max);
        if r.bytes > 0 {
            self.tr.tick();
        }
        for m in &r.msgs {
            self.tr.ev(json!({"e":"preq","id":self.im.from(m.id),"code":m.code,"val":m.val,"ok":m.ok}));
            if self.auto && m.code == 0 {
                self.resp(m.id, 0, HDR);
            }
        }
        if r.garbage {
            self.tr.ev(json!({"e":"preq","id":0,"code":99,"val":0,"ok":false}));
        }
        r.bytes > 0
    }
    fn resp(&mut self, id: u64, code: u8, size: usize) {
        if self.mute {
            return;
        }
        let val = self.next_val;
        self.next_val += 1;
        let f = peer_msg(self.peer.kind, &Msg { id, code, val, size, ok: true });
        self.peer.tx.extend_from_slice(&f.bytes);
        self.peer.want = self.peer.tx.len();
        self.unsent.push_back((self.peer.want, json!({"e":"presp","id":self.im.from(id),"code":code,"val":val})));
        self.pump();
    }
    fn corrupt(&mut self, bytes: &[u8], due: usize) {
        if self.mute {
            return;
        }
        let at = self.peer.tx.len() + due;
        self.peer.tx.extend_from_slice(&bytes[..due]);
        self.peer.want = self.peer.tx.len();
        self.unsent.push_back((at, json!({"e":"pbad"})));
        self.pump();
    }
    fn pump(&mut self) -> bool {
        self.peer.pump();
        let mut any = false;
        while let Some((end, _)) = self.unsent.front() {
            if *end > self.peer.tx_pos {
                break;
            }
            let (_, ev) = self.unsent.pop_front().unwrap();
            self.tr.ev(ev);
            any = true;
        }
        any
    }
}

thread_local! {
    /// what happens, synchronously, when somebody wakes the connection: a preempting scheduler
    static INLINE: RefCell<Option<std::rc::Rc<RefCell<Link>>>> = const { RefCell::new(None) };
}
pub fn inline_wake() {
    let l = INLINE.with(|i| i.borrow().clone());
    if let Some(l) = l {
        if let Ok(mut l) = l.try_borrow_mut() {
            for _ in 0..4 {
                if !l.step() {
                    break;
                }
            }
            l.pread(usize::MAX);
            // the runtime's own thread reports the response's arrival
            for _ in 0..3 {
                let t = std::time::Instant::now();
                while !l.conn.woken() && t.elapsed() < Duration::from_millis(4) {
                    std::thread::yield_now();
                }
                if !l.step() {
                    break;
                }
            }
        }
    }
}

struct Run {
    tr: Trace,
    link: std::rc::Rc<RefCell<Link>>,
    client: Option<RpcClient<Msg, Msg>>,
    clone: RpcClientOpt,
    calls: Vec<Call>,
    spun: bool,
    mt: bool,
    fd: i32,
}
type RpcClientOpt = Option<RpcClient<Msg, Msg>>;

fn us(v: &Value) -> usize {
    v.as_u64().unwrap_or(0) as usize
}

fn err_name(e: &protosocket_rpc::Error) -> &'static str {
    match e {
        protosocket_rpc::Error::IoFailure(_) => "io",
        protosocket_rpc::Error::CancelledRemotely => "cancelled",
        protosocket_rpc::Error::ConnectionIsClosed => "closed",
        protosocket_rpc::Error::Finished => "finished",
    }
}

impl Run {
    /// advance call c as far as its wakes allow
    fn step_call(&mut self, i: usize) -> bool {
        self.advance(i, usize::MAX)
    }
    fn step_once(&mut self, i: usize) -> bool {
        self.advance(i, 1)
    }
    fn advance(&mut self, i: usize, steps: usize) -> bool {
        let mut any = false;
        for _ in 0..steps {
            let c = i + 1;
            let call = &mut self.calls[i];
            match &mut call.st {
                St::Sending(k) => {
                    if !k.woken() {
                        return any;
                    }
                    any = true;
                    match k.poll() {
                        Ok(Poll::Pending) => return any,
                        Ok(Poll::Ready(Ok(comp))) => {
                            self.tr.ev(json!({"e":"issued","c":c}));
                            call.st = St::Open(Keep::new(comp));
                        }
                        Ok(Poll::Ready(Err(e))) => {
                            self.tr.ev(json!({"e":"refused","c":c,"k":err_name(&e)}));
                            call.st = St::Gone;
                        }
                        Err(_) => {
                            self.tr.ev(json!({"e":"panic"}));
                            call.st = St::Gone;
                        }
                    }
                }
                St::Open(k) => {
                    if call.held || !k.woken() {
                        return any;
                    }
                    any = true;
                    let mut over = true;
                    match k.poll() {
                        Ok(Poll::Pending) => return any,
                        Ok(Poll::Ready(Out::U(Ok(m)))) => {
                            self.tr.ev(json!({"e":"res","c":c,"val":m.val,"ok":m.ok}))
                        }
                        Ok(Poll::Ready(Out::U(Err(e)))) => {
                            self.tr.ev(json!({"e":"err","c":c,"k":err_name(&e)}))
                        }
                        Ok(Poll::Ready(Out::S(Some(Ok(m))))) => {
                            self.tr.ev(json!({"e":"item","c":c,"val":m.val,"ok":m.ok}));
                            k.again();
                            over = false;
                        }
                        Ok(Poll::Ready(Out::S(Some(Err(e))))) => {
                            self.tr.ev(json!({"e":"end","c":c,"k":err_name(&e)}));
                        }
                        Ok(Poll::Ready(Out::S(None))) => {
                            self.tr.ev(json!({"e":"end","c":c,"k":"none"}));
                        }
                        Err(_) => self.tr.ev(json!({"e":"panic"})),
                    }
                    if over {
                        let St::Open(k) = std::mem::replace(&mut call.st, St::Gone) else { unreachable!() };
                        if call.keep {
                            call.st = St::Over(Some(k.fut));
                        } else {
                            drop(k);
                        }
                    }
                }
                _ => return any,
            }
        }
        any
    }
    fn step_calls(&mut self) -> bool {
        let mut any = false;
        for i in 0..self.calls.len() {
            any |= self.step_call(i);
        }
        any
    }
    async fn turn(&self) {
        for _ in 0..3 {
            tokio::task::yield_now().await;
        }
        if self.mt {
            let t = std::time::Instant::now();
            while !self.link.borrow().conn.woken() && t.elapsed() < Duration::from_micros(300) {
                std::thread::yield_now();
            }
        }
    }
    async fn settle(&mut self, drain: bool, opts: &Opts) {
        let mut idle = 0;
        let mut grace = 1500 / opts.idle_ms.max(1);
        self.link.borrow_mut().idle_polls = 0;
        loop {
            self.turn().await;
            let mut p;
            {
                let mut l = self.link.borrow_mut();
                p = l.pump();
                p |= l.step();
                if drain {
                    p |= l.pread(usize::MAX);
                }
            }
            p |= self.step_calls();
            if self.link.borrow().idle_polls > 400 {
                if !self.spun {
                    self.tr.ev(json!({"e":"spin"}));
                    self.spun = true;
                }
                break;
            }
            if p {
                idle = 0;
            } else {
                if drain && grace > 0 && self.fd >= 0 && !self.link.borrow().done && sys::outq(self.fd) > 0 {
                    grace -= 1;
                } else {
                    idle += 1;
                }
                if idle > opts.idle_rounds {
                    break;
                }
                tokio::time::sleep(Duration::from_millis(opts.idle_ms)).await;
            }
        }
        self.tr.ev(json!({"e":"q","drained":drain}));
    }
    fn alive(&self) {
        for c in [&self.client, &self.clone].into_iter().flatten() {
            self.tr.ev(json!({"e":"alive","v":c.is_alive()}));
        }
    }
}

pub async fn run(scen: &Value, tr: Trace, opts: &Opts) {
    sys::clear_faults();
    let cfg = &scen["cfg"];
    let kind = Kind::parse(cfg["codec"].as_str().unwrap_or("toy"));
    let im = IdMap::parse(&cfg["idmap"]);
    SETUP.with(|s| *s.borrow_mut() = Some((kind, tr.clone(), im)));
    let maxq = us(&cfg["maxq"]);
    let rcvbuf = us(&cfg["rcvbuf"]);
    let l = sys::listen(rcvbuf, 0, us(&cfg["mss"]));
    let addr = l.local_addr().unwrap();
    let mut conf = Configuration::default();
    conf.max_buffer_length(us(&cfg["maxbuf"]));
    conf.max_queued_outbound_messages(maxq);
    let (client, conn) = protosocket_rpc::client::connect::<CSer, CDe>(addr, &conf).await.expect("connect");
    let (sock, _) = l.accept().expect("accept");
    drop(l);
    let mut fd0 = -1;
    if us(&cfg["sndbuf"]) > 0 {
        if let Some(fd) = sys::find_fd_to(sock.local_addr().unwrap().port(), sock.peer_addr().unwrap().port()) {
            sys::set_sndbuf(fd, us(&cfg["sndbuf"]));
            fd0 = fd;
        }
    }
    sock.set_nonblocking(true).unwrap();
    sock.set_nodelay(true).unwrap();
    tr.ev(json!({"e":"cfg","maxq":maxq,"maxbuf":us(&cfg["maxbuf"])}));
    let fut: ConnFut = Box::pin(conn);
    let link = std::rc::Rc::new(RefCell::new(Link {
        conn: Manual::new(fut),
        done: false,
        peer: Peer::new(sock, kind),
        tr: tr.clone(),
        next_val: 1000,
        im,
        auto: false,
        mute: false,
        unsent: Default::default(),
        idle_polls: 0,
        last_progress: 0,
    }));
    link.borrow_mut().conn.on_wake(inline_wake);
    let mut r = Run { tr, link, clone: if cfg["solo"] == true { None } else { Some(client.clone()) }, client: Some(client), calls: vec![], spun: false, mt: cfg["mt"] == true, fd: fd0 };
    for op in scen["ops"].as_array().expect("ops") {
        match op[0].as_str().unwrap() {
            "call" => {
                let k = op[1].as_str().unwrap();
                let id = op[2].as_u64().unwrap();
                let size = us(&op[3]).max(HDR);
                let Some(client) = r.client.clone() else { continue };
                let c = r.calls.len() + 1;
                let val = c as i64;
                let m = Msg { id: im.to(id), code: 0, val, size, ok: true };
                let n = peer_msg(kind, &m).bytes.len();
                let f: Sending = if k == "u" {
                    Box::pin(async move { client.send_unary(m).await.map(|c| Comp::U(Box::pin(c))) })
                } else {
                    Box::pin(async move { client.send_streaming(m).await.map(|c| Comp::S(Box::pin(c))) })
                };
                r.tr.ev(json!({"e":"call","c":c,"id":id,"k":k,"val":val,"n":n}));
                r.calls.push(Call { st: St::Sending(Keep::new(f)), held: false, keep: false });
                if op[4].as_str() == Some("hold") {
                    r.calls[c - 1].held = true;
                    r.tr.ev(json!({"e":"hold","c":c}));
                }
                if op[4].as_str() == Some("keep") {
                    r.calls[c - 1].keep = true;
                    r.tr.ev(json!({"e":"keep","c":c}));
                }
                r.step_call(c - 1);
            }
            "hold" | "unhold" => {
                let c = us(&op[1]);
                if c >= 1 && c <= r.calls.len() {
                    r.calls[c - 1].held = op[0] == "hold";
                    r.tr.ev(json!({"e":op[0],"c":c}));
                }
            }
            "drop" => {
                let c = us(&op[1]);
                if c >= 1 && c <= r.calls.len() && !matches!(r.calls[c - 1].st, St::Gone) {
                    r.tr.ev(json!({"e":"drop","c":c}));
                    let st = std::mem::replace(&mut r.calls[c - 1].st, St::Gone);
                    drop(st);
                }
            }
            "resp" => {
                r.link.borrow_mut().resp(im.to(op[1].as_u64().unwrap()), us(&op[2]) as u8, us(&op[3]).max(HDR));
            }
            "pr" => {
                r.link.borrow_mut().pread(if op[1].is_null() { usize::MAX } else { us(&op[1]) });
            }
            "poll" => {
                r.turn().await;
                r.link.borrow_mut().step();
            }
            "pc" => {
                let c = us(&op[1]);
                if c >= 1 && c <= r.calls.len() {
                    r.step_call(c - 1);
                }
            }
            "take" => {
                // at most so many items, as a slow consumer
                let (c, k) = (us(&op[1]), us(&op[2]));
                if c >= 1 && c <= r.calls.len() {
                    let held = std::mem::replace(&mut r.calls[c - 1].held, false);
                    for _ in 0..k {
                        if !r.step_once(c - 1) {
                            break;
                        }
                    }
                    r.calls[c - 1].held = held;
                }
            }
            "pfin" => {
                let l = r.link.borrow();
                if let Some(s) = l.peer.sock.as_ref() {
                    if s.shutdown(std::net::Shutdown::Write).is_ok() {
                        r.tr.ev(json!({"e":"pfin"}));
                    }
                }
            }
            "prst" => {
                let mut l = r.link.borrow_mut();
                if let Some(s) = l.peer.sock.take() {
                    use std::os::fd::AsRawFd;
                    sys::set_linger0(s.as_raw_fd());
                    r.tr.ev(json!({"e":"prst"}));
                    drop(s);
                }
            }
            "bad" => {
                let mut l = r.link.borrow_mut();
                let f = peer_bad(kind, us(&op[1]), 7, HDR);
                r.tr.ev(json!({"e":"pmay"}));
                let n = f.bytes.len();
                l.corrupt(&f.bytes, n);
            }
            "bigresp" => {
                // a part of a response above the limit, enough of it to tell
                let mut l = r.link.borrow_mut();
                let maxbuf = us(&cfg["maxbuf"]);
                let f = peer_msg(kind, &Msg { id: im.to(op[1].as_u64().unwrap()), code: 0, val: 1, size: maxbuf + us(&op[2]).max(12), ok: true });
                let n = (f.vis + us(&op[3])).min(f.bytes.len() - 1);
                if f.hint(kind) > maxbuf {
                    r.tr.ev(json!({"e":"pmay"}));
                    l.corrupt(&f.bytes, n);
                    // nothing may complete it
                    l.mute = true;
                }
            }
            "dropconn" => {
                let mut l = r.link.borrow_mut();
                if !l.done {
                    r.tr.ev(json!({"e":"dropconn"}));
                    l.conn.abandon();
                    l.done = true;
                    r.tr.ev(json!({"e":"done"}));
                }
            }
            "dropclient" => {
                if r.client.is_some() {
                    r.tr.ev(json!({"e":"noclient"}));
                }
                r.client = None;
                r.clone = None;
            }
            "alive" => r.alive(),
            "inline" => {
                let on = op[1].as_bool().unwrap_or(true);
                r.link.borrow_mut().auto = on;
                INLINE.with(|i| *i.borrow_mut() = if on { Some(r.link.clone()) } else { None });
            }
            "nap" => tokio::time::sleep(std::time::Duration::from_millis(op[1].as_u64().unwrap_or(0))).await,
            "q" => r.settle(false, opts).await,
            "qd" => r.settle(true, opts).await,
            x => panic!("unknown op {x}"),
        }
    }
    r.settle(true, opts).await;
    r.alive();
    r.tr.ev(json!({"e":"end_"}));
    INLINE.with(|i| *i.borrow_mut() = None);
    r.calls.clear();
    r.link.borrow_mut().conn.abandon();
}

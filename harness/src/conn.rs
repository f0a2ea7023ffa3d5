//! Suite "conn": one real Connection, cranked by hand, against a scripted peer on loopback.
use crate::anycodec::*;
use crate::codec::Msg;
use crate::exec::*;
use crate::peer::Peer;
use crate::sys;
use crate::trace::Trace;
use protosocket::{Connection, ConnectionBindings, MessageReactor, ReactorStatus};
use serde_json::{json, Value};
use std::os::fd::AsRawFd;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sync::mpsc;

pub struct B;
impl ConnectionBindings for B {
    type Deserializer = Hooked;
    type Serializer = Hooked;
    type Reactor = R;
}

#[derive(Default)]
pub struct ReactorCtl {
    /// deliver this many more messages, then ask to disconnect
    pub disconnect_after: Option<usize>,
}
pub struct R {
    pub trace: Trace,
    pub ctl: Arc<Mutex<ReactorCtl>>,
}
/// what the connection has taken from the kernel
fn received(tr: &Trace) {
    let n = sys::take_received();
    if n > 0 {
        tr.ev(json!({"e":"rd","n":n}));
    }
}
impl MessageReactor for R {
    type Inbound = Msg;
    fn on_inbound_messages(&mut self, messages: impl IntoIterator<Item = Msg>) -> ReactorStatus {
        received(&self.trace);
        let mut ids: Vec<i64> = vec![];
        let mut disc = false;
        let mut ctl = self.ctl.lock().unwrap();
        for m in messages {
            ids.push(if m.ok { m.id as i64 } else { -1 });
            if let Some(n) = ctl.disconnect_after.as_mut() {
                if *n <= 1 {
                    disc = true;
                    break;
                }
                *n -= 1;
            }
        }
        if !ids.is_empty() {
            self.trace.ev(json!({"e":"deliver","ids":ids}));
        }
        if disc {
            self.trace.ev(json!({"e":"disc"}));
            return ReactorStatus::Disconnect;
        }
        ReactorStatus::Continue
    }
}
impl Drop for R {
    fn drop(&mut self) {
        self.trace.ev(json!({"e":"rdrop"}));
    }
}

pub struct Opts {
    pub idle_ms: u64,
    pub idle_rounds: u32,
}

const SPIN_LIMIT: u32 = 400;

struct Run<'a> {
    tr: Trace,
    conn: Manual<Connection<B>>,
    peer: Peer,
    tx: Option<mpsc::Sender<Msg>>,
    ctl: Arc<Mutex<ReactorCtl>>,
    next_out: u64,
    next_in: u64,
    opts: &'a Opts,
    kind: Kind,
    spun: bool,
    last_progress: u64,
    idle_polls: u32,
    fd: i32,
    small: bool,
    /// where the framed messages end
    bounds: Vec<usize>,
}

fn us(v: &Value) -> usize {
    v.as_u64().unwrap_or(0) as usize
}

impl Run<'_> {
    fn step(&mut self) -> bool {
        let step = self.conn.step();
        received(&self.tr);
        match step {
            Step::Idle => false,
            Step::Pending => {
                let p = self.tr.progress();
                if p != self.last_progress {
                    self.last_progress = p;
                    self.idle_polls = 0;
                } else {
                    self.idle_polls += 1;
                }
                true
            }
            Step::Ready(()) => {
                self.tr.ev(json!({"e":"done"}));
                true
            }
            Step::Panicked(m) => {
                self.tr.ev(json!({"e":"panic","m":m}));
                self.tr.ev(json!({"e":"done"}));
                true
            }
        }
    }
    fn pread(&mut self, max: usize) -> bool {
        let r = self.peer.read(max);
        let ids: Vec<i64> = r.msgs.iter().map(|m| if m.ok { m.id as i64 } else { -1 }).collect();
        let mut progress = r.bytes > 0;
        if r.bytes > 0 {
            self.tr.tick();
        }
        if !ids.is_empty() {
            self.tr.ev(json!({"e":"recv","ids":ids}));
            progress = true;
        }
        if r.garbage {
            self.tr.ev(json!({"e":"garbage"}));
        }
        if r.eof || r.reset {
            // bytes of an unfinished frame at the end of the stream
            let part = self.peer.rx.len();
            self.tr.ev(json!({"e": if r.eof {"peof"} else {"prst"}, "part":part}));
            progress = true;
        }
        progress
    }
    fn pump(&mut self) -> bool {
        let n = self.peer.pump();
        if n > 0 {
            self.tr.ev(json!({"e":"pw","n":n}));
        }
        n > 0
    }
    async fn turn(&self) {
        for _ in 0..3 {
            tokio::task::yield_now().await;
        }
    }
    /// crank until nothing moves; then record quiescence
    async fn settle(&mut self, drain: bool) {
        let mut idle = 0;
        let mut grace = 1500 / self.opts.idle_ms.max(1);
        self.idle_polls = 0;
        loop {
            self.turn().await;
            let mut p = self.pump();
            p |= self.step();
            if drain {
                p |= self.pread(usize::MAX);
            }
            if self.idle_polls > SPIN_LIMIT {
                if !self.spun {
                    self.tr.ev(json!({"e":"spin"}));
                    self.spun = true;
                }
                break;
            }
            if p {
                idle = 0;
            } else {
                if drain && grace > 0 && self.small && sys::outq(self.fd) > 0 {
                    grace -= 1;
                } else {
                    idle += 1;
                }
                if idle > self.opts.idle_rounds {
                    break;
                }
                tokio::time::sleep(Duration::from_millis(self.opts.idle_ms)).await;
            }
        }
        let written = self.peer.tx_pos == self.peer.want;
        self.tr.ev(json!({"e":"q","drained":drain,"written":written}));
    }
}

pub async fn run(scen: &Value, tr: Trace, opts: &Opts) {
    sys::clear_faults();
    let cfg = &scen["cfg"];
    let kind = Kind::parse(cfg["codec"].as_str().unwrap_or("toy"));
    let maxbuf = us(&cfg["maxbuf"]);
    let maxq = us(&cfg["maxq"]);
    let chan = cfg["chan"].as_u64().unwrap_or(maxq as u64) as usize;
    let sndbuf = us(&cfg["sndbuf"]);
    let rcvbuf = us(&cfg["rcvbuf"]);
    let mss = us(&cfg["mss"]);
    let minout = us(&cfg["minout"]);
    let l = sys::listen(rcvbuf, 0, mss);
    let addr = l.local_addr().unwrap();
    let local = sys::dial(addr, sys::PeerOpts { sndbuf, rcvbuf: us(&cfg["ourrcv"]), mss }).expect("dial loopback");
    let (peer_sock, _) = l.accept().expect("accept");
    drop(l);
    peer_sock.set_nonblocking(true).unwrap();
    peer_sock.set_nodelay(true).unwrap();
    sys::fault_fd(local.as_raw_fd());
    let fd = local.as_raw_fd();
    let stream = tokio::net::TcpStream::from_std(local).unwrap();
    // messages the two sockets can hold on their way to the peer
    let kcap = if sndbuf > 0 && rcvbuf > 0 && minout > 0 {
        (4 * sndbuf + 4 * rcvbuf) / minout + 2
    } else {
        1_000_000
    };
    tr.ev(json!({"e":"cfg","maxbuf":maxbuf,"maxq":maxq,"chan":chan,"kcap":kcap,"ahead":2usize << 20}));
    let ctl = Arc::new(Mutex::new(ReactorCtl::default()));
    let mut ser = Hooked::new(kind);
    {
        let tr = tr.clone();
        ser.on_encode = Some(Box::new(move |m, n| tr.ev(json!({"e":"enc","id":m.id,"n":n}))));
    }
    let (tx, rx) = mpsc::channel(chan);
    let conn = Connection::<B>::new(
        stream,
        addr,
        Hooked::new(kind),
        ser,
        maxbuf,
        maxq,
        rx,
        R { trace: tr.clone(), ctl: ctl.clone() },
    );
    let mut r = Run {
        tr,
        conn: Manual::new(conn),
        peer: Peer::new(peer_sock, kind),
        tx: Some(tx),
        ctl,
        next_out: 1,
        next_in: 1,
        opts,
        kind,
        spun: false,
        last_progress: 0,
        idle_polls: 0,
        fd,
        small: sndbuf > 0,
        bounds: vec![],
    };
    for op in scen["ops"].as_array().expect("ops") {
        let name = op[0].as_str().unwrap();
        match name {
            "send" => {
                let (k, size) = (us(&op[1]), us(&op[2]));
                let mut ids = vec![];
                let mut full = false;
                if let Some(tx) = r.tx.as_ref() {
                    for _ in 0..k {
                        let m = Msg { id: r.next_out, code: 0, val: 0, size, ok: true };
                        let n = peer_msg(r.kind, &m).bytes.len();
                        match tx.try_send(m) {
                            Ok(()) => {
                                ids.push((r.next_out, n));
                                r.next_out += 1;
                            }
                            Err(_) => {
                                full = true;
                                break;
                            }
                        }
                    }
                }
                if !ids.is_empty() {
                    let i: Vec<u64> = ids.iter().map(|x| x.0).collect();
                    let n: Vec<usize> = ids.iter().map(|x| x.1).collect();
                    r.tr.ev(json!({"e":"send","ids":i,"ns":n}));
                }
                let _ = full;
            }
            "droptx" => {
                if r.tx.take().is_some() {
                    r.tr.ev(json!({"e":"droptx"}));
                }
            }
            "msg" | "skip" | "bad" => {
                let id = r.next_in;
                r.next_in += 1;
                let size = us(&op[1]);
                let (f, k) = match name {
                    "msg" => (peer_msg(r.kind, &Msg { id, code: 0, val: 0, size, ok: true }), "msg"),
                    "skip" if matches!(r.kind, Kind::Toy | Kind::ToyBody) => (peer_skip(id, size), "skip"),
                    "skip" => (peer_msg(r.kind, &Msg { id, code: 0, val: 0, size, ok: true }), "msg"),
                    _ => (peer_bad(r.kind, us(&op[2]), id, size), "bad"),
                };
                r.tr.ev(json!({"e":"frame","k":k,"id":id,"len":f.bytes.len(),"vis":f.vis,"hint":f.hint(r.kind)}));
                r.peer.tx.extend_from_slice(&f.bytes);
                r.bounds.push(r.peer.tx.len());
            }
            // write n bytes; a negative n means "all but the last -n of what is framed"
            "pw" => {
                let n = op[1].as_i64().unwrap();
                let all = r.peer.tx.len();
                let target = if n < 0 {
                    (all as i64 + n).max(0) as usize
                } else {
                    (r.peer.want + n as usize).min(all)
                };
                r.peer.want = r.peer.want.max(target);
                r.pump();
            }
            // write up to `off` bytes past (or before) the k-th frame boundary ahead
            "pwb" => {
                let (k, off) = (us(&op[1]).max(1), op[2].as_i64().unwrap());
                let ahead = r.bounds.iter().filter(|b| **b as i64 + off > r.peer.want as i64).nth(k - 1);
                if let Some(b) = ahead {
                    r.peer.want = ((*b as i64 + off) as usize).min(r.peer.tx.len());
                    r.pump();
                }
            }
            "pwall" => {
                r.peer.want = r.peer.tx.len();
                r.pump();
            }
            "pr" => {
                r.pread(us(&op[1]));
            }
            "fin" => {
                // an orderly end of the peer's stream; what it had not written is never sent
                r.peer.want = r.peer.tx_pos;
                if let Some(s) = r.peer.sock.as_ref() {
                    if s.shutdown(std::net::Shutdown::Write).is_ok() {
                        r.tr.ev(json!({"e":"fin"}));
                    }
                }
            }
            "rst" => {
                if let Some(s) = r.peer.sock.take() {
                    sys::set_linger0(s.as_raw_fd());
                    r.tr.ev(json!({"e":"rst"}));
                    drop(s);
                }
            }
            "disc" => {
                r.ctl.lock().unwrap().disconnect_after = Some(us(&op[1]).max(1));
            }
            "eintr" => {
                sys::fault(op[1].as_str().unwrap(), us(&op[2]) as u32, libc::EINTR);
            }
            "ioerr" => {
                r.tr.ev(json!({"e":"ioerr"}));
                sys::fault(op[1].as_str().unwrap(), 1, libc::EIO);
            }
            "poll" => {
                r.turn().await;
                r.step();
            }
            "nap" => tokio::time::sleep(std::time::Duration::from_millis(op[1].as_u64().unwrap_or(0))).await,
            "q" => r.settle(false).await,
            "qd" => r.settle(true).await,
            _ => panic!("unknown op {name}"),
        }
    }
    r.settle(true).await;
    r.tr.ev(json!({"e":"end"}));
    // anything the code does while being torn down is not part of the history
    r.conn.abandon();
    sys::clear_faults();
}

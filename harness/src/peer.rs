//! The scripted peer: a raw non-blocking socket with a byte queue to write and a frame parser.
use crate::anycodec::*;
use crate::codec::Msg;
use std::io::{Read, Write};
use std::net::TcpStream;

#[derive(Default)]
pub struct PeerIn {
    pub msgs: Vec<Msg>,
    pub garbage: bool,
    pub eof: bool,
    pub reset: bool,
    pub bytes: usize,
}

pub struct Peer {
    pub sock: Option<TcpStream>,
    pub kind: Kind,
    /// framed bytes not yet written
    pub tx: Vec<u8>,
    pub tx_pos: usize,
    /// how many of them the script has asked to write
    pub want: usize,
    pub rx: Vec<u8>,
    pub ended: bool,
    pub garbage: bool,
}

impl Peer {
    pub fn new(sock: TcpStream, kind: Kind) -> Self {
        Self { sock: Some(sock), kind, tx: vec![], tx_pos: 0, want: 0, rx: vec![], ended: false, garbage: false }
    }
    pub fn unwritten(&self) -> usize {
        self.tx.len() - self.tx_pos
    }
    /// write what the script asked for, as far as the socket takes it
    pub fn pump(&mut self) -> usize {
        let mut n = 0;
        while self.tx_pos < self.want {
            let Some(s) = self.sock.as_mut() else { break };
            match s.write(&self.tx[self.tx_pos..self.want]) {
                Ok(0) => break,
                Ok(k) => {
                    self.tx_pos += k;
                    n += k;
                }
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                Err(_) => {
                    // the other side is gone: nothing more can be written
                    self.want = self.tx_pos;
                    break;
                }
            }
        }
        n
    }
    /// read at most `max` bytes and parse complete frames
    pub fn read(&mut self, max: usize) -> PeerIn {
        let mut out = PeerIn::default();
        let mut left = max;
        let mut buf = vec![0u8; 65536.min(max.max(1))];
        while left > 0 && !self.ended {
            let Some(s) = self.sock.as_mut() else { break };
            let k = buf.len().min(left);
            match s.read(&mut buf[..k]) {
                Ok(0) => {
                    out.eof = true;
                    self.ended = true;
                }
                Ok(n) => {
                    self.rx.extend_from_slice(&buf[..n]);
                    out.bytes += n;
                    left -= n;
                }
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                Err(_) => {
                    out.reset = true;
                    self.ended = true;
                }
            }
        }
        let mut at = 0;
        while !self.garbage && at < self.rx.len() {
            match peer_parse(self.kind, &self.rx[at..]) {
                PeerParse::Need => break,
                PeerParse::Got(n, m) => {
                    at += n;
                    out.msgs.push(m);
                }
                PeerParse::Garbage => {
                    self.garbage = true;
                    out.garbage = true;
                }
            }
        }
        self.rx.drain(..at);
        out
    }
}

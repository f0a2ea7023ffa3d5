//! One Msg type over three codecs: the driver's own toy codec and the two shipped ones.
//! The scripted peer builds and parses shipped-codec frames independently of the repository.
use crate::codec::*;
use bytes::Buf;
use prost::Message as _;
use protosocket::{DeserializeError, Deserializer, Serializer};

#[derive(Clone, PartialEq, prost::Message)]
pub struct PMsg {
    #[prost(uint64, tag = "1")]
    pub id: u64,
    #[prost(uint32, tag = "2")]
    pub code: u32,
    #[prost(sint64, tag = "3")]
    pub val: i64,
    #[prost(bytes = "vec", tag = "4")]
    pub payload: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct RMsg {
    pub id: u64,
    pub code: u32,
    pub val: i64,
    pub payload: Vec<u8>,
}

/// How the scenario's small ids look on the wire: whatever 64 bits a caller may choose.
#[derive(Clone, Copy, Debug, Default)]
pub struct IdMap(u64);
impl IdMap {
    pub fn parse(v: &serde_json::Value) -> Self {
        Self(v.as_u64().unwrap_or(0))
    }
    pub fn to(self, id: u64) -> u64 {
        match self.0 {
            1 => (id << 32) | 7,
            2 => u64::MAX - id,
            3 => id << 53,
            4 => id.wrapping_sub(1),
            _ => id,
        }
    }
    pub fn from(self, wire: u64) -> u64 {
        let id = match self.0 {
            1 => wire >> 32,
            2 => u64::MAX - wire,
            3 => wire >> 53,
            4 => wire.wrapping_add(1),
            _ => wire,
        };
        if self.to(id) == wire && id < 1_000_000 {
            id
        } else {
            999_999_999
        }
    }
}

pub fn payload(id: u64, val: i64, n: usize) -> Vec<u8> {
    (0..n).map(|i| pat(id, val, i)).collect()
}
pub fn payload_ok(id: u64, val: i64, p: &[u8]) -> bool {
    p.iter().enumerate().all(|(i, x)| *x == pat(id, val, i))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Toy,
    ToyBody,
    Prost,
    Msgpack,
}
impl Kind {
    pub fn parse(s: &str) -> Kind {
        match s {
            "toy" => Kind::Toy,
            "toybody" => Kind::ToyBody,
            "prost" => Kind::Prost,
            "msgpack" => Kind::Msgpack,
            _ => panic!("codec {s}"),
        }
    }
}

pub enum AnyCodec {
    Toy(ToyCodec),
    Prost(protosocket_prost::ProstSerializer<PMsg, PMsg>),
    Msgpack(
        protosocket_messagepack::ProtosocketMessagePackSerializer<RMsg>,
        protosocket_messagepack::ProtosocketMessagePackDeserializer<RMsg>,
    ),
}

pub struct Hooked {
    pub codec: AnyCodec,
    pub on_encode: Option<Box<dyn FnMut(&Msg, usize) + Send>>,
}

impl Hooked {
    pub fn new(k: Kind) -> Self {
        let codec = match k {
            Kind::Toy => AnyCodec::Toy(ToyCodec::default()),
            Kind::ToyBody => AnyCodec::Toy(ToyCodec { on_encode: None, hint: Hint::Body }),
            Kind::Prost => AnyCodec::Prost(Default::default()),
            Kind::Msgpack => AnyCodec::Msgpack(Default::default(), Default::default()),
        };
        Self { codec, on_encode: None }
    }
}

pub fn to_p(m: &Msg) -> PMsg {
    PMsg { id: m.id, code: m.code as u32, val: m.val, payload: payload(m.id, m.val, payload_len(Kind::Prost, m)) }
}
pub fn from_p(m: PMsg) -> Msg {
    let ok = payload_ok(m.id, m.val, &m.payload);
    Msg { id: m.id, code: m.code as u8, val: m.val, size: m.payload.len(), ok }
}
pub fn to_r(m: &Msg) -> RMsg {
    RMsg { id: m.id, code: m.code as u32, val: m.val, payload: payload(m.id, m.val, payload_len(Kind::Msgpack, m)) }
}
pub fn from_r(m: RMsg) -> Msg {
    let ok = payload_ok(m.id, m.val, &m.payload);
    Msg { id: m.id, code: m.code as u8, val: m.val, size: m.payload.len(), ok }
}

/// Payload length that brings the frame as close as possible to (and not above) `m.size`.
fn payload_len(k: Kind, m: &Msg) -> usize {
    match k {
        Kind::Prost => {
            let mut n = m.size.saturating_sub(4);
            loop {
                let total = plen(m, n);
                if total <= m.size || n == 0 {
                    return n;
                }
                n -= (total - m.size).min(n);
            }
        }
        Kind::Msgpack => {
            // payload serialises as an array of integers: 1 or 2 bytes per element
            let mut n = 0;
            let mut total = 5 + 1 + ilen(m.id) + 1 + silen(m.val);
            loop {
                let b = if pat(m.id, m.val, n) >= 128 { 2 } else { 1 };
                let h = if n + 1 < 16 { 1 } else if n + 1 < 65536 { 3 } else { 5 };
                if total + b + h > m.size {
                    return n;
                }
                total += b;
                n += 1;
            }
        }
        _ => unreachable!(),
    }
}
fn ilen(v: u64) -> usize {
    if v < 128 { 1 } else if v < 256 { 2 } else if v < 65536 { 3 } else if v < 1 << 32 { 5 } else { 9 }
}
fn silen(v: i64) -> usize {
    if v >= 0 { ilen(v as u64) } else if v >= -32 { 1 } else { 9 }
}
fn plen(m: &Msg, n: usize) -> usize {
    let body = PMsg { id: m.id, code: m.code as u32, val: m.val, payload: vec![] }.encoded_len()
        + if n > 0 { 1 + prost::length_delimiter_len(n) + n } else { 0 };
    body + prost::length_delimiter_len(body)
}

impl Serializer for Hooked {
    type Message = Msg;
    fn encode(&mut self, m: Msg, buffer: &mut Vec<u8>) {
        crate::jitter::pause();
        let before = buffer.len();
        match &mut self.codec {
            AnyCodec::Toy(c) => c.encode(m.clone(), buffer),
            AnyCodec::Prost(c) => c.encode(to_p(&m), buffer),
            AnyCodec::Msgpack(s, _) => s.encode(to_r(&m), buffer),
        }
        let n = buffer.len() - before;
        if let Some(f) = self.on_encode.as_mut() {
            f(&m, n)
        }
    }
}
impl Deserializer for Hooked {
    type Message = Msg;
    fn decode(&mut self, buffer: impl Buf) -> Result<(usize, Msg), DeserializeError> {
        crate::jitter::pause();
        match &mut self.codec {
            AnyCodec::Toy(c) => c.decode(buffer),
            AnyCodec::Prost(c) => c.decode(buffer).map(|(n, m)| (n, from_p(m))),
            AnyCodec::Msgpack(_, d) => d.decode(buffer).map(|(n, m)| (n, from_r(m))),
        }
    }
}

/// A frame as the scripted peer writes it. `vis`: how many of its bytes must have arrived for the
/// decoder to know what it is (its size, or that it is invalid).
pub struct Frame {
    pub bytes: Vec<u8>,
    pub vis: usize,
}
impl Frame {
    /// the least size a decoder may announce for this frame (some leave out the prefix)
    pub fn hint(&self, k: Kind) -> usize {
        match k {
            Kind::Toy => self.bytes.len(),
            Kind::ToyBody | Kind::Msgpack => self.bytes.len().max(5) - 5,
            Kind::Prost => self.bytes.len() - self.vis.min(self.bytes.len()),
        }
    }
}

pub fn peer_msg(k: Kind, m: &Msg) -> Frame {
    match k {
        Kind::Toy | Kind::ToyBody => Frame { bytes: toy_frame(K_MSG, m.id, m.code, m.val, m.size), vis: HDR },
        Kind::Prost => {
            let p = to_p(m);
            let bytes = p.encode_length_delimited_to_vec();
            Frame { vis: bytes.len() - p.encoded_len(), bytes }
        }
        Kind::Msgpack => {
            let body = rmp_serde::to_vec(&to_r(m)).unwrap();
            let mut bytes = vec![0xce];
            bytes.extend_from_slice(&(body.len() as u32).to_be_bytes());
            bytes.extend_from_slice(&body);
            Frame { bytes, vis: 5 }
        }
    }
}
pub fn peer_skip(id: u64, size: usize) -> Frame {
    Frame { bytes: toy_frame(K_SKIP, id, 0, 0, size), vis: 5 }
}
/// Malformed frames; `variant` picks one of the ways a frame can be broken.
pub fn peer_bad(k: Kind, variant: usize, id: u64, size: usize) -> Frame {
    match k {
        Kind::Toy | Kind::ToyBody => match variant % 2 {
            0 => Frame { bytes: toy_frame(K_BAD, id, 0, 0, size), vis: HDR },
            _ => {
                let mut b = toy_frame(K_MSG, id, 0, 0, size);
                b[0] = 0x77;
                Frame { bytes: b, vis: 1 }
            }
        },
        Kind::Prost => match variant % 4 {
            // an endless varint: can never become a length
            0 => Frame { bytes: vec![0xff; 12], vis: 10 },
            // the largest length there is
            1 => Frame { bytes: vec![0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01, 0, 0], vis: 10 },
            // a body that is not a message (field number 0)
            2 => Frame { bytes: vec![3, 0, 0, 0], vis: 4 },
            // a body whose embedded length overruns the frame, followed by plausible bytes
            _ => Frame { bytes: vec![4, 0x22, 0x40, 1, 2, 1, 1, 1, 1], vis: 5 },
        },
        Kind::Msgpack => match variant % 5 {
            // not a u32 marker
            0 => Frame { bytes: vec![0xc1; 12], vis: 5 },
            // the largest length there is
            1 => Frame { bytes: vec![0xce, 0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0], vis: 5 },
            2 => Frame { bytes: vec![0xce, 0xff, 0xff, 0xff, 0xfe, 0, 0, 0, 0], vis: 5 },
            // a body that is not a message
            3 => Frame { bytes: vec![0xce, 0, 0, 0, 2, 0xc1, 0xc1], vis: 7 },
            // a body shorter than the message it holds: the message overruns its frame
            _ => {
                let body = rmp_serde::to_vec(&RMsg { id, code: 0, val: 7, payload: vec![1, 2, 3, 4] }).unwrap();
                let cut = body.len() - 2;
                let mut bytes = vec![0xce];
                bytes.extend_from_slice(&(cut as u32).to_be_bytes());
                bytes.extend_from_slice(&body);
                Frame { bytes, vis: 5 + cut }
            }
        },
    }
}

pub enum PeerParse {
    Need,
    Got(usize, Msg),
    Garbage,
}
pub fn peer_parse(k: Kind, b: &[u8]) -> PeerParse {
    match k {
        Kind::Toy | Kind::ToyBody => match toy_parse(b) {
            Toy::Need(_) => PeerParse::Need,
            Toy::Garbage => PeerParse::Garbage,
            Toy::Frame { kind: K_MSG, total, msg } => PeerParse::Got(total, msg),
            Toy::Frame { .. } => PeerParse::Garbage,
        },
        Kind::Prost => {
            let mut c = b;
            match prost::decode_length_delimiter(&mut c) {
                Ok(n) => {
                    if c.len() < n {
                        return if n > 1 << 30 { PeerParse::Garbage } else { PeerParse::Need };
                    }
                    let used = b.len() - c.len() + n;
                    match PMsg::decode(&c[..n]) {
                        Ok(m) => PeerParse::Got(used, from_p(m)),
                        Err(_) => PeerParse::Garbage,
                    }
                }
                Err(_) if b.len() < 10 => PeerParse::Need,
                Err(_) => PeerParse::Garbage,
            }
        }
        Kind::Msgpack => {
            if b.is_empty() {
                return PeerParse::Need;
            }
            if b[0] != 0xce {
                return PeerParse::Garbage;
            }
            if b.len() < 5 {
                return PeerParse::Need;
            }
            let n = u32::from_be_bytes(b[1..5].try_into().unwrap()) as usize;
            if n > 1 << 30 {
                return PeerParse::Garbage;
            }
            if b.len() < 5 + n {
                return PeerParse::Need;
            }
            match rmp_serde::from_slice::<RMsg>(&b[5..5 + n]) {
                Ok(m) => PeerParse::Got(5 + n, from_r(m)),
                Err(_) => PeerParse::Garbage,
            }
        }
    }
}

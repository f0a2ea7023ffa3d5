//! Message type and codecs used by the drivers.
//!
//! Toy frame: kind(1) | total length incl. header (4, BE) | id (8, BE) | control code (1) | value (8, BE)
//! | payload. The payload is a function of (id, value, offset), so any corruption,
//! truncation or interleaving is visible.
use bytes::Buf;
use protosocket::{DeserializeError, Deserializer, Serializer};
use protosocket_rpc::{Message, ProtosocketControlCode};

pub const HDR: usize = 22;
pub const K_MSG: u8 = 0;
pub const K_SKIP: u8 = 1;
pub const K_BAD: u8 = 2;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Msg {
    pub id: u64,
    pub code: u8,
    pub val: i64,
    /// total frame length (toy codec) or payload length (others)
    pub size: usize,
    /// content verified against the pattern
    pub ok: bool,
}

pub fn pat(id: u64, val: i64, i: usize) -> u8 {
    let x = (id.wrapping_mul(0x9E37_79B9_7F4A_7C15))
        ^ ((val as u64).wrapping_mul(0xD1B5_4A32_D192_ED03))
        ^ ((i as u64).wrapping_mul(0x2545_F491_4F6C_DD1D));
    (x >> 29) as u8
}

pub fn toy_frame(kind: u8, id: u64, code: u8, val: i64, total: usize) -> Vec<u8> {
    let total = total.max(HDR);
    let mut v = Vec::with_capacity(total);
    v.push(kind);
    v.extend_from_slice(&(total as u32).to_be_bytes());
    v.extend_from_slice(&id.to_be_bytes());
    v.push(code);
    v.extend_from_slice(&val.to_be_bytes());
    for i in 0..(total - HDR) {
        v.push(pat(id, val, i));
    }
    v
}

pub enum Toy {
    Need(usize),
    Frame { kind: u8, total: usize, msg: Msg },
    Garbage,
}

/// Parse one toy frame from the front of `b`.
pub fn toy_parse(b: &[u8]) -> Toy {
    if !b.is_empty() && b[0] > K_BAD {
        return Toy::Garbage;
    }
    if b.len() < HDR {
        return Toy::Need(HDR);
    }
    let kind = b[0];
    let total = u32::from_be_bytes(b[1..5].try_into().unwrap()) as usize;
    if total < HDR {
        return Toy::Garbage;
    }
    let id = u64::from_be_bytes(b[5..13].try_into().unwrap());
    let code = b[13];
    let val = i64::from_be_bytes(b[14..22].try_into().unwrap());
    if kind == K_BAD {
        return Toy::Frame {
            kind,
            total,
            msg: Msg { id, code, val, size: total, ok: true },
        };
    }
    if b.len() < total {
        return Toy::Need(total);
    }
    let ok = b[HDR..total].iter().enumerate().all(|(i, x)| *x == pat(id, val, i));
    Toy::Frame {
        kind,
        total,
        msg: Msg { id, code, val, size: total, ok },
    }
}

impl Message for Msg {
    fn message_id(&self) -> u64 {
        crate::jitter::pause();
        self.id
    }
    fn control_code(&self) -> ProtosocketControlCode {
        crate::jitter::pause();
        ProtosocketControlCode::from_u8(self.code)
    }
    fn set_message_id(&mut self, message_id: u64) {
        self.id = message_id;
    }
    fn cancelled(message_id: u64) -> Self {
        Msg {
            id: message_id,
            code: ProtosocketControlCode::Cancel.as_u8(),
            val: 0,
            size: HDR,
            ok: true,
        }
    }
    fn ended(message_id: u64) -> Self {
        Msg {
            id: message_id,
            code: ProtosocketControlCode::End.as_u8(),
            val: 0,
            size: HDR,
            ok: true,
        }
    }
}

/// How the decoder reports what it still needs.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Hint {
    /// the whole frame's size
    Total,
    /// the size after the length prefix, as length-delimited codecs tend to report
    Body,
}

pub struct ToyCodec {
    pub on_encode: Option<Box<dyn FnMut(&Msg, usize) + Send>>,
    pub hint: Hint,
}
impl Default for ToyCodec {
    fn default() -> Self {
        Self { on_encode: None, hint: Hint::Total }
    }
}
impl Serializer for ToyCodec {
    type Message = Msg;
    fn encode(&mut self, m: Msg, buffer: &mut Vec<u8>) {
        let before = buffer.len();
        buffer.extend_from_slice(&toy_frame(K_MSG, m.id, m.code, m.val, m.size));
        let n = buffer.len() - before;
        if let Some(f) = self.on_encode.as_mut() {
            f(&m, n);
        }
    }
}
impl Deserializer for ToyCodec {
    type Message = Msg;
    fn decode(&mut self, buffer: impl Buf) -> Result<(usize, Msg), DeserializeError> {
        let b = buffer.chunk();
        if b.len() >= 5 && b[0] == K_SKIP {
            // skip as soon as the length is known
            let total = u32::from_be_bytes(b[1..5].try_into().unwrap()) as usize;
            return Err(DeserializeError::SkipMessage { distance: total });
        }
        match toy_parse(b) {
            Toy::Need(n) => Err(DeserializeError::IncompleteBuffer {
                next_message_size: match self.hint {
                    Hint::Total => n,
                    Hint::Body => n.max(HDR) - 5,
                },
            }),
            Toy::Garbage => Err(DeserializeError::InvalidBuffer),
            Toy::Frame { kind: K_BAD, .. } => Err(DeserializeError::InvalidBuffer),
            Toy::Frame { total, msg, .. } => Ok((total, msg)),
        }
    }
}

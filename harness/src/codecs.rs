//! Suite "codec": the shipped codecs called directly, with arbitrarily growing prefixes.
//!
//! What a frame is, and whether it is valid, is decided here without the repository's code.
use crate::anycodec::{payload, PMsg, RMsg};
use crate::trace::Trace;
use prost::Message as _;
use protosocket::{DeserializeError, Deserializer, Serializer};
use serde::Deserialize;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, PartialEq, prost::Message)]
pub struct PDeep {
    #[prost(string, tag = "1")]
    pub name: String,
    #[prost(message, optional, tag = "2")]
    pub inner: Option<Box<PDeep>>,
    #[prost(sint64, repeated, tag = "3")]
    pub nums: Vec<i64>,
    #[prost(message, repeated, tag = "20")]
    pub many: Vec<PMsg>,
    #[prost(double, optional, tag = "5")]
    pub f: Option<f64>,
}
#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum RDeep {
    Unit,
    Text(String),
    Pair(i64, Option<bool>),
    Rec { id: u64, inner: Option<Box<RDeep>>, bytes: Vec<u8> },
}

fn us(v: &Value) -> usize {
    v.as_u64().unwrap_or(0) as usize
}

fn mk_p(id: u64, code: u64, val: i64, n: usize) -> PMsg {
    PMsg { id, code: code as u32, val, payload: payload(id, val, n) }
}
fn mk_pd(id: u64, code: u64, val: i64, n: usize) -> PDeep {
    match code % 4 {
        0 => PDeep::default(),
        1 => PDeep { name: "x".repeat(n), nums: (0..(n % 50) as i64).map(|i| val.wrapping_mul(i)).collect(), ..Default::default() },
        2 => PDeep { inner: Some(Box::new(mk_pd(id, code / 4 + 1, val, n))), f: Some(val as f64), ..Default::default() },
        _ => PDeep { many: (0..=(n % 7) as u64).map(|k| mk_p(id + k, k, val, n / 7)).collect(), ..Default::default() },
    }
}
fn mk_r(id: u64, code: u64, val: i64, n: usize) -> RMsg {
    RMsg { id, code: code as u32, val, payload: payload(id, val, n) }
}
fn mk_rd(id: u64, code: u64, val: i64, n: usize) -> RDeep {
    match code % 4 {
        0 => RDeep::Unit,
        1 => RDeep::Text("y".repeat(n)),
        2 => RDeep::Pair(val, [None, Some(true), Some(false)][(id % 3) as usize]),
        _ => RDeep::Rec { id, inner: if code > 4 { Some(Box::new(mk_rd(id, code / 4, val, n))) } else { None }, bytes: payload(id, val, n) },
    }
}

/// what the bytes from `b` on are, in truth
#[derive(Debug)]
struct Truth<M> {
    /// declared length of the whole frame (as far as it can be known)
    len: usize,
    /// bytes after which a decoder must know that this is no frame
    vis: usize,
    what: What<M>,
}
#[derive(Debug)]
enum What<M> {
    Msg(M),
    Bad,
    /// there are not enough bytes to say
    Open,
    /// the declared length holds a message and then some: either answer will do
    Odd(M),
}

fn varint(b: &[u8]) -> Result<Option<(u64, usize)>, usize> {
    let mut v: u64 = 0;
    for (i, x) in b.iter().enumerate().take(10) {
        if i == 9 && *x > 1 {
            return Err(10);
        }
        v |= ((*x & 0x7f) as u64) << (7 * i);
        if *x < 0x80 {
            return Ok(Some((v, i + 1)));
        }
    }
    if b.len() >= 10 {
        Err(10)
    } else {
        Ok(None)
    }
}
fn truth_prost<M: prost::Message + Default>(b: &[u8]) -> Truth<M> {
    const FAR: usize = 1 << 40;
    match varint(b) {
        Err(vis) => Truth { len: FAR, vis, what: What::Bad },
        Ok(None) => Truth { len: FAR, vis: FAR, what: What::Open },
        Ok(Some((l, h))) => {
            let len = (l.min(FAR as u64) as usize) + h;
            if b.len() < len {
                return Truth { len, vis: FAR, what: What::Open };
            }
            match M::decode(&b[h..len]) {
                Ok(m) => Truth { len, vis: len, what: What::Msg(m) },
                Err(_) => Truth { len, vis: len, what: What::Bad },
            }
        }
    }
}
fn truth_rmp<M: serde::de::DeserializeOwned>(b: &[u8]) -> Truth<M> {
    const FAR: usize = 1 << 40;
    if !b.is_empty() && b[0] != 0xce {
        return Truth { len: FAR, vis: 5, what: What::Bad };
    }
    if b.len() < 5 {
        return Truth { len: FAR, vis: FAR, what: What::Open };
    }
    let l = u32::from_be_bytes(b[1..5].try_into().unwrap()) as usize;
    let len = l + 5;
    if b.len() < len {
        return Truth { len, vis: FAR, what: What::Open };
    }
    let mut cur = std::io::Cursor::new(&b[5..len]);
    let mut d = rmp_serde::Deserializer::new(&mut cur);
    match M::deserialize(&mut d) {
        Ok(m) => {
            let what = if cur.position() as usize == l { What::Msg(m) } else { What::Odd(m) };
            Truth { len, vis: len, what }
        }
        Err(_) => Truth { len, vis: len, what: What::Bad },
    }
}

/// ["enc", code, val, n]  encode a message and append the encoding
/// ["raw", [bytes]]       append arbitrary bytes
/// ["cut", k]             take k bytes off the end of the stream again
/// ["more", k]            k more bytes become visible, then decode once
/// ["upto", k, off]       everything up to off bytes into the k-th frame becomes visible; decode all that can be
/// ["all", k]             everything becomes visible; decode until nothing more comes, at most k times
pub fn run<M, S, D>(scen: &Value, tr: Trace, mk: impl Fn(u64, u64, i64, usize) -> M, truth: impl Fn(&[u8]) -> Truth<M>, mut ser: S, mut de: D)
where
    M: Clone + PartialEq + std::fmt::Debug,
    S: Serializer<Message = M>,
    D: Deserializer<Message = M>,
{
    let mut stream: Vec<u8> = vec![];
    let ops = scen["ops"].as_array().expect("ops");
    // the recycled buffer of a connection
    let mut spare: Vec<u8> = vec![];
    let mut id = 0;
    for op in ops {
        match op[0].as_str().unwrap() {
            "enc" => {
                id += 1;
                let m = mk(id, op[1].as_u64().unwrap_or(0), op[2].as_i64().unwrap_or(0), us(&op[3]));
                let mut buf = std::mem::take(&mut spare);
                buf.clear();
                let r = catch_unwind(AssertUnwindSafe(|| ser.encode(m.clone(), &mut buf)));
                if r.is_err() {
                    tr.ev(json!({"e":"panic"}));
                    return;
                }
                let t = truth(&buf);
                let ok = matches!(&t.what, What::Msg(x) if *x == m) && t.len == buf.len();
                tr.ev(json!({"e":"enc","id":id,"ok":ok}));
                if !ok {
                    return;
                }
                stream.extend_from_slice(&buf);
                spare = buf;
            }
            "raw" => stream.extend(op[1].as_array().unwrap().iter().map(|x| us(x) as u8)),
            "cut" => stream.truncate(stream.len().saturating_sub(us(&op[1]))),
            _ => {}
        }
    }
    // the stream in truth, frame by frame; the last one may be broken or cut short
    let raw = ops.iter().any(|o| o[0] == "raw");
    let mut at = 0;
    let mut frames: Vec<(usize, Option<M>)> = vec![];
    while at < stream.len() {
        let t = truth(&stream[at..]);
        let (k, m, go) = match t.what {
            What::Msg(m) => ("msg", Some(m), true),
            What::Odd(m) => ("odd", Some(m), true),
            What::Bad => ("bad", None, false),
            What::Open if raw => ("doubt", None, false),
            What::Open => ("open", None, false),
        };
        tr.ev(json!({"e":"frame","k":k,"id":frames.len() + 1,"len":t.len.min(1 << 30),"vis":t.vis.min(1 << 30)}));
        frames.push((at, m));
        if !go {
            break;
        }
        at += t.len;
    }
    let (mut pos, mut vis) = (0usize, 0usize);
    let mut dead = false;
    let mut decode = |pos: &mut usize, vis: usize, dead: &mut bool| -> bool {
        if *dead {
            return false;
        }
        let r = catch_unwind(AssertUnwindSafe(|| de.decode(&stream[*pos..vis])));
        match r {
            Err(_) => {
                tr.ev(json!({"e":"panic"}));
                *dead = true;
                false
            }
            Ok(Ok((n, m))) => {
                let id = frames.iter().position(|(s, t)| *s == *pos && t.as_ref() == Some(&m)).map(|i| i as i64 + 1).unwrap_or(-1);
                tr.ev(json!({"e":"dec","r":"msg","n":n,"id":id,"vis":vis}));
                if n == 0 || n > vis - *pos {
                    *dead = true;
                    return false;
                }
                *pos += n;
                true
            }
            Ok(Err(DeserializeError::IncompleteBuffer { .. })) => {
                tr.ev(json!({"e":"dec","r":"need","n":0,"id":0,"vis":vis}));
                false
            }
            Ok(Err(DeserializeError::InvalidBuffer)) => {
                tr.ev(json!({"e":"dec","r":"bad","n":0,"id":0,"vis":vis}));
                *dead = true;
                false
            }
            Ok(Err(DeserializeError::SkipMessage { distance })) => {
                tr.ev(json!({"e":"dec","r":"skip","n":distance,"id":0,"vis":vis}));
                *dead = true;
                false
            }
        }
    };
    for op in ops {
        match op[0].as_str().unwrap() {
            "more" => {
                vis = (vis + us(&op[1])).min(stream.len());
                if pos < vis {
                    decode(&mut pos, vis, &mut dead);
                }
            }
            // up to `off` bytes from the start of the k-th frame become visible, then decode all that can be
            "upto" => {
                if let Some((s, _)) = frames.get(us(&op[1])) {
                    vis = vis.max((*s as i64 + op[2].as_i64().unwrap_or(0)).max(0) as usize).min(stream.len());
                    while pos < vis && decode(&mut pos, vis, &mut dead) {}
                }
            }
            "all" => {
                vis = stream.len();
                let mut n = us(&op[1]);
                while pos < vis && n > 0 && decode(&mut pos, vis, &mut dead) {
                    n -= 1;
                }
            }
            _ => {}
        }
    }
    vis = stream.len();
    while pos < vis && decode(&mut pos, vis, &mut dead) {}
    tr.ev(json!({"e":"end_"}));
}

pub fn dispatch(s: &Value, tr: Trace) {
    use protosocket_messagepack::{ProtosocketMessagePackDeserializer as MD, ProtosocketMessagePackSerializer as MS};
    use protosocket_prost::ProstSerializer as PS;
    match s["cfg"]["codec"].as_str().unwrap() {
        "prost" => run(s, tr, mk_p, truth_prost, PS::<PMsg, PMsg>::default(), PS::<PMsg, PMsg>::default()),
        "prostdeep" => run(s, tr, mk_pd, truth_prost, PS::<PDeep, PDeep>::default(), PS::<PDeep, PDeep>::default()),
        "msgpack" => run(s, tr, mk_r, truth_rmp, MS::<RMsg>::default(), MD::<RMsg>::default()),
        "msgpackdeep" => run(s, tr, mk_rd, truth_rmp, MS::<RDeep>::default(), MD::<RDeep>::default()),
        x => panic!("codec {x}"),
    }
}

//! Concrete searches over the codec: properties P01..P11.
use crate::oracle::{self as o, Expect, Head, Vbi};
use crate::rng::Rng;
use crate::tree;
use crate::{Found, Search};
use bytes::BytesMut;
use ruq::verif_hooks as h;
use ruq::{Property, QoS};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn show(b: &[u8]) -> String {
    if b.len() > 96 {
        format!("{}… ({} bytes)", hex(&b[..96]), b.len())
    } else {
        hex(b)
    }
}

fn guard<X>(what: &str, f: impl FnOnce() -> X) -> Result<X, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        format!("{} panicked: {}", what, m)
    })
}

// ---------------------------------------------------------------- decoding

const SUPPORTED: &[u8] = &[2, 3, 4, 9, 11, 13, 14];

/// How much of the expectation to hold the decoder to.
#[derive(Clone, Copy, PartialEq)]
pub enum Judge {
    /// no panic
    Alive,
    /// right packet boundaries, whatever the packets are
    Frames,
    /// the right packets
    Full,
}

pub struct Got {
    pub texts: Vec<String>,
    pub err: Option<String>,
    /// bytes consumed by accepted packets
    pub used: usize,
}

/// Feeds `chunks` to the decoder the way a buffered reader does.
pub fn stream(chunks: &[&[u8]], j: Judge) -> Result<Got, String> {
    let mut buf = BytesMut::new();
    let mut got = Got { texts: vec![], err: None, used: 0 };
    for c in chunks {
        buf.extend_from_slice(c);
        loop {
            let before = buf.to_vec();
            let r = guard("decoding", || h::decode(&mut buf)).map_err(|e| format!("{} on {}", e, show(&before)))?;
            let r = match r {
                Ok(r) => r,
                Err(e) => {
                    got.err = Some(format!("{:?}", e));
                    if j != Judge::Alive {
                        judge_err(&before, j, got.err.as_ref().unwrap())?;
                    }
                    return Ok(got);
                }
            };
            if j == Judge::Alive {
                if r.is_none() || buf.len() >= before.len() {
                    break;
                }
                got.texts.extend(r);
                continue;
            }
            match r {
                None => {
                    match o::head(&before) {
                        Head::Need => {}
                        Head::Bad if before.len() < 6 => {}
                        Head::Bad => return Err(format!("a length field of more than four bytes is not refused: {}", show(&before))),
                        Head::Whole(n) => return Err(format!("the packet of {} bytes that is there is not decoded: {}", n, show(&before))),
                    }
                    if buf.to_vec() != before {
                        return Err(format!("bytes of an unfinished packet are lost: {} became {}", show(&before), show(&buf)));
                    }
                    break;
                }
                Some(text) => {
                    let n = match o::head(&before) {
                        Head::Whole(n) => n,
                        _ => return Err(format!("a packet comes out of bytes that hold none: {} gave {}", show(&before), text)),
                    };
                    if buf[..] != before[n..] {
                        return Err(format!("a packet of {} bytes used up {} bytes of {}", n, before.len() as i64 - buf.len() as i64, show(&before)));
                    }
                    if j == Judge::Full {
                        match o::packet(&before[..n]) {
                            Expect::MustErr => return Err(format!("a malformed packet is accepted: {} gave {}", show(&before[..n]), text)),
                            Expect::Must(t) | Expect::Either(t) => {
                                if let Some(g) = tree::parse(&text) {
                                    if !tree::same(&t, &g) {
                                        return Err(format!("{} decoded as {}, expected {:?}", show(&before[..n]), text, t));
                                    }
                                }
                            }
                                        }
                    }
                    got.used += n;
                    got.texts.push(text);
                }
            }
        }
    }
    Ok(got)
}

fn judge_err(b: &[u8], j: Judge, e: &str) -> Result<(), String> {
    match o::head(b) {
        Head::Bad => Ok(()),
        Head::Need => {
            if b.is_empty() || SUPPORTED.contains(&(b[0] >> 4)) && !(b[0] >> 4 != 3 && b[0] & 15 != 0) && b[0] & 0xf6 != 0x36 {
                Err(format!("an unfinished packet is refused: {}: {}", show(b), e))
            } else {
                Ok(())
            }
        }
        Head::Whole(n) => match o::packet(&b[..n]) {
            Expect::Must(t) if j == Judge::Full => Err(format!("a well-formed packet is refused: {}: {}, expected {:?}", show(&b[..n]), e, t)),
            Expect::Must(_) if b.len() > n => {
                // well-formed on its own, refused with more behind it
                let mut alone = BytesMut::from(&b[..n]);
                match guard("decoding", || h::decode(&mut alone))? {
                    Ok(Some(_)) => Err(format!("a packet is refused because of the bytes behind it: {}: {}", show(b), e)),
                    _ => Ok(()),
                }
            }
            _ => Ok(()),
        },
    }
}

// ---------------------------------------------------------------- packets the other side may send

const LENS: &[usize] = &[0, 0, 1, 1, 2, 3, 5, 7, 20, 64];

fn text(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut s = String::new();
    while s.len() < n {
        let c = match r.below(8) {
            0 => 'é',
            1 => '→',
            2 => '𝄞',
            _ => (b'!' + r.below(90) as u8) as char,
        };
        if s.len() + c.len_utf8() <= n {
            s.push(c);
        } else {
            s.push((b'a' + r.below(26) as u8) as char);
        }
    }
    s.into_bytes()
}

fn size(r: &mut Rng) -> usize {
    match r.below(40) {
        0 => *r.pick(&[127, 128, 129, 255, 256, 257]),
        1 => *r.pick(&[16383, 16384, 65535, 300, 1000]),
        _ => *r.pick(LENS),
    }
}

fn props(r: &mut Rng, publish: bool, force: Option<u8>) -> (Vec<u8>, bool) {
    let mut b = vec![];
    let mut txt = false;
    let n = *r.pick(&[0, 0, 0, 1, 1, 2, 3, 4]);
    let mut seen: Vec<u8> = vec![];
    let ids: &[u8] = if publish { &[0x01, 0x02, 0x08, 0x09, 0x26, 0x26] } else { &[0x1f, 0x26, 0x26] };
    for k in 0..n.max(force.is_some() as usize) {
        let id = match force {
            Some(f) if k == 0 => f,
            _ => *r.pick(ids),
        };
        if id != 0x26 && seen.contains(&id) {
            continue;
        }
        seen.push(id);
        b.push(id);
        match id {
            0x01 => {
                let v = r.below(2) as u8;
                txt |= v == 1;
                b.push(v)
            }
            0x02 => b.extend((*r.pick(&[0u32, 1, 7, 255, 256, 65535, 65536, 0x01020304, u32::MAX])).to_be_bytes()),
            0x09 => {
                let n = size(r);
                let v: Vec<u8> = (0..n).map(|_| r.byte()).collect();
                b.extend(o::str_enc(&v))
            }
            0x26 => {
                let (p, q) = (size(r), size(r));
                b.extend(o::str_enc(&text(r, p)));
                b.extend(o::str_enc(&text(r, q)));
            }
            _ => {
                let p = size(r);
                b.extend(o::str_enc(&text(r, p)))
            }
        }
    }
    let mut out = o::vbi_enc(b.len());
    out.extend(b);
    (out, txt)
}

fn pid(r: &mut Rng) -> [u8; 2] {
    (*r.pick(&[1u16, 2, 7, 255, 256, 257, 0x0100, 0x7fff, 0x8000, 0xff00, 65534, 65535])).to_be_bytes()
}

pub fn gen_publish(r: &mut Rng, force: Option<u8>) -> Vec<u8> {
    let qos = r.below(3) as u8;
    let dup = if qos > 0 { r.below(2) as u8 } else { 0 };
    let first = 0x30 | dup << 3 | qos << 1 | r.below(2) as u8;
    let n = size(r).max(1);
    let mut b = o::str_enc(&text(r, n));
    if qos > 0 {
        b.extend(pid(r));
    }
    let (p, txt) = props(r, true, force);
    b.extend(p);
    let n = size(r);
    if txt {
        b.extend(text(r, n));
    } else {
        b.extend((0..n).map(|_| r.byte()));
    }
    o::frame(first, &b)
}

fn code(r: &mut Rng, t: &[(u8, &str)]) -> u8 {
    r.pick(t).0
}

pub fn gen_ack(r: &mut Rng) -> Vec<u8> {
    let mut b = pid(r).to_vec();
    match r.below(3) {
        0 => {
            if r.chance(5, 6) {
                b.push(code(r, o::PUBACK));
                if r.chance(4, 5) {
                    b.extend(props(r, false, None).0);
                }
            }
            o::frame(0x40, &b)
        }
        k => {
            b.extend(props(r, false, None).0);
            b.push(code(r, if k == 1 { o::SUBACK } else { o::UNSUBACK }));
            o::frame(if k == 1 { 0x90 } else { 0xb0 }, &b)
        }
    }
}

pub fn gen_ctl(r: &mut Rng) -> Vec<u8> {
    match r.below(5) {
        0 => vec![0xd0, 0],
        1 | 2 => {
            let mut b = vec![r.below(2) as u8, code(r, o::CONNACK)];
            b.extend(props(r, false, None).0);
            o::frame(0x20, &b)
        }
        _ => {
            let mut b = vec![];
            if r.chance(7, 8) {
                b.push(code(r, o::DISCONNECT));
                let p = props(r, false, None).0;
                if p.len() > 2 {
                    b.extend(p);
                }
            }
            o::frame(0xe0, &b)
        }
    }
}

fn gen_any(r: &mut Rng) -> Vec<u8> {
    match r.below(3) {
        0 => gen_publish(r, None),
        1 => gen_ack(r),
        _ => gen_ctl(r),
    }
}

/// A damaged copy: one or a few local changes, with the frame length usually made to fit again.
pub fn mutate(r: &mut Rng, p: &[u8]) -> Vec<u8> {
    let body_at = match o::head(p) {
        Head::Whole(_) => match o::vbi_dec(&p[1..]) {
            Vbi::Ok(_, n) => 1 + n,
            _ => 1,
        },
        _ => 1.min(p.len()),
    };
    let mut first = p[0];
    let mut b = p[body_at..].to_vec();
    for _ in 0..1 + r.below(2) {
        match r.below(8) {
            0 => {
                let n = r.below(b.len() + 1);
                b.truncate(n)
            }
            1 if !b.is_empty() => {
                let i = r.below(b.len());
                b[i] = r.byte()
            }
            2 if !b.is_empty() => {
                let i = r.below(b.len().min(12));
                b[i] = *r.pick(&[0u8, 1, 2, 3, 0x7f, 0x80, 0xff, 0x26, 0x1f, 0x11])
            }
            3 if !b.is_empty() => {
                let i = r.below(b.len());
                b.remove(i);
            }
            4 => {
                let i = r.below(b.len() + 1);
                let v = *r.pick(&[0u8, 1, 0x26, 0x80, 0xff]);
                b.insert(i, v)
            }
            5 => first ^= 1 << r.below(4),
            6 if !b.is_empty() => {
                let i = r.below(b.len());
                b[i] = b[i].wrapping_add(*r.pick(&[1u8, 255]))
            }
            7 => {
                let k = 1 + r.below(3);
                for _ in 0..k {
                    b.push(r.byte())
                }
            }
            _ => {}
        }
    }
    if r.chance(1, 12) {
        let mut v = p.to_vec();
        let n = r.below(v.len() + 1);
        v.truncate(n);
        return v;
    }
    o::frame(first, &b)
}

// ---------------------------------------------------------------- packets this client sends

#[derive(Clone, Debug)]
pub enum Data {
    Raw(Vec<u8>),
    Rep(u8, usize),
}
impl Data {
    pub fn get(&self) -> Vec<u8> {
        match self {
            Data::Raw(v) => v.clone(),
            Data::Rep(b, n) => vec![*b; *n],
        }
    }
    fn show(&self) -> String {
        match self {
            Data::Raw(v) => format!("x{}", hex(v)),
            Data::Rep(b, n) => format!("r{}*{}", b, n),
        }
    }
    fn read(s: &str) -> Data {
        if let Some(h) = s.strip_prefix('x') {
            Data::Raw(unhex(h))
        } else {
            let (b, n) = s[1..].split_once('*').unwrap();
            Data::Rep(b.parse().unwrap(), n.parse().unwrap())
        }
    }
    fn string(&self) -> String {
        String::from_utf8(self.get()).unwrap()
    }
}

#[derive(Clone, Debug)]
pub enum Prop {
    Format(u8),
    Expiry(u32),
    Resp(Data),
    Corr(Data),
    User(Data, Data),
}

#[derive(Clone, Debug)]
pub enum Spec {
    Connect(Data, u16),
    Publish { topic: Data, payload: Data, text: bool, retain: bool, qos: u8, id: u16, props: Vec<Prop> },
    Puback(u16),
    Ping,
    Subscribe(Data, u16, u8),
    Unsubscribe(Vec<Data>, u16),
    Disconnect,
}

pub fn qos(n: u8) -> QoS {
    match n {
        0 => QoS::AtMostOnce,
        1 => QoS::AtLeastOnce,
        _ => QoS::ExactlyOnce,
    }
}

impl Prop {
    pub fn real(&self) -> Property {
        match self {
            Prop::Format(v) => Property::PayloadFormatId(*v),
            Prop::Expiry(v) => Property::MessageExpiryInterval(*v),
            Prop::Resp(s) => Property::ResponseTopic(s.string()),
            Prop::Corr(s) => Property::CorrelationData(s.get()),
            Prop::User(k, v) => Property::UserProperty(k.string(), v.string()),
        }
    }
    fn bytes(&self) -> Vec<u8> {
        let mut b = vec![];
        match self {
            Prop::Format(v) => b.extend([1, *v]),
            Prop::Expiry(v) => {
                b.push(2);
                b.extend(v.to_be_bytes())
            }
            Prop::Resp(s) => {
                b.push(8);
                b.extend(o::str_enc(&s.get()))
            }
            Prop::Corr(s) => {
                b.push(9);
                b.extend(o::str_enc(&s.get()))
            }
            Prop::User(k, v) => {
                b.push(0x26);
                b.extend(o::str_enc(&k.get()));
                b.extend(o::str_enc(&v.get()))
            }
        }
        b
    }
    pub fn show(&self) -> String {
        match self {
            Prop::Format(v) => format!("f:{}", v),
            Prop::Expiry(v) => format!("e:{}", v),
            Prop::Resp(s) => format!("t:{}", s.show()),
            Prop::Corr(s) => format!("c:{}", s.show()),
            Prop::User(k, v) => format!("u:{}:{}", k.show(), v.show()),
        }
    }
    pub fn read(s: &str) -> Prop {
        let f: Vec<&str> = s.split(':').collect();
        match f[0] {
            "f" => Prop::Format(f[1].parse().unwrap()),
            "e" => Prop::Expiry(f[1].parse().unwrap()),
            "t" => Prop::Resp(Data::read(f[1])),
            "c" => Prop::Corr(Data::read(f[1])),
            _ => Prop::User(Data::read(f[1]), Data::read(f[2])),
        }
    }
}

impl Spec {
    pub fn real(&self) -> h::Out {
        match self {
            Spec::Connect(c, k) => h::Out::Connect { client_id: c.string(), keep_alive: *k },
            Spec::Publish { topic, payload, text, retain, qos: q, id, props } => h::Out::Publish {
                topic: topic.string(),
                payload: if *text { Ok(payload.string()) } else { Err(payload.get()) },
                retain: *retain,
                properties: props.iter().map(|p| p.real()).collect(),
                qos: qos(*q),
                pktid: *id,
            },
            Spec::Puback(i) => h::Out::Puback { pktid: *i },
            Spec::Ping => h::Out::PingReq,
            Spec::Subscribe(t, i, q) => h::Out::Subscribe { topic: t.string(), pktid: *i, qos: qos(*q) },
            Spec::Unsubscribe(ts, i) => h::Out::Unsubscribe { topics: ts.iter().map(|t| t.string()).collect(), pktid: *i },
            Spec::Disconnect => h::Out::Disconnect,
        }
    }
    /// The body the standard asks for, and whether its forms are open (then only their meaning counts).
    fn wire(&self) -> (u8, Vec<u8>) {
        match self {
            Spec::Connect(c, k) => {
                let mut b = vec![0, 4, b'M', b'Q', b'T', b'T', 5, 2];
                b.extend(k.to_be_bytes());
                b.push(0);
                b.extend(o::str_enc(&c.get()));
                (0x10, b)
            }
            Spec::Publish { topic, payload, retain, qos, id, props, .. } => {
                let mut b = o::str_enc(&topic.get());
                if *qos > 0 {
                    b.extend(id.to_be_bytes());
                }
                let p: Vec<u8> = props.iter().flat_map(|p| p.bytes()).collect();
                b.extend(o::vbi_enc(p.len()));
                b.extend(p);
                b.extend(payload.get());
                (0x30 | qos << 1 | *retain as u8, b)
            }
            Spec::Puback(i) => {
                let mut b = i.to_be_bytes().to_vec();
                b.extend([0, 0]);
                (0x40, b)
            }
            Spec::Ping => (0xc0, vec![]),
            Spec::Subscribe(t, i, q) => {
                let mut b = i.to_be_bytes().to_vec();
                b.push(0);
                b.extend(o::str_enc(&t.get()));
                b.push(*q);
                (0x82, b)
            }
            Spec::Unsubscribe(ts, i) => {
                let mut b = i.to_be_bytes().to_vec();
                b.push(0);
                for t in ts {
                    b.extend(o::str_enc(&t.get()));
                }
                (0xa2, b)
            }
            Spec::Disconnect => (0xe0, vec![0, 0]),
        }
    }
    /// Other byte strings with the same meaning.
    fn accepts(&self, got: &[u8]) -> bool {
        let (first, body) = self.wire();
        if got == &o::frame(first, &body)[..] {
            return true;
        }
        match self {
            // success with no properties may be left out
            Spec::Puback(i) => got == &o::frame(0x40, &i.to_be_bytes())[..] || got == &o::frame(0x40, &[&i.to_be_bytes()[..], &[0]].concat())[..],
            Spec::Disconnect => got == [0xe0, 0] || got == [0xe0, 1, 0],
            _ => false,
        }
    }
    pub fn show(&self) -> String {
        match self {
            Spec::Connect(c, k) => format!("connect {} {}", c.show(), k),
            Spec::Publish { topic, payload, text, retain, qos, id, props } => format!(
                "publish {} {} {} {} {} {} {}", topic.show(), payload.show(), *text as u8, *retain as u8, qos, id,
                props.iter().map(|p| p.show()).collect::<Vec<_>>().join(",")
            ).trim_end().to_string(),
            Spec::Puback(i) => format!("puback {}", i),
            Spec::Ping => "ping".into(),
            Spec::Subscribe(t, i, q) => format!("subscribe {} {} {}", t.show(), i, q),
            Spec::Unsubscribe(ts, i) => format!("unsubscribe {} {}", i, ts.iter().map(|t| t.show()).collect::<Vec<_>>().join(" ")),
            Spec::Disconnect => "disconnect".into(),
        }
    }
    pub fn read(f: &[&str]) -> Spec {
        match f[0] {
            "connect" => Spec::Connect(Data::read(f[1]), f[2].parse().unwrap()),
            "publish" => Spec::Publish {
                topic: Data::read(f[1]),
                payload: Data::read(f[2]),
                text: f[3] == "1",
                retain: f[4] == "1",
                qos: f[5].parse().unwrap(),
                id: f[6].parse().unwrap(),
                props: f.get(7).map_or(vec![], |s| s.split(',').map(Prop::read).collect()),
            },
            "puback" => Spec::Puback(f[1].parse().unwrap()),
            "ping" => Spec::Ping,
            "subscribe" => Spec::Subscribe(Data::read(f[1]), f[2].parse().unwrap(), f[3].parse().unwrap()),
            "unsubscribe" => Spec::Unsubscribe(f[2..].iter().map(|t| Data::read(t)).collect(), f[1].parse().unwrap()),
            _ => Spec::Disconnect,
        }
    }
}

fn encode(s: &Spec, prefix: &[u8]) -> Result<Result<Vec<u8>, String>, String> {
    let mut dst = BytesMut::from(prefix);
    let r = guard("encoding", || h::encode(s.real(), &mut dst))?;
    if dst.len() < prefix.len() || dst[..prefix.len()] != *prefix {
        return Err("encoding changed bytes already waiting to be sent".into());
    }
    match r {
        Ok(()) => Ok(Ok(dst[prefix.len()..].to_vec())),
        Err(e) => {
            if dst.len() != prefix.len() {
                return Err(format!("a refused packet left {} bytes to be sent", dst.len() - prefix.len()));
            }
            Ok(Err(e.to_string()))
        }
    }
}

fn check_encode(s: &Spec) -> Result<(), String> {
    let (first, body) = s.wire();
    let r = encode(s, &[0xaa, 0x55])?;
    match r {
        Ok(b) => {
            if body.len() > o::MAX {
                return Err(format!("a packet with a body of {} bytes is sent, the protocol allows {}", body.len(), o::MAX));
            }
            if !s.accepts(&b) {
                let want = o::frame(first, &body);
                let at = want.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(want.len().min(b.len()));
                return Err(format!(
                    "encoded as {} ({} bytes), the standard says {} ({} bytes), first difference at {}",
                    show(&b), b.len(), show(&want), want.len(), at
                ));
            }
            Ok(())
        }
        Err(e) => {
            if body.len() > o::MAX {
                Ok(())
            } else {
                Err(format!("a packet with a body of {} bytes is refused: {}", body.len(), e))
            }
        }
    }
}

/// What is encoded decodes to the same message.
fn check_round(s: &Spec) -> Result<(), String> {
    let b = match encode(s, &[])? {
        Ok(b) => b,
        Err(_) => return Ok(()),
    };
    if let Spec::Publish { topic, payload, text, retain, qos, id, props } = s {
        use tree::{leaf, rec, tup, T};
        let fmt = props.iter().any(|p| matches!(p, Prop::Format(1)));
        let pay = payload.get();
        let want = tup("Publish", vec![rec("", vec![
            ("topic", T::Str(topic.string())),
            ("payload", if fmt {
                match String::from_utf8(pay) {
                    Ok(s) => tup("String", vec![T::Str(s)]),
                    Err(_) => return Ok(()),
                }
            } else {
                tup("Bytes", vec![tree::bytes(&pay)])
            }),
            ("properties", T::List(props.iter().map(|p| match p {
                Prop::Format(v) => tup("PayloadFormatId", vec![leaf(*v)]),
                Prop::Expiry(v) => tup("MessageExpiryInterval", vec![leaf(*v)]),
                Prop::Resp(s) => tup("ResponseTopic", vec![T::Str(s.string())]),
                Prop::Corr(s) => tup("CorrelationData", vec![tree::bytes(&s.get())]),
                Prop::User(k, v) => tup("UserProperty", vec![T::Str(k.string()), T::Str(v.string())]),
            }).collect())),
            ("flags", rec("", vec![("dup", leaf(false)), ("qos", T::Code(o::QOS, *qos)), ("retain", leaf(*retain))])),
            ("pktid", if *qos == 0 { leaf("None") } else { tup("Some", vec![leaf(*id)]) }),
        ])]);
        let _ = text;
        let n = b.len();
        let mut buf = BytesMut::from(&b[..]);
        buf.extend_from_slice(&[0xd0, 0]);
        match guard("decoding", || h::decode(&mut buf))? {
            Ok(Some(t)) => {
                if buf.len() != 2 {
                    return Err(format!("decoding the packet of {} bytes back left {} bytes, not the 2 behind it", n, buf.len()));
                }
                if let Some(g) = tree::parse(&t) {
                    if !tree::same(&want, &g) {
                        return Err(format!("the packet {} comes back as {}", show(&b), t));
                    }
                }
                Ok(())
            }
            r => Err(format!("the packet {} does not decode: {:?}", show(&b), r)),
        }
    } else {
        Ok(())
    }
}

fn gen_data(r: &mut Rng) -> Data {
    let n = size(r);
    Data::Raw(text(r, n))
}

fn gen_props(r: &mut Rng) -> Vec<Prop> {
    let n = *r.pick(&[0, 0, 1, 1, 2, 3, 5]);
    let mut v: Vec<Prop> = vec![];
    for _ in 0..n {
        let p = match r.below(6) {
            0 => Prop::Format(r.below(2) as u8),
            1 => Prop::Expiry(*r.pick(&[0u32, 1, 255, 256, 65536, 0x01020304, u32::MAX])),
            2 => Prop::Resp(gen_data(r)),
            3 => {
                let n = size(r);
                Prop::Corr(Data::Raw((0..n).map(|_| r.byte()).collect()))
            }
            _ => Prop::User(gen_data(r), gen_data(r)),
        };
        if matches!(p, Prop::User(..)) || !v.iter().any(|q| std::mem::discriminant(q) == std::mem::discriminant(&p)) {
            v.push(p);
        }
    }
    v
}

fn id16(r: &mut Rng) -> u16 {
    u16::from_be_bytes(pid(r))
}

pub fn gen_publish_spec(r: &mut Rng) -> Spec {
    let props = gen_props(r);
    let is_text = props.iter().any(|p| matches!(p, Prop::Format(1)));
    let n = size(r);
    let text_payload = is_text || r.chance(1, 3);
    let payload = if text_payload { text(r, n) } else { (0..n).map(|_| r.byte()).collect() };
    Spec::Publish {
        topic: gen_data(r),
        payload: Data::Raw(payload),
        text: text_payload,
        retain: r.chance(1, 2),
        qos: r.below(3) as u8,
        id: id16(r),
        props,
    }
}

fn gen_other_spec(r: &mut Rng) -> Spec {
    match r.below(8) {
        0 => Spec::Connect(gen_data(r), *r.pick(&[0, 1, 8, 60, 255, 256, 65535])),
        1 => Spec::Puback(id16(r)),
        2 => Spec::Ping,
        3 | 4 => Spec::Subscribe(gen_data(r), id16(r), r.below(3) as u8),
        5 | 6 => {
            let n = *r.pick(&[1, 1, 2, 3, 6]);
            Spec::Unsubscribe((0..n).map(|_| gen_data(r)).collect(), id16(r))
        }
        _ => Spec::Disconnect,
    }
}

// ---------------------------------------------------------------- cases

#[derive(Clone, Debug)]
pub enum Case {
    VbiEnc(u32),
    VbiDec(Vec<u8>),
    Chunks(Vec<Vec<u8>>, u8),
    Encode(Spec),
    Round(Spec),
}

impl Case {
    pub fn show(&self) -> String {
        match self {
            Case::VbiEnc(n) => format!("vbi-enc {}", n),
            Case::VbiDec(b) => format!("vbi-dec x{}", hex(b)),
            Case::Chunks(c, j) => format!("decode {} {}", j, c.iter().map(|b| format!("x{}", hex(b))).collect::<Vec<_>>().join(" ")),
            Case::Encode(s) => format!("encode {}", s.show()),
            Case::Round(s) => format!("round {}", s.show()),
        }
    }
    pub fn read(s: &str) -> Option<Case> {
        let f: Vec<&str> = s.split_whitespace().collect();
        Some(match f[0] {
            "vbi-enc" => Case::VbiEnc(f[1].parse().ok()?),
            "vbi-dec" => Case::VbiDec(unhex(&f[1][1..])),
            "decode" => Case::Chunks(f[2..].iter().map(|x| unhex(&x[1..])).collect(), f[1].parse().ok()?),
            "encode" => Case::Encode(Spec::read(&f[1..])),
            "round" => Case::Round(Spec::read(&f[1..])),
            _ => return None,
        })
    }
    pub fn run(&self) -> Result<(), String> {
        match self {
            Case::VbiEnc(n) => {
                let g = guard("encoding a length", || h::vbi_encode(*n))?;
                let w = o::vbi_enc(*n as usize);
                if g != w {
                    return Err(format!("{} encoded as {}, the standard says {}", n, hex(&g), hex(&w)));
                }
                Ok(())
            }
            Case::VbiDec(b) => {
                let g = guard("decoding a length", || h::vbi_decode(b))?;
                let ok = match (o::vbi_dec(b), &g) {
                    (Vbi::Need, Ok(None)) => true,
                    (Vbi::Bad, Err(_)) => true,
                    (Vbi::Bad, Ok(None)) => b.len() == 4,
                    (Vbi::Ok(v, n), Ok(Some((a, k)))) => *a as usize == v && *k == n,
                    _ => false,
                };
                if ok { Ok(()) } else { Err(format!("{} read as {:?}, the standard says {:?}", hex(b), g, o::vbi_dec(b))) }
            }
            Case::Chunks(c, j) => {
                let j = [Judge::Alive, Judge::Frames, Judge::Full][*j as usize];
                let parts: Vec<&[u8]> = c.iter().map(|x| &x[..]).collect();
                let a = stream(&parts, j)?;
                if j == Judge::Frames {
                    let all = c.concat();
                    let b = stream(&[&all], j)?;
                    if a.texts != b.texts || (a.err.is_some() != b.err.is_some()) || a.used != b.used {
                        return Err(format!(
                            "in pieces: {:?}{}, in one go: {:?}{}", a.texts, a.err.map_or(String::new(), |e| format!(" then error {}", e)),
                            b.texts, b.err.map_or(String::new(), |e| format!(" then error {}", e))
                        ));
                    }
                }
                Ok(())
            }
            Case::Encode(s) => check_encode(s),
            Case::Round(s) => check_round(s),
        }
    }
    /// Smaller cases worth trying when this one fails.
    fn smaller(&self) -> Vec<Case> {
        match self {
            Case::Chunks(c, j) => {
                let mut v = vec![];
                let all = c.concat();
                if c.len() > 1 {
                    v.push(Case::Chunks(vec![all.clone()], *j));
                    for i in 0..c.len().min(12) {
                        let mut d = c.clone();
                        d.remove(i);
                        v.push(Case::Chunks(d, *j));
                    }
                }
                v
            }
            _ => vec![],
        }
    }
}

impl Search {
    /// true: go on
    pub fn try_case(&mut self, c: Case) -> bool {
        self.note(&c.show());
        let seen = |c: &Case| crate::session::under_watch(100, || c.show(), || c.run());
        if let Err(e) = seen(&c) {
            let (mut c, mut e) = (c, e);
            'again: for _ in 0..200 {
                for d in c.smaller() {
                    if let Err(f) = seen(&d) {
                        c = d;
                        e = f;
                        continue 'again;
                    }
                }
                break;
            }
            self.found = Some(Found { case: c.show(), what: e });
            return false;
        }
        true
    }
}

fn bodies_for(first: u8, code: u8) -> Vec<Vec<u8>> {
    match first >> 4 {
        2 => vec![vec![0, code, 0], vec![1, code, 0], vec![1, code, 5, 0x1f, 0, 2, b'n', b'o']],
        4 => vec![vec![1, 2, code], vec![1, 2, code, 0], vec![1, 2, code, 5, 0x1f, 0, 2, b'n', b'o']],
        9 | 11 => vec![vec![1, 2, 0, code], vec![1, 2, 7, 0x26, 0, 1, b'k', 0, 1, b'v', code]],
        14 => vec![vec![code], vec![code, 4, 0x1f, 0, 1, b'x']],
        _ => vec![],
    }
}

fn split(r: &mut Rng, all: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut i = 0;
    let style = r.below(4);
    while i < all.len() {
        let n = match style {
            0 => 1,
            1 => 1 + r.below(3),
            2 => 1 + r.below(40),
            _ => 1 + r.below(all.len()),
        };
        let n = n.min(all.len() - i);
        out.push(all[i..i + n].to_vec());
        i += n;
    }
    out
}

pub fn search(prop: &str, seed: u64, secs: f64) -> Search {
    let mut s = Search::new();
    let t0 = std::time::Instant::now();
    let mut r = Rng::new(seed.wrapping_mul(1000).wrapping_add(prop[1..].parse::<u64>().unwrap_or(0)));
    let left = |t: &std::time::Instant| t.elapsed().as_secs_f64() < secs;
    macro_rules! go {
        ($c:expr) => {
            if !s.try_case($c) {
                return s;
            }
        };
    }
    match prop {
        "P01" => {
            let mut edges: Vec<u32> = vec![];
            for k in [0u32, 128, 16384, 2097152, o::MAX as u32] {
                for d in 0..4 {
                    edges.push(k.saturating_sub(d));
                    edges.push((k + d).min(o::MAX as u32));
                }
            }
            for n in edges.iter().copied().chain((0..28).map(|i| 1u32 << i)).chain(0..20000) {
                go!(Case::VbiEnc(n));
                let e = o::vbi_enc(n as usize);
                for cut in 0..=e.len() {
                    go!(Case::VbiDec(e[..cut].to_vec()));
                }
                let mut f = e.clone();
                f.extend([0x80, 1, 2]);
                go!(Case::VbiDec(f));
            }
            for a in 0..=255u8 {
                for b in [0u8, 1, 0x7f, 0x80, 0x81, 0xfe, 0xff] {
                    for c in [0u8, 1, 0x7f, 0x80, 0xff] {
                        for d in [0u8, 1, 0x7f, 0x80, 0xff] {
                            for e in [0u8, 0x7f, 0x80, 0xff] {
                                go!(Case::VbiDec(vec![a, b, c, d, e]));
                            }
                            go!(Case::VbiDec(vec![a, b, c, d]));
                        }
                        go!(Case::VbiDec(vec![a, b, c]));
                    }
                    go!(Case::VbiDec(vec![a, b]));
                }
            }
            while left(&t0) {
                go!(Case::VbiEnc(r.u64() as u32 % (o::MAX as u32 + 1)));
                let n = 1 + r.below(6);
                let b: Vec<u8> = (0..n).map(|_| r.byte() | if r.chance(2, 3) { 0x80 } else { 0 }).collect();
                go!(Case::VbiDec(b));
            }
        }
        "P02" => {
            for first in 0..=255u8 {
                for b in [&[][..], &[0], &[0, 0], &[0, 1], &[0, 1, 0], &[0, 1, 0, 0], &[0, 1, 5], &[0, 0xff], &[0xff, 0xff, 0xff, 0xff], &[0, 1, b'a', 0xff, 0xff, 0xff, 0x7f], &[0, 1, 0xff, 0xff, 0xff, 0xff, 0x7f, 0]] {
                    go!(Case::Chunks(vec![o::frame(first, b)], 0));
                }
                for v in [&[0xff, 0xff, 0xff, 0xff][..], &[0xff, 0xff, 0xff, 0xff, 0x7f], &[0xff, 0xff, 0xff, 0x7f], &[0x80, 0x80, 0x80, 0x80, 0x01], &[0xff; 12]] {
                    go!(Case::Chunks(vec![[&[first], v].concat()], 0));
                }
            }
            while left(&t0) {
                let mut p = gen_any(&mut r);
                for _ in 0..r.below(4) {
                    p = mutate(&mut r, &p);
                    if p.is_empty() {
                        p = gen_any(&mut r)
                    }
                }
                if r.chance(1, 10) {
                    let n = r.below(24);
                    p = (0..n).map(|_| r.byte()).collect();
                }
                if p.is_empty() {
                    continue;
                }
                let c = if r.chance(1, 4) { split(&mut r, &p) } else { vec![p] };
                go!(Case::Chunks(c, 0));
            }
        }
        "P03" => {
            // every way of cutting a few streams in two
            for _ in 0..6 {
                let all: Vec<u8> = (0..3).flat_map(|_| loop { let p = gen_any(&mut r); if p.len() < 60 { break p } }).collect();
                for i in 0..=all.len() {
                    go!(Case::Chunks(vec![all[..i].to_vec(), all[i..].to_vec()], 1));
                }
                go!(Case::Chunks(all.iter().map(|b| vec![*b]).collect(), 1));
            }
            // lengths written with more bytes than they need
            for body in [&[][..], &[0, 9], &[0, 1, b'a', 0, 7, 7]] {
                for k in 1..=5usize {
                    let first = match body.len() { 0 => 0xd0u8, 2 => 0x40, _ => 0x30 };
                    let mut p = vec![first];
                    for i in 0..k {
                        p.push(if i == 0 { body.len() as u8 } else { 0 } | if i + 1 < k { 128 } else { 0 });
                    }
                    p.extend_from_slice(body);
                    let whole = p.len();
                    p.extend([0xd0, 0, 0x40, 2, 0, 9]);
                    for i in 0..=p.len() {
                        go!(Case::Chunks(vec![p[..i].to_vec(), p[i..].to_vec()], 1));
                    }
                    for i in 0..=whole {
                        go!(Case::Chunks(vec![p[..i].to_vec()], 1));
                    }
                }
            }
            for n in [127usize, 128, 16383, 16384, 2097151, 2097152] {
                let mut p = o::frame(0x30, &[&[0, 1, b'a', 0][..], &vec![7u8; n - 4]].concat());
                let k = p.len();
                p.extend([0xd0, 0, 0x40, 2, 0, 9]);
                let cuts = [1, 2, 3, 4, 5, 6, k - 1, k, k + 1, k + 2];
                for cut in if n > 100_000 { &cuts[3..8] } else { &cuts[..] }.iter().copied() {
                    go!(Case::Chunks(vec![p[..cut].to_vec(), p[cut..].to_vec()], 1));
                }
            }
            while left(&t0) {
                let k = 1 + r.below(5);
                let mut all = vec![];
                for i in 0..k {
                    let mut p = gen_any(&mut r);
                    if i + 1 == k && r.chance(1, 3) {
                        p = mutate(&mut r, &p);
                    }
                    all.extend(p);
                }
                if all.len() > 3000 && r.chance(19, 20) || all.len() > 40_000 {
                    continue;
                }
                if r.chance(1, 3) {
                    let n = r.below(all.len() + 1);
                    all.truncate(n);
                }
                let c = split(&mut r, &all);
                go!(Case::Chunks(c, 1));
            }
        }
        "P04" => {
            for f in [0x01u8, 0x02, 0x08, 0x09, 0x26] {
                for _ in 0..40 {
                    go!(Case::Chunks(vec![gen_publish(&mut r, Some(f))], 2));
                }
            }
            for first in 0x30..=0x3fu8 {
                let b: &[u8] = if first & 6 == 0 { &[0, 1, b't', 0, 1, 2] } else { &[0, 1, b't', 1, 2, 0, 1, 2] };
                go!(Case::Chunks(vec![o::frame(first, b)], 2));
            }
            for id in [1u16, 255, 256, 257, 4660, 32767, 32768, 65280, 65535, 0] {
                let b = [&[0, 1, b't'][..], &id.to_be_bytes(), &[0, 9]].concat();
                go!(Case::Chunks(vec![o::frame(0x32, &b)], 2));
            }
            while left(&t0) {
                let mut p = gen_publish(&mut r, None);
                if r.chance(1, 2) {
                    p = mutate(&mut r, &p);
                    if p.is_empty() || p[0] >> 4 != 3 {
                        continue;
                    }
                }
                go!(Case::Chunks(vec![p], 2));
            }
        }
        "P05" | "P06" => {
            let acks = prop == "P05";
            for first in if acks { [0x40u8, 0x90, 0xb0] } else { [0x20, 0xe0, 0xd0] } {
                for code in 0..=255u8 {
                    for b in bodies_for(first, code) {
                        go!(Case::Chunks(vec![o::frame(first, &b)], 2));
                    }
                }
            }
            if acks {
                go!(Case::Chunks(vec![vec![0x40, 2, 1, 2]], 2));
                for id in [0u16, 1, 255, 256, 257, 0x1234, 0x8000, 65535] {
                    let i = id.to_be_bytes();
                    go!(Case::Chunks(vec![o::frame(0x40, &i)], 2));
                    go!(Case::Chunks(vec![o::frame(0x40, &[i[0], i[1], 0x10])], 2));
                    go!(Case::Chunks(vec![o::frame(0x90, &[i[0], i[1], 0, 1])], 2));
                    go!(Case::Chunks(vec![o::frame(0xb0, &[i[0], i[1], 0, 17])], 2));
                }
            } else {
                for f in 0..=255u8 {
                    go!(Case::Chunks(vec![o::frame(0x20, &[f, 0, 0])], 2));
                }
                go!(Case::Chunks(vec![vec![0xe0, 0]], 2));
                go!(Case::Chunks(vec![vec![0xd0, 0]], 2));
            }
            while left(&t0) {
                let mut p = if acks { gen_ack(&mut r) } else { gen_ctl(&mut r) };
                let kind = p[0] >> 4;
                if r.chance(1, 2) {
                    p = mutate(&mut r, &p);
                    if p.is_empty() || p[0] >> 4 != kind {
                        continue;
                    }
                }
                go!(Case::Chunks(vec![p], 2));
            }
        }
        "P07" => {
            for code in 0..=255u8 {
                for first in [0x20u8, 0x40, 0x90, 0xb0, 0xe0] {
                    for b in bodies_for(first, code) {
                        go!(Case::Chunks(vec![o::frame(first, &b)], 2));
                    }
                }
            }
            for first in 0x30..=0x3fu8 {
                let b: &[u8] = if first & 6 == 0 { &[0, 1, b't', 0, 1, 2] } else { &[0, 1, b't', 1, 2, 0, 1, 2] };
                go!(Case::Chunks(vec![o::frame(first, b)], 2));
            }
            for q in 0..3u8 {
                go!(Case::Encode(Spec::Subscribe(Data::Raw(b"a".to_vec()), 9, q)));
                for retain in [false, true] {
                    go!(Case::Encode(Spec::Publish { topic: Data::Raw(b"a".to_vec()), payload: Data::Raw(vec![1]), text: false, retain, qos: q, id: 9, props: vec![] }));
                }
            }
            go!(Case::Encode(Spec::Puback(7)));
            go!(Case::Encode(Spec::Disconnect));
        }
        "P08" => {
            for q in 0..3u8 {
                for n in [0usize, 1, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 16370, 16376, 16377, 16378, 16379, 16380, 16383, 16384, 2097140, 2097145, 2097146, 2097147, 2097148, 2097149, 2097152] {
                    go!(Case::Encode(Spec::Publish { topic: Data::Raw(b"a".to_vec()), payload: Data::Rep(7, n), text: false, retain: n % 2 == 1, qos: q, id: 0x1234, props: vec![] }));
                }
                for n in [0usize, 1, 100, 120, 121, 122, 123, 124, 125, 126, 127, 128, 16379, 16380, 16381, 16382, 65534, 65535] {
                    for p in [Prop::Resp(Data::Rep(b'r', n)), Prop::Corr(Data::Rep(0xfe, n)), Prop::User(Data::Rep(b'k', n), Data::Rep(b'v', 3)), Prop::User(Data::Rep(b'k', 3), Data::Rep(b'v', n))] {
                        go!(Case::Encode(Spec::Publish { topic: Data::Rep(b't', n), payload: Data::Rep(7, 3), text: false, retain: false, qos: q, id: 1, props: vec![p] }));
                    }
                }
            }
            while left(&t0) {
                go!(Case::Encode(gen_publish_spec(&mut r)));
            }
        }
        "P09" => {
            for i in (0..=255u16).chain([256, 257, 511, 512, 0x1234, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff]) {
                if i > 0 {
                    go!(Case::Encode(Spec::Puback(i)));
                    go!(Case::Encode(Spec::Subscribe(Data::Raw(b"a/b".to_vec()), i, (i % 3) as u8)));
                    go!(Case::Encode(Spec::Unsubscribe(vec![Data::Raw(b"a/b".to_vec())], i)));
                }
                go!(Case::Encode(Spec::Connect(Data::Raw(b"id".to_vec()), i)));
            }
            for n in [0usize, 1, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 16376, 16377, 16378, 16379, 16384, 65534, 65535] {
                go!(Case::Encode(Spec::Connect(Data::Rep(b'c', n), 8)));
                go!(Case::Encode(Spec::Subscribe(Data::Rep(b't', n), 3, 1)));
                go!(Case::Encode(Spec::Unsubscribe(vec![Data::Rep(b't', n)], 3)));
                go!(Case::Encode(Spec::Unsubscribe(vec![Data::Rep(b't', n), Data::Rep(b'u', 2), Data::Rep(b'v', n)], 3)));
            }
            go!(Case::Encode(Spec::Ping));
            go!(Case::Encode(Spec::Disconnect));
            while left(&t0) {
                go!(Case::Encode(gen_other_spec(&mut r)));
            }
        }
        "P10" => {
            for n in [0usize, 1, 127, 128, 16383, 16384, 65535] {
                for q in 0..3u8 {
                    for p in [Prop::Resp(Data::Rep(b'r', n)), Prop::Corr(Data::Rep(0xfe, n)), Prop::User(Data::Rep(b'k', n), Data::Rep(b'v', 3)), Prop::User(Data::Rep(b'k', 3), Data::Rep(b'v', n)), Prop::Expiry(n as u32 * 65537), Prop::Format(1), Prop::Format(0)] {
                        go!(Case::Round(Spec::Publish { topic: Data::Rep(b't', n), payload: Data::Rep(b'p', n), text: true, retain: n % 2 == 0, qos: q, id: 0x0102, props: vec![p] }));
                    }
                }
            }
            for q in 0..3u8 {
                let base = |payload, props| Spec::Publish { topic: Data::Raw(b"a".to_vec()), payload, text: false, retain: q == 1, qos: q, id: 0x1234, props };
                for n in (0usize..=300).chain(16360..=16390).chain(2097135..=2097155) {
                    go!(Case::Round(base(Data::Rep(7, n), vec![])));
                }
                for n in (0usize..=300).chain(16370..=16385).chain([65534, 65535]) {
                    go!(Case::Round(base(Data::Rep(7, 3), vec![Prop::User(Data::Rep(b'k', n), Data::Rep(b'v', 1)), Prop::Corr(Data::Rep(0xfe, n / 2))])));
                }
                for n in [1usize, 32, 33, 64, 127, 128, 129, 255, 256, 257, 1000] {
                    go!(Case::Round(base(Data::Rep(7, 3), (0..n).map(|i| Prop::User(Data::Rep(b'k', i % 3), Data::Rep(b'v', i % 5))).collect())));
                }
                for v in (0u32..=600).chain([0x7fff, 0x8000, 0xffff, 0x10000, 0x00ff_ffff, 0x0100_0000, 0x7fff_ffff, 0x8000_0000, u32::MAX - 1, u32::MAX]) {
                    go!(Case::Round(base(Data::Rep(7, 3), vec![Prop::Expiry(v)])));
                }
                for v in 0..=255u8 {
                    go!(Case::Round(base(Data::Rep(b'7', 3), vec![Prop::Format(v)])));
                }
                for id in (1u16..=600).chain([0x7fff, 0x8000, 0x8001, 0xff00, 0xfffe, 0xffff]) {
                    go!(Case::Round(Spec::Publish { topic: Data::Rep(b't', (id % 7) as usize), payload: Data::Rep(7, 2), text: false, retain: false, qos: q, id, props: vec![] }));
                }
            }
            if secs > 10.0 {
                go!(Case::Round(Spec::Publish { topic: Data::Raw(b"a".to_vec()), payload: Data::Rep(7, o::MAX - 6), text: false, retain: false, qos: 1, id: 1, props: vec![] }));
            }
            while left(&t0) {
                go!(Case::Round(gen_publish_spec(&mut r)));
            }
        }
        "P11" => {
            // the largest body the protocol can frame, and one byte more
            for over in [0usize, 1] {
                go!(Case::Encode(Spec::Publish { topic: Data::Raw(b"a".to_vec()), payload: Data::Rep(7, o::MAX - 4 + over), text: false, retain: false, qos: 0, id: 1, props: vec![] }));
                go!(Case::Encode(Spec::Publish { topic: Data::Raw(b"a".to_vec()), payload: Data::Rep(b'a', o::MAX - 6 + over), text: true, retain: false, qos: 1, id: 1, props: vec![] }));
            }
            go!(Case::Encode(Spec::Publish { topic: Data::Raw(b"a".to_vec()), payload: Data::Rep(7, o::MAX + 100_000), text: false, retain: false, qos: 0, id: 1, props: vec![] }));
            for n in [65534usize, 65535] {
                go!(Case::Encode(Spec::Subscribe(Data::Rep(b't', n), 3, 1)));
                go!(Case::Encode(Spec::Unsubscribe(vec![Data::Rep(b't', n)], 3)));
                for p in [Prop::Resp(Data::Rep(b'r', n)), Prop::Corr(Data::Rep(0xfe, n)), Prop::User(Data::Rep(b'k', n), Data::Rep(b'v', n))] {
                    go!(Case::Encode(Spec::Publish { topic: Data::Rep(b't', n), payload: Data::Rep(7, 3), text: false, retain: false, qos: 0, id: 1, props: vec![p] }));
                }
            }
        }
        _ => {}
    }
    s
}

//! Whole sessions against a scripted broker, through the crate's public interface only (P13-P22).
//!
//! The client's event loop and the script run in one single-threaded tokio runtime with a paused clock: time moves
//! only when the script says so. The broker's end of the loopback connection is a plain non-blocking socket. After
//! every step the runner waits for what the model expects (up to `PATIENCE` of real time), then looks for anything
//! more. A step is a group of actions done without letting the client run in between.
use crate::rng::Rng;
use crate::{Found, Search};
use futures::StreamExt;
use ruq::{Client, Notification, Property, PublishBuilder, QoS};
use std::collections::BTreeSet;
use std::io::{ErrorKind, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static SESSIONS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

const PATIENCE: Duration = Duration::from_secs(4);

#[derive(Clone, Debug, PartialEq)]
pub enum Id {
    /// the id of the k-th request the client sent
    Of(usize),
    Raw(u16),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    // the broker
    Connack(u8, bool),
    Pub { qos: u8, n: usize, id: u16 },
    Suback(Id, u8, usize),
    Unsuback(Id, u8, usize),
    Puback(Id, u8, bool),
    Pingresp,
    Disconnect(u8, bool),
    Bad(Vec<u8>),
    Close,
    Reset,
    // the application
    AppPub { qos: u8, n: usize },
    Sub { qos: u8, n: usize },
    Unsub(usize),
    AppDisc,
    Many(usize),
    Long(usize),
    CloneClient,
    DropOne,
    DropClients,
    DropNotif,
    Hold,
    Resume,
    // the clock, in milliseconds
    Time(u64),
}
use Act::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub acts: Vec<Act>,
    /// cut the broker's bytes into pieces of this size
    pub cut: usize,
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

impl Id {
    fn show(&self) -> String {
        match self {
            Id::Of(k) => format!("${}", k),
            Id::Raw(v) => v.to_string(),
        }
    }
    fn read(s: &str) -> Id {
        match s.strip_prefix('$') {
            Some(k) => Id::Of(k.parse().unwrap()),
            None => Id::Raw(s.parse().unwrap()),
        }
    }
}

impl Act {
    fn show(&self) -> String {
        match self {
            Connack(c, s) => format!("connack:{}:{}", c, *s as u8),
            Pub { qos, n, id } => format!("in:{}:{}:{}", qos, n, id),
            Suback(i, c, n) => format!("suback:{}:{}:{}", i.show(), c, n),
            Unsuback(i, c, n) => format!("unsuback:{}:{}:{}", i.show(), c, n),
            Puback(i, c, l) => format!("puback:{}:{}:{}", i.show(), c, *l as u8),
            Pingresp => "pingresp".into(),
            Disconnect(c, l) => format!("bdisc:{}:{}", c, *l as u8),
            Bad(b) => format!("bad:{}", hex(b)),
            Close => "close".into(),
            Reset => "reset".into(),
            AppPub { qos, n } => format!("pub:{}:{}", qos, n),
            Sub { qos, n } => format!("sub:{}:{}", qos, n),
            Unsub(n) => format!("unsub:{}", n),
            AppDisc => "disc".into(),
            Many(n) => format!("many:{}", n),
            Long(k) => format!("long:{}", k),
            CloneClient => "clone".into(),
            DropOne => "drop1".into(),
            DropClients => "dropclients".into(),
            DropNotif => "dropnotif".into(),
            Hold => "hold".into(),
            Resume => "resume".into(),
            Time(ms) => format!("t:{}", ms),
        }
    }
    fn read(s: &str) -> Option<Act> {
        let f: Vec<&str> = s.split(':').collect();
        let u = |i: usize| -> usize { f.get(i).and_then(|x| x.parse().ok()).unwrap_or(0) };
        Some(match f[0] {
            "connack" => Connack(u(1) as u8, u(2) != 0),
            "in" => Pub { qos: u(1) as u8, n: u(2), id: u(3) as u16 },
            "suback" => Suback(Id::read(f[1]), u(2) as u8, u(3)),
            "unsuback" => Unsuback(Id::read(f[1]), u(2) as u8, u(3)),
            "puback" => Puback(Id::read(f[1]), u(2) as u8, u(3) != 0),
            "pingresp" => Pingresp,
            "bdisc" => Disconnect(u(1) as u8, u(2) != 0),
            "bad" => Bad(unhex(f[1])),
            "close" => Close,
            "reset" => Reset,
            "pub" => AppPub { qos: u(1) as u8, n: u(2) },
            "sub" => Sub { qos: u(1) as u8, n: u(2) },
            "unsub" => Unsub(u(1)),
            "disc" => AppDisc,
            "many" => Many(u(1)),
            "long" => Long(u(1)),
            "clone" => CloneClient,
            "drop1" => DropOne,
            "dropclients" => DropClients,
            "dropnotif" => DropNotif,
            "hold" => Hold,
            "resume" => Resume,
            "t" => Time(u(1) as u64),
            _ => return None,
        })
    }
    fn broker(&self) -> bool {
        matches!(self, Connack(..) | Pub { .. } | Suback(..) | Unsuback(..) | Puback(..) | Pingresp | Disconnect(..) | Bad(_) | Close | Reset)
    }
}

pub fn show(steps: &[Step]) -> String {
    let mut o = String::from("session");
    for s in steps {
        o += " ";
        if s.cut > 0 {
            o += &format!("cut{},", s.cut);
        }
        o += &s.acts.iter().map(|a| a.show()).collect::<Vec<_>>().join(",");
    }
    o
}

pub fn read(s: &str) -> Option<Vec<Step>> {
    let mut out = vec![];
    for w in s.split_whitespace().skip(1) {
        let mut st = Step { acts: vec![], cut: 0 };
        for a in w.split(',') {
            if let Some(c) = a.strip_prefix("cut") {
                st.cut = c.parse().ok()?;
            } else {
                st.acts.push(Act::read(a)?);
            }
        }
        out.push(st);
    }
    Some(out)
}

// ----- packets of the broker -----

fn frame(first: u8, body: &[u8]) -> Vec<u8> {
    let mut o = vec![first];
    let mut n = body.len();
    loop {
        let b = (n % 128) as u8;
        n /= 128;
        o.push(if n > 0 { b | 128 } else { b });
        if n == 0 {
            break;
        }
    }
    o.extend_from_slice(body);
    o
}
fn text(b: &mut Vec<u8>, s: &[u8]) {
    b.extend((s.len() as u16).to_be_bytes());
    b.extend_from_slice(s);
}
fn props(p: &[u8]) -> Vec<u8> {
    let f = frame(0, p);
    f[1..].to_vec()
}

fn qos(n: u8) -> QoS {
    match n {
        0 => QoS::AtMostOnce,
        1 => QoS::AtLeastOnce,
        _ => QoS::ExactlyOnce,
    }
}

// ----- what the application publishes for number `n`, and its bytes with packet id `id` -----

fn topic(n: usize) -> String {
    match n % 17 {
        0 => format!("p{}", n),
        1 => format!("a/b/{}", n),
        2 => format!("\u{e9}/\u{1F600}/{}", n),
        3 => format!("{}{}", "x".repeat(200), n),
        4 => format!("{}", n),
        5 => format!("a/{}/", n),
        6 => format!("/a/{}//", n),
        7 => format!(" a {} ", n),
        8 => format!("a/+/{}/#", n),
        9 => format!("$share/g/A{}/#", n),
        10 => format!("$SYS/{}", n),
        11 => format!("A//B/{}\t", n),
        12 => format!("\u{feff}\u{e9}{}\u{2003}", n),
        13 => format!("{}\u{e9}\u{301}\u{fb01}", "z".repeat(n % 260)),
        14 => format!("\"{}\"\\\u{7f}", n),
        15 => "/".into(),
        _ => "#".into(),
    }
}
fn builder(n: usize, q: u8) -> PublishBuilder {
    let t = topic(n);
    let mut b = if n % 2 == 0 {
        PublishBuilder::from_str(&t, &format!("text {} \u{fc}", n))
    } else {
        PublishBuilder::from_bytes(&t, &[0, 255, n as u8, (n >> 8) as u8])
    };
    if n % 5 == 4 {
        // what is set last counts
        b = b.qos(qos((q + 1) % 3)).qos(qos((q + 2) % 3)).qos(qos(q));
    } else if q > 0 || n % 3 == 0 {
        b = b.qos(qos(q));
    }
    if n % 4 == 1 {
        b = b.with_property(Property::MessageExpiryInterval(n as u32));
    }
    if n % 7 == 2 {
        b = b.with_property(Property::UserProperty(format!("k{}", n), "v".into())).with_property(Property::UserProperty("k".into(), format!("{}", n)));
    }
    if n % 6 == 3 {
        b = b.with_property(Property::CorrelationData(vec![n as u8; n % 9])).with_property(Property::ResponseTopic(format!("r/{}", n)));
    }
    b
}
/// Text in front of a broker's string: long and not ASCII for some `n`, every alignment among them.
fn filler(n: usize) -> String {
    match n % 8 {
        2 => format!("{}{}", "a".repeat(n / 8 % 4), "\u{e9}".repeat(20 + n % 300)),
        5 => format!("{}{}/", "b".repeat(n / 8 % 5), "\u{1F600}".repeat(10 + n % 140)),
        7 => format!("{}/", "c".repeat(n % 700)),
        _ => String::new(),
    }
}
fn publish_bytes(n: usize, q: u8, id: u16) -> Vec<u8> {
    let mut b = vec![];
    text(&mut b, topic(n).as_bytes());
    if q > 0 {
        b.extend(id.to_be_bytes());
    }
    let mut p = vec![1, (n % 2 == 0) as u8];
    if n % 4 == 1 {
        p.push(2);
        p.extend((n as u32).to_be_bytes());
    }
    if n % 7 == 2 {
        p.push(0x26);
        text(&mut p, format!("k{}", n).as_bytes());
        text(&mut p, b"v");
        p.push(0x26);
        text(&mut p, b"k");
        text(&mut p, format!("{}", n).as_bytes());
    }
    if n % 6 == 3 {
        p.push(9);
        text(&mut p, &vec![n as u8; n % 9]);
        p.push(8);
        text(&mut p, format!("r/{}", n).as_bytes());
    }
    b.extend(props(&p));
    if n % 2 == 0 {
        b.extend(format!("text {} \u{fc}", n).as_bytes());
    } else {
        b.extend([0, 255, n as u8, (n >> 8) as u8]);
    }
    frame(0x30 | q << 1, &b)
}
fn subscribe_bytes(n: usize, q: u8, id: u16) -> Vec<u8> {
    let mut b = id.to_be_bytes().to_vec();
    b.push(0);
    text(&mut b, topic(n).as_bytes());
    b.push(q);
    frame(0x82, &b)
}
fn unsubscribe_bytes(n: usize, id: u16) -> Vec<u8> {
    let mut b = id.to_be_bytes().to_vec();
    b.push(0);
    text(&mut b, topic(n).as_bytes());
    frame(0xa2, &b)
}

/// a request the application made
#[derive(Clone, Debug)]
enum Ask {
    Pub(usize, u8),
    Sub(usize, u8),
    Unsub(usize),
    Disc,
}
impl Ask {
    fn needs_id(&self) -> bool {
        match self {
            Ask::Pub(_, q) => *q > 0,
            Ask::Disc => false,
            _ => true,
        }
    }
    /// Its packet, when `p` is one; the id used.
    fn matches(&self, p: &[u8]) -> Option<u16> {
        let id = packet_id(p).unwrap_or(0);
        let ok = match self {
            Ask::Pub(n, q) => p == publish_bytes(*n, *q, id),
            Ask::Sub(n, q) => p == subscribe_bytes(*n, *q, id),
            Ask::Unsub(n) => p == unsubscribe_bytes(*n, id),
            Ask::Disc => p == [0xe0, 0] || p == [0xe0, 1, 0] || p == [0xe0, 2, 0, 0],
        };
        if ok {
            Some(id)
        } else {
            None
        }
    }
}

fn split_frame(b: &[u8]) -> Option<usize> {
    let (mut n, mut k) = (0usize, 0);
    loop {
        let x = *b.get(1 + k)?;
        n += ((x & 127) as usize) << (7 * k);
        k += 1;
        if x < 128 {
            break;
        }
        if k == 4 {
            return Some(b.len());
        }
    }
    if b.len() >= 1 + k + n {
        Some(1 + k + n)
    } else {
        None
    }
}
fn body(p: &[u8]) -> &[u8] {
    let mut k = 1;
    while p.get(k).map_or(false, |x| *x >= 128) {
        k += 1;
    }
    p.get(k + 1..).unwrap_or(&[])
}
/// Packet id of a PUBLISH, SUBSCRIBE or UNSUBSCRIBE.
fn packet_id(p: &[u8]) -> Option<u16> {
    let b = body(p);
    let at = match p[0] >> 4 {
        3 if p[0] & 6 != 0 => 2 + u16::from_be_bytes([*b.get(0)?, *b.get(1)?]) as usize,
        8 | 10 => 0,
        _ => return None,
    };
    Some(u16::from_be_bytes([*b.get(at)?, *b.get(at + 1)?]))
}

#[derive(Clone, Debug)]
enum Note {
    Connack,
    /// a message whose text has this in it
    Message(Vec<String>),
    SubAck(Vec<String>),
    UnsubAck(Vec<String>),
}
impl Note {
    fn is(&self, n: &Notification) -> bool {
        match (self, n) {
            (Note::Connack, Notification::ConnAck(_)) => true,
            (Note::Message(w), Notification::Message(t)) | (Note::SubAck(w), Notification::SubAck(t)) | (Note::UnsubAck(w), Notification::UnsubAck(t)) => {
                w.iter().all(|w| t.contains(w.as_str()))
            }
            _ => false,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Want {
    Open,
    Ok,
    Err,
    /// may have ended with an error, or not yet
    Maybe,
}

/// A property that failed, and how.
#[derive(Clone, Debug)]
pub struct Fail(pub Vec<&'static str>, pub String);

struct Run {
    sock: Option<TcpStream>,
    inbuf: Vec<u8>,
    clients: Vec<Client>,
    notif: Option<futures::channel::mpsc::Receiver<Notification>>,
    hold: bool,
    ev: Option<tokio::task::JoinHandle<Result<(), String>>>,
    end: Option<Result<(), String>>,
    panicked: Option<String>,
    // what was seen, since the start
    sent: Vec<Vec<u8>>,
    got: Vec<Notification>,
    eof: bool,
    // how much of it has been judged
    sent_seen: usize,
    got_seen: usize,
    // the model
    handshake: bool,
    refused: bool,
    connected: bool,
    keep: u64,
    asks: std::collections::VecDeque<Ask>,
    acks: std::collections::VecDeque<u16>,
    notes: std::collections::VecDeque<Note>,
    want: Want,
    why: String,
    inflight: BTreeSet<u16>,
    loose: BTreeSet<u16>,
    q1: Vec<u16>,
    reqs: Vec<u16>,
    pings: usize,
    ping_out: bool,
    since: u64,
    moved: u64,
    quiet_notes: bool,
    gone: bool,
    /// the client may have been waiting for room among the notifications, and not have read
    blocked: bool,
    /// how often the event loop was polled, and how often when the step began
    polls: std::sync::Arc<std::sync::atomic::AtomicUsize>,
    polls_then: usize,
    fails: Vec<Fail>,
}

fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap()
}

impl Run {
    fn fail(&mut self, p: &[&'static str], what: String) {
        self.fails.push(Fail(p.to_vec(), what));
    }

    async fn pump(&mut self, n: usize) {
        for _ in 0..n {
            tokio::task::yield_now().await;
            if let Some(s) = &mut self.sock {
                let mut b = [0u8; 4096];
                match s.read(&mut b) {
                    Ok(0) => self.eof = true,
                    Ok(k) => {
                        // acknowledge at once, or the client's next small write waits for 40 ms
                        let on = 1i32;
                        option(s, 6, 12, &on, 4);
                        self.inbuf.extend_from_slice(&b[..k])
                    }
                    Err(e) if e.kind() == ErrorKind::WouldBlock => {}
                    Err(_) => self.eof = true,
                }
                let mut at = 0;
                while at + 1 < self.inbuf.len() {
                    match split_frame(&self.inbuf[at..]) {
                        Some(k) => {
                            self.sent.push(self.inbuf[at..at + k].to_vec());
                            at += k;
                        }
                        None => break,
                    }
                }
                self.inbuf.drain(..at);
            }
            if !self.hold {
                if let Some(r) = &mut self.notif {
                    while let Some(Some(x)) = futures::FutureExt::now_or_never(r.next()) {
                        self.got.push(x);
                    }
                }
            }
            if self.ev.as_ref().map_or(false, |e| e.is_finished()) {
                match self.ev.take().unwrap().await {
                    Ok(r) => self.end = Some(r),
                    Err(e) => {
                        self.panicked = Some(match e.try_into_panic() {
                            Ok(p) => p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into()),
                            Err(_) => "cancelled".into(),
                        })
                    }
                }
            }
        }
    }

    fn over(&self) -> bool {
        self.end.is_some() || self.panicked.is_some()
    }

    fn write(&mut self, b: &[u8]) {
        if let Some(s) = &mut self.sock {
            let mut at = 0;
            let t = Instant::now();
            while at < b.len() && t.elapsed() < PATIENCE {
                match s.write(&b[at..]) {
                    Ok(k) => at += k,
                    Err(e) if e.kind() == ErrorKind::WouldBlock => break,
                    Err(_) => break,
                }
            }
        }
    }

    /// What the model makes of a packet of the broker.
    fn incoming(&mut self, a: &Act, out: &mut Vec<u8>) {
        let res = |me: &Run, i: &Id| match i {
            Id::Of(k) => me.reqs.get(*k).copied().unwrap_or(64000),
            Id::Raw(v) => *v,
        };
        // bytes first
        match a {
            Connack(c, s) => out.extend(frame(0x20, &[*s as u8, *c, 0])),
            Pub { qos, n, id } => {
                let mut b = vec![];
                text(&mut b, format!("{}in/{}", filler(*n), n).as_bytes());
                if *qos > 0 {
                    b.extend(id.to_be_bytes());
                }
                if n % 3 == 0 {
                    b.extend([2, 1, 1]);
                } else {
                    b.push(0);
                }
                if n % 3 != 0 && n % 5 == 0 {
                    b.extend([0xff, 0, 0xc3]);
                }
                if n % 3 == 0 {
                    b.extend(filler(n + 1).as_bytes());
                }
                b.extend(format!("body{}", n).as_bytes());
                // every fourth is sent once more, as far as its flags go, some are retained
                let flags = if *qos == 1 && n % 4 == 2 { 8 } else { 0 } | (n % 8 == 5) as u8;
                out.extend(frame(0x30 | qos << 1 | flags, &b));
            }
            Suback(i, c, n) | Unsuback(i, c, n) => {
                let mut b = res(self, i).to_be_bytes().to_vec();
                let mut p = vec![0x1f];
                text(&mut p, format!("{}why{}", filler(*n), n).as_bytes());
                b.extend(props(&p));
                b.push(*c);
                out.extend(frame(if matches!(a, Suback(..)) { 0x90 } else { 0xb0 }, &b));
            }
            Puback(i, c, long) => {
                let mut b = res(self, i).to_be_bytes().to_vec();
                if *long || *c != 0 {
                    b.push(*c);
                }
                if *long {
                    b.push(0);
                }
                out.extend(frame(0x40, &b));
            }
            Pingresp => out.extend([0xd0, 0]),
            Disconnect(c, long) => out.extend(if *long || *c != 0 { vec![0xe0, 1, *c] } else { vec![0xe0, 0] }),
            Bad(b) => out.extend_from_slice(b),
            _ => {}
        }
        if self.want != Want::Open {
            return;
        }
        if !self.connected {
            match a {
                Connack(0, _) => {
                    self.connected = true;
                    self.since = 0;
                    self.notes.push_back(Note::Connack);
                }
                Connack(c, _) => {
                    self.refused = true;
                    self.notes.push_back(Note::Connack);
                    self.ends(Want::Err, format!("CONNACK refuses with {:#x}", c));
                }
                _ => self.ends(Want::Err, format!("`{}` comes before CONNACK", a.show())),
            }
            return;
        }
        match a {
            Connack(_, _) => self.notes.push_back(Note::Message(vec![])),
            Pub { qos, n, id } => {
                if *qos == 2 {
                    return self.ends(Want::Err, "a QoS 2 message".into());
                }
                if *qos == 1 {
                    self.acks.push_back(*id);
                }
                let mut w = vec![format!("in/{}\"", n), format!("body{}", n)];
                if n % 3 != 0 {
                    w.pop();
                }
                self.notes.push_back(Note::Message(w));
            }
            Suback(i, _, n) | Unsuback(i, _, n) => {
                let id = res(self, i);
                // the acknowledgement of another kind of request: both readings are let pass
                if self.q1.contains(&id) {
                    self.loose.insert(id);
                }
                self.inflight.remove(&id);
                let w = vec![format!("why{}\"", n), format!("{}", id)];
                self.notes.push_back(if matches!(a, Suback(..)) { Note::SubAck(w) } else { Note::UnsubAck(w) });
            }
            Puback(i, _, _) => {
                let id = res(self, i);
                if let Some(k) = self.q1.iter().position(|x| *x == id) {
                    self.q1.remove(k);
                    self.inflight.remove(&id);
                }
            }
            Pingresp => self.ping_out = false,
            Disconnect(0, _) => self.ends(Want::Ok, "DISCONNECT (normal)".into()),
            Disconnect(c, _) => self.ends(Want::Err, format!("DISCONNECT with reason {:#x}", c)),
            Bad(b) => self.ends(Want::Err, format!("malformed bytes {}", hex(b))),
            _ => {}
        }
    }

    fn ends(&mut self, w: Want, why: String) {
        self.want = w;
        self.why = why;
    }

    fn ask(&mut self, a: Ask, r: Result<(), String>) {
        match r {
            Ok(()) if self.gone => self.fail(&["P21"], format!("{:?} succeeds after the end of the session, nothing can be queued any more", a)),
            Ok(()) => {
                if self.want == Want::Open || !self.connected {
                    self.asks.push_back(a)
                }
            }
            Err(_) if self.gone || self.over() || self.want != Want::Open || self.asks.len() >= 90 => {}
            Err(e) => self.fail(&["P21"], format!("{:?} is refused: {}", a, e)),
        }
    }

    fn app(&mut self, a: &Act) {
        let k = self.clients.len();
        macro_rules! client {
            ($n:expr) => {
                match k {
                    0 => return,
                    _ => &mut self.clients[$n % k],
                }
            };
        }
        match a {
            AppPub { qos: q, n } => {
                let r = client!(*n).publish(builder(*n, *q)).map_err(|e| e.to_string());
                self.ask(Ask::Pub(*n, *q), r);
            }
            Sub { qos: q, n } => {
                let r = client!(*n).subscribe(&topic(*n), qos(*q)).map_err(|e| e.to_string());
                self.ask(Ask::Sub(*n, *q), r);
            }
            Unsub(n) => {
                let r = client!(*n).unsubscribe(&topic(*n)).map_err(|e| e.to_string());
                self.ask(Ask::Unsub(*n), r);
            }
            AppDisc => {
                let r = client!(0).disconnect().map_err(|e| e.to_string());
                self.ask(Ask::Disc, r);
            }
            Many(n) => {
                for i in 0..*n {
                    let r = client!(i).publish(builder(i * 4, 0)).map_err(|e| e.to_string());
                    match r {
                        Ok(()) if self.gone => self.fail(&["P21"], "publish succeeds after the end of the session".into()),
                        Ok(()) => self.asks.push_back(Ask::Pub(i * 4, 0)),
                        Err(e) if self.asks.len() < 90 && self.want == Want::Open && !self.gone => {
                            self.fail(&["P21"], format!("publish {} of {} is refused with {} queued: {}", i, n, self.asks.len(), e))
                        }
                        Err(_) => {}
                    }
                }
            }
            Long(kind) => {
                let long = "y".repeat(65536 + kind / 6);
                let c = client!(0);
                let r = match kind % 6 {
                    0 => c.subscribe(&long, QoS::AtMostOnce),
                    1 => c.unsubscribe(&long),
                    2 => c.publish(PublishBuilder::from_str(&long, "x")),
                    3 => c.publish(PublishBuilder::from_bytes("t", b"x").with_property(Property::ResponseTopic(long))),
                    4 => c.publish(PublishBuilder::from_bytes("t", b"x").with_property(Property::CorrelationData(long.into_bytes()))),
                    _ => c.publish(PublishBuilder::from_bytes("t", b"x").with_property(Property::UserProperty("k".into(), long))),
                };
                if r.is_ok() {
                    self.fail(&["P11", "P21"], format!("a call with a string of more than 65535 bytes is accepted (kind {})", kind % 6));
                    self.asks.clear();
                }
            }
            CloneClient => {
                let c = client!(0).clone();
                self.clients.push(c);
            }
            DropOne => {
                if k > 1 {
                    self.clients.remove(0);
                }
            }
            DropClients => self.clients.clear(),
            DropNotif => self.notif = None,
            Hold => self.hold = true,
            Resume => self.hold = false,
            _ => {}
        }
    }

    /// Take in what the client did since the last look; judge it against the model.
    fn judge(&mut self) {
        while self.sent_seen < self.sent.len() {
            let p = self.sent[self.sent_seen].clone();
            self.sent_seen += 1;
            let kind = p[0] >> 4;
            let shown = if p.len() > 60 { format!("{}.. ({} bytes)", hex(&p[..60]), p.len()) } else { hex(&p) };
            if !self.handshake {
                if kind == 1 {
                    self.handshake = true;
                    let b = body(&p);
                    if b.len() >= 10 && &b[..7] == b"\x00\x04MQTT\x05" {
                        self.keep = u16::from_be_bytes([b[8], b[9]]) as u64 * 1000;
                    } else {
                        self.fail(&["P17", "P09"], format!("not an MQTT 5 CONNECT: {}", shown));
                    }
                } else {
                    self.fail(&["P17"], format!("the first packet sent is {}", shown));
                    self.handshake = true;
                }
                continue;
            }
            if !self.connected {
                let mut tags = vec!["P17"];
                if kind == 12 {
                    tags.push("P16");
                }
                self.fail(&tags, format!("sent before an accepting CONNACK: {}", shown));
                continue;
            }
            match kind {
                4 => {
                    let b = body(&p);
                    let id = if b.len() >= 2 { u16::from_be_bytes([b[0], b[1]]) } else { 0 };
                    if b.len() > 2 && (b[2] != 0 || b.len() > 4) {
                        self.fail(&["P14"], format!("a PUBACK that does not say success: {}", shown));
                    }
                    match self.acks.front() {
                        Some(x) if *x == id => {
                            self.acks.pop_front();
                        }
                        Some(x) => {
                            let x = *x;
                            self.fail(&["P14"], format!("PUBACK {} is sent where PUBACK {} is due", id, x));
                            self.acks.retain(|y| *y != id);
                        }
                        None => self.fail(&["P14"], format!("PUBACK {} is sent, none is due", id)),
                    }
                }
                12 => {
                    if self.moved == 0 && !self.blocked {
                        self.fail(&["P16"], "a PINGREQ though no time passed since the last look".into());
                    }
                    self.moved = 0;
                    if self.ping_out {
                        self.fail(&["P16"], "a PINGREQ though the last one was not answered".into());
                    }
                    self.pings += 1;
                    self.ping_out = true;
                    self.since = 0;
                    if p != [0xc0, 0] {
                        self.fail(&["P09", "P16"], format!("a PINGREQ of its own kind: {}", shown));
                    }
                }
                3 | 8 | 10 | 14 => {
                    let id = packet_id(&p);
                    match self.asks.front().cloned() {
                        None => self.fail(&["P15"], format!("nobody asked for {}", shown)),
                        Some(a) => {
                            self.asks.pop_front();
                            if a.matches(&p).is_none() {
                                self.fail(&["P15", "P21"], format!("{:?} is asked for, sent is {}", a, shown));
                            }
                            if let Ask::Disc = a {
                                self.asks.clear();
                                if self.want == Want::Open {
                                    self.ends(Want::Ok, "disconnect was asked for and DISCONNECT sent".into());
                                }
                            }
                        }
                    }
                    if let Some(id) = id {
                        if id == 0 {
                            self.fail(&["P13"], format!("packet id 0 in {}", shown));
                        }
                        if !self.inflight.insert(id) {
                            let n = self.inflight.len();
                            self.fail(&["P13"], format!("packet id {} is used again while its request waits for the acknowledgement ({} in flight)", id, n));
                        }
                        self.loose.remove(&id);
                        self.reqs.push(id);
                        if kind == 3 && p[0] & 6 == 2 {
                            self.q1.push(id);
                        }
                    }
                }
                1 => self.fail(&["P17"], "a second CONNECT".into()),
                k => self.fail(&["P15", "P14"], format!("a packet of type {} nobody asked for: {}", k, shown)),
            }
        }
        while self.got_seen < self.got.len() {
            let n = &self.got[self.got_seen];
            self.got_seen += 1;
            let t = format!("{:?}", n);
            let t: String = t.chars().take(200).collect();
            let is_connack = matches!(n, Notification::ConnAck(_));
            match self.notes.front() {
                Some(w) if w.is(n) => {
                    self.notes.pop_front();
                }
                Some(w) => {
                    let w = format!("{:?}", w);
                    let tags: &[&str] = if is_connack || w == "Connack" { &["P19", "P17"] } else { &["P19"] };
                    self.notes.pop_front();
                    self.fail(tags, format!("the application is told {}, due is {}", t, w));
                }
                None => self.fail(&["P19"], format!("the application is told {}, nothing is due", t)),
            }
        }
        if let Some(p) = self.panicked.take() {
            self.end = Some(Err("panic".into()));
            let mut tags = vec!["P20", "P18"];
            if self.clients.is_empty() || self.eof {
                tags.push("P22");
            }
            self.fail(&tags, format!("the session panics: {}", p));
            self.want = Want::Maybe;
            self.gone = true;
        }
        if let Some(r) = self.end.clone() {
            if !self.gone {
                self.gone = true;
                self.ended(r);
            }
        }
    }

    fn ended(&mut self, r: Result<(), String>) {
        let timeout = r.as_ref().err().map_or(false, |e| e.starts_with("TimedOut"));
        // the ids ran out
        if self.want == Want::Open && self.asks.front().map_or(false, |a| a.needs_id()) && self.inflight.len() + self.loose.len() >= 65535 {
            self.asks.clear();
            if r.is_ok() {
                self.fail(&["P13", "P18"], "all packet ids are in flight, and the session ends without an error".into());
            }
            return;
        }
        if timeout && self.want == Want::Open {
            if !self.ping_out && !self.blocked {
                self.fail(&["P16", "P18"], format!("the session ends with a timeout though every PINGREQ was answered: {:?}", r));
            } else if self.since * 2 < self.keep {
                self.fail(&["P16", "P18"], format!("the session ends with a timeout {} ms after the PINGREQ was sent: {:?}", self.since, r));
            }
            return;
        }
        match self.want {
            Want::Open => {
                let mut tags = vec!["P18"];
                if self.clients.is_empty() {
                    tags.push("P22");
                }
                if self.asks.front().map_or(false, |a| a.needs_id()) {
                    tags.push("P13");
                }
                if !self.connected {
                    tags.push("P17");
                }
                self.fail(&tags, format!("the session ends ({:?}) though nothing ended it", r));
            }
            Want::Ok if r.is_err() => {
                let w = format!("{}: the session ends with {:?} instead of success", self.why, r);
                self.fail(&["P18"], w);
            }
            Want::Err if r.is_ok() => {
                let w = format!("{}: the session ends with success instead of an error", self.why);
                let tags: &[&str] = if self.connected { &["P18"] } else { &["P17", "P18"] };
                self.fail(tags, w);
            }
            _ => {}
        }
    }

    /// the application takes nothing and the session may be waiting for it
    fn full(&self) -> bool {
        self.hold && self.notif.is_some() && self.notes.len() >= 60
    }

    fn settled(&self) -> bool {
        let told = self.hold || self.notif.is_none() || self.notes.is_empty();
        let ended = match self.want {
            Want::Open | Want::Maybe => true,
            _ => self.over() || self.gone,
        };
        let hs = self.handshake;
        hs && (self.gone || ((self.full() || (self.asks.is_empty() || !self.connected) && self.acks.is_empty()) && told && ended)) && (!self.gone || told)
    }

    async fn settle(&mut self, strict: bool) {
        let t = Instant::now();
        let mut n = 0;
        loop {
            self.pump(12).await;
            self.judge();
            if !self.fails.is_empty() {
                return;
            }
            if self.settled() {
                n += 1;
                if n >= 3 {
                    break;
                }
            } else {
                n = 0;
                if t.elapsed() > PATIENCE {
                    break;
                }
            }
        }
        if self.settled() || !strict {
            return;
        }
        // what is owed and did not come
        if !self.handshake {
            return self.fail(&["P17"], "no CONNECT is sent".into());
        }
        if self.gone {
            if !self.notes.is_empty() && self.notif.is_some() && !self.hold {
                let w = format!("the application is not told of {:?}", self.notes.front());
                self.fail(&["P19"], w);
            }
            return;
        }
        if self.connected && !self.full() {
            if let Some(a) = self.asks.front().cloned() {
                let mut tags = vec!["P15", "P21", "P23"];
                if a.needs_id() && self.inflight.len() >= 65535 {
                    tags = vec!["P13", "P18"];
                }
                self.fail(&tags, format!("{:?} is never sent", a));
            }
            if let Some(a) = self.acks.front() {
                let w = format!("PUBACK {} is never sent", a);
                self.fail(&["P14", "P23"], w);
            }
        }
        if !self.notes.is_empty() && self.notif.is_some() && !self.hold {
            let w = format!("the application is not told of {:?}", self.notes.front());
            let tags: &[&str] = if matches!(self.notes.front(), Some(Note::Connack)) { &["P19", "P17", "P23"] } else { &["P19", "P23"] };
            self.fail(tags, w);
        }
        if matches!(self.want, Want::Ok | Want::Err) && !self.over() {
            let w = format!("{}: the session does not end", self.why);
            let mut tags = if self.connected { vec!["P18"] } else { vec!["P17", "P18"] };
            // nothing happens, and the loop is polled again and again: it goes on reading
            let polls = self.polls.load(std::sync::atomic::Ordering::Relaxed) - self.polls_then;
            if self.why.contains("closes the stream") && polls > 200 {
                tags.push("P22");
            }
            self.fail(&tags, w);
        }
    }

    async fn step(&mut self, st: &Step) {
        let mut bytes = vec![];
        let (mut close, mut reset) = (false, false);
        self.moved = 0;
        self.polls_then = self.polls.load(std::sync::atomic::Ordering::Relaxed);
        let mut silent = false;
        for a in &st.acts {
            match a {
                Close | Reset => {
                    // a reset throws away what the client has not read yet: let it read first
                    if *a == Reset && !bytes.is_empty() {
                        self.write(&bytes);
                        bytes.clear();
                        self.settle(true).await;
                        if !self.fails.is_empty() || self.gone {
                            return;
                        }
                    }
                    if self.want == Want::Open {
                        if self.connected {
                            self.ends(if *a == Close { Want::Ok } else { Want::Err }, if *a == Close { "the broker closes the stream".into() } else { "the connection is reset".into() });
                        } else {
                            self.ends(Want::Err, "the connection ends before CONNACK".into());
                        }
                    }
                    close |= *a == Close;
                    reset |= *a == Reset;
                }
                Time(ms) => {
                    // the bytes of this group first
                    if !bytes.is_empty() {
                        self.write(&bytes);
                        bytes.clear();
                    }
                    tokio::time::advance(Duration::from_millis(*ms)).await;
                    if self.connected {
                        self.since += ms;
                        self.moved += ms;
                    }
                }
                a if a.broker() => {
                    silent |= matches!(a, Puback(..) | Pingresp);
                    self.incoming(a, &mut bytes);
                }
                a => self.app(a),
            }
        }
        // a packet nobody answers is followed by a message, so that its handling can be waited for
        if silent && self.want == Want::Open && self.connected && !self.hold {
            let n = 900_000 + self.sent.len() + self.got.len();
            let a = if self.notif.is_some() { Pub { qos: 0, n, id: 0 } } else { Pub { qos: 1, n, id: 60001 } };
            self.incoming(&a, &mut bytes);
        }
        if st.cut > 0 {
            for c in bytes.chunks(st.cut) {
                self.write(c);
                self.pump(3).await;
            }
        } else {
            self.write(&bytes);
        }
        if close {
            // what the client still sends must not turn the end into a reset
            self.pump(20).await;
            if let Some(s) = &self.sock {
                let _ = s.shutdown(std::net::Shutdown::Write);
            }
        }
        if reset {
            if let Some(s) = self.sock.take() {
                reset_socket(&s);
                drop(s);
            }
        }
        self.blocked |= self.hold && self.notes.len() >= 60;
        self.settle(true).await;
        if !self.fails.is_empty() || self.gone {
            return;
        }
        if self.connected && self.keep > 0 && !self.hold && self.want == Want::Open {
            if self.since > self.keep + 1000 {
                let w = if self.ping_out {
                    format!("the broker has not answered the PINGREQ for {} ms, and the session goes on", self.since)
                } else {
                    format!("no PINGREQ for {} ms, the keep-alive is {} ms", self.since, self.keep)
                };
                self.fail(&["P16"], w);
            }
        }
    }
}

pub fn option(s: &TcpStream, level: i32, name: i32, val: *const i32, len: u32) {
    use std::os::unix::io::AsRawFd;
    extern "C" {
        fn setsockopt(fd: i32, level: i32, name: i32, val: *const i32, len: u32) -> i32;
    }
    unsafe {
        setsockopt(s.as_raw_fd(), level, name, val, len);
    }
}

/// Close with a reset: SO_LINGER, on, 0 seconds.
fn reset_socket(s: &TcpStream) {
    let l = [1i32, 0];
    option(s, 1, 13, l.as_ptr(), 8);
}

async fn session(steps: &[Step]) -> Vec<Fail> {
    let mut tries = 0;
    let lis = loop {
        // many addresses: closed connections keep theirs for a minute
        match TcpListener::bind((std::net::Ipv4Addr::new(127, 1 + (std::process::id() % 250) as u8, SESSIONS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) as u8, 1), 0)) {
            Ok(l) => break l,
            Err(e) if tries > 200 => panic!("no loopback: {}", e),
            Err(_) => {
                tries += 1;
                std::thread::sleep(Duration::from_millis(100))
            }
        }
    };
    let addr = lis.local_addr().unwrap();
    let (client, evloop, notif) = Client::new(addr);
    let polls = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let count = polls.clone();
    let mut evloop = Box::pin(evloop);
    let ev = tokio::spawn(async move {
        futures::future::poll_fn(move |cx| {
            count.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            std::future::Future::poll(evloop.as_mut(), cx)
        })
        .await
        .map_err(|e| {
            let k = e.downcast_ref::<std::io::Error>().map(|e| format!("{:?}", e.kind())).unwrap_or_default();
            format!("{}: {}", k, e)
        })
    });
    lis.set_nonblocking(true).unwrap();
    let t = Instant::now();
    let sock = loop {
        tokio::task::yield_now().await;
        match lis.accept() {
            Ok((s, _)) => break s,
            Err(_) if t.elapsed() < PATIENCE => {}
            Err(_) => return vec![Fail(vec!["P24"], "the client does not connect".into())],
        }
    };
    sock.set_nonblocking(true).unwrap();
    let _ = sock.set_nodelay(true);
    let mut r = Run {
        sock: Some(sock),
        inbuf: vec![],
        clients: vec![client],
        notif: Some(notif),
        hold: false,
        ev: Some(ev),
        end: None,
        panicked: None,
        sent: vec![],
        got: vec![],
        eof: false,
        sent_seen: 0,
        got_seen: 0,
        handshake: false,
        refused: false,
        connected: false,
        keep: 0,
        asks: Default::default(),
        acks: Default::default(),
        notes: Default::default(),
        want: Want::Open,
        why: String::new(),
        inflight: Default::default(),
        loose: Default::default(),
        q1: vec![],
        reqs: vec![],
        pings: 0,
        ping_out: false,
        since: 0,
        moved: 0,
        quiet_notes: false,
        gone: false,
        blocked: false,
        polls,
        polls_then: 0,
        fails: vec![],
    };
    r.settle(true).await;
    for st in steps {
        if !r.fails.is_empty() {
            break;
        }
        if r.gone {
            // the application may still call
            st.acts.iter().for_each(|a| r.app(a));
            continue;
        }
        r.step(st).await;
    }
    let _ = (r.quiet_notes, r.refused);
    // leave no connection in TIME_WAIT
    if let Some(s) = r.sock.take() {
        reset_socket(&s);
    }
    r.fails
}

pub fn run(steps: &[Step]) -> Vec<Fail> {
    runtime().block_on(session(steps))
}

// ----- the watch: a session that never gives the runtime back -----

static NOW: Mutex<Option<(Instant, String)>> = Mutex::new(None);

/// Has the watch look at a case until `f` is done.
pub fn under_watch<X>(limit: u64, case: impl FnOnce() -> String, f: impl FnOnce() -> X) -> X {
    *NOW.lock().unwrap() = Some((Instant::now() + Duration::from_secs(limit), case()));
    let x = f();
    *NOW.lock().unwrap() = None;
    x
}

fn watched(steps: &[Step], limit: u64) -> Vec<Fail> {
    *NOW.lock().unwrap() = Some((Instant::now() + Duration::from_secs(limit), show(steps)));
    let t = Instant::now();
    let f = run(steps);
    if std::env::var("SLOW").is_ok() && t.elapsed() > Duration::from_millis(15) {
        eprintln!("{:?} {}", t.elapsed(), show(steps).chars().take(300).collect::<String>());
    }
    *NOW.lock().unwrap() = None;
    f
}

/// Ends the process when a session hangs; `hung` prints what the caller expects then.
pub fn watch(hung: impl Fn(&str) + Send + 'static) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(250));
        let g = NOW.lock().unwrap();
        if let Some((t, c)) = &*g {
            if Instant::now() > *t {
                hung(c);
                std::process::exit(0);
            }
        }
    });
}

pub fn replay(case: &str) -> Result<(), String> {
    let steps = read(case).ok_or_else(|| format!("not a case: {}", case))?;
    let f = watched(&steps, 60);
    match f.first() {
        None => Ok(()),
        Some(f) => Err(format!("[{}] {}", f.0.join(" "), f.1)),
    }
}

// ----- the search -----

fn one(a: Act) -> Step {
    Step { acts: vec![a], cut: 0 }
}
fn all(v: Vec<Act>) -> Step {
    Step { acts: v, cut: 0 }
}
fn cat(a: &[Step], b: &[Step]) -> Vec<Step> {
    let mut v = a.to_vec();
    v.extend_from_slice(b);
    v
}
fn secs(n: usize) -> Vec<Step> {
    vec![one(Time(1000)); n]
}

/// The sessions every search begins with.
fn fixed(prop: &str) -> Vec<Vec<Step>> {
    let k = one(Connack(0, false));
    let mut v: Vec<Vec<Step>> = vec![];
    // endings
    for e in [AppDisc, Disconnect(0, false), Disconnect(0, true), Disconnect(0x8b, true), Disconnect(0x81, true), Disconnect(0x98, true), Close, Reset,
        Bad(vec![0xf0, 0]), Bad(vec![0x00, 0]), Bad(vec![0x50, 2, 0, 1]), Bad(vec![0x10, 0]), Bad(vec![0x30, 0xff, 0xff, 0xff, 0xff, 0x7f]), Bad(vec![0x36, 4, 0, 1, 0x61, 0]), Pub { qos: 2, n: 4, id: 9 },
        Bad(vec![0x20, 3, 2, 0, 0]), Bad(vec![0x90, 4, 0, 0, 0, 0])] {
        v.push(vec![one(e.clone())]);
        v.push(vec![k.clone(), one(e.clone())]);
        if e.broker() {
            v.push(vec![k.clone(), one(Pub { qos: 1, n: 1, id: 7 }), all(vec![Pub { qos: 0, n: 2, id: 0 }, Pub { qos: 1, n: 3, id: 8 }, e.clone()])]);
        }
        v.push(vec![k.clone(), one(AppPub { qos: 1, n: 1 }), one(Sub { qos: 1, n: 2 }), one(e.clone())]);
        v.push(vec![k.clone(), one(DropNotif), one(Pub { qos: 1, n: 1, id: 7 }), one(e.clone())]);
        if e != AppDisc {
            v.push(vec![k.clone(), one(DropClients), one(Pub { qos: 1, n: 1, id: 7 }), one(e.clone())]);
        }
    }
    // one message twice, and different ones with one id
    for (a, b) in [(2, 2), (1, 2), (1, 1), (2, 1), (2, 6)] {
        let m = |n| Pub { qos: 1, n, id: 7 };
        v.push(vec![k.clone(), one(m(a)), one(m(b)), one(m(b))]);
        v.push(vec![k.clone(), all(vec![m(a), m(b), Pub { qos: 0, n: 2, id: 0 }])]);
    }
    if prop == "P21" {
        for a in [Sub { qos: 1, n: 2 }, Unsub(2), AppPub { qos: 1, n: 2 }, AppDisc, AppPub { qos: 0, n: 4 }] {
            // a full queue
            v.push(vec![k.clone(), all(vec![Many(99), a.clone(), a.clone(), a.clone(), a.clone()])]);
            v.push(vec![all(vec![Many(99), a.clone(), a.clone(), a.clone(), a.clone()]), k.clone()]);
            // nobody at the other end
            for e in [Close, AppDisc, Disconnect(0, false), Bad(vec![0xf0, 0])] {
                v.push(vec![k.clone(), one(e), one(a.clone())]);
            }
        }
    }
    // handshakes
    for c in [0x80u8, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a, 0x8c, 0x90, 0x95, 0x97, 0x99, 0x9a, 0x9b, 0x9c, 0x9d, 0x9f] {
        v.push(vec![one(Connack(c, false))]);
        v.push(vec![one(AppPub { qos: 0, n: 3 }), one(Connack(c, false))]);
        v.push(vec![one(Connack(c, false)), one(Pub { qos: 0, n: 1, id: 0 })]);
    }
    for a in [Pub { qos: 0, n: 1, id: 0 }, Pub { qos: 1, n: 1, id: 4 }, Suback(Id::Raw(1), 0, 1), Unsuback(Id::Raw(1), 0, 1), Puback(Id::Raw(1), 0, false), Pingresp] {
        v.push(vec![one(a.clone())]);
        v.push(vec![all(vec![a.clone(), Connack(0, false)])]);
        v.push(vec![k.clone(), one(a), one(AppPub { qos: 1, n: 5 }), one(Sub { qos: 0, n: 6 })]);
    }
    v.push(vec![one(AppPub { qos: 1, n: 1 }), one(Sub { qos: 2, n: 2 }), one(Time(9000)), one(Time(9000)), one(Connack(0, true)), one(AppPub { qos: 0, n: 4 })]);
    v.push(vec![all(vec![AppDisc]), k.clone()]);
    v.push(vec![one(DropClients), k.clone(), one(Pub { qos: 1, n: 1, id: 3 })]);
    v.push(vec![one(DropNotif), k.clone(), one(Pub { qos: 1, n: 1, id: 3 })]);
    v.push(vec![one(DropNotif), one(Connack(0x87, false))]);
    v.push(vec![k.clone(), one(Connack(0, false)), one(AppPub { qos: 1, n: 2 })]);
    v.push(vec![k.clone(), one(Connack(0x87, false)), one(AppPub { qos: 1, n: 2 })]);
    // keep-alive
    v.push(cat(&[k.clone()], &secs(30)));
    v.push(cat(&cat(&[k.clone()], &secs(9)), &cat(&[one(Pingresp)], &secs(20))));
    let mut p = vec![k.clone()];
    for _ in 0..5 {
        p.extend(secs(9));
        p.push(one(Pingresp));
    }
    v.push(p.clone());
    p.push(one(DropClients));
    p.extend(secs(9));
    p.push(one(Pingresp));
    p.extend(secs(9));
    v.push(p);
    v.push(cat(&[k.clone(), one(Pingresp), one(Pingresp)], &secs(30)));
    v.push(cat(&cat(&[k.clone()], &secs(9)), &cat(&[one(Pub { qos: 1, n: 2, id: 5 }), one(AppPub { qos: 1, n: 1 }), one(Suback(Id::Raw(3), 0, 1))], &secs(20))));
    v.push(cat(&cat(&[k.clone()], &secs(9)), &cat(&[one(Pingresp), one(Pingresp)], &secs(20))));
    // a late loop: the application does not take its notifications for a while
    let mut late = vec![k.clone(), one(Hold)];
    for i in 0..3 {
        late.push(all((0..60).map(|j| Pub { qos: 0, n: i * 60 + j, id: 0 }).collect()));
    }
    late.extend([one(Time(20000)), one(Resume), one(Pingresp), one(Time(1000)), one(AppPub { qos: 0, n: 2 })]);
    v.push(late);
    // the same, in pieces: whoever waits for the application waits more than once
    for (qos, each) in [(0u8, 4000u64), (1, 700)] {
        let mut late = vec![k.clone(), one(Hold)];
        for i in 0..3 {
            late.push(all((0..60).map(|j| Pub { qos, n: i * 60 + j, id: 1 + (i * 60 + j) as u16 }).collect()));
        }
        late.push(all((0..20).map(|j| if j % 2 == 0 { Suback(Id::Raw(1000), 0, j) } else { Unsuback(Id::Raw(1000), 0, j) }).collect()));
        late.extend((0..10).map(|_| one(Time(each))));
        late.extend([one(Resume), one(Pingresp), one(Time(1000)), one(AppPub { qos: 0, n: 2 })]);
        v.push(late);
    }
    v.push(vec![k.clone(), one(Time(20000)), one(Pingresp), one(Time(1000)), one(AppPub { qos: 0, n: 2 })]);
    // strings of the broker
    for n in (0..600).step_by(40) {
        v.push(vec![k.clone(), all((n..n + 40).map(|n| Pub { qos: (n % 2) as u8, n, id: 1 + n as u16 }).collect())]);
        v.push(vec![k.clone(), all((n..n + 20).map(|n| Suback(Id::Raw(3), 0, n)).collect()), all((n + 20..n + 40).map(|n| Unsuback(Id::Raw(3), 0, n)).collect())]);
    }
    // packet ids
    for bogus in [Puback(Id::Of(0), 0, false), Puback(Id::Of(0), 0x10, false), Puback(Id::Raw(1), 0, true), Puback(Id::Raw(2), 0, false), Suback(Id::Raw(9), 0, 1), Unsuback(Id::Raw(9), 0, 2)] {
        for first in [Sub { qos: 1, n: 1 }, Unsub(1), AppPub { qos: 2, n: 1 }, AppPub { qos: 1, n: 1 }] {
            v.push(vec![k.clone(), one(first), one(bogus.clone()), one(Sub { qos: 0, n: 2 }), one(AppPub { qos: 1, n: 3 }), one(Unsub(4)), one(AppPub { qos: 2, n: 5 })]);
        }
    }
    for code in [0u8, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99] {
        v.push(vec![k.clone(), one(AppPub { qos: 1, n: 1 }), one(AppPub { qos: 1, n: 2 }), one(Puback(Id::Of(0), code, true)), one(AppPub { qos: 1, n: 3 }), one(Puback(Id::Of(1), code, false)), one(Puback(Id::Of(1), code, false)), one(Sub { qos: 0, n: 2 }), one(Sub { qos: 0, n: 4 })]);
    }
    for code in [0u8, 1, 2, 0x80, 0x83, 0x87, 0x8f, 0x91, 0x97, 0x9e, 0xa1, 0xa2] {
        v.push(vec![k.clone(), one(Sub { qos: 1, n: 1 }), one(Sub { qos: 1, n: 2 }), one(Suback(Id::Of(0), code, 1)), one(AppPub { qos: 1, n: 3 }), one(Suback(Id::Of(1), code, 2)), one(Sub { qos: 0, n: 2 }), one(Unsub(4))]);
    }
    for code in [0u8, 0x11, 0x80, 0x83, 0x87, 0x8f, 0x91] {
        v.push(vec![k.clone(), one(Unsub(1)), one(Unsub(2)), one(Unsuback(Id::Of(0), code, 1)), one(AppPub { qos: 1, n: 3 }), one(Unsuback(Id::Of(1), code, 2)), one(Sub { qos: 0, n: 2 }), one(Unsub(4))]);
    }
    // calls
    v.push(cat(&[k.clone()], &(0..12).map(|i| one(Long(i))).chain([one(AppPub { qos: 0, n: 1 })]).collect::<Vec<_>>()));
    v.push(vec![k.clone(), one(Many(300)), one(AppPub { qos: 0, n: 1 }), one(Sub { qos: 2, n: 3 })]);
    v.push(vec![k.clone(), one(CloneClient), one(CloneClient), all(vec![AppPub { qos: 1, n: 1 }, Sub { qos: 1, n: 2 }, Unsub(3), AppPub { qos: 0, n: 4 }, AppPub { qos: 2, n: 5 }]), one(DropOne), all(vec![AppPub { qos: 0, n: 6 }, AppDisc])]);
    v.push(vec![k.clone(), all(vec![AppPub { qos: 0, n: 1 }, AppPub { qos: 1, n: 2 }, DropClients]), one(Pub { qos: 1, n: 1, id: 1 })]);
    for n in 0..84 {
        if n % 3 == 0 {
            v.push(cat(&[k.clone()], &(n..n + 3).map(|n| all(vec![AppPub { qos: (n % 3) as u8, n }, Sub { qos: (n / 3 % 3) as u8, n }, Unsub(n)])).collect::<Vec<_>>()));
        }
    }
    // ids of QoS 1 messages
    for id in [1u16, 2, 255, 256, 257, 32768, 65535] {
        v.push(vec![k.clone(), one(Pub { qos: 1, n: 1, id }), one(Pub { qos: 1, n: 2, id }), all(vec![Pub { qos: 1, n: 3, id }, Pub { qos: 0, n: 4, id: 0 }, Pub { qos: 1, n: 5, id: 3 }])]);
    }
    // much is outstanding: acknowledgements, an answer to a PINGREQ
    let busy = |k: usize| -> Vec<Step> {
        let mut t = vec![];
        for i in 0..k {
            t.push(all(vec![AppPub { qos: 1, n: i }, AppPub { qos: 2, n: i }, Sub { qos: 1, n: i }, Unsub(i)]));
        }
        t.push(one(Pub { qos: 1, n: 1, id: 9 }));
        t.push(all(vec![Pub { qos: 0, n: 2, id: 0 }, Puback(Id::Of(0), 0, false), Suback(Id::Of(2), 0, 1), Unsuback(Id::Of(3), 0, 1)]));
        t.push(all(vec![AppPub { qos: 0, n: 3 }, Sub { qos: 0, n: 4 }, Unsub(5), AppPub { qos: 1, n: 6 }]));
        t.push(one(Pub { qos: 1, n: 7, id: 10 }));
        t
    };
    v.push(cat(&[k.clone()], &busy(10)));
    v.push(cat(&[k.clone(), one(Time(9000))], &busy(2)));
    if matches!(prop, "P23" | "P15" | "P14") {
        v.push(cat(&[k.clone()], &busy(300)));
        v.push(cat(&[k.clone(), one(Time(9000))], &busy(40)));
    }
    if matches!(prop, "P13" | "P18" | "P20") {
        let fill: Vec<Step> = (0..65535 / 85).map(|i| all((0..85).map(|j| match (i + j) % 3 {
            0 => Sub { qos: 0, n: 0 },
            1 => Unsub(0),
            _ => AppPub { qos: 1, n: 0 },
        }).collect())).collect();
        // 65535 = 771 * 85
        let twos: Vec<Step> = (0..65535 / 85).map(|_| all(vec![AppPub { qos: 2, n: 0 }; 85])).collect();
        v.push(cat(&cat(&[k.clone()], &twos), &[one(AppPub { qos: 0, n: 5 }), one(AppPub { qos: 2, n: 5 })]));
        v.push(cat(&cat(&[k.clone()], &twos), &[one(Sub { qos: 0, n: 5 })]));
        v.push(cat(&cat(&[k.clone()], &fill), &[one(Sub { qos: 0, n: 5 })]));
        v.push(cat(&cat(&[k.clone()], &fill), &[one(AppPub { qos: 0, n: 5 }), one(AppPub { qos: 2, n: 5 })]));
        v.push(cat(&cat(&[k.clone()], &fill), &[one(Suback(Id::Of(0), 0, 1)), one(Unsuback(Id::Of(1), 0, 1)), one(Puback(Id::Of(2), 0, false)), one(Puback(Id::Of(300), 0, false)),
            one(Sub { qos: 0, n: 1 }), one(AppPub { qos: 1, n: 2 }), one(AppPub { qos: 2, n: 2 }), one(Unsub(3))]));
        // every request answered in its turn, of each kind more than there are ids; some answers refuse, or nobody hears of them
        for (drop, codes) in [(true, [0u8, 0, 0]), (false, [0x80u8, 0x80, 0x80])] {
            let mut t = vec![k.clone()];
            if drop {
                t.push(one(DropNotif));
            }
            for i in 0..3 * (65535 / 85) + 3 {
                t.push(all((0..85).map(|j| match j % 3 {
                    0 => Sub { qos: 0, n: 0 },
                    1 => Unsub(0),
                    _ => AppPub { qos: 1, n: 0 },
                }).collect()));
                t.push(all((0..85).map(|j| match j % 3 {
                    0 => Suback(Id::Of(i * 85 + j), codes[0], 0),
                    1 => Unsuback(Id::Of(i * 85 + j), codes[1], 0),
                    _ => Puback(Id::Of(i * 85 + j), codes[2], false),
                }).collect()));
            }
            v.push(t);
        }
        // acknowledged in another order than published, all of it again and again
        if prop == "P13" {
            let mut t = vec![k.clone()];
            for i in 0..900 {
                t.push(all(vec![AppPub { qos: 1, n: 0 }; 85]));
                t.push(all((0..85).map(|j| Puback(Id::Of(i * 85 + (j * 37 + i) % 85), 0, false)).collect()));
            }
            v.push(t);
        }
    }
    v
}

fn random(r: &mut Rng) -> Vec<Step> {
    let mut v = vec![];
    if r.chance(1, 12) {
        v.push(one(AppPub { qos: r.below(3) as u8, n: r.below(100) }));
    }
    if r.chance(1, 30) {
        v.push(one(Time(1000 + r.below(9000) as u64)));
    }
    v.push(Step { acts: vec![Connack(0, r.chance(1, 2))], cut: r.below(3) });
    let mut reqs = 0usize;
    let n = 1 + r.below(14);
    let burst = r.below(3);
    let timey = r.chance(1, 3);
    let mut holds = false;
    for _ in 0..n {
        let k = if burst == 0 { 1 } else { 1 + r.below(if burst == 1 { 3 } else { 8 }) };
        let mut acts = vec![];
        // one side at a time: between the two the order is not fixed
        let side = r.below(20);
        if timey && r.chance(1, 2) {
            for _ in 0..1 + r.below(10) {
                v.push(one(Time(r.below(1000) as u64 + 1)));
            }
            if r.chance(2, 3) {
                v.push(one(Pingresp));
            }
            continue;
        }
        if side == 0 {
            acts.push(match r.below(7) {
                0 => CloneClient,
                1 => DropOne,
                2 => DropClients,
                3 => DropNotif,
                4 => Long(r.below(12)),
                5 if !holds => {
                    holds = true;
                    Hold
                }
                _ => {
                    holds = false;
                    Resume
                }
            });
        } else if side < 10 {
            for _ in 0..k {
                acts.push(match r.below(8) {
                    0..=2 => AppPub { qos: r.below(3) as u8, n: r.below(1000) },
                    3 => AppPub { qos: 1, n: r.below(1000) },
                    4 | 5 => Sub { qos: r.below(3) as u8, n: r.below(1000) },
                    _ => Unsub(r.below(1000)),
                });
                if !matches!(acts.last(), Some(AppPub { qos: 0, .. })) {
                    reqs += 1;
                }
            }
        } else {
            for _ in 0..k {
                let id = |r: &mut Rng| if reqs > 0 && r.chance(5, 6) { Id::Of(r.below(reqs)) } else { Id::Raw(1 + r.below(6) as u16) };
                if let (Some(Pub { qos: 1, n, id }), true) = (acts.last().cloned(), r.chance(1, 5)) {
                    // sent again
                    acts.push(Pub { qos: 1, n: if r.chance(1, 2) { n } else { n / 4 * 4 + 2 }, id });
                    continue;
                }
                acts.push(match r.below(10) {
                    0 | 1 => Pub { qos: 0, n: r.below(1000), id: 0 },
                    2..=4 => Pub { qos: 1, n: r.below(1000), id: if r.chance(1, 2) { 1 + r.below(5) as u16 } else { 1 + r.below(60000) as u16 } },
                    5 => Suback(id(r), *r.pick(&[0u8, 1, 2, 0x80, 0x87]), r.below(1000)),
                    6 => Unsuback(id(r), *r.pick(&[0u8, 0x11, 0x80]), r.below(1000)),
                    7 | 8 => Puback(id(r), *r.pick(&[0u8, 0, 0, 0x10, 0x97]), r.chance(1, 2)),
                    _ => Pingresp,
                });
            }
        }
        v.push(Step { acts, cut: if r.chance(1, 4) { 1 + r.below(7) } else { 0 } });
    }
    if r.chance(1, 2) {
        v.push(one(match r.below(8) {
            0 | 1 => AppDisc,
            2 => Disconnect(0, r.chance(1, 2)),
            3 => Disconnect(*r.pick(&[0x80u8, 0x8b, 0x8e, 0x98, 0x9c]), true),
            4 => Close,
            5 => Reset,
            6 => Bad(r.pick(&[vec![0u8, 0], vec![0x30, 1, 0], vec![0xc0, 0], vec![0x20, 0], vec![0x62, 2, 0, 1]]).clone()),
            _ => Pub { qos: 2, n: 1, id: 1 },
        }));
    }
    v
}

pub fn search(prop: &str, seed: u64, secs: f64) -> Search {
    let mut s = Search::new();
    let t0 = Instant::now();
    let hit = |f: &[Fail]| f.iter().find(|f| f.0.iter().any(|p| *p == prop)).cloned();
    let mut r = Rng::new(seed ^ 0x5e55);
    let mut fix = fixed(prop).into_iter();
    loop {
        let (steps, pre) = match fix.next() {
            Some(s) => (s, true),
            None => (random(&mut r), false),
        };
        if !pre && t0.elapsed().as_secs_f64() > secs {
            return s;
        }
        s.note(&show(&steps));
        if let Some(f) = hit(&watched(&steps, 90)) {
            // once more: what does not fail again is not reported
            let again = hit(&watched(&steps, 90));
            if again.is_none() {
                continue;
            }
            let (mut steps, mut f) = (steps, f);
            let t = Instant::now();
            'again: while t.elapsed() < Duration::from_secs(40) && steps.len() < 200 {
                for i in (0..steps.len()).rev() {
                    let mut d = steps.clone();
                    d.remove(i);
                    if let Some(g) = hit(&watched(&d, 90)) {
                        steps = d;
                        f = g;
                        continue 'again;
                    }
                    for j in (0..steps[i].acts.len()).rev() {
                        if steps[i].acts.len() > 1 {
                            let mut d = steps.clone();
                            d[i].acts.remove(j);
                            if let Some(g) = hit(&watched(&d, 90)) {
                                steps = d;
                                f = g;
                                continue 'again;
                            }
                        }
                    }
                }
                break;
            }
            s.found = Some(Found { case: show(&steps), what: f.1 });
            return s;
        }
    }
}

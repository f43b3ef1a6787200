//! The event loop from its first poll to the session's result, against real loopback sockets (P24).
use crate::rng::Rng;
use crate::{Found, Search};
use futures::StreamExt;
use ruq::{Client, Notification, PublishBuilder};
use std::io::{ErrorKind, Read, Write};
use std::net::{Ipv4Addr, SocketAddr, TcpListener, TcpStream};
use std::pin::Pin;
use std::time::{Duration, Instant};

const PATIENCE: Duration = Duration::from_secs(8);

#[derive(Clone, Copy, Debug, PartialEq)]
enum Addr {
    Sock,
    Text,
    Str,
    Pair,
    /// the first of two addresses refuses
    Second,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Outcome {
    /// nobody listens
    Refused,
    /// the broker closes at once
    Eof,
    /// the broker says no
    No,
    /// a session; then DISCONNECT from the broker
    Over,
    /// a session; then one from the application
    Bye,
    /// a session; then a reset
    Reset,
}
use Addr::*;
use Outcome::*;

#[derive(Clone, Copy, Debug)]
pub struct Case {
    addr: Addr,
    outcome: Outcome,
    /// commands given before the event loop is first polled
    queued: usize,
    /// the connection is not accepted by the kernel at first
    late: bool,
    /// polls nobody asked for
    extra: usize,
}

const ADDRS: [Addr; 5] = [Sock, Text, Str, Pair, Second];
const OUTCOMES: [Outcome; 6] = [Refused, Eof, No, Over, Bye, Reset];

pub fn show(c: &Case) -> String {
    format!("connect {:?} {:?} queued={} late={} extra={}", c.addr, c.outcome, c.queued, c.late as u8, c.extra)
}

pub fn read(s: &str) -> Option<Case> {
    let w: Vec<&str> = s.split_whitespace().collect();
    let num = |i: usize, k: &str| w.get(i).and_then(|x| x.strip_prefix(k)).and_then(|x| x.strip_prefix('=')).and_then(|x| x.parse::<usize>().ok());
    if w.first() != Some(&"connect") {
        return None;
    }
    Some(Case {
        addr: *ADDRS.iter().find(|a| format!("{:?}", a) == *w.get(1).unwrap_or(&""))?,
        outcome: *OUTCOMES.iter().find(|a| format!("{:?}", a) == *w.get(2).unwrap_or(&""))?,
        queued: num(3, "queued")?,
        late: num(4, "late")? > 0,
        extra: num(5, "extra")?,
    })
}

extern "C" {
    fn listen(fd: i32, n: i32) -> i32;
}

fn listener() -> TcpListener {
    static AT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    for k in 0..2000 {
        let n = AT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let ip = if k < 1000 { Ipv4Addr::new(127, 1 + (std::process::id() % 250) as u8, n as u8, 2) } else { Ipv4Addr::new(127, 0, 0, 1) };
        if let Ok(l) = TcpListener::bind((ip, 0)) {
            l.set_nonblocking(true).unwrap();
            return l;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    panic!("no loopback")
}

type Loop = Pin<Box<dyn std::future::Future<Output = Result<(), String>> + Send>>;
type Parts = (Client, Loop, futures::channel::mpsc::Receiver<Notification>);

macro_rules! client {
    ($a:expr) => {{
        let (c, e, n) = Client::new($a);
        let e: Loop = Box::pin(async move { e.await.map_err(|e| format!("{:#} / {:?}", e, e)) });
        (c, e, n)
    }};
}

async fn nap() {
    for _ in 0..3 {
        tokio::task::yield_now().await;
    }
    tokio::time::sleep(Duration::from_micros(300)).await;
}

struct Sock1 {
    s: TcpStream,
    buf: Vec<u8>,
    eof: bool,
}
impl Sock1 {
    fn pull(&mut self) {
        let mut b = [0u8; 4096];
        loop {
            match self.s.read(&mut b) {
                Ok(0) => self.eof = true,
                Ok(n) => {
                    self.buf.extend_from_slice(&b[..n]);
                    continue;
                }
                Err(e) if e.kind() == ErrorKind::WouldBlock => {}
                Err(_) => self.eof = true,
            }
            return;
        }
    }
    /// one whole packet
    fn packet(&mut self) -> Option<Vec<u8>> {
        self.pull();
        let n = *self.buf.get(1)? as usize;
        assert!(n < 128);
        if self.buf.len() < n + 2 {
            return None;
        }
        Some(self.buf.drain(..n + 2).collect())
    }
}

async fn go(c: Case) -> Result<(), String> {
    let lis = listener();
    let at = lis.local_addr().unwrap();
    let dead: SocketAddr = {
        let l = listener();
        l.local_addr().unwrap()
    };
    let mut fill = vec![];
    if c.late {
        use std::os::unix::io::AsRawFd;
        unsafe { listen(lis.as_raw_fd(), 0) };
        // one connection is enough to fill a backlog of 0
        fill.push(TcpStream::connect(at).map_err(|e| e.to_string()).unwrap());
    }
    let target = if c.outcome == Refused { dead } else { at };
    let leak = |s: String| -> &'static str { Box::leak(s.into_boxed_str()) };
    let (mut client, mut evloop, mut notes): Parts = match c.addr {
        Sock => client!(target),
        Text => client!(target.to_string()),
        Str => client!(leak(target.to_string())),
        Pair => client!((leak(target.ip().to_string()), target.port())),
        Second => client!(&Box::leak(vec![dead, target].into_boxed_slice())[..]),
    };
    for i in 0..c.queued {
        client.publish(PublishBuilder::from_str("q", &i.to_string())).map_err(|e| format!("publish before the connection: {:?}", e))?;
    }
    // polls nobody asked for
    let nudge = std::sync::Arc::new(futures::task::AtomicWaker::new());
    let left = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(c.extra));
    let (n2, l2) = (nudge.clone(), left.clone());
    let ev = tokio::spawn(futures::future::poll_fn(move |cx| {
        if l2.load(std::sync::atomic::Ordering::Relaxed) > 0 {
            n2.register(cx.waker());
        }
        evloop.as_mut().poll(cx)
    }));
    let poke = || {
        if left.load(std::sync::atomic::Ordering::Relaxed) > 0 {
            left.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
            nudge.wake();
        }
    };
    let finish = |ev: tokio::task::JoinHandle<Result<(), String>>, what: &'static str| async move {
        match tokio::time::timeout(PATIENCE, ev).await {
            Err(_) => Err(format!("{}: the event loop does not end", what)),
            Ok(Err(e)) => Err(format!("{}: the event loop panics or is cancelled: {}", what, e)),
            Ok(Ok(r)) => Ok(r),
        }
    };
    if c.outcome == Refused {
        for _ in 0..c.extra.min(20) {
            poke();
            tokio::task::yield_now().await;
        }
        return match finish(ev, "the connection is refused").await? {
            Ok(()) => Err("the connection is refused, and the event loop ends with success".into()),
            Err(e) if e.to_lowercase().contains("refused") => Ok(()),
            Err(e) => Err(format!("the connection is refused, and the event loop's error does not say so: {}", e)),
        };
    }
    let t = Instant::now();
    if c.late {
        while t.elapsed() < Duration::from_millis(60) {
            poke();
            nap().await;
            if ev.is_finished() {
                return Err(format!("the event loop ends ({:?}) while it connects", finish(ev, "").await?));
            }
        }
        let l = Instant::now();
        loop {
            match lis.accept() {
                Ok(_) => break,
                Err(_) if l.elapsed() < PATIENCE => nap().await,
                Err(e) => panic!("accept: {}", e),
            }
        }
        fill.clear();
    }
    let mut s = loop {
        poke();
        match lis.accept() {
            Ok((s, _)) => {
                s.set_nonblocking(true).unwrap();
                let _ = s.set_nodelay(true);
                break Sock1 { s, buf: vec![], eof: false };
            }
            Err(_) if t.elapsed() < PATIENCE => nap().await,
            Err(_) => return Err("the client does not connect".into()),
        }
    };
    let t = Instant::now();
    loop {
        if let Some(p) = s.packet() {
            if p[0] != 0x10 {
                return Err(format!("the first packet on the connection is {:02x?}, not CONNECT", p));
            }
            break;
        }
        if t.elapsed() > PATIENCE || s.eof || ev.is_finished() {
            return Err(format!("connected, and no CONNECT is sent (closed: {}, ended: {})", s.eof, ev.is_finished()));
        }
        poke();
        nap().await;
    }
    let quick = Instant::now();
    while quick.elapsed() < Duration::from_millis(2) {
        poke();
        nap().await;
    }
    s.pull();
    if !s.buf.is_empty() {
        return Err(format!("before CONNACK the client sends more than CONNECT: {:02x?}", s.buf));
    }
    let more = |lis: &TcpListener| match lis.accept() {
        Ok(_) => Err("the client connects more than once".to_string()),
        Err(_) => Ok(()),
    };
    more(&lis)?;
    match c.outcome {
        Eof => {
            drop(s);
            return match finish(ev, "the broker closes the connection").await? {
                Ok(()) => Err("the broker closes the connection before CONNACK, and the event loop ends with success".into()),
                Err(_) => more(&lis),
            };
        }
        No => {
            let _ = s.s.write_all(&[0x20, 3, 0, 0x87, 0]);
            return match finish(ev, "the broker refuses").await? {
                Ok(()) => Err("the broker refuses the session, and the event loop ends with success".into()),
                Err(_) => more(&lis),
            };
        }
        _ => {}
    }
    let _ = s.s.write_all(&[0x20, 3, 0, 0, 0]);
    // what was asked for before the connection is sent now, on this connection
    let t = Instant::now();
    let mut got = 0;
    while got < c.queued {
        if let Some(p) = s.packet() {
            let want = format!("{}", got);
            if p[0] != 0x30 || !p.ends_with(want.as_bytes()) {
                return Err(format!("publish {} was asked for before the connection, and the client sends {:02x?}", got, p));
            }
            got += 1;
            continue;
        }
        if t.elapsed() > PATIENCE || s.eof || ev.is_finished() {
            return Err(format!("{} commands given before the connection, and {} packets sent for them", c.queued, got));
        }
        poke();
        nap().await;
    }
    // what comes in reaches the application
    let _ = s.s.write_all(&[0x30, 5, 0, 1, b't', 0, b'x']);
    let t = Instant::now();
    loop {
        match futures::FutureExt::now_or_never(notes.next()) {
            Some(Some(Notification::Message(_))) => break,
            Some(Some(_)) => continue,
            Some(None) => return Err("the notification channel ends while the session runs".into()),
            None => {}
        }
        if t.elapsed() > PATIENCE || ev.is_finished() {
            return Err("a PUBLISH from the broker does not reach the application".into());
        }
        poke();
        nap().await;
    }
    more(&lis)?;
    match c.outcome {
        Over => {
            let _ = s.s.write_all(&[0xe0, 2, 0, 0]);
            match finish(ev, "DISCONNECT (normal) from the broker").await? {
                Ok(()) => more(&lis),
                Err(e) => Err(format!("DISCONNECT (normal) from the broker, and the event loop ends with an error: {}", e)),
            }
        }
        Bye => {
            client.disconnect().map_err(|e| format!("disconnect: {:?}", e))?;
            match finish(ev, "the application disconnects").await? {
                Ok(()) => more(&lis),
                Err(e) => Err(format!("the application disconnects, and the event loop ends with an error: {}", e)),
            }
        }
        _ => {
            let l = [1i32, 0];
            super::session::option(&s.s, 1, 13, l.as_ptr(), 8);
            drop(s);
            match finish(ev, "the connection is reset").await? {
                Ok(()) => Err("the connection is reset, and the event loop ends with success".into()),
                Err(_) => more(&lis),
            }
        }
    }
}

pub fn run(c: &Case) -> Result<(), String> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let c = *c;
    let all = std::panic::AssertUnwindSafe(|| rt.block_on(async { tokio::time::timeout(Duration::from_secs(60), go(c)).await }));
    match std::panic::catch_unwind(all) {
        Ok(Ok(r)) => r,
        Ok(Err(_)) => Err("the scenario does not end".into()),
        Err(_) => Err("panic".into()),
    }
}

pub fn search(seed: u64, secs: f64) -> Search {
    let mut s = Search::new();
    let mut r = Rng::new(seed ^ 0xc0);
    let t = Instant::now();
    let mut todo = vec![];
    for outcome in OUTCOMES {
        for addr in ADDRS {
            todo.push(Case { addr, outcome, queued: todo.len() % 3, late: false, extra: todo.len() % 4 * 10 });
        }
    }
    for late in [(Over, 3, 0), (No, 0, 50), (Bye, 20, 7)] {
        todo.push(Case { addr: Sock, outcome: late.0, queued: late.1, late: true, extra: late.2 });
    }
    let n = todo.len();
    for i in 0.. {
        let c = todo.get(i).copied().unwrap_or_else(|| Case {
            addr: ADDRS[r.below(5) as usize],
            outcome: OUTCOMES[r.below(6) as usize],
            queued: [0, 1, 5, 60][r.below(4) as usize],
            late: r.below(40) == 0,
            extra: [0, 0, 3, 100][r.below(4) as usize],
        });
        if i >= n && t.elapsed().as_secs_f64() > secs {
            break;
        }
        s.note(&show(&c));
        if let Err(e) = run(&c) {
            // once more: what does not fail again is not reported
            if run(&c).is_err() {
                s.found = Some(Found { case: show(&c), what: e });
                break;
            }
        }
    }
    s
}

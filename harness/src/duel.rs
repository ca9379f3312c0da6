//! Pairs of operations on what two owners of one connection hold, done by two threads at the
//! same moment, thousands of times: the windows that whole exchanges on a pool rarely hit.
use crate::rng::Rng;
use bytes::Bytes;
use http_body::Body;
use http_body_util::{Empty, Full};
use hyper::body::Incoming;
use hyper::rt::{Read, ReadBufCursor, Write};
use hyper::{Request, Response};
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

/// Counts the wakes of one future.
#[derive(Default)]
pub struct Woken(AtomicBool);
impl Wake for Woken {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Release);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Release);
    }
}
/// A future that is polled only after it was woken.
pub struct Fut<T> {
    f: Option<Pin<Box<dyn Future<Output = T> + Send>>>,
    w: Arc<Woken>,
    pub out: Option<T>,
}
impl<T> Fut<T> {
    pub fn new(f: impl Future<Output = T> + Send + 'static) -> Fut<T> {
        let w = Arc::new(Woken::default());
        w.0.store(true, Relaxed);
        Fut { f: Some(Box::pin(f)), w, out: None }
    }
    /// Polls while woken; whether it is done.
    pub fn run(&mut self) -> bool {
        while self.out.is_none() && self.w.0.swap(false, AcqRel) {
            self.poke();
        }
        self.out.is_some()
    }
    /// Polls whether woken or not.
    pub fn poke(&mut self) -> bool {
        if self.out.is_none() {
            let w = Waker::from(self.w.clone());
            if let Some(f) = self.f.as_mut() {
                if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) {
                    self.out = Some(x);
                    self.f = None;
                }
            }
        }
        self.out.is_some()
    }
    pub fn take(&mut self) -> Option<T> {
        self.out.take()
    }
}

#[derive(Default)]
struct IoSt {
    input: VecDeque<Vec<u8>>,
    eof: bool,
    out: Vec<u8>,
}
/// A transport that never wakes anybody: what there is to read is there before the poll.
#[derive(Clone, Default)]
pub struct DIo(Arc<Mutex<IoSt>>);
impl DIo {
    pub fn feed(&self, b: &[u8]) {
        self.0.lock().unwrap().input.push_back(b.to_vec());
    }
    pub fn eof(&self) {
        self.0.lock().unwrap().eof = true;
    }
}
impl Read for DIo {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, mut buf: ReadBufCursor<'_>) -> Poll<io::Result<()>> {
        let mut s = self.0.lock().unwrap();
        match s.input.pop_front() {
            Some(mut v) => {
                if v.len() > buf.remaining() {
                    let rest = v.split_off(buf.remaining());
                    s.input.push_front(rest);
                }
                buf.put_slice(&v);
                Poll::Ready(Ok(()))
            }
            None if s.eof => Poll::Ready(Ok(())),
            None => Poll::Pending,
        }
    }
}
impl Write for DIo {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        self.0.lock().unwrap().out.extend_from_slice(b);
        Poll::Ready(Ok(b.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

type Op = Box<dyn FnOnce() + Send>;
type Judge = Box<dyn FnOnce() -> Option<String>>;
/// Two operations and what must hold when both are over.
pub struct Round {
    a: Op,
    b: Op,
    judge: Judge,
}

type Kept = Pin<Box<dyn Future<Output = ()> + Send>>;
#[derive(Clone, Default)]
pub struct Keep(Arc<Mutex<Vec<Kept>>>);
impl Keep {
    pub fn take(&self) -> Vec<Kept> {
        std::mem::take(&mut *self.0.lock().unwrap())
    }
}
impl<F: Future + Send + 'static> hyper::rt::Executor<F> for Keep {
    fn execute(&self, f: F) {
        self.0.lock().unwrap().push(Box::pin(async move {
            f.await;
        }));
    }
}

fn spin_until(x: &AtomicU64, v: u64) {
    let mut n = 0u32;
    while x.load(Acquire) != v {
        n += 1;
        if n > 2000 || cfg!(miri) {
            std::thread::yield_now();
        } else {
            std::hint::spin_loop();
        }
    }
}

pub const NAMES: &[&str] = &["h1 send / drop", "h2 send / drop", "h1 sender drop / poll", "h1 ready / poll", "h1 ready / drop", "response drop / poll", "upgrade / poll", "upgrade / drop", "body read / poll", "body drop / poll", "body read / drop", "service body / first poll"];

fn h1<B: Body<Data = Bytes> + Send + 'static>(io: &DIo) -> (hyper::client::conn::http1::SendRequest<B>, hyper::client::conn::http1::Connection<DIo, B>)
where
    B::Error: Into<Box<dyn std::error::Error + Send + Sync>>,
{
    let mut f = Fut::new(hyper::client::conn::http1::handshake::<_, B>(io.clone()));
    f.poke();
    f.take().expect("handshake").expect("handshake")
}

/// The response, or whether the request came back with the error (None if it cannot).
type Ask = Result<Response<Incoming>, Option<bool>>;
type Rq = Request<Full<Bytes>>;
fn req() -> Rq {
    Request::new(Full::new(Bytes::from_static(b"body")))
}
macro_rules! ask {
    ($tx:expr, $tryit:expr) => {
        if $tryit {
            let f = $tx.try_send_request(req());
            Fut::new(async move { f.await.map_err(|mut e| Some(e.take_message().is_some())) }) as Fut<Ask>
        } else {
            let f = $tx.send_request(req());
            Fut::new(async move { f.await.map_err(|_| None) })
        }
    };
}
/// A future must be done once both operations are over, without being polled unasked.
fn settle<T>(f: &mut Fut<T>, what: &str) -> Option<String> {
    if f.run() {
        return None;
    }
    Some(format!("{what}: {}", if f.poke() { "could go on, but was not woken" } else { "left waiting" }))
}
struct Asked {
    io: DIo,
    tx: hyper::client::conn::http1::SendRequest<Full<Bytes>>,
    conn: Fut<Result<(), String>>,
    fut: Fut<Ask>,
}
/// a connection whose only request was sent
fn asked() -> Asked {
    let io = DIo::default();
    let (mut tx, conn) = h1::<Full<Bytes>>(&io);
    let mut fut = ask!(tx, true);
    fut.poke();
    let mut conn = Fut::new(async move { conn.with_upgrades().await.map_err(|e| format!("{e:?}")) });
    conn.run();
    Asked { io, tx, conn, fut }
}
/// reads a body; whether it ended well, and how much there was
fn reading(mut b: Incoming) -> Fut<(bool, Vec<u8>)> {
    Fut::new(async move {
        let mut v = vec![];
        loop {
            match std::future::poll_fn(|cx| Pin::new(&mut b).poll_frame(cx)).await {
                Some(Ok(f)) => {
                    if let Ok(d) = f.into_data() {
                        v.extend_from_slice(&d);
                    }
                }
                Some(Err(_)) => return (false, v),
                None => return (true, v),
            }
        }
    })
}
type Cell<T> = Arc<Mutex<Option<T>>>;
fn cell<T>() -> Cell<T> {
    Arc::new(Mutex::new(None))
}
fn put<T>(c: &Cell<T>, t: T) {
    *c.lock().unwrap() = Some(t);
}
fn got<T>(c: &Cell<T>) -> T {
    c.lock().unwrap().take().expect("the operation ran")
}
fn both(v: Option<String>, w: Option<String>) -> Option<String> {
    match (v, w) {
        (Some(a), Some(b)) => Some(format!("{a}; {b}")),
        (a, b) => a.or(b),
    }
}

type UpFut = Fut<hyper::Result<hyper::upgrade::Upgraded>>;
/// a server connection that has called its service, which accepts an upgrade once `go` is set
fn upgrading() -> (DIo, Arc<AtomicBool>, Fut<Result<(), String>>, UpFut) {
    upgrading_with("")
}
fn upgrading_with(rest: &str) -> (DIo, Arc<AtomicBool>, Fut<Result<(), String>>, UpFut) {
    let io = DIo::default();
    io.feed(format!("GET / HTTP/1.1\r\nhost: a\r\nconnection: upgrade\r\nupgrade: x\r\n\r\n{rest}").as_bytes());
    let go = Arc::new(AtomicBool::new(false));
    let on = cell();
    let (g2, on2) = (go.clone(), on.clone());
    let svc = hyper::service::service_fn(move |rq: Request<Incoming>| {
        put(&on2, hyper::upgrade::on(rq));
        let go = g2.clone();
        async move {
            std::future::poll_fn(move |_| if go.load(Acquire) { Poll::Ready(()) } else { Poll::Pending }).await;
            let mut rs = Response::new(Empty::<Bytes>::new());
            *rs.status_mut() = http::StatusCode::SWITCHING_PROTOCOLS;
            Ok::<_, std::convert::Infallible>(rs)
        }
    });
    let conn = hyper::server::conn::http1::Builder::new().serve_connection(io.clone(), svc).with_upgrades();
    let mut conn = Fut::new(async move { conn.await.map_err(|e| format!("{e:?}")) });
    conn.run();
    let on = got(&on);
    (io, go, conn, Fut::new(on))
}

pub fn round(kind: usize, r: &mut Rng) -> Round {
    let tryit = r.pct(50);
    match kind {
        0 | 1 => {
            let io = DIo::default();
            let res = cell();
            let res2 = res.clone();
            let (a, b): (Op, Op) = if kind == 0 {
                let (mut tx, conn) = h1::<Full<Bytes>>(&io);
                (
                    Box::new(move || {
                        let mut f = ask!(tx, tryit);
                        f.poke();
                        put(&res2, (f, Box::new(tx) as Box<dyn Send>));
                    }),
                    Box::new(move || drop(conn)),
                )
            } else {
                let ex = Keep::default();
                let mut hs = Fut::new(hyper::client::conn::http2::Builder::new(ex.clone()).handshake::<_, Full<Bytes>>(io.clone()));
                hs.poke();
                let (mut tx, conn) = hs.take().expect("handshake").expect("handshake");
                (
                    Box::new(move || {
                        let mut f = ask!(tx, tryit);
                        f.poke();
                        put(&res2, (f, Box::new(tx) as Box<dyn Send>));
                    }),
                    Box::new(move || {
                        drop(conn);
                        ex.0.lock().unwrap().clear();
                    }),
                )
            };
            Round {
                a,
                b,
                judge: Box::new(move || {
                    let (mut f, _tx) = got(&res);
                    let v = settle(&mut f, "caller");
                    match f.take() {
                        Some(Ok(_)) => Some("a response from nowhere".into()),
                        Some(Err(Some(false))) => both(v, Some("the request was not handed back though it was never sent".into())),
                        _ => v,
                    }
                }),
            }
        }
        // the last sender goes away while its connection is polled
        2 => {
            let io = DIo::default();
            let (tx, conn) = h1::<Full<Bytes>>(&io);
            let mut conn = Fut::new(conn);
            if r.pct(50) {
                conn.run();
            }
            let c = cell();
            let c2 = c.clone();
            Round {
                a: Box::new(move || drop(tx)),
                b: Box::new(move || {
                    conn.poke();
                    put(&c2, conn);
                }),
                judge: Box::new(move || settle(&mut got(&c), "connection without senders")),
            }
        }
        // waiting for readiness while the connection gets ready
        3 | 4 => {
            let drops = kind == 4;
            // (fresh, or with an exchange that is just being completed)
            let busy = r.pct(50);
            let x = if busy {
                asked()
            } else {
                let io = DIo::default();
                let (tx, conn) = h1::<Full<Bytes>>(&io);
                let conn = Fut::new(async move { conn.with_upgrades().await.map_err(|e| format!("{e:?}")) });
                Asked { io, tx, conn, fut: Fut::new(async { Err(None) }) }
            };
            if !drops && busy {
                x.io.feed(b"HTTP/1.1 200 OK\r\ncontent-length: 0\r\n\r\n");
            }
            let Asked { io, mut tx, mut conn, fut } = x;
            let (c, t) = (cell(), cell());
            let (c2, t2) = (c.clone(), t.clone());
            Round {
                a: Box::new(move || {
                    let mut f = Fut::new(async move {
                        let r = tx.ready().await.is_ok();
                        (r, tx)
                    });
                    f.poke();
                    put(&t2, f);
                }),
                b: Box::new(move || {
                    if drops {
                        drop(conn);
                    } else {
                        conn.poke();
                        put(&c2, conn);
                    }
                }),
                judge: Box::new(move || {
                    let _keep = (io, fut);
                    let mut conn = (!drops).then(|| got(&c));
                    if let Some(c) = conn.as_mut() {
                        c.run();
                    }
                    let mut t = got(&t);
                    let v = settle(&mut t, "waiting to be ready");
                    let ok = t.out.as_ref().map(|x| x.0);
                    both(v, (ok == Some(drops)).then(|| format!("ready() gave {ok:?}, connection {:?}", conn.map(|c| c.out))))
                }),
            }
        }
        // the caller loses interest while its connection is polled
        5 => {
            let Asked { io, tx, mut conn, fut } = asked();
            if r.pct(50) {
                io.feed(b"HTTP/1.1 200 OK\r\ncontent-length: 3\r\n\r\n");
            }
            let c = cell();
            let c2 = c.clone();
            Round {
                a: Box::new(move || drop(fut)),
                b: Box::new(move || {
                    conn.poke();
                    put(&c2, conn);
                }),
                judge: Box::new(move || {
                    let mut c = got(&c);
                    c.run();
                    drop(tx);
                    io.eof();
                    c.poke();
                    settle(&mut c, "connection whose caller has gone")
                }),
            }
        }
        // an upgrade is awaited while it comes about, or while the connection is dropped
        6 | 7 => {
            let drops = kind == 7;
            let (io, go, mut conn, mut on) = upgrading();
            if r.pct(30) {
                on.poke();
            }
            let (c, o) = (cell(), cell());
            let (c2, o2) = (c.clone(), o.clone());
            Round {
                a: Box::new(move || {
                    on.poke();
                    put(&o2, on);
                }),
                b: Box::new(move || {
                    if drops {
                        drop(conn);
                    } else {
                        go.store(true, Release);
                        conn.poke();
                        put(&c2, conn);
                    }
                }),
                judge: Box::new(move || {
                    let mut conn = (!drops).then(|| got(&c));
                    let w = conn.as_mut().and_then(|c| settle(c, "connection that was upgraded"));
                    let mut o = got(&o);
                    let v = settle(&mut o, "upgrade");
                    let ok = o.out.as_ref().map(|x| x.is_ok());
                    let _io = io;
                    both(both(v, w), (ok == Some(drops)).then(|| format!("upgrade ok: {ok:?}, connection {:?}", conn.map(|c| c.out))))
                }),
            }
        }
        // a body that is read, or dropped, while more of it arrives or the connection goes
        8 | 9 | 10 => {
            let Asked { io, tx, mut conn, mut fut } = asked();
            let n = r.range(1, 4);
            let parts: Vec<Vec<u8>> = (0..n).map(|i| vec![b'a' + i as u8; r.range(1, 40)]).collect();
            let all = parts.concat();
            let chunked = r.pct(50);
            let head = if chunked { "transfer-encoding: chunked".to_string() } else { format!("content-length: {}", all.len()) };
            io.feed(format!("HTTP/1.1 200 OK\r\n{head}\r\n\r\n").as_bytes());
            conn.poke();
            fut.run();
            let body = fut.take().expect("response").expect("response").into_body();
            let at = r.range(0, n);
            let frame = |p: &[u8]| if chunked { [format!("{:x}\r\n", p.len()).as_bytes(), p, b"\r\n"].concat() } else { p.to_vec() };
            for (i, p) in parts.iter().enumerate() {
                if i == at {
                    conn.poke();
                }
                io.feed(&frame(p));
            }
            if chunked {
                io.feed(b"0\r\n\r\n");
            }
            let mut rd = reading(body);
            if r.pct(50) {
                rd.poke();
            }
            let (c, b) = (cell(), cell());
            let (c2, b2) = (c.clone(), b.clone());
            Round {
                a: Box::new(move || {
                    if kind == 9 {
                        drop(rd);
                    } else {
                        rd.run();
                        put(&b2, rd);
                    }
                }),
                b: Box::new(move || {
                    if kind == 10 {
                        drop(conn);
                    } else {
                        conn.poke();
                        put(&c2, conn);
                    }
                }),
                judge: Box::new(move || match kind {
                    8 => {
                        let (mut c, mut rd) = (got(&c), got(&b));
                        while c.w.0.load(Acquire) && c.out.is_none() || rd.w.0.load(Acquire) && rd.out.is_none() {
                            c.run();
                            rd.run();
                        }
                        let v = settle(&mut rd, "body");
                        let bad = rd.out.as_ref().filter(|x| !x.0 || x.1 != all).map(|x| format!("body ended {} with {:?} of {:?}; connection {:?}", x.0, x.1.len(), all.len(), c.out));
                        drop(tx);
                        io.eof();
                        c.poke();
                        both(both(v, bad), settle(&mut c, "connection"))
                    }
                    9 => {
                        let mut c = got(&c);
                        c.run();
                        drop(tx);
                        io.eof();
                        c.poke();
                        settle(&mut c, "connection whose body was dropped")
                    }
                    _ => {
                        let mut rd = got(&b);
                        let v = settle(&mut rd, "body of a dropped connection");
                        both(v, rd.out.as_ref().filter(|x| !all.starts_with(&x.1) || x.0 && x.1 != all).map(|x| format!("body ended {} with {:?} of {all:?}", x.0, x.1)))
                    }
                }),
            }
        }
        // a service's body is read by somebody else while the poll that made it goes on
        11 => {
            let io = DIo::default();
            let expect = r.pct(75);
            let n = r.range(1, 3);
            let all: Vec<u8> = r.bytes(n * 7);
            let mut head = format!("POST / HTTP/1.1\r\nhost: a\r\ncontent-length: {}\r\n", all.len());
            if expect {
                head += "expect: 100-continue\r\n";
            }
            io.feed(format!("{head}\r\n").as_bytes());
            let at = r.range(0, all.len());
            for p in [&all[..at], &all[at..]] {
                if !p.is_empty() {
                    io.feed(p);
                }
            }
            let body: Cell<Incoming> = cell();
            let there = Arc::new(AtomicBool::new(false));
            let (go, body2, there2) = (Arc::new(AtomicBool::new(false)), body.clone(), there.clone());
            let go2 = go.clone();
            let svc = hyper::service::service_fn(move |rq: Request<Incoming>| {
                put(&body2, rq.into_body());
                there2.store(true, Release);
                let go = go2.clone();
                async move {
                    std::future::poll_fn(move |_| if go.load(Acquire) { Poll::Ready(()) } else { Poll::Pending }).await;
                    Ok::<_, std::convert::Infallible>(Response::new(Empty::<Bytes>::new()))
                }
            });
            let conn = hyper::server::conn::http1::Builder::new().serve_connection(io.clone(), svc);
            let mut conn = Fut::new(async move { conn.await.map_err(|e| format!("{e:?}")) });
            let top = *r.pick(&[1usize, 20, 100, 400]);
            let wait = r.below(top);
            let (c, b) = (cell(), cell());
            let (c2, b2) = (c.clone(), b.clone());
            Round {
                a: Box::new(move || {
                    let mut n = 0u32;
                    while !there.load(Acquire) {
                        n += 1;
                        if n > 100_000 || cfg!(miri) {
                            std::thread::yield_now();
                        } else {
                            std::hint::spin_loop();
                        }
                    }
                    for _ in 0..wait {
                        std::hint::spin_loop();
                    }
                    let mut rd = reading(got(&body));
                    rd.run();
                    put(&b2, rd);
                }),
                b: Box::new(move || {
                    conn.run();
                    put(&c2, conn);
                }),
                judge: Box::new(move || {
                    let (mut c, mut rd) = (got(&c), got(&b));
                    while c.w.0.load(Acquire) && c.out.is_none() || rd.w.0.load(Acquire) && rd.out.is_none() {
                        c.run();
                        rd.run();
                    }
                    let mut v = None;
                    if rd.out.is_none() {
                        c.poke();
                        rd.run();
                        v = Some(format!("the body {}", if rd.out.is_some() { "could go on, but the connection was not woken" } else { "is left waiting" }));
                    }
                    let bad = rd.out.as_ref().filter(|x| !x.0 || x.1 != all).map(|x| format!("body ended {} with {:?} of {:?}; connection {:?}", x.0, x.1.len(), all.len(), c.out));
                    go.store(true, Release);
                    io.eof();
                    c.poke();
                    both(both(v, bad), settle(&mut c, "connection"))
                }),
            }
        }
        _ => unreachable!(),
    }
}
pub const KINDS: usize = 12;

/// Runs n rounds; returns (what went wrong, a digest of who was first in each).
pub fn duel(kind: usize, seed: u64, n: u64) -> (Vec<String>, u64, u64) {
    let mut r = Rng::new(seed);
    let slot: Arc<Mutex<Option<Op>>> = Default::default();
    let (go, done) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)));
    let panicked: Arc<Mutex<Option<(String, String)>>> = Default::default();
    let order = Arc::new(AtomicU64::new(0));
    let spread = *r.pick(&[0usize, 30, 300, 2000]);
    let h = {
        let (slot, go, done, panicked, order) = (slot.clone(), go.clone(), done.clone(), panicked.clone(), order.clone());
        let mut r = r.fork();
        std::thread::spawn(move || {
            for i in 1..=n {
                spin_until(&go, i);
                let op = slot.lock().unwrap().take();
                for _ in 0..r.below(spread + 1) {
                    std::hint::spin_loop();
                }
                order.fetch_add(1, Relaxed);
                if let Some(op) = op {
                    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(op)).is_err() {
                        *panicked.lock().unwrap() = crate::report::take_panic();
                    }
                }
                done.store(i, Release);
            }
        })
    };
    let (mut bad, mut sig, mut first) = (vec![], seed, 0);
    for i in 1..=n {
        let rd = round(kind, &mut r);
        *slot.lock().unwrap() = Some(rd.b);
        go.store(i, Release);
        for _ in 0..r.below(spread + 1) + 20 {
            std::hint::spin_loop();
        }
        let o = order.load(Relaxed);
        (rd.a)();
        let o2 = order.load(Relaxed);
        spin_until(&done, i);
        sig = crate::rng::mix(sig, (o == i) as u64 * 2 + (o2 == i) as u64);
        first += (o != i) as u64;
        if let Some((loc, msg)) = panicked.lock().unwrap().take() {
            bad.push(format!("{}: panic at {loc}: {msg}", NAMES[kind]));
        }
        if let Some(v) = (rd.judge)() {
            bad.push(format!("{}: {v}", NAMES[kind]));
        }
        if bad.len() > 3 {
            // (lets the other thread go)
            for j in i + 1..=n {
                go.store(j, Release);
                spin_until(&done, j);
            }
            break;
        }
    }
    let _ = h.join();
    (bad, sig, first)
}

/// A server connection upgraded with these bytes already read.
pub fn upgraded(rest: &str) -> hyper::upgrade::Upgraded {
    let (io, go, mut conn, mut on) = upgrading_with(rest);
    let _ = io;
    go.store(true, Release);
    conn.poke();
    on.poke();
    on.take().expect("upgrade").expect("upgrade")
}
/// a transport that none of these connections has
pub struct Other(#[allow(dead_code)] u64);
impl Read for Other {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, _: ReadBufCursor<'_>) -> Poll<io::Result<()>> {
        Poll::Pending
    }
}
impl Write for Other {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, _: &[u8]) -> Poll<io::Result<usize>> {
        Poll::Pending
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Pending
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Pending
    }
}
impl DIo {
    pub fn written(&self) -> Vec<u8> {
        self.0.lock().unwrap().out.clone()
    }
    pub fn was_upgraded(&self) -> bool {
        self.0.lock().unwrap().out.starts_with(b"HTTP/1.1 101 ")
    }
}

//! C24: connection, senders, bodies, tunnels and spawned tasks on real threads, built with
//! ThreadSanitizer (and run under Miri).
use crate::mt::*;
use crate::report::*;
use crate::rng::{mix, Rng};
use bytes::Bytes;
use http_body::{Body, Frame};
use http_body_util::{BodyExt, Either, Full};
use hyper::body::Incoming;
use hyper::{Request, Response};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::task::Poll;

pub const CHECK: Check = Check {
    id: "C24",
    level: "exploration",
    rule: "a case is one HTTP/1 or HTTP/2 client-server pair on 2-5 worker threads with 1-8 exchanges and tunnels, every connection, caller, handler, body feeder and reader a task of its own that moves between threads at every wake, dawdling wakers and transports; half undisturbed (every exchange must complete), half with a shutdown, cancellation, cut or killed connection; or some hundred duels of one kind: two operations on what two owners of a connection hold, made by two threads at the same moment; distinct = distinct orders of completion and numbers of polls with at least one exchange completed",
    quick: 2200,
    thorough: 120_000,
    run: case,
    assumptions: &["the workers' queues and the transport are trusted", "schedules are those that 8 cores and random delays in wakers, bodies and transports produce, not all"],
};

type MBody = Either<FedBody, Full<Bytes>>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Take {
    Inline,
    Spawned,
    Early,
    Drop,
}
#[derive(Clone, Debug)]
struct Plan {
    id: u64,
    req_len: usize,
    req_exact: bool,
    req_fed: bool,
    resp_len: usize,
    resp_exact: bool,
    resp_fed: bool,
    trailers: bool,
    take: Take,
    expect: bool,
    tunnel: bool,
    up: usize,
    down: usize,
    other: bool,
    try_send: bool,
    dawdle: u32,
}
#[derive(Clone, Debug, PartialEq)]
enum End {
    Clean,
    Err(String),
}
#[derive(Clone, Debug)]
struct Read {
    n: usize,
    prefix: bool,
    end: End,
    trailers: bool,
}
#[derive(Default, Debug)]
struct Rec {
    calls: u32,
    head: Option<Result<(), String>>,
    req: Option<Read>,
    resp: Option<Read>,
    /// what each end of the tunnel read
    up: Option<Read>,
    down: Option<Read>,
    odd: Vec<String>,
    stamps: Vec<(u8, u64)>,
    unsent: bool,
}
struct Shared {
    plans: Vec<Plan>,
    recs: Vec<Mutex<Rec>>,
    clock: AtomicU64,
    handles: Mutex<Vec<Handle>>,
    h2: bool,
    known: Flag,
}
struct Known(Flag);
impl Drop for Known {
    fn drop(&mut self) {
        self.0.set()
    }
}
impl Shared {
    fn rec(&self, i: usize, k: u8, f: impl FnOnce(&mut Rec)) {
        let t = self.clock.fetch_add(1, Relaxed);
        let mut g = self.recs[i].lock().unwrap();
        g.stamps.push((k, t));
        f(&mut g);
    }
    fn own(&self, h: Handle) {
        self.handles.lock().unwrap().push(h);
    }
}
type Sh = Arc<Shared>;

/// how much of it is the pattern
struct Cmp {
    want: Vec<u8>,
    n: usize,
    ok: bool,
}
impl Cmp {
    fn new(id: u64, n: usize) -> Cmp {
        Cmp { want: pattern(id, n), n: 0, ok: true }
    }
    fn take(&mut self, d: &[u8]) {
        if self.n + d.len() > self.want.len() || self.want[self.n..self.n + d.len()] != *d {
            self.ok = false;
        }
        self.n += d.len();
    }
}
async fn read_all(mut b: Incoming, id: u64, len: usize, dawdle: u32) -> Read {
    let mut c = Cmp::new(id, len);
    let mut trailers = false;
    loop {
        jitter();
        if dawdle > 0 && dice(4) == 0 {
            yields(dawdle).await;
        }
        let _ = b.size_hint();
        match b.frame().await {
            None => return Read { n: c.n, prefix: c.ok, end: End::Clean, trailers },
            Some(Ok(f)) => match f.into_data() {
                Ok(d) => c.take(&d),
                Err(_) => trailers = true,
            },
            Some(Err(e)) => return Read { n: c.n, prefix: c.ok, end: End::Err(format!("{e:?}")), trailers },
        }
    }
}
fn body(pool: &Pool, sh: &Sh, id: u64, len: usize, exact: bool, feed: bool, trailers: bool) -> MBody {
    if !feed {
        return Either::Right(Full::new(Bytes::from(pattern(id, len))));
    }
    let (f, b) = fed(1 + dice(4) as usize, exact.then_some(len as u64));
    let h = pool.spawn("feeder", async move {
        let mut d = Bytes::from(pattern(id, len));
        while !d.is_empty() {
            let k = 1 + dice(if dice(3) == 0 { 200 } else { 20_000 }) as usize;
            let c = d.split_to(k.min(d.len()));
            if dice(3) == 0 {
                yields(dice(5) as u32).await;
            }
            if !f.put(Frame::data(c)).await {
                return;
            }
        }
        if trailers {
            let mut m = http::HeaderMap::new();
            m.insert("x-end", "1".parse().unwrap());
            if !f.put(Frame::trailers(m)).await {
                return;
            }
        }
        f.finish();
    });
    sh.own(h);
    Either::Left(b)
}

// ------------------------------------------------------------- tunnels
type Up = Arc<Mutex<Option<hyper::upgrade::Upgraded>>>;
/// one task writes, another reads, the tunnel shared between them
fn tunnel(pool: &Pool, sh: &Sh, i: usize, up: hyper::upgrade::Upgraded, server: bool) {
    use hyper::rt::{Read as _, Write as _};
    let p = sh.plans[i].clone();
    let io: Up = Arc::new(Mutex::new(Some(up)));
    let (wid, wn, rid, rn) = if server { (p.id ^ 7, p.down, p.id ^ 9, p.up) } else { (p.id ^ 9, p.up, p.id ^ 7, p.down) };
    let (w, s2) = (io.clone(), sh.clone());
    let h = pool.spawn("tunnel-writer", async move {
        let d = pattern(wid, wn);
        let mut at = 0;
        while at < d.len() {
            let k = (1 + dice(9000) as usize).min(d.len() - at);
            let r = std::future::poll_fn(|cx| {
                jitter();
                Pin::new(w.lock().unwrap().as_mut().unwrap()).poll_write(cx, &d[at..at + k])
            })
            .await;
            match r {
                Ok(0) => {
                    s2.rec(i, 20, |r| r.odd.push("tunnel write of 0".into()));
                    return;
                }
                Ok(n) => at += n,
                Err(e) => {
                    s2.rec(i, 21, |r| r.odd.push(format!("tunnel write: {e:?}")));
                    return;
                }
            }
            if dice(4) == 0 {
                yields(dice(4) as u32).await;
            }
        }
        let r = std::future::poll_fn(|cx| Pin::new(w.lock().unwrap().as_mut().unwrap()).poll_flush(cx)).await;
        let r2 = std::future::poll_fn(|cx| Pin::new(w.lock().unwrap().as_mut().unwrap()).poll_shutdown(cx)).await;
        if r.is_err() || r2.is_err() {
            s2.rec(i, 22, |x| x.odd.push(format!("tunnel flush {r:?} shutdown {r2:?}")));
        }
    });
    sh.own(h);
    let s2 = sh.clone();
    let h = pool.spawn("tunnel-reader", async move {
        let mut c = Cmp::new(rid, rn);
        let mut room = vec![0u8; 1 + dice(10_000) as usize];
        let end = loop {
            let r = std::future::poll_fn(|cx| {
                jitter();
                let mut b = hyper::rt::ReadBuf::new(&mut room);
                match Pin::new(io.lock().unwrap().as_mut().unwrap()).poll_read(cx, b.unfilled()) {
                    Poll::Ready(Ok(())) => {
                        c.take(b.filled());
                        Poll::Ready(Ok(b.filled().len()))
                    }
                    Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                    Poll::Pending => Poll::Pending,
                }
            })
            .await;
            match r {
                Ok(0) => break End::Clean,
                Ok(_) => {}
                Err(e) => break End::Err(format!("{e:?}")),
            }
        };
        let got = Read { n: c.n, prefix: c.ok, end, trailers: false };
        s2.rec(i, 23, |r| if server { r.up = Some(got) } else { r.down = Some(got) });
    });
    sh.own(h);
}

// ------------------------------------------------------------- server
struct Svc(Pool, Sh);
fn id_of(h: &http::HeaderMap) -> Option<usize> {
    h.get("x-id")?.to_str().ok()?.parse().ok()
}
impl hyper::service::Service<Request<Incoming>> for Svc {
    type Response = Response<MBody>;
    type Error = Box<dyn std::error::Error + Send + Sync>;
    type Future = Pin<Box<dyn Future<Output = Result<Self::Response, Self::Error>> + Send>>;
    fn call(&self, mut req: Request<Incoming>) -> Self::Future {
        let (pool, sh) = (self.0.clone(), self.1.clone());
        Box::pin(async move {
            jitter();
            let Some(i) = id_of(req.headers()).filter(|i| *i < sh.plans.len()) else {
                return Err("a request nobody made".into());
            };
            let p = sh.plans[i].clone();
            sh.rec(i, 1, |r| r.calls += 1);
            if p.dawdle > 0 {
                yields(p.dawdle).await;
            }
            let mut resp = Response::builder();
            if p.tunnel {
                let on = hyper::upgrade::on(&mut req);
                let (s2, p2) = (sh.clone(), pool.clone());
                let h = pool.spawn("on-upgrade-server", async move {
                    match on.await {
                        Ok(u) => tunnel(&p2, &s2, i, u, true),
                        Err(e) => s2.rec(i, 2, |r| r.odd.push(format!("server upgrade: {e:?}"))),
                    }
                });
                sh.own(h);
                if !sh.h2 {
                    resp = resp.status(101).header("connection", "upgrade").header("upgrade", "x");
                }
                return Ok(resp.header("x-id", i).body(Either::Right(Full::default())).unwrap());
            }
            let b = req.into_body();
            let (s2, id, n, dw) = (sh.clone(), p.id, p.req_len, p.dawdle);
            let rd = async move {
                let r = read_all(b, id, n, dw).await;
                s2.rec(i, 3, |x| x.req = Some(r));
            };
            match p.take {
                Take::Inline => rd.await,
                Take::Spawned => {
                    // waits for it, from another task
                    let f = Flag::default();
                    let g = f.clone();
                    struct OnDrop(Flag);
                    impl Drop for OnDrop {
                        fn drop(&mut self) {
                            self.0.set()
                        }
                    }
                    let h = pool.spawn("request-reader", async move {
                        let _g = OnDrop(g);
                        rd.await;
                    });
                    sh.own(h);
                    f.wait().await;
                }
                Take::Early => {
                    let h = pool.spawn("request-reader", rd);
                    sh.own(h);
                }
                Take::Drop => {
                    let h = pool.spawn("request-dropper", async move {
                        yields(dice(20) as u32).await;
                        drop(rd);
                    });
                    sh.own(h);
                }
            }
            jitter();
            let b = body(&pool, &sh, p.id ^ 5, p.resp_len, p.resp_exact, p.resp_fed, p.trailers);
            Ok(resp.header("x-id", i).body(b).unwrap())
        })
    }
}

/// a connection that can be told to shut down
macro_rules! drive {
    ($conn:expr, $stop:expr, $res:expr) => {{
        let (mut conn, stop, res) = (Box::pin($conn), $stop, $res);
        async move {
            let mut told = false;
            let r = std::future::poll_fn(|cx| {
                if !told && stop.poll(cx).is_ready() {
                    told = true;
                    conn.as_mut().graceful_shutdown();
                }
                conn.as_mut().poll(cx)
            })
            .await;
            drop(conn);
            *res.lock().unwrap() = Some(r.map_err(|e| format!("{e:?}")));
        }
    }};
}

// ------------------------------------------------------------- client
fn request(pool: &Pool, sh: &Sh, i: usize) -> Request<MBody> {
    let p = &sh.plans[i];
    let mut b = Request::builder().header("x-id", i).header("host", "h");
    if p.tunnel {
        b = if sh.h2 {
            b.method("CONNECT").uri("h:1")
        } else {
            b.method("GET").uri("/").header("connection", "upgrade").header("upgrade", "x")
        };
        return b.body(Either::Right(Full::default())).unwrap();
    }
    b = b.method("POST").uri(if sh.h2 { "http://h/" } else { "/" });
    if p.expect {
        b = b.header("expect", "100-continue");
    }
    let body = body(pool, sh, p.id, p.req_len, p.req_exact, p.req_fed, p.trailers);
    b.body(body).unwrap()
}
async fn take(pool: Pool, sh: Sh, i: usize, r: Result<Response<Incoming>, String>) {
    let p = sh.plans[i].clone();
    let mut resp = match r {
        Ok(r) => r,
        Err(e) => return sh.rec(i, 10, |x| x.head = Some(Err(e))),
    };
    let st = resp.status().as_u16();
    let right = st == if p.tunnel && !sh.h2 { 101 } else { 200 } && id_of(resp.headers()) == Some(i);
    sh.rec(i, 11, |x| {
        x.head = Some(Ok(()));
        if !right {
            x.odd.push(format!("response {st} {:?}", resp.headers()));
        }
    });
    if p.tunnel {
        let on = hyper::upgrade::on(&mut resp);
        drop(resp);
        match on.await {
            Ok(u) => tunnel(&pool, &sh, i, u, false),
            Err(e) => sh.rec(i, 12, |x| x.odd.push(format!("client upgrade: {e:?}"))),
        }
        return;
    }
    let r = read_all(resp.into_body(), p.id ^ 5, p.resp_len, p.dawdle).await;
    sh.rec(i, 13, |x| x.resp = Some(r));
}
/// awaits the response here or elsewhere
async fn await_it<F>(pool: &Pool, sh: &Sh, i: usize, f: F)
where
    F: Future<Output = Result<Response<Incoming>, String>> + Send + 'static,
{
    let (p2, s2) = (pool.clone(), sh.clone());
    if sh.plans[i].other {
        let h = pool.spawn("response", async move {
            let r = f.await;
            take(p2, s2, i, r).await
        });
        sh.own(h);
    } else {
        let r = f.await;
        let h = pool.spawn("response", take(p2, s2, i, r));
        sh.own(h);
    }
}
macro_rules! submit {
    ($pool:expr, $sh:expr, $i:expr, $tx:expr, $g:expr) => {{
        let g: Option<Known> = $g;
        let req = request($pool, $sh, $i);
        if $sh.plans[$i].try_send {
            let f = $tx.try_send_request(req);
            await_it($pool, $sh, $i, async move { let r = f.await; drop(g); r.map_err(|e| format!("{:?}", e.error())) }).await
        } else {
            let f = $tx.send_request(req);
            await_it($pool, $sh, $i, async move { let r = f.await; drop(g); r.map_err(|e| format!("{e:?}")) }).await
        }
    }};
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Dist {
    None,
    Graceful,
    Abort,
    Cut,
    KillServer,
    KillClient,
}

fn duels(ctx: &Ctx, mut r: Rng) -> CaseOut {
    use crate::duel::*;
    let mut out = CaseOut::default();
    let kind = r.range(0, KINDS + 1).min(KINDS - 1);
    let n = if cfg!(miri) { 5 } else if cfg!(feature = "san") { 300 } else { 1500 };
    let (bad, sig, first) = duel(kind, r.next(), n);
    for v in bad {
        out.viol(v);
    }
    out.count("duels", n);
    out.count("duels_won", first);
    out.nontrivial = true;
    out.sig = sig;
    if ctx.index < 3 || ctx.trace {
        out.desc = Some(format!("{n} duels: {}", NAMES[kind]));
    }
    out
}
fn case(ctx: &Ctx) -> CaseOut {
    let mut out = CaseOut::default();
    let mut r = Rng::new(ctx.seed);
    let small = cfg!(miri);
    if r.pct(if small { 50 } else { 6 }) {
        return duels(ctx, r);
    }
    let h2 = r.pct(55);
    let dist = if r.pct(50) { Dist::None } else { *r.pick(&[Dist::Graceful, Dist::Abort, Dist::Abort, Dist::Cut, Dist::KillServer, Dist::KillClient]) };
    let n = r.range(1, if small { 2 } else { 8 });
    let maxb = *r.pick(if small { &[0usize, 40, 300][..] } else { &[0usize, 100, 3000, 60_000][..] });
    let plans: Vec<Plan> = (0..n)
        .map(|i| {
            let tunnel = if h2 { r.pct(15) } else { i + 1 == n && r.pct(35) };
            let take = match r.below(7) {
                0..=1 => Take::Inline,
                2..=3 => Take::Spawned,
                // what a server may do over HTTP/1 with a body it did not read is another matter
                4 if h2 => Take::Drop,
                _ => Take::Early,
            };
            let trailers = h2 && r.pct(20);
            let (req_fed, resp_fed) = (r.pct(70) || trailers, r.pct(70) || trailers);
            Plan {
                id: r.next(),
                req_len: if r.pct(30) { 0 } else { r.size(maxb) },
                req_exact: r.pct(50),
                req_fed,
                resp_len: if r.pct(20) { 0 } else { r.size(maxb) },
                resp_exact: r.pct(50),
                resp_fed,
                trailers,
                take,
                expect: !h2 && r.pct(10),
                tunnel,
                up: r.size(maxb),
                down: r.size(maxb),
                other: r.pct(50),
                try_send: r.pct(50),
                dawdle: *r.pick(&[0u32, 0, 1, 6]),
            }
        })
        .collect();
    let adaptive = r.pct(40);
    let win = r.pct(40).then(|| r.range(0, 3) as u32 * 5000 + 500);
    // h2 strands a stream whose data went out under the default window when SETTINGS shrink it
    // afterwards (see C15): the others wait for the first response
    let warm = h2 && win.is_some();
    let mut plans = plans;
    if warm {
        let p = &mut plans[0];
        (p.req_len, p.tunnel) = (0, false);
    }
    let plans = plans;
    let workers = if small { 2 } else { r.range(2, 5) };
    let jit = *r.pick(&[0u32, 20, 100, 400]);
    let th = Threads::new(r.next(), workers, jit);
    let pool = th.pool.clone();
    let sh: Sh = Arc::new(Shared { recs: plans.iter().map(|_| Default::default()).collect(), plans, clock: AtomicU64::new(0), handles: Default::default(), h2, known: Flag::default() });
    let (a, b) = mpipe(&pool, &mut r, h2);
    let (cut,) = a.cut_handle();
    let stop = Flag::default();
    let no = Flag::default();
    let sres: Arc<Mutex<Option<Result<(), String>>>> = Default::default();
    let cres: Arc<Mutex<Option<Result<(), String>>>> = Default::default();
    let exec = PoolExec(pool.clone(), "h2-stream");
    let mut conns: Vec<Handle> = vec![];
    if h2 {
        let mut sb = hyper::server::conn::http2::Builder::new(exec.clone());
        sb.adaptive_window(adaptive);
        if let Some(w) = win {
            sb.initial_stream_window_size(w).initial_connection_window_size(w * 2 + 65_535);
        }
        let c = sb.serve_connection(b, Svc(pool.clone(), sh.clone()));
        conns.push(pool.spawn("server", drive!(c, stop.clone(), sres.clone())));
    } else {
        let mut sb = hyper::server::conn::http1::Builder::new();
        sb.pipeline_flush(r.pct(20)).half_close(r.pct(30));
        let c = sb.serve_connection(b, Svc(pool.clone(), sh.clone())).with_upgrades();
        conns.push(pool.spawn("server", drive!(c, stop.clone(), sres.clone())));
    }
    let ch: Slot<Handle> = Slot::default();
    {
        let (pool, sh, cres, ch) = (pool.clone(), sh.clone(), cres.clone(), ch.clone());
        let mut r = r.fork();
        let _ = &no;
        let (p0, s0) = (pool.clone(), sh.clone());
        let main = async move {
            let g = Giver(ch);
            if h2 {
                let mut cb = hyper::client::conn::http2::Builder::new(PoolExec(pool.clone(), "h2-client"));
                cb.adaptive_window(adaptive);
                if let Some(w) = win {
                    cb.initial_stream_window_size(w).initial_connection_window_size(w * 2 + 65_535);
                }
                let (tx, conn) = match cb.handshake::<_, MBody>(a).await {
                    Ok(x) => x,
                    Err(e) => {
                        *cres.lock().unwrap() = Some(Err(format!("{e:?}")));
                        (0..n).for_each(|i| sh.rec(i, 9, |x| x.unsent = true));
                        return;
                    }
                };
                let c2 = cres.clone();
                g.0.put(Some(pool.spawn("client", async move {
                    let r = conn.await;
                    *c2.lock().unwrap() = Some(r.map_err(|e| format!("{e:?}")));
                })));
                for i in 0..n {
                    let (mut tx, p2, s2) = (tx.clone(), pool.clone(), sh.clone());
                    let wait = r.range(0, 30) as u32;
                    let known = (warm && i > 0).then(|| sh.known.clone());
                    let first = (warm && i == 0).then(|| Known(sh.known.clone()));
                    let h = pool.spawn("caller", async move {
                        if let Some(k) = known {
                            k.wait().await;
                        }
                        yields(wait).await;
                        if let Err(e) = tx.ready().await {
                            return s2.rec(i, 8, |x| x.head = Some(Err(format!("not ready: {e:?}"))));
                        }
                        submit!(&p2, &s2, i, tx, first)
                    });
                    sh.own(h);
                }
            } else {
                let (mut tx, conn) = match hyper::client::conn::http1::handshake::<_, MBody>(a).await {
                    Ok(x) => x,
                    Err(e) => {
                        *cres.lock().unwrap() = Some(Err(format!("{e:?}")));
                        (0..n).for_each(|i| sh.rec(i, 9, |x| x.unsent = true));
                        return;
                    }
                };
                let c2 = cres.clone();
                let conn = conn.with_upgrades();
                g.0.put(Some(pool.spawn("client", async move {
                    let r = conn.await;
                    *c2.lock().unwrap() = Some(r.map_err(|e| format!("{e:?}")));
                })));
                for i in 0..n {
                    if let Err(e) = tx.ready().await {
                        (i..n).for_each(|i| sh.rec(i, 8, |x| x.head = Some(Err(format!("not ready: {e:?}")))));
                        return;
                    }
                    submit!(&pool, &sh, i, tx, None);
                }
            }
        };
        let h = p0.spawn("main", main);
        if dist == Dist::Abort {
            s0.own(h);
        }
    }
    let disturbed: Arc<Mutex<Option<&'static str>>> = Default::default();
    if dist != Dist::None {
        let (sh, stop, cut, d, srv) = (sh.clone(), stop.clone(), cut.clone(), disturbed.clone(), conns[0].clone());
        let after = r.size(300) as u32;
        let ch = ch.clone();
        let many = r.range(1, 3);
        pool.spawn("disturber", async move {
            yields(after).await;
            match dist {
                Dist::Graceful => stop.set(),
                Dist::Abort => {
                    for _ in 0..many {
                        let h = {
                            let g = sh.handles.lock().unwrap();
                            let live: Vec<&Handle> = g.iter().filter(|h| !h.done()).collect();
                            (!live.is_empty()).then(|| live[dice(live.len() as u64) as usize].clone())
                        };
                        if let Some(h) = h {
                            h.abort();
                        }
                        yields(dice(20) as u32).await;
                    }
                }
                Dist::Cut => cut(),
                Dist::KillServer => srv.abort(),
                Dist::KillClient => {
                    if let Some(h) = ch.get().await {
                        h.abort()
                    }
                }
                Dist::None => {}
            }
            *d.lock().unwrap() = Some("done");
        });
    }
    let mut rest = th.rest(3_000_000);
    let stalled = th.pending();
    let first = rest == Rest::Quiet;
    let snapshot: Vec<(bool, u32)> = sh.recs.iter().map(|x| x.lock().unwrap()).map(|x| (x.head.is_some(), x.calls)).collect();
    if first && !stalled.is_empty() && dist != Dist::None {
        // the connection goes away: everything must come to an end now
        cut();
        conns[0].abort();
        rest = th.rest(3_000_000);
    }
    let left = if rest == Rest::Quiet { th.pending() } else { vec![] };
    let (polls, moved) = th.polls();
    match rest {
        Rest::Stuck => {
            out.viol("a poll did not return for two minutes".to_string());
            th.forget();
            return out;
        }
        Rest::Busy => {
            out.viol(format!("not at rest after {polls} polls"));
            th.forget();
            return out;
        }
        Rest::Quiet => {}
    }
    let panics = th.stop();
    for (loc, msg) in panics {
        if loc.starts_with("src/") || loc.contains("/verif/") {
            panic!("{loc}: {msg}");
        }
        out.viol(format!("panic at {loc}: {msg}"));
    }
    let mut sig = mix(polls, moved);
    let mut done = 0;
    if !left.is_empty() {
        out.viol(format!("tasks that nothing will wake any more: {left:?} ({dist:?}, at first {stalled:?})"));
    }
    let _ = snapshot;
    for (i, x) in sh.recs.iter().enumerate() {
        let x = x.lock().unwrap();
        let p = &sh.plans[i];
        for (k, t) in &x.stamps {
            sig = mix(sig, t << 8 | *k as u64);
        }
        if x.calls > 1 {
            out.viol(format!("exchange {i}: the service was called {} times", x.calls));
        }
        for (what, rd, len, clean_means_all) in [("request body", &x.req, p.req_len, true), ("response body", &x.resp, p.resp_len, true), ("tunnel to the server", &x.up, p.up, dist == Dist::None), ("tunnel to the client", &x.down, p.down, dist == Dist::None)] {
            let Some(rd) = rd else { continue };
            if !rd.prefix {
                out.viol(format!("exchange {i}: {what}: wrong bytes in the first {}", rd.n));
            } else if rd.end == End::Clean && rd.n != len && clean_means_all {
                out.viol(format!("exchange {i}: {what}: ended cleanly with {} of {len} bytes ({dist:?})", rd.n));
            }
            if rd.end == End::Clean && rd.n == len {
                done += 1;
                out.count("complete_bodies", 1);
                out.count("body_bytes", len as u64);
            }
        }
        if dist == Dist::None {
            let whole = |r: &Option<Read>, len: usize| matches!(r, Some(r) if r.end == End::Clean && r.n == len);
            let mut bad = vec![];
            if x.calls != 1 {
                bad.push(format!("{} calls", x.calls));
            }
            if !matches!(x.head, Some(Ok(()))) {
                bad.push(format!("response {:?}", x.head));
            }
            if p.tunnel {
                if !whole(&x.up, p.up) {
                    bad.push(format!("up {:?} of {}", x.up, p.up));
                }
                if !whole(&x.down, p.down) {
                    bad.push(format!("down {:?} of {}", x.down, p.down));
                }
            } else {
                if !whole(&x.resp, p.resp_len) || x.resp.as_ref().map(|r| r.trailers) != Some(p.trailers) {
                    bad.push(format!("response body {:?} of {} trailers {}", x.resp, p.resp_len, p.trailers));
                }
                if p.take != Take::Drop && (!whole(&x.req, p.req_len) || x.req.as_ref().map(|r| r.trailers) != Some(p.trailers)) {
                    bad.push(format!("request body {:?} of {} trailers {}", x.req, p.req_len, p.trailers));
                }
            }
            bad.extend(x.odd.iter().cloned());
            if !bad.is_empty() {
                out.viol(format!("exchange {i} of an undisturbed run: {} ({x:?}; server {:?}, client {:?})", bad.join("; "), sres.lock().unwrap(), cres.lock().unwrap()));
            }
            out.count("exchanges", 1);
        } else {
            for o in x.odd.iter().filter(|o| o.starts_with("response ")) {
                out.viol(format!("exchange {i}: {o}"));
            }
            if dist != Dist::Abort && x.head.is_none() && !x.unsent && left.is_empty() {
                out.viol(format!("exchange {i}: the caller was never told ({dist:?})"));
            }
            out.count(if matches!(x.head, Some(Ok(()))) { "disturbed_ok" } else { "disturbed_failed" }, 1);
        }
    }
    if dist == Dist::None {
        let c = cres.lock().unwrap().clone();
        if c != Some(Ok(())) && left.is_empty() {
            out.viol(format!("the client connection of an undisturbed run ended {c:?}"));
        }
        if sres.lock().unwrap().is_none() && left.is_empty() {
            out.viol("the server connection did not end".to_string());
        }
    } else if !stalled.is_empty() {
        out.count("stalled_until_closed", 1);
    }
    out.count(if h2 { "h2_runs" } else { "h1_runs" }, 1);
    out.count("polls", polls);
    out.count("polls_on_other_threads", moved);
    out.count("worker_threads", workers as u64);
    out.nontrivial = done > 0;
    out.sig = sig;
    if ctx.index < 3 || ctx.trace {
        out.desc = Some(format!("{} {dist:?} workers {workers} jitter {jit} adaptive {adaptive} window {win:?}: {:?}", if h2 { "h2" } else { "h1" }, sh.plans));
    }
    if ctx.trace {
        out.trace = sh.recs.iter().map(|x| format!("{:?}", x.lock().unwrap())).collect();
        out.trace.push(format!("stalled {stalled:?} server {:?} client {:?}", sres.lock().unwrap(), cres.lock().unwrap()));
    }
    out
}

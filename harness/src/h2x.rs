//! hyper's HTTP/2 connections driven on the simulator.
use crate::body::*;
use crate::cli::*;
use crate::rng::Rng;
use crate::sim::*;
use crate::srv::*;
use std::future::Future;
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub type Sender2 = hyper::client::conn::http2::SendRequest<ScriptBody>;

#[derive(Clone, Debug)]
pub struct H2Cfg {
    pub stream_win: Option<u32>,
    pub conn_win: Option<u32>,
    pub adaptive: bool,
    /// `adaptive` is set before the explicit windows, which then replace it
    pub explicit_last: bool,
    pub frame: Option<u32>,
    pub max_streams: Option<u32>,
    /// client: streams it may open before it has seen the peer's settings
    pub init_send: Option<usize>,
    pub ka: Option<(Duration, Duration)>,
    pub ka_idle: bool,
    pub send_buf: Option<usize>,
    pub connect: bool,
    pub table: Option<u32>,
    pub max_list: Option<u32>,
    pub date: bool,
    pub timer: bool,
    pub resets: Option<usize>,
}
impl H2Cfg {
    /// Whether windows adapt, and the windows (stream, connection) the connection starts with.
    pub fn windows(&self, stream: u32, conn: u32) -> (bool, u32, u32) {
        let base = if self.adaptive { (65_535, 65_535) } else { (stream, conn) };
        let explicit = self.stream_win.is_some() || self.conn_win.is_some();
        if self.adaptive && !(self.explicit_last && explicit) {
            return (true, base.0, base.1);
        }
        (false, self.stream_win.unwrap_or(base.0), self.conn_win.unwrap_or(base.1))
    }
    pub fn plain() -> H2Cfg {
        H2Cfg { stream_win: None, conn_win: None, adaptive: false, explicit_last: false, frame: None, max_streams: None, init_send: None, ka: None, ka_idle: false, send_buf: None, connect: false, table: None, max_list: None, date: true, timer: false, resets: None }
    }
    pub fn gen(r: &mut Rng) -> H2Cfg {
        H2Cfg {
            stream_win: *r.pick(&[None, None, Some(65_535), Some(1), Some(100), Some(5_000), Some(16_384), Some(70_000), Some(1 << 20)]),
            conn_win: *r.pick(&[None, None, None, Some(65_535), Some(70_000), Some(200_000), Some(20_000), Some(1 << 22)]),
            adaptive: r.pct(15),
            explicit_last: false,
            frame: *r.pick(&[None, None, None, Some(16_384), Some(16_385), Some(40_000), Some(16_777_215)]),
            max_streams: None,
            init_send: None,
            ka: None,
            ka_idle: false,
            send_buf: *r.pick(&[None, None, None, Some(100), Some(1000), Some(16_384), Some(100_000)]),
            connect: r.pct(20),
            table: *r.pick(&[None, None, None, Some(0), Some(100), Some(65_536)]),
            max_list: None,
            date: r.pct(70),
            timer: r.pct(60),
            resets: None,
        }
    }
    pub fn server(&self, ex: &Exec) -> hyper::server::conn::http2::Builder<Spawner> {
        let mut b = hyper::server::conn::http2::Builder::new(ex.spawner().named("h2s"));
        if self.adaptive && self.explicit_last {
            b.adaptive_window(true);
        }
        if let Some(w) = self.stream_win {
            b.initial_stream_window_size(w);
        }
        if let Some(w) = self.conn_win {
            b.initial_connection_window_size(w);
        }
        if self.adaptive && !self.explicit_last {
            b.adaptive_window(true);
        }
        if let Some(w) = self.frame {
            b.max_frame_size(w);
        }
        if let Some(n) = self.max_streams {
            b.max_concurrent_streams(n);
        }
        if let Some((i, t)) = self.ka {
            b.keep_alive_interval(i).keep_alive_timeout(t);
        }
        if let Some(n) = self.send_buf {
            b.max_send_buf_size(n);
        }
        if self.connect {
            b.enable_connect_protocol();
        }
        if let Some(n) = self.table {
            b.header_table_size(n);
        }
        if let Some(n) = self.max_list {
            b.max_header_list_size(n);
        }
        if let Some(n) = self.resets {
            b.max_pending_accept_reset_streams(n);
        }
        if self.timer || self.ka.is_some() {
            b.timer(ex.sim.timer());
        }
        b.auto_date_header(self.date);
        b
    }
    pub fn client(&self, ex: &Exec) -> hyper::client::conn::http2::Builder<Spawner> {
        let mut b = hyper::client::conn::http2::Builder::new(ex.spawner().named("h2c"));
        if self.adaptive && self.explicit_last {
            b.adaptive_window(true);
        }
        if let Some(w) = self.stream_win {
            b.initial_stream_window_size(w);
        }
        if let Some(w) = self.conn_win {
            b.initial_connection_window_size(w);
        }
        if self.adaptive && !self.explicit_last {
            b.adaptive_window(true);
        }
        if let Some(w) = self.frame {
            b.max_frame_size(w);
        }
        if let Some(n) = self.max_streams {
            b.max_concurrent_streams(n);
        }
        if let Some(n) = self.init_send {
            b.initial_max_send_streams(n);
        }
        if let Some((i, t)) = self.ka {
            b.keep_alive_interval(i).keep_alive_timeout(t).keep_alive_while_idle(self.ka_idle);
        }
        if let Some(n) = self.send_buf {
            b.max_send_buf_size(n);
        }
        if let Some(n) = self.table {
            b.header_table_size(n);
        }
        if let Some(n) = self.max_list {
            b.max_header_list_size(n);
        }
        if let Some(n) = self.resets {
            b.max_concurrent_reset_streams(n);
        }
        if self.timer || self.ka.is_some() {
            b.timer(ex.sim.timer());
        }
        b
    }
}

/// Spawns the HTTP/2 server connection as task "server".
pub fn serve_h2(ex: &mut Exec, cfg: &H2Cfg, io: SimIo, svc: Svc, graceful: Gate) -> EndRef {
    let sim = ex.sim.clone();
    let end: EndRef = Default::default();
    let e2 = end.clone();
    let conn = cfg.server(ex).serve_connection(io, svc.clone());
    let io_calls = svc.calls.clone();
    ex.spawn("server", async move {
        let mut conn = Box::pin(conn);
        let mut g = Box::pin(async move { graceful.wait().await });
        let mut asked = false;
        let (s2, e3) = (sim.clone(), e2.clone());
        let r = std::future::poll_fn(move |cx| {
            if !asked && g.as_mut().poll(cx).is_ready() {
                asked = true;
                s2.mark();
                s2.log(|| "graceful_shutdown()".into());
                e3.lock().unwrap().asked = Some(Asked { calls: io_calls.get(), read_bytes: 0, written: 0, at_ns: s2.now_ns(), in_service: false });
                conn.as_mut().graceful_shutdown();
            }
            conn.as_mut().poll(cx)
        })
        .await;
        let c = ConnEnd::from(&sim, &r);
        sim.log(|| format!("server connection ended: {:?}", r));
        sim.mark();
        let mut e = e2.lock().unwrap();
        let asked = e.asked;
        *e = c;
        e.asked = asked;
    });
    end
}
/// Where the request sender appears once the client handshake is done.
#[derive(Clone, Default)]
pub struct Slot(pub Arc<Mutex<Option<Sender2>>>, pub Gate);
impl Slot {
    pub async fn get(&self) -> Option<Sender2> {
        self.1.wait().await;
        self.0.lock().unwrap().clone()
    }
    pub fn clear(&self) {
        let x = self.0.lock().unwrap().take();
        drop(x);
    }
}
/// Spawns the HTTP/2 client connection as task "client".
pub fn connect_h2(ex: &mut Exec, cfg: &H2Cfg, io: SimIo) -> (Slot, EndRef) {
    let sim = ex.sim.clone();
    let end: EndRef = Default::default();
    let e2 = end.clone();
    let slot = Slot::default();
    let s2 = slot.clone();
    let hs = cfg.client(ex).handshake::<_, ScriptBody>(io);
    ex.spawn("client", async move {
        match hs.await {
            Ok((tx, conn)) => {
                *s2.0.lock().unwrap() = Some(tx);
                s2.1.open();
                sim.mark();
                let r = conn.await;
                sim.log(|| format!("client connection ended: {:?}", r));
                sim.mark();
                *e2.lock().unwrap() = ConnEnd::from(&sim, &r);
            }
            Err(e) => {
                sim.log(|| format!("client handshake failed: {e:?}"));
                s2.1.open();
                *e2.lock().unwrap() = ConnEnd::from(&sim, &Err(e));
            }
        }
    });
    (slot, end)
}
/// Sends one request and follows it to the end of its response body.
pub async fn exchange2(sim: &Sim, tx: &mut Sender2, spec: &ReqSpec, x: &ExRef, read: CRead, pace: u32, use_try: bool) {
    let fut = submit2(sim, tx, spec, x, use_try);
    finish2(sim, fut, x, read, pace).await
}
pub type RespFut = std::pin::Pin<Box<dyn Future<Output = Result<http::Response<hyper::body::Incoming>, (hyper::Error, bool)>>>>;
pub fn submit2(sim: &Sim, tx: &mut Sender2, spec: &ReqSpec, x: &ExRef, use_try: bool) -> RespFut {
    submit2_with(sim, tx, spec, x, use_try, |_| {})
}
pub fn submit2_with(sim: &Sim, tx: &mut Sender2, spec: &ReqSpec, x: &ExRef, use_try: bool, tweak: impl FnOnce(&mut http::Request<ScriptBody>)) -> RespFut {
    let infos = x.lock().unwrap().infos.clone();
    let (mut req, log) = build_request(sim, spec, &infos);
    tweak(&mut req);
    {
        let mut g = x.lock().unwrap();
        g.body_log = Some(log);
        g.submitted = true;
    }
    sim.log(|| format!("caller sends {} {}", spec.method, spec.uri));
    if use_try {
        let f = tx.try_send_request(req);
        Box::pin(async move {
            f.await.map_err(|mut e| {
                let back = e.take_message().is_some();
                (e.into_error(), back)
            })
        })
    } else {
        let f = tx.send_request(req);
        Box::pin(async move { f.await.map_err(|e| (e, false)) })
    }
}
pub async fn finish2(sim: &Sim, fut: RespFut, x: &ExRef, read: CRead, pace: u32) {
    let r = fut.await;
    sim.mark();
    x.lock().unwrap().resolved += 1;
    match r {
        Ok(resp) => take_response(sim, x, resp, read, pace).await,
        Err((e, back)) => {
            sim.log(|| format!("caller got error {e:?}"));
            let mut g = x.lock().unwrap();
            g.taken_back = back;
            g.err = Some(ErrInfo::of(&e));
            g.at_ns = sim.now_ns();
        }
    }
}
/// Moves the request target into absolute form for HTTP/2.
pub fn abs(path: &str) -> String {
    format!("http://example.com{path}")
}

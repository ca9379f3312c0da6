//! The server side under test: a scripted service and the HTTP/1 server connection.
use crate::body::*;
use crate::h1gen::Hs;
use crate::peer::Count;
use crate::rng::Rng;
use crate::sim::*;
use http::{HeaderName, HeaderValue, Request, Response, StatusCode, Version};
use hyper::body::{Body, Incoming, SizeHint};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug)]
pub struct SrvCfg {
    pub keep_alive: bool,
    pub half_close: bool,
    pub max_headers: Option<usize>,
    pub max_buf: Option<usize>,
    pub pipeline_flush: bool,
    pub writev: Option<bool>,
    pub title_case: bool,
    pub preserve_case: bool,
    pub ignore_invalid: bool,
    pub header_timeout: Option<Option<Duration>>,
    pub date: bool,
    pub timer: bool,
    pub upgrades: bool,
}
impl SrvCfg {
    pub fn plain() -> SrvCfg {
        SrvCfg {
            keep_alive: true,
            half_close: false,
            max_headers: None,
            max_buf: None,
            pipeline_flush: false,
            writev: None,
            title_case: false,
            preserve_case: false,
            ignore_invalid: false,
            header_timeout: None,
            date: true,
            timer: true,
            upgrades: false,
        }
    }
    pub fn gen(r: &mut Rng) -> SrvCfg {
        SrvCfg {
            keep_alive: true,
            half_close: r.pct(30),
            max_headers: *r.pick(&[None, None, None, Some(100), Some(120), Some(64), Some(300)]),
            max_buf: *r.pick(&[None, None, None, Some(16384), Some(65536)]),
            pipeline_flush: r.pct(10),
            writev: *r.pick(&[None, None, Some(true), Some(false)]),
            title_case: r.pct(10),
            preserve_case: r.pct(10),
            ignore_invalid: false,
            header_timeout: *r.pick(&[None, None, Some(None), Some(Some(Duration::from_secs(3600)))]),
            date: r.pct(70),
            timer: r.pct(80),
            upgrades: r.pct(30),
        }
    }
    pub fn builder(&self, sim: &Sim) -> hyper::server::conn::http1::Builder {
        let mut b = hyper::server::conn::http1::Builder::new();
        b.keep_alive(self.keep_alive).half_close(self.half_close);
        if let Some(m) = self.max_headers {
            b.max_headers(m);
        }
        if let Some(m) = self.max_buf {
            b.max_buf_size(m);
        }
        if self.pipeline_flush {
            b.pipeline_flush(true);
        }
        if let Some(w) = self.writev {
            b.writev(w);
        }
        if self.title_case {
            b.title_case_headers(true);
        }
        if self.preserve_case {
            b.preserve_header_case(true);
        }
        if self.ignore_invalid {
            b.ignore_invalid_headers(true);
        }
        if self.timer {
            b.timer(sim.timer());
            if let Some(t) = self.header_timeout {
                b.header_read_timeout(t);
            }
        }
        b.auto_date_header(self.date);
        b
    }
}

#[derive(Clone)]
pub enum ReadPlan {
    All,
    /// drop the body without polling it
    Never,
    /// read this many frames, then drop
    Partial(usize),
    /// read in a separate task while responding
    Concurrent,
    /// keep the body unread until the gate opens, then read it all (separate task)
    Later(Gate),
    /// read this many frames, pause until the gate opens, then read the rest (separate task)
    Pause(usize, Gate),
    /// keep the body unread (held by a task) forever
    Hold,
    /// return the response first, read in a separate task only after the response is handed over
    AfterRespond,
    /// poll once, then keep it unread until the response is ready
    Touch,
}
impl std::fmt::Debug for ReadPlan {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(match self {
            ReadPlan::All => "All",
            ReadPlan::Never => "Never",
            ReadPlan::Partial(_) => "Partial",
            ReadPlan::Concurrent => "Concurrent",
            ReadPlan::Later(_) => "Later",
            ReadPlan::Pause(..) => "Pause",
            ReadPlan::Hold => "Hold",
            ReadPlan::AfterRespond => "AfterRespond",
            ReadPlan::Touch => "Touch",
        })
    }
}
#[derive(Clone, Debug)]
pub struct RespSpec {
    pub status: u16,
    pub version: Version,
    pub headers: Hs,
    pub reason: Option<Vec<u8>>,
    pub script: Script,
    /// copy the HeaderCaseMap (all extensions) of the request
    pub copy_ext: bool,
}
impl RespSpec {
    pub fn ok(body: &[u8]) -> RespSpec {
        RespSpec {
            status: 200,
            version: Version::HTTP_11,
            headers: vec![],
            reason: None,
            script: Script { steps: if body.is_empty() { vec![] } else { vec![Step::Data(body.to_vec())] }, hint: Hint::Exact, eager_eos: true },
            copy_ext: false,
        }
    }
}
#[derive(Clone, Debug)]
pub struct Plan {
    pub delay: usize,
    pub sleep_ns: u64,
    pub gate: Option<Gates>,
    pub read: ReadPlan,
    pub pace: u32,
    pub resp: RespSpec,
    pub fail: bool,
    /// the failing service's error carries this HTTP/2 reason (and whether it is wrapped)
    pub fail_h2: Option<(u32, bool)>,
    /// the failing service's error is `Own(token)`
    pub fail_own: Option<u64>,
}
#[derive(Clone)]
pub struct Gates(pub Gate);
impl std::fmt::Debug for Gates {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("gate")
    }
}
impl Plan {
    pub fn simple(resp: RespSpec) -> Plan {
        Plan { delay: 0, sleep_ns: 0, gate: None, read: ReadPlan::All, pace: 0, resp, fail: false, fail_h2: None, fail_own: None }
    }
}

pub struct Seen {
    pub method: String,
    pub uri: String,
    pub version: Version,
    pub headers: Hs,
    pub hint: SizeHint,
    pub eos: bool,
    pub got: GotRef,
    pub body_log: Option<Arc<Mutex<BodyLog>>>,
    pub responded: bool,
    pub responded_ns: Option<u64>,
    pub fut_dropped: bool,
    pub on_upgrade: Option<hyper::upgrade::OnUpgrade>,
    pub at_ns: u64,
    pub protocol: Option<String>,
    /// bytes read from the transport when the service was called
    pub tag: u64,
}
#[derive(Default)]
pub struct SvcState {
    pub seen: Vec<Seen>,
    pub plans: VecDeque<Plan>,
}
#[derive(Clone)]
pub struct Svc {
    pub sim: Sim,
    pub sp: Spawner,
    pub st: Arc<Mutex<SvcState>>,
    pub calls: Count,
    /// picks the plan from the request instead of the call order (x-id header = index)
    pub by_id: bool,
    pub all_plans: Arc<Vec<Plan>>,
}
impl Svc {
    pub fn new(ex: &Exec, plans: Vec<Plan>) -> Svc {
        Svc {
            sim: ex.sim.clone(),
            sp: ex.spawner(),
            st: Arc::new(Mutex::new(SvcState { seen: vec![], plans: plans.clone().into() })),
            calls: Count::default(),
            by_id: false,
            all_plans: Arc::new(plans),
        }
    }
    pub fn by_id(mut self) -> Svc {
        self.by_id = true;
        self
    }
}
struct DropMark(Arc<Mutex<SvcState>>, usize, bool, Gate);
impl Drop for DropMark {
    fn drop(&mut self) {
        self.3.open();
        if !self.2 {
            if let Ok(mut g) = self.0.lock() {
                g.seen[self.1].fut_dropped = true;
            }
        }
    }
}
pub fn build_response(sim: &Sim, s: &RespSpec, ext: Option<http::Extensions>) -> (Response<ScriptBody>, Arc<Mutex<BodyLog>>) {
    let body = ScriptBody::new(sim, &s.script);
    let log = body.log.clone();
    let mut r = Response::new(body);
    if let Some(e) = ext {
        *r.extensions_mut() = e;
    }
    *r.status_mut() = StatusCode::from_u16(s.status).unwrap();
    *r.version_mut() = s.version;
    for (k, v) in &s.headers {
        r.headers_mut().append(HeaderName::from_bytes(k.as_bytes()).unwrap(), HeaderValue::from_bytes(v).unwrap());
    }
    if let Some(p) = &s.reason {
        r.extensions_mut().insert(hyper::ext::ReasonPhrase::try_from(p.clone()).expect("valid reason"));
    }
    (r, log)
}
impl hyper::service::Service<Request<Incoming>> for Svc {
    type Response = Response<ScriptBody>;
    type Error = BoxErr;
    type Future = Pin<Box<dyn Future<Output = Result<Response<ScriptBody>, BoxErr>>>>;
    fn call(&self, mut req: Request<Incoming>) -> Self::Future {
        let me = self.clone();
        let sim = self.sim.clone();
        let on_upgrade = hyper::upgrade::on(&mut req);
        let (mut parts, mut body) = req.into_parts();
        let got: GotRef = Default::default();
        let (idx, plan) = {
            let mut st = self.st.lock().unwrap();
            let idx = st.seen.len();
            let plan = if self.by_id {
                parts
                    .headers
                    .get("x-id")
                    .and_then(|v| v.to_str().ok())
                    .and_then(|s| s.parse::<usize>().ok())
                    .and_then(|i| self.all_plans.get(i).cloned())
            } else {
                st.plans.pop_front()
            }
            .unwrap_or_else(|| Plan::simple(RespSpec::ok(b"default")));
            st.seen.push(Seen {
                method: parts.method.to_string(),
                uri: parts.uri.to_string(),
                version: parts.version,
                headers: crate::util::hv(&parts.headers),
                hint: body.size_hint(),
                eos: body.is_end_stream(),
                got: got.clone(),
                body_log: None,
                responded: false,
                responded_ns: None,
                fut_dropped: false,
                on_upgrade: Some(on_upgrade),
                at_ns: sim.now_ns(),
                protocol: parts.extensions.get::<hyper::ext::Protocol>().map(|p| p.as_str().to_string()),
                tag: 0,
            });
            (idx, plan)
        };
        sim.mark();
        sim.hash(0x5000000 + idx as u64);
        sim.log(|| format!("service call #{idx} {} {} plan read={:?} status={}", parts.method, parts.uri, plan.read, plan.resp.status));
        self.calls.add(1);
        Box::pin(async move {
            let settled = Gate::default();
            let mut mark = DropMark(me.st.clone(), idx, false, settled.clone());
            let pace = plan.pace;
            let mut touched = None;
            match &plan.read {
                ReadPlan::All => {
                    read_body(&sim, &mut body, &got, pace, usize::MAX).await;
                    drop(body);
                }
                ReadPlan::Never => drop(body),
                ReadPlan::Partial(n) => {
                    read_body(&sim, &mut body, &got, pace, *n).await;
                    drop(body);
                }
                ReadPlan::Concurrent => {
                    let s2 = sim.clone();
                    let g2 = got.clone();
                    me.sp.spawn("reader", async move {
                        read_body(&s2, &mut body, &g2, pace, usize::MAX).await;
                    });
                }
                ReadPlan::Later(g) => {
                    let s2 = sim.clone();
                    let g2 = got.clone();
                    let g = g.clone();
                    me.sp.spawn("reader", async move {
                        g.wait().await;
                        read_body(&s2, &mut body, &g2, pace, usize::MAX).await;
                    });
                }
                ReadPlan::Pause(k, g) => {
                    let s2 = sim.clone();
                    let g2 = got.clone();
                    let (k, g) = (*k, g.clone());
                    me.sp.spawn("reader", async move {
                        read_body(&s2, &mut body, &g2, pace, k).await;
                        g.wait().await;
                        if !g2.lock().unwrap().done {
                            read_body(&s2, &mut body, &g2, pace, usize::MAX).await;
                        }
                    });
                }
                ReadPlan::Hold => {
                    me.sp.spawn("holder", async move {
                        let _b = body;
                        std::future::pending::<()>().await;
                    });
                }
                ReadPlan::Touch => {
                    {
                        let mut g = got.lock().unwrap();
                        g.started = true;
                        g.polled_ns = Some(sim.now_ns());
                    }
                    std::future::poll_fn(|cx| {
                        let _ = hyper::body::Body::poll_frame(Pin::new(&mut body), cx);
                        std::task::Poll::Ready(())
                    })
                    .await;
                    touched = Some(body);
                }
                ReadPlan::AfterRespond => {
                    let s2 = sim.clone();
                    let g2 = got.clone();
                    let settled = settled.clone();
                    me.sp.spawn("reader", async move {
                        settled.wait().await;
                        read_body(&s2, &mut body, &g2, pace, usize::MAX).await;
                    });
                }
            }
            if plan.delay > 0 {
                sim.yields(plan.delay).await;
            }
            if plan.sleep_ns > 0 {
                sim.sleep(Duration::from_nanos(plan.sleep_ns)).await;
            }
            if let Some(g) = &plan.gate {
                g.0.wait().await;
            }
            mark.2 = true;
            sim.mark();
            drop(touched);
            if plan.fail {
                me.st.lock().unwrap().seen[idx].responded = true;
                sim.log(|| format!("service #{idx} returns an error"));
                return Err(match (plan.fail_h2, plan.fail_own) {
                    (Some((c, wrap)), _) => crate::body::h2_err(c, wrap),
                    (None, Some(t)) => Box::new(crate::facts::Own(t)),
                    (None, None) => "service failed on purpose".into(),
                });
            }
            let ext = if plan.resp.copy_ext { Some(std::mem::take(&mut parts.extensions)) } else { None };
            let (resp, log) = build_response(&sim, &plan.resp, ext);
            {
                let mut st = me.st.lock().unwrap();
                st.seen[idx].responded = true;
                st.seen[idx].responded_ns = Some(sim.now_ns());
                st.seen[idx].body_log = Some(log);
            }
            sim.log(|| format!("service #{idx} responds {}", plan.resp.status));
            Ok(resp)
        })
    }
}

#[derive(Debug, Clone, Default)]
pub struct ConnEnd {
    pub done: bool,
    pub ok: bool,
    pub err: String,
    pub is_timeout: bool,
    pub is_parse: bool,
    pub is_user: bool,
    pub is_incomplete: bool,
    pub is_body_write_aborted: bool,
    pub is_closed: bool,
    pub is_shutdown: bool,
    pub facts: Option<crate::facts::Facts>,
    pub at_ns: u64,
    /// state when graceful_shutdown() was first called
    pub asked: Option<Asked>,
}
#[derive(Debug, Clone, Copy)]
pub struct Asked {
    pub calls: usize,
    pub read_bytes: u64,
    pub written: u64,
    pub at_ns: u64,
    /// a service call had not returned yet
    pub in_service: bool,
}
impl ConnEnd {
    pub fn from(sim: &Sim, r: &Result<(), hyper::Error>) -> ConnEnd {
        let mut c = ConnEnd { done: true, at_ns: sim.now_ns(), ..Default::default() };
        match r {
            Ok(()) => c.ok = true,
            Err(e) => {
                c.err = format!("{e:?}");
                c.is_timeout = e.is_timeout();
                c.is_parse = e.is_parse();
                c.is_user = e.is_user();
                c.is_incomplete = e.is_incomplete_message();
                c.is_body_write_aborted = e.is_body_write_aborted();
                c.is_closed = e.is_closed();
                c.is_shutdown = e.is_shutdown();
                c.facts = Some(crate::facts::Facts::of(e));
            }
        }
        c
    }
}
pub type EndRef = Arc<Mutex<ConnEnd>>;

/// Spawns the server connection as task "server".
pub fn serve_h1(ex: &mut Exec, cfg: &SrvCfg, io: SimIo, svc: Svc, graceful: Gate) -> EndRef {
    let sim = ex.sim.clone();
    let end: EndRef = Default::default();
    let e2 = end.clone();
    let b = cfg.builder(&sim);
    let (calls, io_stats, svc_st) = (svc.calls.clone(), io.stats.clone(), svc.st.clone());
    macro_rules! drive {
        ($conn:expr) => {{
            let conn = $conn;
            ex.spawn("server", async move {
                let mut conn = Box::pin(conn);
                let mut g = Box::pin(async move { graceful.wait().await });
                let mut asked = false;
                let (s2, e3) = (sim.clone(), e2.clone());
                let r = std::future::poll_fn(move |cx| {
                    if !asked && g.as_mut().poll(cx).is_ready() {
                        asked = true;
                        s2.mark();
                        s2.log(|| "graceful_shutdown()".into());
                        {
                            let st = io_stats.lock().unwrap();
                            let a = Asked { calls: calls.get(), read_bytes: st.read_bytes, written: st.written, at_ns: s2.now_ns(), in_service: svc_st.lock().unwrap().seen.last().map(|s| !s.responded).unwrap_or(false) };
                            e3.lock().unwrap().asked = Some(a);
                        }
                        conn.as_mut().graceful_shutdown();
                    }
                    conn.as_mut().poll(cx)
                })
                .await;
                let c = ConnEnd::from(&sim, &r);
                sim.log(|| format!("server connection ended: {:?}", r));
                sim.mark();
                let mut e = e2.lock().unwrap();
                let asked = e.asked;
                *e = c;
                e.asked = asked;
            });
        }};
    }
    if cfg.upgrades {
        drive!(b.serve_connection(io, svc).with_upgrades())
    } else {
        drive!(b.serve_connection(io, svc))
    }
    end
}

//! The client side under test: scripted callers on an HTTP/1 client connection.
use crate::body::*;
use crate::h1gen::Hs;
use crate::rng::Rng;
use crate::sim::*;
use crate::srv::{ConnEnd, EndRef};
use http::{HeaderName, HeaderValue, Method, Request, Uri, Version};
use hyper::body::{Body, Incoming};
use hyper::client::conn::http1;
use std::future::Future;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub struct CliCfg {
    pub title_case: bool,
    pub preserve_case: bool,
    pub max_headers: Option<usize>,
    pub exact_buf: Option<usize>,
    pub max_buf: Option<usize>,
    pub writev: Option<bool>,
    pub h09: bool,
    pub spaces: bool,
    pub obs_fold: bool,
    pub ignore_invalid: bool,
    pub upgrades: bool,
}
impl CliCfg {
    pub fn plain() -> CliCfg {
        CliCfg { title_case: false, preserve_case: false, max_headers: None, exact_buf: None, max_buf: None, writev: None, h09: false, spaces: false, obs_fold: false, ignore_invalid: false, upgrades: false }
    }
    pub fn gen(r: &mut Rng) -> CliCfg {
        let exact = *r.pick(&[None, None, None, None, Some(9000), Some(30000)]);
        CliCfg {
            title_case: r.pct(10),
            preserve_case: r.pct(10),
            max_headers: *r.pick(&[None, None, None, Some(100), Some(120), Some(64), Some(300)]),
            exact_buf: exact,
            max_buf: if exact.is_none() { *r.pick(&[None, None, Some(8192), Some(65536)]) } else { None },
            writev: *r.pick(&[None, None, Some(true), Some(false)]),
            h09: r.pct(8),
            spaces: r.pct(10),
            obs_fold: r.pct(10),
            ignore_invalid: r.pct(10),
            upgrades: r.pct(30),
        }
    }
    pub fn builder(&self) -> http1::Builder {
        let mut b = http1::Builder::new();
        b.title_case_headers(self.title_case).preserve_header_case(self.preserve_case).http09_responses(self.h09);
        b.allow_spaces_after_header_name_in_responses(self.spaces)
            .allow_obsolete_multiline_headers_in_responses(self.obs_fold)
            .ignore_invalid_headers_in_responses(self.ignore_invalid);
        if let Some(m) = self.max_headers {
            b.max_headers(m);
        }
        if let Some(m) = self.exact_buf {
            b.read_buf_exact_size(Some(m));
        }
        if let Some(m) = self.max_buf {
            b.max_buf_size(m);
        }
        if let Some(w) = self.writev {
            b.writev(w);
        }
        b
    }
}

pub type Sender1 = http1::SendRequest<ScriptBody>;

pub fn now<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let w = std::task::Waker::noop();
    let mut cx = std::task::Context::from_waker(w);
    match f.as_mut().poll(&mut cx) {
        std::task::Poll::Ready(x) => x,
        std::task::Poll::Pending => panic!("handshake did not complete at once"),
    }
}

/// Spawns the client connection as task "client".
pub fn connect_h1(ex: &mut Exec, cfg: &CliCfg, io: SimIo) -> (Sender1, EndRef) {
    let (tx, conn) = now(cfg.builder().handshake::<_, ScriptBody>(io)).expect("handshake");
    let end: EndRef = Default::default();
    let e2 = end.clone();
    let sim = ex.sim.clone();
    macro_rules! drive {
        ($c:expr) => {{
            let c = $c;
            ex.spawn("client", async move {
                let r = c.await;
                sim.log(|| format!("client connection ended: {:?}", r));
                sim.mark();
                *e2.lock().unwrap() = ConnEnd::from(&sim, &r);
            })
        }};
    }
    if cfg.upgrades {
        drive!(conn.with_upgrades())
    } else {
        drive!(conn)
    }
    (tx, end)
}

#[derive(Clone, Debug)]
pub struct ReqSpec {
    pub method: String,
    pub uri: String,
    pub version: Version,
    pub headers: Hs,
    pub script: Script,
    pub informational: bool,
    pub copy_case: Vec<(String, String)>,
}
impl ReqSpec {
    pub fn get(path: &str) -> ReqSpec {
        ReqSpec { method: "GET".into(), uri: path.into(), version: Version::HTTP_11, headers: vec![("host".into(), b"example.com".to_vec())], script: Script::empty(), informational: false, copy_case: vec![] }
    }
}
pub type Infos = Arc<Mutex<Vec<(u16, Version, Hs)>>>;

pub fn build_request(sim: &Sim, s: &ReqSpec, infos: &Infos) -> (Request<ScriptBody>, Arc<Mutex<BodyLog>>) {
    let body = ScriptBody::new(sim, &s.script);
    let log = body.log.clone();
    let mut r = Request::new(body);
    *r.method_mut() = Method::from_bytes(s.method.as_bytes()).unwrap();
    *r.uri_mut() = s.uri.parse::<Uri>().unwrap_or_else(|e| panic!("uri {:?}: {e}", s.uri));
    *r.version_mut() = s.version;
    for (k, v) in &s.headers {
        r.headers_mut().append(HeaderName::from_bytes(k.as_bytes()).unwrap(), HeaderValue::from_bytes(v).unwrap());
    }
    if s.informational {
        let i2 = infos.clone();
        let sim = sim.clone();
        hyper::ext::on_informational(&mut r, move |resp| {
            sim.mark();
            i2.lock().unwrap().push((resp.status().as_u16(), resp.version(), crate::util::hv(resp.headers())));
        });
    }
    (r, log)
}

#[derive(Clone, Debug, Default)]
pub struct ErrInfo {
    pub dbg: String,
    pub parse: bool,
    pub user: bool,
    pub canceled: bool,
    pub closed: bool,
    pub incomplete: bool,
    pub timeout: bool,
    pub body_write_aborted: bool,
    pub reason: Option<u32>,
    pub facts: crate::facts::Facts,
}
impl ErrInfo {
    pub fn of(e: &hyper::Error) -> ErrInfo {
        ErrInfo {
            dbg: format!("{e:?}"),
            parse: e.is_parse(),
            user: e.is_user(),
            canceled: e.is_canceled(),
            closed: e.is_closed(),
            incomplete: e.is_incomplete_message(),
            timeout: e.is_timeout(),
            body_write_aborted: e.is_body_write_aborted(),
            reason: reason_of(e),
            facts: crate::facts::Facts::of(e),
        }
    }
}
/// What one caller observed.
#[derive(Default)]
pub struct Exchange {
    pub submitted: bool,
    pub resolved: u32,
    pub dropped: bool,
    pub status: Option<u16>,
    pub version: Option<Version>,
    pub headers: Hs,
    pub reason: Option<Vec<u8>>,
    pub err: Option<ErrInfo>,
    pub taken_back: bool,
    pub got: GotRef,
    pub infos: Infos,
    pub body_log: Option<Arc<Mutex<BodyLog>>>,
    pub hint: Option<u64>,
    pub upgrade: Option<hyper::upgrade::OnUpgrade>,
    pub body: Option<Incoming>,
    pub ext: Option<http::Extensions>,
    pub infos_before_resp: usize,
    pub at_ns: u64,
}
pub type ExRef = Arc<Mutex<Exchange>>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CRead {
    All,
    Never,
    Partial(usize),
    /// keep the body in the exchange record, unread
    Keep,
}
/// Records a resolved response; reads the body as asked.
pub async fn take_response(sim: &Sim, x: &ExRef, mut resp: http::Response<Incoming>, read: CRead, pace: u32) {
    let up = hyper::upgrade::on(&mut resp);
    let (parts, mut body) = resp.into_parts();
    let got = {
        let mut g = x.lock().unwrap();
        g.status = Some(parts.status.as_u16());
        g.version = Some(parts.version);
        g.headers = crate::util::hv(&parts.headers);
        g.reason = parts.extensions.get::<hyper::ext::ReasonPhrase>().map(|r| r.as_bytes().to_vec());
        g.hint = body.size_hint().exact();
        g.upgrade = Some(up);
        g.ext = Some(parts.extensions);
        let k = g.infos.lock().unwrap().len();
        g.infos_before_resp = k;
        g.at_ns = sim.now_ns();
        g.got.clone()
    };
    sim.log(|| format!("caller got response {}", parts.status));
    match read {
        CRead::All => read_body(sim, &mut body, &got, pace, usize::MAX).await,
        CRead::Never => drop(body),
        CRead::Partial(n) => read_body(sim, &mut body, &got, pace, n).await,
        CRead::Keep => x.lock().unwrap().body = Some(body),
    }
}
/// Sends one request and follows it to the end of its response body.
pub async fn exchange(sim: &Sim, tx: &mut Sender1, spec: &ReqSpec, x: &ExRef, read: CRead, pace: u32, use_try: bool) {
    let infos = x.lock().unwrap().infos.clone();
    let (req, log) = build_request(sim, spec, &infos);
    {
        let mut g = x.lock().unwrap();
        g.body_log = Some(log);
        g.submitted = true;
    }
    sim.log(|| format!("caller sends {} {}", spec.method, spec.uri));
    let r = if use_try {
        match tx.try_send_request(req).await {
            Ok(r) => Ok(r),
            Err(mut e) => {
                let back = e.take_message().is_some();
                x.lock().unwrap().taken_back = back;
                Err(e.into_error())
            }
        }
    } else {
        tx.send_request(req).await
    };
    sim.mark();
    x.lock().unwrap().resolved += 1;
    match r {
        Ok(resp) => take_response(sim, x, resp, read, pace).await,
        Err(e) => {
            sim.log(|| format!("caller got error {e:?}"));
            let mut g = x.lock().unwrap();
            g.err = Some(ErrInfo::of(&e));
            g.at_ns = sim.now_ns();
        }
    }
}

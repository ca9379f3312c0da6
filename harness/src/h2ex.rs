//! Generated HTTP/2 exchanges and the oracle comparing what was sent with what arrived.
use crate::body::*;
use crate::cli::*;
use crate::h1gen::*;
use crate::h2x::*;
use crate::report::CaseOut;
use crate::rng::Rng;
use crate::srv::*;
use crate::util::*;
use http::{HeaderMap, HeaderName, HeaderValue, Version};

fn lowered(h: Hs) -> Hs {
    h.into_iter().map(|(k, v)| (k.to_ascii_lowercase(), v)).collect()
}
/// keeps the decoded header list below the default limit of 16 KiB
pub fn bounded(mut h: Hs) -> Hs {
    let mut n = 0;
    h.retain(|(k, v)| {
        n += k.len() + v.len() + 32;
        n < 11_000
    });
    h
}
pub fn trailers(r: &mut Rng) -> HeaderMap {
    let mut t = HeaderMap::new();
    for _ in 0..r.range(0, 4) {
        let n = format!("x-t{}", r.below(3));
        t.append(HeaderName::from_bytes(n.as_bytes()).unwrap(), HeaderValue::from_bytes(&value(r)).unwrap());
    }
    t
}
pub fn gen_body(r: &mut Rng, max: usize) -> Script {
    let n = r.size(max);
    let mut s = Script::gen(r, n);
    if r.pct(20) {
        s.steps.push(Step::Trailers(trailers(r)));
        if s.hint == Hint::Exact && r.pct(50) {
            s.hint = Hint::Unknown;
        }
        if r.pct(20) {
            s.steps.push(Step::Pend(1));
        }
    }
    s
}
pub fn gen_req2(r: &mut Rng, id: usize, max: usize) -> ReqSpec {
    let method = r.pick(METHODS).to_string();
    let mut hs = bounded(lowered(headers(r, 20)));
    hs.retain(|(k, _)| k != "x-id");
    hs.push(("x-id".into(), id.to_string().into_bytes()));
    let script = if method == "TRACE" || r.pct(40) { Script { eager_eos: r.pct(80), ..Script::empty() } } else { gen_body(r, max) };
    if script.len() > 0 && r.pct(15) {
        hs.push(("content-length".into(), script.len().to_string().into_bytes()));
    }
    let mut p = path(r);
    p.truncate(600);
    if p.ends_with('%') || p[p.len().saturating_sub(2)..].starts_with('%') {
        p = "/cut".into();
    }
    let uri = match r.below(10) {
        0 => format!("https://h{}.example:{}{}", r.below(10), r.range(1, 65535), p),
        1 if method == "OPTIONS" => "http://example.com/*".into(),
        _ => abs(&p),
    };
    ReqSpec { method, uri, version: *r.pick(&[Version::HTTP_11, Version::HTTP_2]), headers: hs, script, informational: false, copy_case: vec![] }
}
const STATUSES: &[u16] = &[200, 200, 200, 201, 202, 203, 204, 205, 206, 226, 301, 304, 400, 401, 404, 418, 429, 500, 503, 299, 599, 999];
pub fn gen_resp2(r: &mut Rng, method: &str, max: usize) -> RespSpec {
    let status = *r.pick(STATUSES);
    let bodiless = method == "HEAD" || status == 204 || status == 304 || status == 205;
    let mut hs = bounded(lowered(headers(r, 20)));
    let script = if bodiless || r.pct(20) { Script { eager_eos: r.pct(80), ..Script::empty() } } else { gen_body(r, max) };
    if bodiless && status != 204 && status != 205 {
        if r.pct(20) && script.eager_eos {
            hs.push(("content-length".into(), b"17".to_vec()));
        }
    } else if script.len() > 0 && r.pct(15) {
        hs.push(("content-length".into(), script.len().to_string().into_bytes()));
    }
    if r.pct(10) {
        hs.push(("date".into(), b"Sun, 06 Nov 1994 08:49:37 GMT".to_vec()));
    }
    RespSpec { status, version: *r.pick(&[Version::HTTP_11, Version::HTTP_2]), headers: hs, reason: None, script, copy_ext: false }
}
pub fn eager_empty(s: &Script) -> bool {
    s.steps.is_empty() && s.eager_eos
}
fn tr(s: &Script) -> Option<Hs> {
    s.trailers().map(hv)
}
fn same_trailers(want: &Option<Hs>, got: &Option<Hs>) -> Result<(), String> {
    let w = want.clone().unwrap_or_default();
    let g = got.clone().unwrap_or_default();
    same_fields(&w, &g)
}
pub fn has(h: &Hs, n: &str) -> bool {
    h.iter().any(|(k, _)| k == n)
}
/// Request head as the service saw it.
pub fn judge_head(i: usize, s: &ReqSpec, seen: &Seen, out: &mut CaseOut) {
    if seen.method != s.method {
        out.viol(format!("request {i}: method {:?} instead of {:?}", seen.method, s.method));
    }
    if seen.uri != s.uri {
        out.viol(format!("request {i}: target {:?} instead of {:?}", seen.uri, s.uri));
    }
    if seen.version != Version::HTTP_2 {
        out.viol(format!("request {i}: version {:?}", seen.version));
    }
    let mut want = s.headers.clone();
    if !has(&want, "content-length") && s.script.hint == Hint::Exact {
        let payload = !matches!(s.method.as_str(), "GET" | "HEAD" | "DELETE" | "CONNECT");
        if s.script.len() > 0 {
            want.push(("content-length".into(), s.script.len().to_string().into_bytes()));
        } else if payload && has(&seen.headers, "content-length") {
            // announcing an empty payload is the client's choice
            want.push(("content-length".into(), b"0".to_vec()));
        }
    }
    if let Err(e) = same_fields(&want, &seen.headers) {
        out.viol(format!("request {i} (as seen by the service): {e}"));
    }
}
pub fn judge_body(what: &str, s: &Script, got: &Got, out: &mut CaseOut) {
    if let Some(e) = &got.err {
        out.viol(format!("{what}: body failed after {} of {} bytes: {e}", got.data.len(), s.len()));
        return;
    }
    if !got.done {
        out.viol(format!("{what}: body never ended ({} of {} bytes)", got.data.len(), s.len()));
        return;
    }
    let w = s.data();
    if got.data != w {
        out.viol(format!("{what}: body differs (want, got): {}", diff(&w, &got.data)));
    }
    if let Err(e) = same_trailers(&tr(s), &got.trailers) {
        out.viol(format!("{what}: trailers: {e}"));
    }
}
pub fn judge_prefix(what: &str, s: &Script, got: &Got, out: &mut CaseOut) {
    let w = s.data();
    if got.data.len() > w.len() || got.data[..] != w[..got.data.len()] {
        out.viol(format!("{what}: bytes read are not a prefix of the body: {}", diff(&w, &got.data)));
    }
}
/// Response head as the caller saw it.
pub fn judge_resp_head(i: usize, s: &RespSpec, date: bool, x: &Exchange, out: &mut CaseOut) {
    if x.status != Some(s.status) {
        out.viol(format!("response {i}: status {:?} instead of {}", x.status, s.status));
    }
    if x.version != Some(Version::HTTP_2) {
        out.viol(format!("response {i}: version {:?}", x.version));
    }
    let mut want = s.headers.clone();
    let nd = x.headers.iter().filter(|(k, _)| k == "date").count();
    if !has(&want, "date") {
        if nd != date as usize {
            out.viol(format!("response {i}: {nd} date fields, automatic dates {date}"));
        }
        if let Some(d) = x.headers.iter().find(|(k, _)| k == "date") {
            want.push(d.clone());
        }
    }
    if !has(&want, "content-length") && s.script.hint == Hint::Exact {
        if s.script.len() > 0 {
            want.push(("content-length".into(), s.script.len().to_string().into_bytes()));
        } else if has(&x.headers, "content-length") {
            want.push(("content-length".into(), b"0".to_vec()));
        }
    }
    if let Err(e) = same_fields(&want, &x.headers) {
        out.viol(format!("response {i}: {e}"));
    }
}
/// Scales windows and transport so that a case of `bytes` stays affordable.
pub fn tame2(r: &mut Rng, c: &mut H2Cfg, bytes: usize) {
    let lim = |w: &mut Option<u32>, lo: u32| {
        if let Some(x) = w {
            if *x < lo {
                *x = lo
            }
        }
    };
    if bytes > 400 {
        lim(&mut c.stream_win, 100);
    }
    if bytes > 5_000 {
        lim(&mut c.stream_win, 5_000);
        if matches!(c.send_buf, Some(x) if x < 1000) {
            c.send_buf = Some(*r.pick(&[1000, 5000]));
        }
    }
    if bytes > 100_000 {
        lim(&mut c.stream_win, 16_384);
        lim(&mut c.conn_win, 65_535);
        if c.send_buf.is_some() {
            c.send_buf = Some(*r.pick(&[16_384, 100_000]));
        }
    }
}

/// Transport settings for HTTP/2: one direction may push back, never both.
pub fn gen_io2(r: &mut Rng, bytes: usize) -> (crate::sim::IoCfg, crate::sim::IoCfg) {
    let (mut a, mut b) = (crate::sim::IoCfg::gen(r), crate::sim::IoCfg::gen(r));
    crate::run::tame(r, &mut a, &mut b, bytes);
    // h2 does not read while it owes the peer an acknowledgement it cannot write, so only one
    // direction may be tight: with both, two h2 peers can block each other for good.
    if r.pct(50) {
        a.cap = usize::MAX
    } else {
        b.cap = usize::MAX
    }
    (a, b)
}
/// The peer closed its end while something was still to be written to it.
pub fn peer_gone(c: &ConnEnd) -> bool {
    c.err.contains("broken pipe")
}

/// Keeps the number of tiny DATA frames of one direction below what h2 takes for an attack
/// (about 100 buffered frames under 256 bytes, 100 empty ones per connection).
pub fn coarsen(scripts: Vec<&mut Script>, c: &mut H2Cfg) {
    let (mut tiny, mut empty) = (0usize, 0usize);
    let many = scripts.len() > 12;
    for s in scripts {
        let mut steps: Vec<Step> = vec![];
        for st in s.steps.drain(..) {
            if let Step::Data(d) = &st {
                if d.is_empty() {
                    empty += 1;
                    if empty > 40 {
                        continue;
                    }
                } else if d.len() < 256 {
                    tiny += 1;
                    if tiny > 60 {
                        if let Some(Step::Data(p)) = steps.iter_mut().rev().find(|x| matches!(x, Step::Data(p) if !p.is_empty())) {
                            p.extend_from_slice(d);
                            continue;
                        }
                    }
                }
            }
            steps.push(st);
        }
        s.steps = steps;
    }
    if many {
        for w in [&mut c.stream_win] {
            if matches!(w, Some(x) if *x < 5000) {
                *w = Some(5000);
            }
        }
        if matches!(c.send_buf, Some(x) if x < 1000) {
            c.send_buf = Some(1000);
        }
    }
}

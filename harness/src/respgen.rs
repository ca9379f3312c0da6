//! Generator of service responses and the oracle for how they must look on the wire (HTTP/1).
use crate::body::*;
use crate::h1gen::*;
use crate::refh1::*;
use crate::report::CaseOut;
use crate::rng::Rng;
use crate::srv::*;
use crate::util::*;
use http::{HeaderMap, HeaderName, HeaderValue, Version};

pub const FORBIDDEN_TRAILERS: &[&str] = &[
    "authorization", "cache-control", "content-encoding", "content-length", "content-range", "content-type", "host", "max-forwards", "set-cookie", "te", "trailer", "transfer-encoding",
];
const STATUSES: &[u16] = &[200, 200, 200, 201, 202, 203, 204, 205, 206, 226, 301, 302, 304, 400, 401, 404, 409, 418, 426, 429, 500, 502, 503, 511, 299, 499, 599, 600, 999];

/// Trailer field lists, some of them undeclared or not permitted.
pub fn gen_trailers(r: &mut Rng) -> (HeaderMap, Vec<Vec<u8>>) {
    let mut t = HeaderMap::new();
    let mut declared: Vec<String> = vec![];
    let n = r.range(0, 5);
    for i in 0..n {
        let name = match r.below(8) {
            0 => r.pick(FORBIDDEN_TRAILERS).to_string(),
            1 => "x-t0".into(),
            _ => format!("x-t{i}"),
        };
        t.append(HeaderName::from_bytes(name.as_bytes()).unwrap(), HeaderValue::from_bytes(&value(r)).unwrap());
        if r.pct(75) {
            declared.push(if r.pct(20) { name.to_ascii_uppercase() } else { name });
        }
    }
    if r.pct(20) {
        declared.push("x-absent".into());
    }
    // one or several Trailer lines
    let mut lines: Vec<Vec<u8>> = vec![];
    for d in declared {
        match lines.last_mut() {
            Some(l) if r.pct(60) => l.extend_from_slice(format!("{}{}", r.pick(&[", ", ",", " , "]), d).as_bytes()),
            _ => lines.push(d.into_bytes()),
        }
    }
    (t, lines)
}
pub struct SpecOpt {
    pub max_body: usize,
    pub http10: bool,
    pub method: String,
    pub conn_headers: bool,
    pub date: bool,
}
pub fn gen_spec(r: &mut Rng, o: &SpecOpt) -> RespSpec {
    let mut status = *r.pick(STATUSES);
    if o.method == "CONNECT" && (200..300).contains(&status) {
        status = 405;
    }
    let n = r.size(o.max_body);
    let mut script = Script::gen(r, n);
    let mut hs: Hs = headers(r, 20);
    let bodiless = o.method == "HEAD" || status == 204 || status == 304;
    // framing fields chosen by the application
    match r.below(10) {
        0 | 1 if status != 204 => {
            let at = r.below(hs.len() + 1);
            let v = if r.pct(15) { format!("00{n}") } else { n.to_string() };
            hs.insert(at, ("content-length".into(), v.clone().into_bytes()));
            if r.pct(10) && !bodiless && n > 0 {
                hs.push(("content-length".into(), v.into_bytes()));
            }
        }
        2 => {
            let at = r.below(hs.len() + 1);
            hs.insert(at, ("transfer-encoding".into(), b"chunked".to_vec()));
        }
        3 => {
            let at = r.below(hs.len() + 1);
            match r.below(3) {
                0 => hs.insert(at, ("transfer-encoding".into(), b"gzip".to_vec())),
                1 => hs.insert(at, ("transfer-encoding".into(), b"gzip, chunked".to_vec())),
                _ => {
                    hs.insert(at, ("transfer-encoding".into(), b"gzip".to_vec()));
                    hs.push(("transfer-encoding".into(), b"br".to_vec()));
                }
            }
        }
        4..=6 => {
            // trailers
            let (t, lines) = gen_trailers(r);
            for l in lines {
                let at = r.below(hs.len() + 1);
                hs.insert(at, ("trailer".into(), l));
            }
            script.steps.push(Step::Trailers(t));
            script.hint = *r.pick(&[Hint::Unknown, Hint::Lower, Hint::Upper]);
            if r.pct(30) {
                script.steps.push(Step::Pend(1));
            }
        }
        _ => {}
    }
    if o.conn_headers && r.pct(20) {
        let v = r.pick(&[&b"close"[..], b"keep-alive", b"x-foo", b"Close, x-foo", b"x-foo, keep-alive"]).to_vec();
        let at = r.below(hs.len() + 1);
        hs.insert(at, ("connection".into(), v));
    }
    if o.date && r.pct(15) {
        hs.push(("date".into(), b"Sun, 06 Nov 1994 08:49:37 GMT".to_vec()));
    }
    // a sized body that answers HEAD / 304 may also be empty with a declared length
    if bodiless && r.pct(20) {
        script = Script::empty();
    }
    let reason = if r.pct(15) {
        let k = r.range(0, 20);
        Some((0..k).map(|_| *r.pick(b"abcXYZ 0189\t'()-\x80\xff!#~")).collect())
    } else {
        None
    };
    RespSpec {
        status,
        version: if o.http10 && r.pct(8) { Version::HTTP_10 } else { Version::HTTP_11 },
        headers: hs,
        reason,
        script,
        copy_ext: false,
    }
}
fn vals(h: &Hs, n: &str) -> Vec<Vec<u8>> {
    h.iter().filter(|(k, _)| k == n).map(|(_, v)| v.clone()).collect()
}
fn toks(h: &Hs, n: &str) -> Vec<String> {
    let v = vals(h, n);
    let v: Vec<&[u8]> = v.iter().map(|x| &x[..]).collect();
    tokens(&v)
}
/// What may legitimately differ between peers.
pub struct PeerInfo {
    pub method: String,
    pub minor: u8,
    pub te_trailers: bool,
}
/// Judges one response as received by a strict client against what the service returned.
pub fn judge_response(i: usize, m: &Msg, s: &RespSpec, p: &PeerInfo, date: bool, out: &mut CaseOut) {
    let want = if (100..200).contains(&s.status) && s.status != 101 { 500 } else { s.status };
    if m.status() != want {
        out.viol(format!("response {i}: status {} instead of {}", m.status(), want));
        return;
    }
    let peer10 = p.minor == 0;
    let minor = if peer10 || s.version == Version::HTTP_10 { 0 } else { 1 };
    if m.minor != minor {
        out.viol(format!("response {i}: version 1.{} instead of 1.{minor}", m.minor));
    }
    if let Some(rp) = &s.reason {
        if m.start[2] != String::from_utf8_lossy(rp) {
            out.viol(format!("response {i}: reason {:?} instead of {:?}", m.start[2], show(rp)));
        }
    }
    // fields other than the ones the server is in charge of
    let managed = ["content-length", "transfer-encoding", "connection", "trailer", "date"];
    let app: Hs = s.headers.iter().filter(|(k, _)| !managed.contains(&k.as_str())).cloned().collect();
    let got: Hs = lower(&m.headers).into_iter().filter(|(k, _)| !managed.contains(&k.as_str())).collect();
    if let Err(e) = same_fields(&app, &got) {
        out.viol(format!("response {i}: {e}"));
    }
    let lowered = lower(&m.headers);
    let date_app = vals(&s.headers, "date");
    let date_got = vals(&lowered, "date");
    if !date_app.is_empty() {
        if date_app != date_got {
            out.viol(format!("response {i}: application's date not forwarded: {date_got:?}"));
        }
    } else if date_got.len() != date as usize {
        out.viol(format!("response {i}: {} date fields", date_got.len()));
    }
    let bodiless = p.method == "HEAD" || matches!(want, 204 | 304);
    let chunked_ok = minor == 1 && !bodiless;
    // transfer-encoding
    let te_app = toks(&s.headers, "transfer-encoding");
    let te_got = toks(&lowered, "transfer-encoding");
    if !te_app.is_empty() && chunked_ok {
        let mut w = te_app.clone();
        if w.last().map(|x| x.as_str()) != Some("chunked") {
            w.push("chunked".into());
        }
        if w != te_got {
            out.viol(format!("response {i}: transfer-encoding {te_got:?} for application's {te_app:?}"));
        }
    } else if te_got.len() > 1 || (!te_got.is_empty() && !chunked_ok) {
        out.viol(format!("response {i}: unexpected transfer-encoding {te_got:?}"));
    }
    // trailer announcement
    let tr_app = toks(&s.headers, "trailer");
    let tr_got = toks(&lowered, "trailer");
    if tr_got != if chunked_ok { tr_app.clone() } else { vec![] } && !(tr_got.is_empty() && !chunked_ok) {
        out.viol(format!("response {i}: trailer field {tr_got:?} for {tr_app:?}"));
    }
    // connection tokens set by the application survive, unless replaced by the server's own decision
    let c_app = toks(&s.headers, "connection");
    let c_got = toks(&lowered, "connection");
    let own = |c: &Vec<String>| c.is_empty() || c == &["close"] || c == &["keep-alive"];
    let rest = |c: &Vec<String>| c.iter().filter(|x| *x != "close" && *x != "keep-alive").cloned().collect::<Vec<_>>();
    if rest(&c_got) != rest(&c_app) && !own(&c_got) {
        out.viol(format!("response {i}: connection field {c_got:?} for application's {c_app:?}"));
    }
    // content-length
    let n = s.script.len();
    let cl = vals(&lowered, "content-length");
    let exact = s.script.hint == Hint::Exact;
    if let Some(v) = cl.first() {
        let v: u64 = String::from_utf8_lossy(v).parse().unwrap_or(u64::MAX);
        let declared: Option<u64> = s.headers.iter().find(|(k, _)| k == "content-length").and_then(|(_, v)| String::from_utf8_lossy(v).parse().ok());
        let ok = v == n as u64 || (bodiless && declared == Some(v));
        if !ok {
            out.viol(format!("response {i}: content-length {v} for a body of {n} bytes"));
        }
    } else if exact && n > 0 && te_got.is_empty() && !bodiless {
        out.viol(format!("response {i}: body of known length {n} sent without content-length (framing {:?})", m.framing));
    }
    // body
    let want_body = if bodiless { vec![] } else { s.script.data() };
    if !m.complete {
        out.viol(format!("response {i}: incomplete on the wire ({} of {} bytes, framing {:?})", m.body.len(), want_body.len(), m.framing));
        return;
    }
    if m.body != want_body {
        out.viol(format!("response {i}: body differs (want, got): {}", diff(&want_body, &m.body)));
    }
    // trailers
    let mut want_t: Hs = vec![];
    if m.framing == Framing::Chunked && p.te_trailers {
        if let Some(t) = s.script.trailers() {
            for (k, v) in t {
                if tr_app.contains(&k.as_str().to_string()) && !FORBIDDEN_TRAILERS.contains(&k.as_str()) {
                    want_t.push((k.as_str().into(), v.as_bytes().to_vec()));
                }
            }
        }
    }
    if let Err(e) = same_fields(&want_t, &lower(&m.trailers)) {
        out.viol(format!("response {i}: trailers: {e}"));
    }
    if m.chunks.iter().any(|c| *c == 0) {
        out.viol(format!("response {i}: zero chunk inside the body"));
    }
}

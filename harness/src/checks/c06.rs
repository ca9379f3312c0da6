//! C06: client requests are framed so a strict server reads them exactly.
use crate::body::*;
use crate::cli::*;
use crate::h1gen::*;
use crate::peer::*;
use crate::refh1;
use crate::refh1::{tokens, Framing};
use crate::report::*;
use crate::respgen::*;
use crate::rng::{mix, Rng};
use crate::run::tame;
use crate::sim::*;
use crate::util::*;
use http::{Uri, Version};
use std::sync::{Arc, Mutex};

pub const CHECK: Check = Check {
    id: "C06",
    level: "exploration",
    rule: "a case is one client connection with 1-5 generated requests (method, target, version, caller-set framing/Connection/Trailer fields, scripted body with exact, unknown or lower-bound size, empty, trailers) against a strict reference server; distinct = distinct (request bytes, schedule) with at least one request compared",
    quick: 60_000,
    thorough: 2_000_000,
    run: case,
    assumptions: &["a valid Content-Length set by the caller is true", "bodies of unknown size are (as documented) not sent with GET, HEAD, CONNECT or to HTTP/1.0 peers"],
};

pub struct Want {
    pub spec: ReqSpec,
    pub cl: Vec<Vec<u8>>,
    pub te: Vec<Vec<u8>>,
}
fn vals(h: &Hs, n: &str) -> Vec<Vec<u8>> {
    h.iter().filter(|(k, _)| k.eq_ignore_ascii_case(n)).map(|(_, v)| v.clone()).collect()
}
fn num(v: &[u8]) -> Option<u64> {
    let s = std::str::from_utf8(v).ok()?;
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    s.parse().ok()
}
pub fn gen_req(r: &mut Rng, maxb: usize, i: usize, last: bool) -> ReqSpec {
    let method = if r.pct(80) { r.pick(METHODS).to_string() } else { r.pick(&["GET", "HEAD", "CONNECT", "POST"]).to_string() };
    let uri = if method == "CONNECT" { format!("h{}.example:{}", r.below(50), r.range(1, 65535)) } else { target(r, &method) };
    let n = if r.pct(25) { 0 } else { r.size(maxb) };
    let mut script = if n == 0 && r.pct(60) { Script::empty() } else { Script::gen(r, n) };
    let mut hs = headers(r, 20);
    if r.pct(80) {
        let at = r.below(hs.len() + 1);
        hs.insert(at, ("host".into(), b"example.com".to_vec()));
    }
    if r.pct(10) {
        hs.push(("expect".into(), b"100-continue".to_vec()));
    }
    let ins = |r: &mut Rng, hs: &mut Hs, k: &str, v: &[u8]| {
        let at = r.below(hs.len() + 1);
        hs.insert(at, (k.into(), v.to_vec()));
    };
    let te = |r: &mut Rng, hs: &mut Hs| match r.below(7) {
        0..=2 => ins(r, hs, "transfer-encoding", b"chunked"),
        3 => ins(r, hs, "transfer-encoding", b"gzip"),
        4 => ins(r, hs, "transfer-encoding", b"gzip,  Chunked"),
        5 => {
            hs.push(("transfer-encoding".into(), b"gzip".to_vec()));
            hs.push(("transfer-encoding".into(), b"chunked".to_vec()));
        }
        _ => {
            hs.push(("transfer-encoding".into(), b"gzip".to_vec()));
            hs.push(("transfer-encoding".into(), b"br".to_vec()));
        }
    };
    let bad: &[&[u8]] = &[b"abc", b"-1", b"+1", b"", b"1 2", b"3, 4", b"18446744073709551616", b"0x10"];
    match r.below(14) {
        0..=2 => {
            let v = if r.pct(20) { format!("00{n}") } else { n.to_string() };
            ins(r, &mut hs, "content-length", v.as_bytes());
        }
        3 => te(r, &mut hs),
        4 => {
            te(r, &mut hs);
            ins(r, &mut hs, "content-length", n.to_string().as_bytes());
        }
        5 => {
            // an invalid length next to (or instead of) a framing hyper must choose itself
            let k = *r.pick(bad);
            if n > 0 {
                if r.pct(50) {
                    te(r, &mut hs)
                } else if matches!(&method[..], "GET" | "HEAD" | "CONNECT") {
                    script.hint = Hint::Exact;
                }
                ins(r, &mut hs, "content-length", k);
            }
        }
        6..=8 => {
            let (t, lines) = gen_trailers(r);
            for l in lines {
                ins(r, &mut hs, "trailer", &l);
            }
            script.steps.push(Step::Trailers(t));
            script.hint = *r.pick(&[Hint::Unknown, Hint::Lower, Hint::Upper]);
            script.eager_eos = r.pct(50);
            if r.pct(30) {
                ins(r, &mut hs, "transfer-encoding", b"chunked");
            }
        }
        _ => {}
    }
    if r.pct(10) {
        let v = r.pick(&[&b"x-hop"[..], b"keep-alive", b"Keep-Alive, x-hop"]).to_vec();
        ins(r, &mut hs, "connection", &v);
    } else if last && r.pct(10) {
        ins(r, &mut hs, "connection", b"x-hop, Close");
    }
    let version = *r.pick(&[Version::HTTP_11, Version::HTTP_11, Version::HTTP_11, Version::HTTP_11, Version::HTTP_10, Version::HTTP_2]);
    ReqSpec { method, uri: if i > 9 { "/".into() } else { uri }, version, headers: hs, script, informational: false, copy_case: vec![] }
}

/// Judges one request on the wire against what the caller asked for. `peer10`: the server spoke HTTP/1.0 before.
pub fn judge_request(i: usize, m: &refh1::Msg, s: &ReqSpec, peer10: bool, out: &mut CaseOut) {
    let eff10 = peer10 || s.version == Version::HTTP_10;
    let none_body = s.script.eager_eos && s.script.steps.is_empty();
    let data = s.script.data();
    let known = s.script.hint == Hint::Exact;
    let cls = vals(&s.headers, "content-length");
    let valid_cl = !cls.is_empty() && cls.iter().all(|v| num(v) == Some(data.len() as u64));
    let tes = vals(&s.headers, "transfer-encoding");
    let use_te = !tes.is_empty() && !eff10 && !none_body;
    let no_body_method = matches!(&s.method[..], "GET" | "HEAD" | "CONNECT");
    let suppressed = !known && !valid_cl && !use_te && !none_body && (no_body_method || eff10);
    let want_body: &[u8] = if suppressed { b"" } else { &data };
    if m.start[0] != s.method {
        out.viol(format!("request {i}: method {:?} instead of {:?}", m.start[0], s.method));
    }
    let t = s.uri.parse::<Uri>().unwrap().to_string();
    if m.start[1] != t {
        out.viol(format!("request {i}: target {:?} instead of {t:?}", m.start[1]));
    }
    if m.minor != !eff10 as u8 {
        out.viol(format!("request {i}: version 1.{} (asked {:?}, server 1.0: {peer10})", m.minor, s.version));
    }
    // framing fields
    let wcl = m.get_all("content-length");
    let wte = m.get_all("transfer-encoding");
    if !wcl.is_empty() && !wte.is_empty() {
        out.viol(format!("request {i}: both Content-Length {:?} and Transfer-Encoding on the wire", show(wcl[0])));
    }
    if eff10 && !wte.is_empty() {
        out.viol(format!("request {i}: Transfer-Encoding on an HTTP/1.0 request"));
    }
    if use_te {
        let mut w = tokens(&wte);
        let mut u = tokens(&tes.iter().map(|x| &x[..]).collect::<Vec<_>>());
        if w.last().map(|x| x == "chunked") != Some(true) {
            out.viol(format!("request {i}: transfer coding {w:?} does not end in chunked"));
        }
        w.pop();
        if u.last().map(|x| x == "chunked") == Some(true) {
            u.pop();
        }
        if w != u {
            out.viol(format!("request {i}: transfer codings {w:?} sent, caller set {u:?}"));
        }
    } else if valid_cl {
        if wcl.iter().map(|x| x.to_vec()).collect::<Vec<_>>() != cls {
            out.viol(format!("request {i}: the caller's content-length was changed to {:?}", wcl.iter().map(|x| show(x)).collect::<Vec<_>>()));
        }
    } else if !wcl.is_empty() && !suppressed && !none_body {
        if wcl.iter().any(|x| num(x) != Some(data.len() as u64)) {
            out.viol(format!("request {i}: announced length {:?} for {} bytes", wcl.iter().map(|x| show(x)).collect::<Vec<_>>(), data.len()));
        }
    }
    if known && !use_te && !none_body && m.framing == Framing::Chunked {
        out.viol(format!("request {i}: chunked although the length is known"));
    }
    if !m.complete {
        out.viol(format!("request {i}: incomplete on the wire, {} of {} body bytes", m.body.len(), want_body.len()));
    } else if m.body != want_body {
        out.viol(format!("request {i}: body differs (want, got): {}", diff(want_body, &m.body)));
    }
    // trailers
    let mut want_t: Hs = vec![];
    if m.framing == Framing::Chunked {
        let tl = vals(&s.headers, "trailer");
        let decl = tokens(&tl.iter().map(|x| &x[..]).collect::<Vec<_>>());
        if let Some(t) = s.script.trailers() {
            want_t = hv(t).into_iter().filter(|(k, _)| decl.contains(k) && !FORBIDDEN_TRAILERS.contains(&&k[..])).collect();
        }
    }
    if let Err(e) = same_fields(&want_t, &m.trailers) {
        out.viol(format!("request {i}: trailers: {e}"));
    }
    // all other fields
    let skip = |k: &str| k == "content-length" || k == "transfer-encoding" || k == "connection";
    let w: Hs = refh1::lower(&s.headers).into_iter().filter(|(k, _)| !skip(k)).collect();
    let g: Hs = refh1::lower(&m.headers).into_iter().filter(|(k, _)| !skip(k)).collect();
    if let Err(e) = same_fields(&w, &g) {
        out.viol(format!("request {i}: {e}"));
    }
    let uc = vals(&s.headers, "connection");
    let wc: Vec<Vec<u8>> = m.get_all("connection").iter().map(|x| x.to_vec()).collect();
    let closing = tokens(&uc.iter().map(|x| &x[..]).collect::<Vec<_>>()).iter().any(|t| t == "close");
    let mut added = uc.clone();
    added.push(b"keep-alive".to_vec());
    let ok = wc == uc || (peer10 && wc == added) || (closing && m.conn_tokens().contains(&"close".to_string()));
    if !ok {
        out.viol(format!("request {i}: Connection {:?} became {:?}", uc.iter().map(|x| show(x)).collect::<Vec<_>>(), wc.iter().map(|x| show(x)).collect::<Vec<_>>()));
    }
}

fn may_end(s: &ReqSpec, peer10: bool) -> bool {
    let c = vals(&s.headers, "connection");
    peer10 && s.version != Version::HTTP_11 && !tokens(&c.iter().map(|x| &x[..]).collect::<Vec<_>>()).iter().any(|t| t == "keep-alive")
}
fn case(ctx: &Ctx) -> CaseOut {
    let mut out = CaseOut::default();
    let mut r = Rng::new(ctx.seed);
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let mut cfg = CliCfg::gen(&mut r);
    cfg.h09 = false;
    let n = *r.pick(&[1usize, 1, 2, 3, 5]);
    let maxb = *r.pick(&[0usize, 60, 3000, 30_000, 200_000]);
    let specs: Vec<ReqSpec> = (0..n).map(|i| gen_req(&mut r, maxb, i, i + 1 == n)).collect();
    let resp10: Vec<bool> = (0..n).map(|_| r.pct(12)).collect();
    let mut ioa = IoCfg::gen(&mut r);
    let mut iob = IoCfg::gen(&mut r);
    tame(&mut r, &mut ioa, &mut iob, specs.iter().map(|m| m.script.len() + 3000).sum::<usize>());
    let desc = format!("{:?}; [{}]", cfg, specs.iter().map(|s| format!("{} {:?} cl={:?} te={:?} body={} {:?} eos={} tr={}", s.method, s.version, vals(&s.headers, "content-length").iter().map(|x| show(x)).collect::<Vec<_>>(), vals(&s.headers, "transfer-encoding").iter().map(|x| show(x)).collect::<Vec<_>>(), s.script.len(), s.script.hint, s.script.eager_eos, s.script.trailers().is_some())).collect::<Vec<_>>().join("; "));
    let (client_io, server_io, wire) = pipe(&sim, ioa, iob);
    let mut ex = Exec::new(&sim);
    ex.spurious = *r.pick(&[0, 0, 0, 10]);
    let (mut tx, end) = connect_h1(&mut ex, &cfg, client_io);
    let peer = Peer::new(server_io);
    let rx: RecvRef = Default::default();
    let done = Count::default();
    {
        let (p, rx, done) = (peer.clone(), rx.clone(), done.clone());
        ex.spawn("raw-read", async move {
            let (mut pos, mut k) = (0, 0);
            read_all(p, rx, 1 << 16, |rv| loop {
                match refh1::request(&rv.data, pos) {
                    refh1::P::Ok(m) if m.complete => {
                        pos = m.end;
                        k += 1;
                        done.set(k);
                    }
                    _ => break,
                }
            })
            .await
        });
    }
    {
        let (p, done, specs, resp10) = (peer.clone(), done.clone(), specs.clone(), resp10.clone());
        ex.spawn("raw-write", async move {
            for (i, s) in specs.iter().enumerate() {
                done.at_least(i + 1).await;
                let v = if resp10[i] { "HTTP/1.0" } else { "HTTP/1.1" };
                let ka = if resp10[i] { "Connection: keep-alive\r\n" } else { "" };
                let m = match &s.method[..] {
                    "HEAD" => format!("{v} 200 OK\r\n{ka}Content-Length: 2\r\n\r\n"),
                    "CONNECT" => format!("{v} 405 No\r\n{ka}Content-Length: 2\r\n\r\nok"),
                    _ => format!("{v} 200 OK\r\n{ka}Content-Length: 2\r\n\r\nok"),
                };
                if p.send(m.as_bytes()).await.is_err() {
                    return;
                }
            }
        });
    }
    let xs: Vec<ExRef> = (0..n).map(|_| Arc::new(Mutex::new(Exchange::default()))).collect();
    {
        let (sim2, xs, specs) = (sim.clone(), xs.clone(), specs.clone());
        let use_try = r.pct(50);
        ex.spawn("caller", async move {
            for (i, s) in specs.iter().enumerate() {
                if tx.ready().await.is_err() {
                    return;
                }
                exchange(&sim2, &mut tx, s, &xs[i], CRead::All, 0, use_try).await;
            }
            drop(tx);
        });
    }
    ex.until = Some(1_000_000_000);
    let e = at_rest(ex.run());
    let end = end.lock().unwrap().clone();
    match &e {
        End::Quiescent => {}
        End::Spin(t) => out.viol(format!("task {t} spins without progress")),
        x => out.inconclusive = Some(format!("{x:?}")),
    }
    let mut seen = 0;
    if e == End::Quiescent {
        let rx = rx.lock().unwrap();
        let (mut pos, mut peer10) = (0, false);
        for (i, s) in specs.iter().enumerate() {
            match refh1::request(&rx.data, pos) {
                refh1::P::Ok(m) => {
                    pos = m.end;
                    seen += 1;
                    judge_request(i, &m, s, peer10, &mut out);
                    if !m.complete {
                        break;
                    }
                }
                refh1::P::Incomplete => {
                    // an HTTP/1.0 exchange without keep-alive was the last one
                    if i > 0 && !xs[i].lock().unwrap().submitted && pos == rx.data.len() && may_end(&specs[i - 1], i > 1 && resp10[i - 2]) {
                        break;
                    }
                    out.viol(format!("request {i}: missing on the wire; caller error {:?}; connection {:?}", xs[i].lock().unwrap().err, end));
                    break;
                }
                refh1::P::Err(e) => {
                    // an invalid length set by the caller, where no framing has to be chosen, is passed on
                    // with no body bytes: the server refuses it, nothing can be misread
                    let bad_cl = vals(&s.headers, "content-length").iter().any(|v| num(v).is_none());
                    if bad_cl && s.script.hint != Hint::Exact && (peer10 || s.version == Version::HTTP_10) {
                        pos = rx.data.len();
                        break;
                    }
                    out.viol(format!("request {i}: a strict server refuses it: {e}: {}", show(&rx.data[pos..rx.data.len().min(pos + 400)])));
                    break;
                }
            }
            peer10 = resp10[i];
            let x = xs[i].lock().unwrap();
            if out.violations.is_empty() && x.status.is_none() {
                out.viol(format!("request {i}: no response: {:?}", x.err));
            }
        }
        if out.violations.is_empty() && pos != rx.data.len() {
            out.viol(format!("{} bytes on the wire after the last request: {}", rx.data.len() - pos, show(&rx.data[pos..rx.data.len().min(pos + 100)])));
        }
    }
    out.count("requests", seen as u64);
    out.count("body_bytes", specs.iter().map(|s| s.script.len() as u64).sum());
    out.count("events", sim.st(|s| s.events));
    out.nontrivial = seen > 0;
    out.sig = mix(sim.st(|s| s.hash), fnv(&wire.sent_by_a()));
    out.desc = Some(desc);
    out.trace = sim.take_log();
    out
}

//! C28: what names, values, order and reason phrase come out of a proxy built from both roles.
use crate::cli::*;
use crate::h1gen;
use crate::peer::*;
use crate::refh1;
use crate::report::*;
use crate::rng::{mix, Rng};
use crate::sim::*;
use crate::srv::*;
use crate::util::*;
use http::header::{HeaderName, HeaderValue};
use hyper::body::Incoming;
use hyper::{Request, Response};
use std::sync::{Arc, Mutex};

pub const CHECK: Check = Check {
    id: "C28",
    level: "exploration",
    rule: "a case is 1-4 exchanges through a proxy made of a hyper HTTP/1 server and client with random case options, between a raw client and a raw origin sending mixed-case, repeated, odd header fields and reason phrases; the proxy forwards, edits, or strips what preserves the case; distinct = distinct (bytes in, options, edits) with at least one header section compared on the far side",
    quick: 60_000,
    thorough: 1_500_000,
    run: case,
    assumptions: &["reason phrases received from the wire contain no bytes above 0x7e (the httparse crate replaces such phrases)", "the order of different names is not specified"],
};

type Fields = Vec<(String, Vec<u8>)>;
fn respell(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_string(),
        1 => s.to_ascii_uppercase(),
        2 => title(s),
        _ => s.chars().map(|c| if r.pct(50) { c.to_ascii_uppercase() } else { c }).collect(),
    }
}
fn title(s: &str) -> String {
    let mut up = true;
    s.chars()
        .map(|c| {
            let c2 = if up { c.to_ascii_uppercase() } else { c };
            up = c == '-';
            c2
        })
        .collect()
}
const NAMES: &[&str] = &["x-a", "x-b", "set-cookie", "accept", "x--y", "-x", "x-", "a", "etag", "x_y-z", "x!y", "3-x-4a", "www-authenticate", "te", "x-long-name-of-some-sort-that-goes-on-and-on-for-quite-a-while-indeed-to-pass-sixty-four", "cookie", "user-agent", "dnt", "x'y"];
fn short(r: &mut Rng, max: usize) -> Vec<u8> {
    let mut x = h1gen::value(r);
    x.truncate(max);
    while matches!(x.last(), Some(b' ' | b'\t')) {
        x.pop();
    }
    x
}
fn fields(r: &mut Rng) -> Fields {
    let k = r.range(0, 8);
    let mut v: Fields = vec![];
    for _ in 0..k {
        let n = if r.pct(25) && !v.is_empty() { v[r.below(v.len())].0.to_ascii_lowercase() } else { r.pick(NAMES).to_string() };
        let n = respell(r, &n);
        let x = short(r, 80);
        v.push((n, x));
    }
    v
}
/// extra lines a lenient parser is told to ignore
const BAD: &[&str] = &["bad name: x", "x(y): 1", "nocolon", "x-a : v", "[x]: 1"];
fn put_fields(r: &mut Rng, w: &mut Vec<u8>, f: &Fields, bad: bool) {
    for (k, v) in f {
        if bad && r.pct(30) {
            w.extend_from_slice(r.pick(BAD).as_bytes());
            w.extend_from_slice(b"\r\n");
        }
        w.extend_from_slice(k.as_bytes());
        w.extend_from_slice(*r.pick(&[&b": "[..], b":", b":  ", b":\t"]));
        w.extend_from_slice(v);
        w.extend_from_slice(*r.pick(&[&b""[..], b"", b" ", b"\t "]));
        w.extend_from_slice(b"\r\n");
    }
}
#[derive(Clone, Debug)]
struct Edit {
    strip_ext: bool,
    remove: Option<String>,
    append: Vec<(String, Vec<u8>)>,
    replace: Option<(String, Vec<u8>)>,
    reason: Option<Vec<u8>>,
}
fn edit(r: &mut Rng) -> Edit {
    if r.pct(50) {
        return Edit { strip_ext: false, remove: None, append: vec![], replace: None, reason: None };
    }
    let nv = |r: &mut Rng| {
        let n = r.pick(NAMES).to_string();
        (n, short(r, 40))
    };
    Edit {
        strip_ext: r.pct(20),
        remove: if r.pct(30) { Some(nv(r).0) } else { None },
        append: (0..r.range(0, 2)).map(|_| nv(r)).collect(),
        replace: if r.pct(30) { Some(nv(r)) } else { None },
        reason: if r.pct(30) {
            let k = r.range(0, 12);
            Some((0..k).map(|_| match r.below(6) {
                0 => *r.pick(b" \t"),
                1 => r.range(0x80, 0xff) as u8,
                2 if r.pct(20) => *r.pick(b"\r\n\0\x7f\x1b"),
                _ => r.range(0x21, 0x7e) as u8,
            }).collect())
        } else {
            None
        },
    }
}
fn apply(e: &Edit, h: &mut http::HeaderMap, ext: &mut http::Extensions) {
    if e.strip_ext {
        *ext = http::Extensions::new();
    }
    if let Some(n) = &e.remove {
        h.remove(n.as_str());
    }
    for (n, v) in &e.append {
        h.append(HeaderName::from_bytes(n.as_bytes()).unwrap(), HeaderValue::from_bytes(v).unwrap());
    }
    if let Some((n, v)) = &e.replace {
        h.insert(HeaderName::from_bytes(n.as_bytes()).unwrap(), HeaderValue::from_bytes(v).unwrap());
    }
}
/// what the far side is to see of `name`: spellings and values in order
fn expect(sent: &Fields, e: &Edit, preserved: bool, title_case: bool) -> Vec<(String, Vec<(String, Vec<u8>)>)> {
    let mut m: Vec<(String, Vec<Vec<u8>>)> = vec![];
    let put = |m: &mut Vec<(String, Vec<Vec<u8>>)>, n: &str, v: &[u8]| match m.iter_mut().find(|(k, _)| k == n) {
        Some((_, vs)) => vs.push(v.to_vec()),
        None => m.push((n.to_string(), vec![v.to_vec()])),
    };
    for (k, v) in sent {
        put(&mut m, &k.to_ascii_lowercase(), v);
    }
    if let Some(n) = &e.remove {
        m.retain(|(k, _)| k != n);
    }
    for (n, v) in &e.append {
        put(&mut m, n, v);
    }
    if let Some((n, v)) = &e.replace {
        match m.iter_mut().find(|(k, _)| k == n) {
            Some((_, vs)) => *vs = vec![v.clone()],
            None => m.push((n.clone(), vec![v.clone()])),
        }
    }
    let keep = preserved && !e.strip_ext;
    m.into_iter()
        .map(|(n, vs)| {
            let orig: Vec<&String> = sent.iter().map(|(k, _)| k).filter(|k| keep && k.eq_ignore_ascii_case(&n)).collect();
            let l = vs
                .into_iter()
                .enumerate()
                .map(|(i, v)| {
                    let s = match orig.get(i) {
                        Some(o) => o.to_string(),
                        None if title_case => title(&n),
                        None => n.clone(),
                    };
                    (s, v)
                })
                .collect();
            (n, l)
        })
        .collect()
}
/// fields the encoder may add or whose value it may rewrite
const OWN: &[&str] = &["date", "connection", "content-length", "transfer-encoding"];
fn judge(what: &str, want: &[(String, Vec<(String, Vec<u8>)>)], got: &Fields, title_case: bool, out: &mut CaseOut) {
    let mut names: Vec<String> = got.iter().map(|(k, _)| k.to_ascii_lowercase()).collect();
    names.sort();
    names.dedup();
    for n in &names {
        let g: Vec<(String, Vec<u8>)> = got.iter().filter(|(k, _)| k.eq_ignore_ascii_case(n)).cloned().collect();
        let w = want.iter().find(|(k, _)| k == n).map(|(_, l)| l);
        let own = OWN.contains(&n.as_str());
        let sh = |l: &[(String, Vec<u8>)]| l.iter().map(|(k, v)| format!("{k}: {}", show(v))).collect::<Vec<_>>();
        match w {
            None if own => {
                let s = if title_case { title(n) } else { n.clone() };
                if g.len() != 1 || g[0].0 != s {
                    out.viol(format!("{what}: added field {:?} not spelled {s}", sh(&g)));
                }
            }
            None => out.viol(format!("{what}: unexpected field {:?}", sh(&g))),
            Some(w) => {
                let same = if own { g.len() == w.len() && g.iter().zip(w).all(|(a, b)| a.0 == b.0) } else { g == *w };
                if !same {
                    out.viol(format!("{what}: {:?} instead of {:?}", sh(&g), sh(w)));
                }
            }
        }
    }
    for (n, w) in want {
        if !names.contains(n) {
            out.viol(format!("{what}: field {n} lost ({} values)", w.len()));
        }
    }
    out.count("fields", got.len() as u64);
}
fn reason_ok(b: &[u8]) -> bool {
    b.iter().all(|b| *b == b'\t' || *b == b' ' || (0x21..=0x7e).contains(b) || *b >= 0x80)
}
fn body(r: &mut Rng, f: &mut Fields, request: bool) -> (Vec<u8>, Fields) {
    let k = r.size(300);
    match r.below(4) {
        0 => {
            let b = r.body(k);
            let mut w = vec![];
            let mut tr: Fields = vec![];
            let at = r.below(f.len() + 1);
            f.insert(at, (respell(r, "transfer-encoding"), respell(r, "chunked").to_ascii_lowercase().into_bytes()));
            if r.pct(40) {
                for n in ["x-t", "x-sum-2"] {
                    if r.pct(70) {
                        tr.push((respell(r, n), b"v 1".to_vec()));
                    }
                }
                let at = r.below(f.len() + 1);
                f.insert(at, (respell(r, "trailer"), b"x-t, x-sum-2".to_vec()));
            }
            if !b.is_empty() {
                w.extend_from_slice(format!("{:x}\r\n", b.len()).as_bytes());
                w.extend_from_slice(&b);
                w.extend_from_slice(b"\r\n");
            }
            w.extend_from_slice(b"0\r\n");
            for (k, v) in &tr {
                w.extend_from_slice(format!("{k}: ").as_bytes());
                w.extend_from_slice(v);
                w.extend_from_slice(b"\r\n");
            }
            w.extend_from_slice(b"\r\n");
            (w, tr)
        }
        1 if request => (vec![], vec![]),
        _ => {
            let b = r.body(k);
            let at = r.below(f.len() + 1);
            f.insert(at, (respell(r, "content-length"), b.len().to_string().into_bytes()));
            (b, vec![])
        }
    }
}
fn judge_trailers(what: &str, want: &Fields, got: &Fields, title_case: bool, out: &mut CaseOut) {
    let mut w: Fields = want.iter().map(|(k, v)| (if title_case { title(&k.to_ascii_lowercase()) } else { k.to_ascii_lowercase() }, v.clone())).collect();
    let mut g = got.clone();
    w.sort();
    g.sort();
    if w != g {
        out.viol(format!("{what}: trailers {g:?} instead of {w:?}"));
    }
    out.count("trailers", g.len() as u64);
}
fn case(ctx: &Ctx) -> CaseOut {
    let mut out = CaseOut::default();
    let mut r = Rng::new(ctx.seed);
    let r = &mut r;
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let mut scfg = SrvCfg::gen(r);
    scfg.max_headers = None;
    scfg.max_buf = None;
    scfg.header_timeout = Some(None);
    scfg.title_case = r.pct(40);
    scfg.preserve_case = r.pct(60);
    scfg.ignore_invalid = r.pct(20);
    scfg.pipeline_flush = false;
    let mut ccfg = CliCfg::gen(r);
    ccfg.max_headers = None;
    ccfg.exact_buf = None;
    ccfg.max_buf = None;
    ccfg.title_case = r.pct(40);
    ccfg.preserve_case = r.pct(60);
    ccfg.ignore_invalid = r.pct(20);
    ccfg.spaces = false;
    ccfg.obs_fold = false;
    let n = r.range(1, 4);
    struct X {
        req: Fields,
        req_tr: Fields,
        req_wire: Vec<u8>,
        e1: Edit,
        status: u16,
        reason: Vec<u8>,
        resp: Fields,
        resp_tr: Fields,
        resp_wire: Vec<u8>,
        e2: Edit,
    }
    let mut xs = vec![];
    let te = |r: &mut Rng, f: &mut Fields| {
        f.retain(|(k, _)| !k.eq_ignore_ascii_case("te"));
        let at = r.below(f.len() + 1);
        f.insert(at, (respell(r, "te"), b"trailers".to_vec()));
    };
    for i in 0..n {
        let mut req = fields(r);
        req.insert(r.below(req.len() + 1), (respell(r, "host"), b"a".to_vec()));
        if r.pct(70) {
            te(r, &mut req);
        }
        let (b, req_tr) = body(r, &mut req, true);
        let mut w = format!("POST /{i} HTTP/1.1\r\n").into_bytes();
        put_fields(r, &mut w, &req, scfg.ignore_invalid);
        w.extend_from_slice(b"\r\n");
        w.extend_from_slice(&b);
        let req_wire = w;
        let mut resp = fields(r);
        resp.retain(|(k, _)| !k.eq_ignore_ascii_case("te"));
        if r.pct(30) {
            resp.push((respell(r, "date"), b"Sun, 06 Nov 1994 08:49:37 GMT".to_vec()));
        }
        let status = *r.pick(&[200u16, 200, 404, 299, 500, 599, 204, 304, 999]);
        let (b, resp_tr) = if matches!(status, 204 | 304) { (vec![], vec![]) } else { body(r, &mut resp, false) };
        let canon = http::StatusCode::from_u16(status).unwrap().canonical_reason().unwrap_or("").as_bytes().to_vec();
        let reason = match r.below(5) {
            0 | 1 => canon,
            2 => vec![],
            // almost what the status code would be given anyway
            3 if !canon.is_empty() => {
                let mut v = canon;
                match r.below(4) {
                    0 => v.make_ascii_lowercase(),
                    1 => v.make_ascii_uppercase(),
                    2 => v.push(b'.'),
                    _ => {
                        v.pop();
                    }
                }
                v
            }
            _ => {
                let k = r.range(1, 30);
                let mut v: Vec<u8> = (0..k).map(|_| if r.pct(15) { *r.pick(b" \t") } else { r.range(0x21, 0x7e) as u8 }).collect();
                v[0] = b'R';
                v.push(b'.');
                v
            }
        };
        let mut w = format!("HTTP/1.1 {status} ").into_bytes();
        w.extend_from_slice(&reason);
        w.extend_from_slice(b"\r\n");
        put_fields(r, &mut w, &resp, ccfg.ignore_invalid);
        w.extend_from_slice(b"\r\n");
        w.extend_from_slice(&b);
        let mut e1 = edit(r);
        e1.reason = None;
        let mut e2 = edit(r);
        for e in [&mut e1, &mut e2] {
            // trailers are forwarded only as announced and asked for
            e.remove = e.remove.take().filter(|n| n != "te");
            e.append.retain(|(n, _)| n != "te");
            e.replace = e.replace.take().filter(|(n, _)| n != "te");
        }
        xs.push(X { req, req_tr, req_wire, e1, status, reason, resp, resp_tr, resp_wire: w, e2 });
    }
    let small = r.pct(40);
    let io = |r: &mut Rng| if small { IoCfg::gen(r) } else { IoCfg::plain() };
    let (front_s, front_c, _w1) = pipe(&sim, io(r), io(r));
    let (back_c, back_s, _w2) = pipe(&sim, io(r), io(r));
    let mut ex = Exec::new(&sim);
    // back: the proxy's client connection to the origin
    let (tx, conn) = now(ccfg.builder().handshake::<_, Incoming>(back_c)).expect("handshake");
    {
        let sim = sim.clone();
        ex.spawn("client", async move {
            let r = conn.await;
            sim.log(|| format!("client connection ended: {r:?}"));
        });
    }
    let tx = Arc::new(Mutex::new(Some(tx)));
    let edits: Arc<Vec<(Edit, Edit)>> = Arc::new(xs.iter().map(|x| (x.e1.clone(), x.e2.clone())).collect());
    let at = Arc::new(Mutex::new(0usize));
    let bad_reason: Arc<Mutex<Vec<String>>> = Default::default();
    let errs: Arc<Mutex<Vec<String>>> = Default::default();
    let svc = {
        let (bad_reason, errs, sim) = (bad_reason.clone(), errs.clone(), sim.clone());
        hyper::service::service_fn(move |req: Request<Incoming>| {
            let (tx, edits, bad_reason, errs, sim) = (tx.clone(), edits.clone(), bad_reason.clone(), errs.clone(), sim.clone());
            let i = {
                let mut a = at.lock().unwrap();
                *a += 1;
                *a - 1
            };
            async move {
                sim.mark();
                let (mut p, b) = req.into_parts();
                let e = edits.get(i).cloned().unwrap_or_else(|| edits[0].clone());
                apply(&e.0, &mut p.headers, &mut p.extensions);
                let mut t = tx.lock().unwrap().take().expect("one at a time");
                let res = match t.ready().await {
                    Ok(()) => t.send_request(Request::from_parts(p, b)).await,
                    Err(e) => Err(e),
                };
                *tx.lock().unwrap() = Some(t);
                let res: Response<Incoming> = match res {
                    Ok(r) => r,
                    Err(e) => {
                        errs.lock().unwrap().push(format!("exchange {i}: {e:?}"));
                        return Err(e);
                    }
                };
                let (mut p, b) = res.into_parts();
                apply(&e.1, &mut p.headers, &mut p.extensions);
                if let Some(v) = &e.1.reason {
                    let rp = hyper::ext::ReasonPhrase::try_from(&v[..]);
                    let rp2 = hyper::ext::ReasonPhrase::try_from(v.clone());
                    let rp3 = hyper::ext::ReasonPhrase::try_from(bytes::Bytes::from(v.clone()));
                    if rp.is_ok() != reason_ok(v) || rp2.is_ok() != reason_ok(v) || rp3.is_ok() != reason_ok(v) {
                        bad_reason.lock().unwrap().push(show(v));
                    }
                    if let Ok(rp) = rp {
                        p.extensions.insert(rp);
                    }
                }
                Ok::<_, hyper::Error>(Response::from_parts(p, b))
            }
        })
    };
    {
        let conn = scfg.builder(&sim).serve_connection(front_s, svc);
        let sim = sim.clone();
        ex.spawn("server", async move {
            let r = conn.await;
            sim.log(|| format!("server connection ended: {r:?}"));
        });
    }
    // the raw client and the raw origin
    let client = Peer::new(front_c);
    let origin = Peer::new(back_s);
    let crx: RecvRef = Default::default();
    let orx: RecvRef = Default::default();
    let methods: Vec<String> = (0..n).map(|_| "POST".to_string()).collect();
    let answered = Count::default();
    let asked = Count::default();
    {
        let (p, rx, c, m) = (client.clone(), crx.clone(), answered.clone(), methods.clone());
        ex.spawn("client-read", async move {
            read_all(p, rx, 1 << 16, |rv| {
                let (v, _) = refh1::responses(&rv.data, &m, false);
                c.set(v.iter().filter(|m| m.complete).count());
            })
            .await
        });
    }
    {
        let (p, c) = (client.clone(), answered.clone());
        let wires: Vec<Vec<u8>> = xs.iter().map(|x| x.req_wire.clone()).collect();
        let pipelined = r.pct(40);
        ex.spawn("client-write", async move {
            for (i, w) in wires.iter().enumerate() {
                if !pipelined {
                    c.at_least(i).await;
                }
                if p.send(w).await.is_err() {
                    return;
                }
            }
        });
    }
    {
        let (p, rx, c) = (origin.clone(), orx.clone(), asked.clone());
        let mut pos = 0;
        let mut k = 0;
        ex.spawn("origin-read", async move {
            read_all(p, rx, 1 << 16, |rv| {
                while let refh1::P::Ok(m) = refh1::request(&rv.data, pos) {
                    if !m.complete {
                        break;
                    }
                    pos = m.end;
                    k += 1;
                    c.set(k);
                }
            })
            .await
        });
    }
    {
        let (p, c) = (origin.clone(), asked.clone());
        let wires: Vec<Vec<u8>> = xs.iter().map(|x| x.resp_wire.clone()).collect();
        ex.spawn("origin-write", async move {
            for (i, w) in wires.iter().enumerate() {
                c.at_least(i + 1).await;
                if p.send(w).await.is_err() {
                    return;
                }
            }
        });
    }
    out.desc = Some(format!("server preserve {} title {} ignore {}, client preserve {} title {} ignore {}: {}", scfg.preserve_case, scfg.title_case, scfg.ignore_invalid, ccfg.preserve_case, ccfg.title_case, ccfg.ignore_invalid, xs.iter().map(|x| format!("{} [{:?}] -> {} [{:?}]", show(&x.req_wire), x.e1, show(&x.resp_wire), x.e2)).collect::<Vec<_>>().join("; ")));
    let e = at_rest(ex.run());
    if e != End::Quiescent {
        out.viol(format!("run ended with {e:?}"));
    }
    for b in bad_reason.lock().unwrap().iter() {
        out.viol(format!("reason phrase {b}: wrongly accepted or refused"));
    }
    let od = orx.lock().unwrap().data.clone();
    let mut pos = 0;
    for (i, x) in xs.iter().enumerate() {
        match refh1::request(&od, pos) {
            refh1::P::Ok(m) if m.complete => {
                pos = m.end;
                let want = expect(&x.req, &x.e1, scfg.preserve_case, ccfg.title_case);
                judge(&format!("request {i}"), &want, &m.headers, ccfg.title_case, &mut out);
                judge_trailers(&format!("request {i}"), &x.req_tr, &m.trailers, ccfg.title_case, &mut out);
                out.nontrivial = true;
            }
            refh1::P::Err(e) => {
                out.viol(format!("request {i} as forwarded does not parse: {e}"));
                break;
            }
            _ => {
                out.viol(format!("request {i} was not forwarded ({:?})", errs.lock().unwrap()));
                break;
            }
        }
    }
    let cd = crx.lock().unwrap().data.clone();
    let (resp, err) = refh1::responses(&cd, &methods, false);
    if let Some(e) = err {
        out.viol(format!("responses as forwarded do not parse: {e}"));
    }
    if resp.len() < n {
        out.viol(format!("{} of {n} responses forwarded ({:?})", resp.len(), errs.lock().unwrap()));
    }
    let mut head = 0;
    for (i, (x, m)) in xs.iter().zip(&resp).enumerate() {
        let want = expect(&x.resp, &x.e2, ccfg.preserve_case, scfg.title_case);
        judge(&format!("response {i}"), &want, &m.headers, scfg.title_case, &mut out);
        if x.req.iter().any(|(k, _)| k.eq_ignore_ascii_case("te")) && x.resp_tr.len() == m.trailers.len() {
            judge_trailers(&format!("response {i}"), &x.resp_tr, &m.trailers, scfg.title_case, &mut out);
        }
        // the status line, byte for byte
        let canon = http::StatusCode::from_u16(x.status).unwrap().canonical_reason();
        let own = x.e2.reason.as_ref().filter(|v| reason_ok(v));
        let received = Some(&x.reason).filter(|v| !x.e2.strip_ext && Some(&v[..]) != canon.map(|c| c.as_bytes()));
        let want: Vec<u8> = match (own.or(received), canon) {
            (Some(v), _) => v.clone(),
            (None, Some(c)) => c.as_bytes().to_vec(),
            (None, None) => b"<none>".to_vec(),
        };
        let line_end = cd[head..].windows(2).position(|w| w == b"\r\n").map(|p| head + p).unwrap_or(cd.len());
        let mut w = format!("HTTP/1.1 {} ", x.status).into_bytes();
        w.extend_from_slice(&want);
        if cd[head..line_end] != w[..] {
            out.viol(format!("response {i}: status line {} instead of {}", show(&cd[head..line_end]), show(&w)));
        }
        out.count("reasons", (own.is_some() || received.is_some()) as u64);
        head = m.end;
    }
    out.count("exchanges", resp.len() as u64);
    out.sig = mix(sim.st(|s| s.hash), fnv(&od) ^ fnv(&cd));
    if ctx.trace {
        out.trace = sim.take_log();
    }
    out
}

//! C04: connection reuse follows both peers' wishes and is signalled truthfully.
use crate::body::*;
use crate::cli::*;
use crate::h1gen::*;
use crate::peer::*;
use crate::refh1;
use crate::report::*;
use crate::rng::{mix, Rng};
use crate::run::*;
use crate::sim::*;
use crate::srv::*;
use crate::util::*;
use http::Version;
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub const CHECK: Check = Check {
    id: "C04",
    level: "exploration",
    rule: "a case is one server or client connection with 2-4 exchanges whose versions, Connection fields (one or several lines, tokens in any order and case), configuration and body framings are generated; distinct = distinct (wire bytes, schedule) with at least one reuse decision judged",
    quick: 60_000,
    thorough: 2_000_000,
    run: case,
    assumptions: &["a `close` option in any Connection field wins over `keep-alive` (RFC 9112 9.3)", "services leave the response version alone and read the request body", "client requests are HTTP/1.1"],
};

/// Connection field lines, whether they contain close / keep-alive
fn conn_lines(r: &mut Rng, p_close: u32) -> (Vec<String>, bool, bool) {
    let n = *r.pick(&[0usize, 0, 1, 1, 1, 2, 3]);
    let mut lines = vec![];
    let (mut close, mut ka) = (false, false);
    for _ in 0..n {
        let k = *r.pick(&[1usize, 1, 1, 2, 3]);
        let mut toks = vec![];
        for _ in 0..k {
            let t = if r.pct(p_close) {
                close = true;
                *r.pick(&["close", "Close", "CLOSE"])
            } else if r.pct(40) {
                ka = true;
                *r.pick(&["keep-alive", "Keep-Alive", "KEEP-ALIVE"])
            } else {
                *r.pick(&["x-foo", "closed", "keep-alives", "te", "not-close"])
            };
            toks.push(t);
        }
        lines.push(toks.join(*r.pick(&[",", ", ", " , ", "\t,"])));
    }
    (lines, close, ka)
}

fn case(ctx: &Ctx) -> CaseOut {
    let mut r = Rng::new(ctx.seed);
    if r.pct(55) {
        server(ctx, r)
    } else {
        client(ctx, r)
    }
}

fn server(ctx: &Ctx, mut r: Rng) -> CaseOut {
    let mut out = CaseOut::default();
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let mut cfg = SrvCfg::gen(&mut r);
    cfg.keep_alive = r.pct(92);
    let n = r.range(2, 4);
    let (mut reqs, mut plans, mut methods) = (vec![], vec![], vec![]);
    // first index after which the connection must end
    let mut want_end: Option<usize> = None;
    let mut why: Vec<String> = vec![];
    let mut minors = vec![];
    for i in 0..n {
        let method = r.pick(&["GET", "GET", "POST", "HEAD", "PUT", "OPTIONS"]).to_string();
        let minor = if r.pct(30) { 0 } else { 1 };
        let (lines, mut rclose, mut rka) = conn_lines(&mut r, 12);
        let mut w = format!("{method} /{i} HTTP/1.{minor}\r\nHost: a\r\n").into_bytes();
        let mut ls = lines.clone();
        if minor == 0 && !rka && r.pct(60) {
            ls.push("keep-alive".into());
            rka = true;
        }
        let mut fields: Hs = ls.iter().map(|l| (r.pick(&["Connection", "connection", "CONNECTION"]).to_string(), l.clone().into_bytes())).collect();
        fields.push(("x-a".into(), b"1".to_vec()));
        if r.pct(20) {
            fields.push(("TE".into(), b"trailers".to_vec()));
        }
        let mut te_and_cl = false;
        let mut tail = vec![];
        if method == "POST" || method == "PUT" {
            let k = r.size(800);
            let b = r.body(k);
            if minor == 1 && r.pct(50) {
                fields.push(("Transfer-Encoding".into(), b"chunked".to_vec()));
                if r.pct(15) {
                    te_and_cl = true;
                    let at = r.below(fields.len());
                    fields.insert(at, ("Content-Length".into(), b"3".to_vec()));
                }
                put_chunked(&mut r, &mut tail, &b, &vec![]);
            } else {
                fields.push(("Content-Length".into(), b.len().to_string().into_bytes()));
                tail = b;
            }
        }
        // shuffle the order of fields (values of one name keep their order)
        if r.pct(50) {
            let at = r.below(fields.len());
            fields.rotate_left(at);
        }
        for (k, v) in &fields {
            put_field(&mut r, &mut w, k, v);
        }
        w.extend_from_slice(b"\r\n");
        w.extend_from_slice(&tail);
        if rclose && minor == 1 {
            rclose = true;
        }
        // response
        let (alines, _, _) = conn_lines(&mut r, 8);
        let k = r.size(800);
        let mut script = Script::gen(&mut r, k);
        let status = *r.pick(&[200u16, 200, 404, 204, 304]);
        if status == 204 || status == 304 {
            script = Script::empty();
        }
        let trailers = status != 204 && status != 304 && method != "HEAD" && r.pct(15);
        if trailers {
            let mut t = http::HeaderMap::new();
            t.insert("x-t", http::HeaderValue::from_static("1"));
            script.steps.push(Step::Trailers(t));
            script.hint = Hint::Unknown;
        }
        let unknown = script.hint != Hint::Exact && !(script.eager_eos && script.steps.is_empty());
        let close_delim = minor == 0 && unknown && method != "HEAD";
        // an application that promises keep-alive where that is not due lies on its own account
        let others = cfg.keep_alive && !rclose && (minor == 1 || rka) && !te_and_cl && !close_delim;
        let alines: Vec<String> = if others { alines } else { alines.into_iter().filter(|l| !l.to_ascii_lowercase().contains("keep-alive")).collect() };
        let aclose = alines.iter().any(|l| l.split(',').any(|t| t.trim().eq_ignore_ascii_case("close")));
        let mut headers: Hs = alines.iter().map(|l| ("connection".to_string(), l.clone().into_bytes())).collect();
        headers.push(("x-i".into(), i.to_string().into_bytes()));
        if trailers {
            headers.push(("trailer".into(), b"x-t".to_vec()));
        }
        let keep = cfg.keep_alive && !rclose && (minor == 1 || rka) && !te_and_cl && !aclose && !close_delim;
        why.push(format!("1.{minor} req {lines:?}+{} app {alines:?} te+cl={te_and_cl} close-delimited={close_delim} keep_alive={}", ls.len() - lines.len(), cfg.keep_alive));
        if !keep && want_end.is_none() {
            want_end = Some(i);
        }
        let mut p = Plan::simple(RespSpec { status, version: Version::HTTP_11, headers, reason: None, script, copy_ext: false });
        p.delay = *r.pick(&[0, 0, 1, 4]);
        p.read = if r.pct(20) { ReadPlan::Concurrent } else { ReadPlan::All };
        plans.push(p);
        minors.push(minor);
        methods.push(method);
        reqs.push(w);
    }
    // a malformed request at the end: answered with a 4xx that must announce the end
    let bad_tail = want_end.is_none() && r.pct(15);
    if bad_tail {
        reqs.push(b"GET / HTTP/1.1\r\nbad name: x\r\n\r\n".to_vec());
        methods.push("GET".into());
    }
    let mut run = Run::new(&mut r, cfg, reqs.clone(), methods, plans, 4000);
    run.eof = Eof::Never;
    if want_end.is_some() && run.send == Send::Lockstep {
        run.send = Send::Pieces;
    }
    let desc = format!("server {:?} {:?}; [{}]", run.cfg, run.send, why.join("; "));
    let ran = run.go(&sim);
    if ran.judge_end(&mut out) {
        let st = ran.st.lock().unwrap();
        let (resp, err) = ran.responses();
        if let Some(e) = err {
            out.viol(format!("unparsable output: {e}"));
        }
        let want_served = want_end.map(|i| i + 1).unwrap_or(n);
        if st.seen.len() != want_served {
            out.viol(format!("{} requests served instead of {want_served}; {}", st.seen.len(), why[(want_served - 1).min(n - 1).min(st.seen.len().max(1) - 1)]));
        }
        if want_end.is_some() {
            if !ran.end.done {
                out.viol(format!("the connection was not closed after the exchange that forbids reuse: {}", why[want_served - 1]));
            } else if !ran.end.ok {
                out.viol(format!("closing for want of reuse was reported as an error: {}", ran.end.err));
            } else if !ran.rx.eof {
                out.viol("the transport was not shut down");
            }
        } else if bad_tail {
            match resp.get(n) {
                Some(m) if m.status() == 400 => {
                    let t = m.conn_tokens();
                    if !(t.iter().any(|t| t == "close") || (m.minor == 0 && !t.iter().any(|t| t == "keep-alive"))) {
                        out.viol(format!("a 400 after which the connection ends offers reuse: HTTP/1.{} {t:?}", m.minor));
                    }
                }
                x => out.viol(format!("no 400 to a malformed request: {:?}", x.map(|m| m.status()))),
            }
        } else if ran.end.done {
            out.viol(format!("the connection ended although it should wait for another request (ok {} {}): {}", ran.end.ok, ran.end.err, why[n - 1]));
        }
        for (i, m) in resp.iter().enumerate() {
            if i >= n {
                break;
            }
            let toks = m.conn_tokens();
            let says_close = toks.iter().any(|t| t == "close") || (m.minor == 0 && !toks.iter().any(|t| t == "keep-alive"));
            let ends = want_end == Some(i);
            if ends && !says_close {
                out.viol(format!("response {i} offers reuse (HTTP/1.{} Connection {toks:?}) but the connection ends after it: {}", m.minor, why[i]));
            }
            if !ends && says_close {
                out.viol(format!("response {i} announces the end (HTTP/1.{} Connection {toks:?}) although reuse is due: {}", m.minor, why[i]));
            }
            if !m.complete {
                out.viol(format!("response {i} incomplete"));
            }
            let _ = minors[i];
        }
        out.count("server_decisions", resp.len() as u64);
        out.count("server_ended", want_end.is_some() as u64);
        out.nontrivial = !resp.is_empty();
    }
    out.sig = mix(sim.st(|s| s.hash), fnv(&ran.rx.data));
    out.desc = Some(desc);
    out.trace = sim.take_log();
    out
}

fn client(ctx: &Ctx, mut r: Rng) -> CaseOut {
    let mut out = CaseOut::default();
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let mut cfg = CliCfg::gen(&mut r);
    cfg.exact_buf = None;
    let n = r.range(2, 4);
    let mut specs = vec![];
    let mut answers: Vec<(Vec<u8>, bool)> = vec![];
    let mut why = vec![];
    let mut end_after = None;
    for i in 0..n {
        let mut s = ReqSpec::get(&format!("/{i}"));
        s.method = r.pick(&["GET", "GET", "POST", "HEAD", "PUT"]).to_string();
        if s.method == "POST" || s.method == "PUT" {
            let k = r.size(800);
            s.script = Script::gen(&mut r, k);
        }
        let (lines, qclose, _) = conn_lines(&mut r, 8);
        for l in &lines {
            s.headers.push(("connection".into(), l.clone().into_bytes()));
        }
        let minor = if r.pct(30) { 0 } else { 1 };
        let (mut rl, rclose, mut rka) = conn_lines(&mut r, 12);
        if minor == 0 && !rka && r.pct(60) {
            rl.push("Keep-Alive".into());
            rka = true;
        }
        let status = *r.pick(&[200u16, 200, 404, 204, 304]);
        let nobody = s.method == "HEAD" || status == 204 || status == 304;
        let k = r.size(500);
        let b = r.body(k);
        let kind = if nobody { 3 } else { *r.pick(&[0usize, 0, 1, 2]) };
        let kind = if kind == 1 && minor == 0 { 0 } else { kind };
        let mut w = format!("HTTP/1.{minor} {status} Z\r\n").into_bytes();
        let mut fields: Hs = rl.iter().map(|l| ("Connection".to_string(), l.clone().into_bytes())).collect();
        fields.push(("x-a".into(), b"1".to_vec()));
        match kind {
            0 => fields.push(("content-length".into(), b.len().to_string().into_bytes())),
            1 => fields.push(("transfer-encoding".into(), b"chunked".to_vec())),
            _ => {}
        }
        if r.pct(50) {
            let at = r.below(fields.len());
            fields.rotate_left(at);
        }
        for (k, v) in &fields {
            put_field(&mut r, &mut w, k, v);
        }
        w.extend_from_slice(b"\r\n");
        match kind {
            1 => {
                put_chunked(&mut r, &mut w, &b, &vec![]);
            }
            3 => {}
            _ => w.extend_from_slice(&b),
        }
        let keep = !qclose && !rclose && (minor == 1 || rka) && kind != 2;
        why.push(format!("req {lines:?} resp 1.{minor} {status} {rl:?} kind {kind}"));
        answers.push((w, kind == 2));
        specs.push(s);
        if !keep && end_after.is_none() {
            end_after = Some(i);
        }
    }
    let mut ioa = IoCfg::gen(&mut r);
    let mut iob = IoCfg::gen(&mut r);
    tame(&mut r, &mut ioa, &mut iob, 8000);
    let (client_io, server_io, wire) = pipe(&sim, ioa, iob);
    let mut ex = Exec::new(&sim);
    ex.spurious = *r.pick(&[0, 0, 0, 10]);
    let (mut tx, end) = connect_h1(&mut ex, &cfg, client_io);
    let peer = Peer::new(server_io);
    let rx: RecvRef = Default::default();
    let done = Count::default();
    {
        let (p, rx, done) = (peer.clone(), rx.clone(), done.clone());
        ex.spawn("raw-read", async move {
            let (mut pos, mut k) = (0, 0);
            read_all(p, rx, 1 << 16, |rv| {
                while let refh1::P::Ok(m) = refh1::request(&rv.data, pos) {
                    if !m.complete {
                        break;
                    }
                    pos = m.end;
                    k += 1;
                    done.set(k);
                }
            })
            .await
        });
    }
    {
        let (p, done, sim2, answers) = (peer.clone(), done.clone(), sim.clone(), answers.clone());
        ex.spawn("raw-write", async move {
            for (i, (m, close)) in answers.iter().enumerate() {
                done.at_least(i + 1).await;
                let mut off = 0;
                while off < m.len() {
                    let k = sim2.rng(|r| if r.pct(50) { m.len() - off } else { r.range(1, m.len() - off) });
                    if p.send(&m[off..off + k]).await.is_err() {
                        return;
                    }
                    off += k;
                    let y = sim2.rng(|r| r.range(0, 4));
                    sim2.yields(y).await;
                }
                if *close {
                    let _ = p.close_write().await;
                    return;
                }
            }
        });
    }
    let xs: Vec<ExRef> = (0..n).map(|_| Arc::new(Mutex::new(Exchange::default()))).collect();
    // (ready said ok, is_ready, is_closed) before each request
    let offers: Arc<Mutex<Vec<(bool, bool)>>> = Default::default();
    {
        let (sim2, xs, specs, offers) = (sim.clone(), xs.clone(), specs.clone(), offers.clone());
        let pace = *r.pick(&[0, 0, 30]);
        ex.spawn("caller", async move {
            for (i, s) in specs.iter().enumerate() {
                // let the finished exchange settle
                sim2.sleep(Duration::from_millis(1)).await;
                let ok = tx.ready().await.is_ok();
                offers.lock().unwrap().push((ok, tx.is_closed()));
                exchange(&sim2, &mut tx, s, &xs[i], CRead::All, pace, false).await;
            }
            sim2.sleep(Duration::from_millis(1)).await;
            let ok = tx.ready().await.is_ok();
            offers.lock().unwrap().push((ok, tx.is_closed()));
            std::future::pending::<()>().await;
        });
    }
    ex.until = Some(1_000_000_000);
    let e = at_rest(ex.run());
    let end = end.lock().unwrap().clone();
    match &e {
        End::Quiescent => {}
        End::Spin(t) => out.viol(format!("task {t} spins without progress")),
        x => out.inconclusive = Some(format!("{x:?}")),
    }
    if e == End::Quiescent {
        let want = end_after.map(|i| i + 1).unwrap_or(n);
        let on_wire = done.get();
        if on_wire != want {
            out.viol(format!("{on_wire} requests on the wire instead of {want}: {}", why[want.min(n) - 1]));
        }
        let offers = offers.lock().unwrap();
        if offers.len() != n + 1 {
            out.viol(format!("the caller is stuck after {} of {n} exchanges", offers.len()));
        }
        for (i, (ok, closed)) in offers.iter().enumerate() {
            let open = i == 0 || end_after.map_or(true, |e| i <= e);
            if *ok != open || (*closed && open) {
                out.viol(format!("before request {i}: ready={ok} is_closed={closed} but reuse allowed={open}: {}", why[i.max(1) - 1]));
            }
        }
        for i in 0..n {
            let x = xs[i].lock().unwrap();
            if i < want {
                if x.status.is_none() || !x.got.lock().unwrap().clean() {
                    out.viol(format!("exchange {i} failed: {:?} {:?}: {}", x.err, x.got.lock().unwrap().err, why[i]));
                }
            } else if x.status.is_some() {
                out.viol(format!("request {i} was answered on a connection that must not be reused"));
            }
        }
        if end_after.is_some() {
            if !end.done {
                out.viol(format!("the connection did not end: {}", why[want - 1]));
            } else if !end.ok {
                out.viol(format!("the connection ended in an error: {}: {}", end.err, why[want - 1]));
            }
        } else if end.done {
            out.viol(format!("the connection ended although it can be reused: {}", why[n - 1]));
        }
        out.count("client_decisions", want as u64);
        out.count("client_ended", end_after.is_some() as u64);
        out.nontrivial = true;
    }
    out.sig = mix(sim.st(|s| s.hash), fnv(&wire.sent_by_b()));
    out.desc = Some(format!("client {cfg:?}; {}", why.join("; ")));
    out.trace = sim.take_log();
    out
}

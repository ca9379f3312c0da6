//! C10: bounded buffering. Everything is run to rest with one side not consuming; the bytes hyper has taken
//! in (from the transport or from a body) but not passed on must stay below a bound set by its buffer limit.
use crate::body::*;
use crate::cli::*;
use crate::h1gen::put_chunked;
use crate::peer::*;
use crate::refh1;
use crate::report::*;
use crate::rng::{mix, Rng};
use crate::run::*;
use crate::sim::*;
use crate::srv::*;
use crate::util::*;
use std::sync::{Arc, Mutex};

pub const CHECK: Check = Check {
    id: "C10",
    level: "exploration",
    rule: "a case pushes several times the buffer limit at a connection whose other side does not consume (unread body, busy service, blocked transport, endless head or trailers), runs to rest, compares what hyper holds with the bound, then resumes consumption and checks nothing was lost; distinct = distinct schedule in which the bound was reached or refused",
    quick: 12_000,
    thorough: 400_000,
    run: case,
    assumptions: &["bound: twice the configured buffer limit plus 16 KiB (the limit is checked between reads and each read may be as large as the limit)"],
};
const DEFAULT_MAX: usize = 8192 + 4096 * 100;
fn bound(max: usize) -> usize {
    2 * max + 16384
}
fn case(ctx: &Ctx) -> CaseOut {
    let mut out = CaseOut::default();
    let mut r = Rng::new(ctx.seed);
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let which = r.below(9);
    let d = match which {
        0 | 1 => server_read(&mut r, &sim, &mut out, which == 1),
        2 => server_flood(&mut r, &sim, &mut out),
        3 | 4 => server_write(&mut r, &sim, &mut out),
        5 => client_read(&mut r, &sim, &mut out),
        6 => client_flood(&mut r, &sim, &mut out),
        _ => client_write(&mut r, &sim, &mut out),
    };
    out.count("events", sim.st(|s| s.events));
    out.sig = mix(sim.st(|s| s.hash), which as u64);
    out.desc = Some(d);
    out.trace = sim.take_log();
    out
}
/// a stream several times the bound, in a transport of large steps
fn big(r: &mut Rng, max: usize) -> usize {
    bound(max) * 2 + r.below(100_000)
}
fn ios(r: &mut Rng) -> (IoCfg, IoCfg) {
    let mut a = IoCfg::gen(r);
    let mut b = IoCfg::gen(r);
    tame(r, &mut a, &mut b, 400_000);
    // the amount in flight counts for nobody
    a.cap = *r.pick(&[5000, 30_000, 70_000]);
    b.cap = *r.pick(&[5000, 30_000, 70_000]);
    (a, b)
}
fn scfg(r: &mut Rng) -> (SrvCfg, usize) {
    let mut c = SrvCfg::gen(r);
    c.header_timeout = Some(None);
    c.max_headers = None;
    c.upgrades = false;
    c.pipeline_flush = false;
    c.max_buf = *r.pick(&[Some(8192), Some(8192), Some(16384), Some(20000), Some(65536), None]);
    let m = c.max_buf.unwrap_or(DEFAULT_MAX);
    (c, m)
}
fn judge(out: &mut CaseOut, e: &End) -> bool {
    match e {
        End::Quiescent => true,
        End::Spin(t) => {
            out.viol(format!("task {t} spins without progress"));
            false
        }
        x => {
            out.inconclusive = Some(format!("{x:?}"));
            false
        }
    }
}
fn check(out: &mut CaseOut, what: &str, held: usize, max: usize) {
    out.count("bounds_checked", 1);
    out.count("held_bytes", held as u64);
    out.count("held_more_than_limit", (held > max) as u64);
    out.count("held_more_than_1_5_limit", (held > max + max / 2 + 8192) as u64);
    if held > bound(max) {
        out.viol(format!("{what}: {held} bytes held at rest, buffer limit {max}"));
    }
}

/// Service that does not read its body (or does not answer) while the peer keeps sending.
fn server_read(r: &mut Rng, sim: &Sim, out: &mut CaseOut, busy: bool) -> String {
    let (cfg, max) = scfg(r);
    let n = big(r, max);
    let gate = Gate::default();
    let mut reqs = vec![];
    let mut methods = vec![];
    let mut plans = vec![];
    let mut body = vec![];
    let pauses = r.range(0, 6);
    if busy {
        let one = b"GET / HTTP/1.1\r\nHost: a\r\nx-pad: 0123456789012345678901234567890123456789\r\n\r\n".to_vec();
        let pad = b"GET /fill HTTP/1.1\r\nHost: a\r\nx-pad: ".to_vec();
        let mut all = one;
        let k = n / 6000 + 1;
        for _ in 0..k {
            all.extend_from_slice(&pad);
            all.extend(std::iter::repeat(b'p').take(5900));
            all.extend_from_slice(b"\r\n\r\n");
        }
        reqs.push(all);
        methods = vec!["GET".to_string(); k + 1];
        let mut p = Plan::simple(RespSpec::ok(b"first"));
        p.gate = Some(Gates(gate.clone()));
        plans.push(p);
        for _ in 0..k {
            plans.push(Plan::simple(RespSpec::ok(b"next")));
        }
    } else {
        body = r.body(n);
        let mut w = b"POST / HTTP/1.1\r\nHost: a\r\n".to_vec();
        if r.pct(50) {
            w.extend_from_slice(format!("Content-Length: {n}\r\n\r\n").as_bytes());
            w.extend_from_slice(&body);
        } else {
            w.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
            if r.pct(50) {
                put_chunked(r, &mut w, &body, &vec![]);
            } else {
                w.extend_from_slice(format!("{n:x}\r\n").as_bytes());
                w.extend_from_slice(&body);
                w.extend_from_slice(b"\r\n0\r\n\r\n");
            }
        }
        reqs.push(w);
        methods.push("POST".into());
        let mut p = Plan::simple(RespSpec::ok(b"done"));
        p.read = ReadPlan::Pause(pauses, gate.clone());
        if r.pct(50) {
            p.gate = Some(Gates(gate.clone()));
        }
        p.pace = *r.pick(&[0, 30]);
        plans.push(p);
    }
    let desc = format!("server side, {}; {} bytes, limit {max}; {:?}", if busy { "busy service" } else { "unread body" }, n, cfg);
    let (ioa, iob) = ios(r);
    let nreq = plans.len();
    let mut run = Run::new(r, cfg, reqs, methods, plans, 0);
    run.ioa = ioa;
    run.iob = iob;
    run.send = Send::Pipelined;
    run.eof = Eof::Never;
    let mut ex = Exec::new(sim);
    let mut st = run.start(&mut ex);
    let e = st.run(&mut ex);
    if judge(out, &e) {
        let s = st.st.lock().unwrap();
        let read = st.wire.a.lock().unwrap().read_bytes as usize;
        if s.seen.len() != 1 {
            out.viol(format!("{} service calls while the first is unfinished", s.seen.len()));
        }
        let got = s.seen.first().map(|s| s.got.lock().unwrap().data.len()).unwrap_or(0);
        check(out, if busy { "pipelined requests behind a busy service" } else { "unread request body" }, read - got, max);
        out.nontrivial = read - got > 1000 && !out.violations.is_empty() || read < n;
        drop(s);
    }
    gate.open();
    let ran = st.finish(&mut ex);
    if out.violations.is_empty() && judge(out, &ran.e) {
        let s = ran.st.lock().unwrap();
        let (resp, err) = ran.responses();
        if let Some(e) = err {
            out.viol(e);
        }
        if busy {
            if s.seen.len() != nreq || resp.len() != nreq {
                out.viol(format!("after resuming: {} of {nreq} requests served, {} answered (connection {:?})", s.seen.len(), resp.len(), ran.end));
            }
        } else {
            let g = s.seen[0].got.lock().unwrap();
            if !g.clean() || g.data != body {
                out.viol(format!("after resuming: body {} ({:?}, connection {:?})", diff(&body, &g.data), g.err, ran.end));
            }
        }
    }
    desc
}
/// Endless heads, chunk extensions and trailers.
fn server_flood(r: &mut Rng, sim: &Sim, out: &mut CaseOut) -> String {
    let (cfg, max) = scfg(r);
    let n = big(r, max);
    let kind = r.below(6);
    let mut w = vec![];
    let name = match kind {
        0 => {
            w.extend_from_slice(b"GET /");
            w.extend(std::iter::repeat(b'a').take(n));
            "endless target"
        }
        1 => {
            w.extend_from_slice(b"GET / HTTP/1.1\r\nx-a: ");
            w.extend(std::iter::repeat(b'a').take(n));
            "endless header value"
        }
        2 => {
            w.extend_from_slice(b"GET / HTTP/1.1\r\n");
            let one = format!("x-a: {}\r\n", "b".repeat(r.range(5000, 9000)));
            while w.len() < n {
                w.extend_from_slice(one.as_bytes());
            }
            "endless header fields"
        }
        3 => {
            w.extend_from_slice(b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n5;");
            w.extend(std::iter::repeat(b'a').take(n));
            "endless chunk extension"
        }
        4 => {
            w.extend_from_slice(b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhello\r\n0\r\nx-t: ");
            w.extend(std::iter::repeat(b'a').take(n));
            "endless trailer value"
        }
        _ => {
            w.extend_from_slice(b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhello\r\n0\r\n");
            while w.len() < n {
                w.extend_from_slice(b"x-t: a\r\n");
            }
            "endless trailer fields"
        }
    };
    let desc = format!("server side, {name}; {n} bytes, limit {max}; {:?}", cfg);
    let (ioa, iob) = ios(r);
    let mut p = Plan::simple(RespSpec::ok(b"done"));
    p.read = ReadPlan::All;
    let mut run = Run::new(r, cfg, vec![w], vec!["POST".into()], vec![p], 0);
    run.ioa = ioa;
    run.iob = iob;
    run.send = Send::Pipelined;
    run.eof = Eof::Never;
    let mut ex = Exec::new(sim);
    let ran = run.go_with(&mut ex);
    if judge(out, &ran.e) {
        let s = ran.st.lock().unwrap();
        let read = ran.wire.a.lock().unwrap().read_bytes as usize;
        check(out, name, read, max);
        out.nontrivial = true;
        if kind < 3 {
            if !s.seen.is_empty() {
                out.viol("service called for an endless head".to_string());
            }
            if !ran.end.done {
                out.viol(format!("{name}: {read} bytes read and the connection still waits"));
            }
        } else {
            let failed = s.seen.first().map(|s| s.got.lock().unwrap().err.is_some()).unwrap_or(false);
            if !failed {
                out.viol(format!("{name}: {read} bytes read and the reader was not told"));
            }
        }
    }
    desc
}
/// Response body against a peer that does not read.
fn server_write(r: &mut Rng, sim: &Sim, out: &mut CaseOut) -> String {
    let (cfg, max) = scfg(r);
    let n = big(r, max);
    let (mut script, data) = pump(r, n);
    let frame = script.steps.iter().map(|s| if let Step::Data(d) = s { d.len() } else { 0 }).max().unwrap_or(0);
    script.eager_eos = r.pct(50);
    let mut resp = RespSpec::ok(b"");
    resp.script = script;
    let desc = format!("server side, peer does not read; {n} bytes in frames up to {frame}, limit {max}; {:?}", cfg);
    let (ioa, iob) = ios(r);
    let p = Plan::simple(resp);
    let mut run = Run::new(r, cfg, vec![b"GET / HTTP/1.1\r\nHost: a\r\n\r\n".to_vec()], vec!["GET".into()], vec![p], 0);
    run.ioa = ioa;
    run.iob = iob;
    run.send = Send::Pipelined;
    run.eof = Eof::Never;
    let mut ex = Exec::new(sim);
    let mut st = run.start(&mut ex);
    // the transport takes a while, then nothing more
    st.wire.a2b.lock().unwrap().hold = true;
    let e = st.run(&mut ex);
    if judge(out, &e) {
        let s = st.st.lock().unwrap();
        let written = st.wire.a.lock().unwrap().written as usize;
        let pulled = s.seen[0].body_log.as_ref().unwrap().lock().unwrap().pulled_bytes as usize;
        check(out, "response body towards a blocked transport", pulled.saturating_sub(written), max + frame);
        out.nontrivial = pulled < n;
    }
    Wire::set_hold(&st.wire.a2b, false);
    let ran = st.finish(&mut ex);
    if out.violations.is_empty() && judge(out, &ran.e) {
        let (resp, err) = ran.responses();
        match resp.first() {
            Some(m) if err.is_none() && m.complete && m.body == data => {}
            m => out.viol(format!("after resuming: body {} ({err:?}, connection {:?})", m.map(|m| diff(&data, &m.body)).unwrap_or_default(), ran.end)),
        }
    }
    desc
}
fn pump(r: &mut Rng, n: usize) -> (Script, Vec<u8>) {
    let data = r.body(n);
    let step = *r.pick(&[700usize, 5000, 8192, 16384, 50_000]);
    let mut steps = vec![];
    for c in data.chunks(step) {
        if r.pct(3) {
            steps.push(Step::Pend(1));
        }
        steps.push(Step::Data(c.to_vec()));
    }
    (Script { steps, hint: *r.pick(&[Hint::Exact, Hint::Unknown]), eager_eos: true }, data)
}
fn ccfg(r: &mut Rng) -> (CliCfg, usize) {
    let mut c = CliCfg::gen(r);
    c.h09 = false;
    c.upgrades = false;
    c.max_headers = None;
    c.exact_buf = None;
    c.max_buf = *r.pick(&[Some(8192), Some(8192), Some(16384), Some(20000), Some(65536), None]);
    if r.pct(25) {
        c.max_buf = None;
        c.exact_buf = Some(*r.pick(&[4000, 9000, 30000]));
        // an exact read size replaces the read limit only
    }
    let m = c.exact_buf.unwrap_or(c.max_buf.unwrap_or(DEFAULT_MAX));
    (c, m)
}
struct Cli {
    ex: Exec,
    wire: Wire,
    x: ExRef,
    end: EndRef,
    rx: RecvRef,
    resume: Gate,
}
/// One request; the raw server answers with `answer` as soon as it has the request's head.
fn client(r: &mut Rng, sim: &Sim, cfg: &CliCfg, spec: ReqSpec, answer: Vec<u8>, first_frames: usize, raw_reads: bool) -> Cli {
    let (ioa, iob) = ios(r);
    let (client_io, server_io, wire) = pipe(sim, ioa, iob);
    let mut ex = Exec::new(sim);
    ex.spurious = *r.pick(&[0, 0, 10]);
    let (mut tx, end) = connect_h1(&mut ex, cfg, client_io);
    let peer = Peer::new(server_io);
    let rx = RecvRef::default();
    let head = Gate::default();
    if raw_reads {
        let (p, rx, head) = (peer.clone(), rx.clone(), head.clone());
        ex.spawn("raw-read", async move {
            read_all(p, rx, 1 << 16, |rv| {
                if let refh1::P::Ok(_) = refh1::request(&rv.data, 0) {
                    head.open();
                }
            })
            .await
        });
    }
    {
        let p = peer.clone();
        ex.spawn("raw-write", async move {
            head.wait().await;
            let _ = p.send(&answer).await;
        });
    }
    let x: ExRef = Arc::new(Mutex::new(Exchange::default()));
    let resume = Gate::default();
    {
        let (sim2, x2, g) = (sim.clone(), x.clone(), resume.clone());
        ex.spawn("caller", async move {
            exchange(&sim2, &mut tx, &spec, &x2, CRead::Keep, 0, false).await;
            let (b, got) = {
                let mut x = x2.lock().unwrap();
                (x.body.take(), x.got.clone())
            };
            if let Some(mut b) = b {
                read_body(&sim2, &mut b, &got, 0, first_frames).await;
                g.wait().await;
                if !got.lock().unwrap().done {
                    read_body(&sim2, &mut b, &got, 0, usize::MAX).await;
                }
            }
            g.wait().await;
            drop(tx);
        });
    }
    ex.until = Some(1_000_000_000);
    Cli { ex, wire, x, end, rx, resume }
}
fn client_read(r: &mut Rng, sim: &Sim, out: &mut CaseOut) -> String {
    let (cfg, max) = ccfg(r);
    let n = big(r, max);
    let body = r.body(n);
    let mut w = b"HTTP/1.1 200 OK\r\n".to_vec();
    match r.below(3) {
        0 => {
            w.extend_from_slice(format!("content-length: {n}\r\n\r\n").as_bytes());
            w.extend_from_slice(&body);
        }
        1 => {
            w.extend_from_slice(b"transfer-encoding: chunked\r\n\r\n");
            put_chunked(r, &mut w, &body, &vec![]);
        }
        _ => {
            w.extend_from_slice(format!("transfer-encoding: chunked\r\n\r\n{n:x}\r\n").as_bytes());
            w.extend_from_slice(&body);
            w.extend_from_slice(b"\r\n0\r\n\r\n");
        }
    }
    let desc = format!("client side, unread response body; {n} bytes, limit {max}; {:?}", cfg);
    let first = r.range(0, 6);
    let mut c = client(r, sim, &cfg, ReqSpec::get("/"), w, first, true);
    let e = at_rest(c.ex.run());
    if judge(out, &e) {
        let got = c.x.lock().unwrap().got.lock().unwrap().data.len();
        let read = c.wire.a.lock().unwrap().read_bytes as usize;
        check(out, "unread response body", read - got, max);
        out.nontrivial = read < n;
    }
    c.resume.open();
    let e = at_rest(c.ex.run());
    if out.violations.is_empty() && judge(out, &e) {
        let x = c.x.lock().unwrap();
        let g = x.got.lock().unwrap();
        if !g.clean() || g.data != body {
            out.viol(format!("after resuming: body {} ({:?}, connection {:?})", diff(&body, &g.data), g.err, c.end.lock().unwrap()));
        }
    }
    desc
}
fn client_flood(r: &mut Rng, sim: &Sim, out: &mut CaseOut) -> String {
    let (cfg, max) = ccfg(r);
    let n = big(r, max);
    let mut w = vec![];
    let kind = r.below(4);
    let name = match kind {
        0 => {
            w.extend_from_slice(b"HTTP/1.1 200 ");
            w.extend(std::iter::repeat(b'a').take(n));
            "endless reason"
        }
        1 => {
            w.extend_from_slice(b"HTTP/1.1 200 OK\r\nx-a: ");
            w.extend(std::iter::repeat(b'a').take(n));
            "endless header value"
        }
        2 => {
            w.extend_from_slice(b"HTTP/1.1 200 OK\r\ntransfer-encoding: chunked\r\n\r\n5;");
            w.extend(std::iter::repeat(b'a').take(n));
            "endless chunk extension"
        }
        _ => {
            w.extend_from_slice(b"HTTP/1.1 200 OK\r\ntransfer-encoding: chunked\r\n\r\n5\r\nhello\r\n0\r\n");
            while w.len() < n {
                w.extend_from_slice(b"x-t: a\r\n");
            }
            "endless trailer fields"
        }
    };
    let desc = format!("client side, {name}; {n} bytes, limit {max}; {:?}", cfg);
    let mut c = client(r, sim, &cfg, ReqSpec::get("/"), w, usize::MAX, true);
    let e = at_rest(c.ex.run());
    if judge(out, &e) {
        let read = c.wire.a.lock().unwrap().read_bytes as usize;
        check(out, name, read, max);
        out.nontrivial = true;
        let x = c.x.lock().unwrap();
        let failed = if kind < 2 { x.err.is_some() } else { x.got.lock().unwrap().err.is_some() };
        if !failed {
            out.viol(format!("{name}: {read} bytes read and the caller was not told ({:?}; {:?})", x.status, c.end.lock().unwrap()));
        }
    }
    desc
}
fn client_write(r: &mut Rng, sim: &Sim, out: &mut CaseOut) -> String {
    let (mut cfg, _) = ccfg(r);
    if cfg.exact_buf.is_some() {
        cfg.exact_buf = None;
    }
    let max = cfg.max_buf.unwrap_or(DEFAULT_MAX);
    let n = big(r, max);
    let (script, data) = pump(r, n);
    let frame = script.steps.iter().map(|s| if let Step::Data(d) = s { d.len() } else { 0 }).max().unwrap_or(0);
    let mut spec = ReqSpec::get("/");
    spec.method = "POST".into();
    spec.script = script;
    let desc = format!("client side, peer does not read; {n} bytes in frames up to {frame}, limit {max}; {:?}", cfg);
    let mut c = client(r, sim, &cfg, spec, vec![], 0, true);
    c.wire.a2b.lock().unwrap().hold = true;
    let e = at_rest(c.ex.run());
    if judge(out, &e) {
        let x = c.x.lock().unwrap();
        let written = c.wire.a.lock().unwrap().written as usize;
        let pulled = x.body_log.as_ref().unwrap().lock().unwrap().pulled_bytes as usize;
        check(out, "request body towards a blocked transport", pulled.saturating_sub(written), max + frame);
        out.nontrivial = pulled < n;
    }
    Wire::set_hold(&c.wire.a2b, false);
    let e = at_rest(c.ex.run());
    if out.violations.is_empty() && judge(out, &e) {
        match refh1::request(&c.rx.lock().unwrap().data, 0) {
            refh1::P::Ok(m) if m.complete && m.body == data => {}
            _ => out.viol("after resuming: the request is not on the wire as submitted".to_string()),
        }
    }
    desc
}

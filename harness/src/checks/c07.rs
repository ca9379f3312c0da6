//! C07: truncated or failed messages are never presented as complete (HTTP/1 part; HTTP/2 in c07h2).
use crate::body::*;
use crate::cli::*;
use crate::h1gen::*;
use crate::peer::*;
use crate::refh1;
use crate::report::*;
use crate::rng::{mix, Rng};
use crate::run::*;
use crate::sim::*;
use crate::srv::*;
use crate::util::*;
use std::sync::{Arc, Mutex};

pub const CHECK: Check = Check {
    id: "C07",
    level: "fault_enumeration",
    rule: "a case cuts one message at one byte offset (end of stream, abrupt close, transport error at that offset, framing garbage), or makes one local body producer fail / end short / lose its connection after a given frame, on one side and protocol version; distinct = distinct (bytes, schedule) with the affected message at least partly delivered",
    quick: 100_000,
    thorough: 3_000_000,
    run: case,
    assumptions: &["an HTTP/1.0 style body delimited by the end of the connection cannot show a truncation by end of stream"],
};

fn case(ctx: &Ctx) -> CaseOut {
    let mut r = Rng::new(mix(ctx.seed, 7));
    match r.below(6) {
        4 => super::c26::h2_raw(ctx, Rng::new(ctx.seed), r.pct(50), true),
        5 => super::c07h2::case(ctx, Rng::new(ctx.seed), r.pct(50)),
        0 => server_cut(ctx),
        1 => client_cut(ctx),
        2 => server_fail(ctx),
        _ => client_fail(ctx),
    }
}

/// A cut point, biased towards the interesting places of a message.
fn cut_point(r: &mut Rng, head: usize, len: usize) -> usize {
    match r.below(6) {
        0 => r.range(0, head.min(len)),
        1 => len.saturating_sub(r.range(0, 7)),
        2 => (head + r.range(0, 4)).min(len),
        _ => r.range(head.min(len), len),
    }
}

fn server_cut(ctx: &Ctx) -> CaseOut {
    let mut out = CaseOut::default();
    let mut r = Rng::new(ctx.seed);
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let mut cfg = SrvCfg::gen(&mut r);
    cfg.max_buf = None;
    cfg.max_headers = None;
    let n = r.range(0, 2);
    let maxb = *r.pick(&[60usize, 3000, 60_000]);
    let mut msgs = vec![];
    for _ in 0..n {
        msgs.push(gen_request(&mut r, &ReqOpt { max_body: 200, close: false, leading_crlf: false, allow_10: false, max_headers: 100 }));
    }
    let victim = loop {
        let m = gen_request(&mut r, &ReqOpt { max_body: maxb, close: false, leading_crlf: false, allow_10: true, max_headers: 100 });
        if m.wire.len() > m.head_len {
            break m;
        }
    };
    let cut = cut_point(&mut r, victim.head_len, victim.wire.len());
    let mode = r.below(4); // 0 eof, 1 drop, 2 read fault, 3 garbage then eof
    let cut = if mode == 3 { cut.max(victim.head_len) } else { cut };
    let mut part = victim.wire[..cut].to_vec();
    let mut complete = cut == victim.wire.len();
    if mode == 3 && !complete {
        let k = r.range(1, 40) + if r.pct(30) { victim.body.len() } else { 0 };
        // such a run never completes a chunked body, wherever it starts
        part.extend(std::iter::repeat(*r.pick(b"Z\x00")).take(k));
        complete = victim.kind == BodyKind::Length && part.len() >= victim.wire.len();
    }
    let mut reqs: Vec<Vec<u8>> = msgs.iter().map(|m| m.wire.clone()).collect();
    let good: usize = reqs.iter().map(|x| x.len()).sum();
    if mode == 2 {
        // the fault comes at the cut, whatever follows
        reqs.push(victim.wire.clone());
    } else {
        reqs.push(part.clone());
    }
    let mut methods: Vec<String> = msgs.iter().map(|m| m.method.clone()).collect();
    methods.push(victim.method.clone());
    let plans: Vec<Plan> = (0..=n)
        .map(|i| {
            let k = r.size(500);
            let mut p = Plan::simple(RespSpec::ok(&r.body(k)));
            p.delay = *r.pick(&[0, 0, 1, 5]);
            p.pace = *r.pick(&[0, 0, 20, 70]);
            p.read = if i < n {
                ReadPlan::All
            } else {
                match r.below(5) {
                    0 => ReadPlan::Concurrent,
                    1 => ReadPlan::AfterRespond,
                    2 => ReadPlan::Partial(r.range(1, 4)),
                    _ => ReadPlan::All,
                }
            };
            p
        })
        .collect();
    let read_plan = format!("{:?}", plans[n].read);
    let mut run = Run::new(&mut r, cfg, reqs, methods, plans, 2000);
    if run.send == Send::Lockstep && n == 0 {
        run.send = Send::Pieces;
    }
    run.eof = match mode {
        1 => Eof::DropAfterSend,
        2 => Eof::Never,
        _ => Eof::AfterSend,
    };
    let lockstep = run.send == Send::Lockstep;
    if lockstep {
        // the cut message is never answered: do not wait for it
        run.send = Send::Pieces;
    }
    let desc = format!("server side, {} good requests, then {} {:?} of {} bytes (head {}) cut at {} mode {} read {}; {:?} {:?}", n, victim.method, victim.kind, victim.wire.len(), victim.head_len, cut, ["eof", "drop", "fault", "garbage"][mode], read_plan, run.cfg, run.send);
    let mut ex = Exec::new(&sim);
    let started = run.start(&mut ex);
    if mode == 2 {
        started.wire.fa.lock().unwrap().read_at = Some(((good + cut) as u64, Fault::Err));
    }
    let ran = started.finish(&mut ex);
    if ran.judge_end(&mut out) {
        let st = ran.st.lock().unwrap();
        if let Some(s) = st.seen.get(n) {
            let g = s.got.lock().unwrap();
            out.count("bodies_judged", 1);
            if !victim.body.starts_with(&g.data) && mode != 3 {
                out.viol(format!("body bytes not sent by the peer: {}", diff(&victim.body, &g.data)));
            }
            if !complete {
                if g.done && g.err.is_none() {
                    out.viol(format!("request cut at {cut} of {} ended cleanly at the reader with {} of {} body bytes", victim.wire.len(), g.data.len(), victim.body.len()));
                } else if g.started && g.err.is_none() && !read_plan.starts_with("Partial") && !s.fut_dropped {
                    out.viol(format!("reader of a cut request never learned of it ({} bytes read; connection {:?})", g.data.len(), ran.end));
                }
            } else if mode != 2 && mode != 1 {
                if let Some(e) = &g.err {
                    out.viol(format!("a complete request body failed: {e}"));
                }
            }
            if cut < victim.head_len && mode != 3 {
                out.viol("service called for a request whose head was cut".to_string());
            }
            for o in &g.odd {
                out.viol(o.clone());
            }
        } else if cut > victim.head_len && mode == 0 && st.seen.len() == n && n == 0 {
            out.viol(format!("head arrived completely but the service was not called (connection {:?})", ran.end));
        }
        out.nontrivial = st.seen.len() > n || cut > 0;
        out.count("cut_requests", 1);
    }
    out.sig = mix(mix(sim.st(|s| s.hash), fnv(&part)), mode as u64);
    out.desc = Some(desc);
    out.trace = sim.take_log();
    out
}

fn client_cut(ctx: &Ctx) -> CaseOut {
    let mut out = CaseOut::default();
    let mut r = Rng::new(ctx.seed);
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let mut cfg = CliCfg::gen(&mut r);
    cfg.max_buf = None;
    cfg.exact_buf = None;
    cfg.max_headers = None;
    cfg.h09 = false;
    cfg.obs_fold = false;
    cfg.spaces = false;
    cfg.ignore_invalid = false;
    let n = r.range(0, 2);
    let maxb = *r.pick(&[60usize, 3000, 60_000]);
    let mut msgs = vec![];
    for _ in 0..n {
        msgs.push(gen_response(&mut r, &RespOpt { method: "GET".into(), max_body: 200, last: false, max_headers: 100 }));
    }
    let victim = loop {
        let m = gen_response(&mut r, &RespOpt { method: "GET".into(), max_body: maxb, last: true, max_headers: 100 });
        if m.wire.len() > m.head_len {
            break m;
        }
    };
    let cut = cut_point(&mut r, victim.head_len, victim.wire.len());
    let mode = r.below(4);
    let cut = if mode == 3 { cut.max(victim.head_len) } else { cut };
    let mut part = victim.wire[..cut].to_vec();
    let mut complete = cut == victim.wire.len();
    if mode == 3 && !complete {
        let k = r.range(1, 40) + if r.pct(30) { victim.body.len() } else { 0 };
        // such a run never completes a chunked body, wherever it starts
        part.extend(std::iter::repeat(*r.pick(b"Z\x00")).take(k));
        complete = victim.kind == BodyKind::Length && part.len() >= victim.wire.len();
    }
    let good: usize = msgs.iter().map(|m| m.wire.len()).sum();
    let mut ioa = IoCfg::gen(&mut r);
    let mut iob = IoCfg::gen(&mut r);
    tame(&mut r, &mut ioa, &mut iob, good + victim.wire.len() + 3000);
    let desc = format!("client side, {} good responses, then {} {:?} of {} bytes (head {}) cut at {} mode {}; {:?}", n, victim.status, victim.kind, victim.wire.len(), victim.head_len, cut, ["eof", "drop", "fault", "garbage"][mode], cfg);
    let (client_io, server_io, wire) = pipe(&sim, ioa, iob);
    if mode == 2 {
        wire.fa.lock().unwrap().read_at = Some(((good + cut) as u64, Fault::Err));
    }
    let mut ex = Exec::new(&sim);
    ex.spurious = *r.pick(&[0, 0, 0, 10]);
    let (mut tx, end) = connect_h1(&mut ex, &cfg, client_io);
    let peer = Peer::new(server_io);
    let rx: RecvRef = Default::default();
    let done = Count::default();
    {
        let (p, rx, done) = (peer.clone(), rx.clone(), done.clone());
        ex.spawn("raw-read", async move {
            let (mut pos, mut k) = (0, 0);
            read_all(p, rx, 1 << 16, |rv| loop {
                match refh1::request(&rv.data, pos) {
                    refh1::P::Ok(m) if m.complete => {
                        pos = m.end;
                        k += 1;
                        done.set(k);
                    }
                    _ => break,
                }
            })
            .await
        });
    }
    {
        let (p, done, sim2) = (peer.clone(), done.clone(), sim.clone());
        let mut outs: Vec<Vec<u8>> = msgs.iter().map(|m| m.wire.clone()).collect();
        outs.push(if mode == 2 { victim.wire.clone() } else { part.clone() });
        ex.spawn("raw-write", async move {
            for (i, q) in outs.iter().enumerate() {
                done.at_least(i + 1).await;
                let mut off = 0;
                while off < q.len() {
                    let k = sim2.rng(|r| if r.pct(50) { q.len() - off } else { r.range(1, q.len() - off) });
                    if p.send(&q[off..off + k]).await.is_err() {
                        return;
                    }
                    off += k;
                    let y = sim2.rng(|r| r.range(0, 5));
                    sim2.yields(y).await;
                }
            }
            match mode {
                1 => p.drop_io(),
                2 => {}
                _ => {
                    let _ = p.close_write().await;
                }
            }
        });
    }
    let xs: Vec<ExRef> = (0..=n).map(|_| Arc::new(Mutex::new(Exchange::default()))).collect();
    {
        let (sim2, xs) = (sim.clone(), xs.clone());
        let pace = *r.pick(&[0, 0, 20, 70]);
        let keep_tx = r.pct(50);
        let use_try = r.pct(50);
        ex.spawn("caller", async move {
            for x in xs.iter() {
                if tx.ready().await.is_err() {
                    return;
                }
                exchange(&sim2, &mut tx, &ReqSpec::get("/"), x, CRead::All, pace, use_try).await;
            }
            if keep_tx {
                std::future::pending::<()>().await;
            }
        });
    }
    ex.until = Some(1_000_000_000);
    let e = at_rest(ex.run());
    let end = end.lock().unwrap().clone();
    match &e {
        End::Quiescent => {}
        End::Spin(t) => out.viol(format!("task {t} spins without progress")),
        x => out.inconclusive = Some(format!("{x:?}")),
    }
    if e == End::Quiescent {
        let eof = mode == 0 || mode == 3;
        let complete = complete || (eof && victim.kind == BodyKind::Close && cut >= victim.head_len);
        let x = xs[n].lock().unwrap();
        let g = x.got.lock().unwrap();
        if x.submitted {
            out.count("cut_responses", 1);
            out.nontrivial = true;
            if cut < victim.head_len && mode != 3 && x.status.is_some() {
                out.viol(format!("a response whose head was cut at {cut} was returned as {:?}", x.status));
            }
            if x.resolved != 1 {
                out.viol(format!("the request resolved {} times (connection {:?})", x.resolved, end));
            }
            if x.status.is_some() {
                if mode != 3 && !victim.body.starts_with(&g.data) {
                    out.viol(format!("body bytes not sent by the peer: {}", diff(&victim.body, &g.data)));
                }
                let close_delim = victim.kind == BodyKind::Close;
                if close_delim && (mode == 1 || mode == 2) {
                    if mode == 2 && g.done && g.err.is_none() && cut < victim.wire.len() {
                        out.viol(format!("a transport error was presented as the clean end of a body ({} bytes)", g.data.len()));
                    }
                    if !g.done && g.err.is_none() {
                        out.viol("reader never learned of the end".to_string());
                    }
                } else if !complete {
                    if g.done && g.err.is_none() {
                        out.viol(format!("response cut at {cut} of {} ended cleanly with {} of {} body bytes", victim.wire.len(), g.data.len(), victim.body.len()));
                    } else if g.err.is_none() {
                        out.viol(format!("reader of a cut response never learned of it ({} bytes read)", g.data.len()));
                    }
                } else if let (Some(e), true) = (&g.err, eof) {
                    out.viol(format!("a complete response body failed: {e}"));
                }
                for o in &g.odd {
                    out.viol(o.clone());
                }
            } else if x.err.is_none() {
                out.viol("the request never resolved".to_string());
            }
        }
    }
    out.sig = mix(mix(sim.st(|s| s.hash), fnv(&part)), 16 + mode as u64);
    out.desc = Some(desc);
    out.trace = sim.take_log();
    out
}

/// A body script that fails, ends short or stalls (for a killed connection).
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fail {
    Error,
    Short,
    Kill,
    /// more than was declared
    Long,
}
/// returns (script, bytes produced before the failure, declared length if the application must set it)
fn failing(r: &mut Rng, fail: Fail, maxb: usize) -> (Script, usize, Option<usize>) {
    let n = r.size(maxb).max(1);
    let mut s = Script::gen(r, n);
    let at = r.range(0, s.steps.len());
    let before = s.steps[..at].iter().map(|s| if let Step::Data(d) = s { d.len() } else { 0 }).sum();
    match fail {
        Fail::Error => {
            s.steps.insert(at, Step::Err("producer failed".into()));
            if r.pct(50) {
                s.steps.insert(at, Step::Pend(r.range(1, 3) as u32));
            }
            (s, before, if r.pct(30) { Some(n) } else { None })
        }
        Fail::Short => {
            s.steps.truncate(at);
            s.hint = *r.pick(&[Hint::Unknown, Hint::Lower]);
            let extra = r.range(0, 40);
            (s, before, Some(n + extra))
        }
        Fail::Kill => {
            s.steps.insert(at, Step::Sleep(2_000_000));
            (s, before, None)
        }
        Fail::Long => {
            s.hint = *r.pick(&[Hint::Unknown, Hint::Lower]);
            let d = match r.below(4) {
                0 => 0,
                1 => n - 1,
                // where one of the chunks begins or ends
                2 => before.min(n - 1),
                _ => r.below(n),
            };
            (s, n, Some(d))
        }
    }
}

fn server_fail(ctx: &Ctx) -> CaseOut {
    let mut out = CaseOut::default();
    let mut r = Rng::new(ctx.seed);
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let mut cfg = SrvCfg::gen(&mut r);
    cfg.header_timeout = Some(None);
    let fail = *r.pick(&[Fail::Error, Fail::Error, Fail::Short, Fail::Kill, Fail::Long]);
    let n = r.range(0, 2);
    let maxb = *r.pick(&[20usize, 3000, 60_000]);
    let (mut script, before, decl) = failing(&mut r, fail, maxb);
    if script.eager_eos && script.steps.is_empty() {
        script.eager_eos = false;
    }
    let total = match decl {
        Some(d) => d,
        None => script.len(),
    };
    let sized = decl.is_some() || script.hint == Hint::Exact;
    let data = script.data();
    let after = r.range(0, 2);
    let k = n + 1 + after;
    let te = r.pct(30);
    let mut reqs: Vec<Vec<u8>> = vec![];
    for i in 0..k {
        let mut w = format!("{} /{i} HTTP/1.1\r\nHost: a\r\n", if i % 2 == 0 { "GET" } else { "POST" });
        if te {
            w.push_str("TE: trailers\r\n");
        }
        if i % 2 == 1 {
            w.push_str("Content-Length: 3\r\n\r\nabc");
        } else {
            w.push_str("\r\n");
        }
        reqs.push(w.into_bytes());
    }
    let methods: Vec<String> = (0..k).map(|i| if i % 2 == 0 { "GET".to_string() } else { "POST".into() }).collect();
    let mut plans = vec![];
    for i in 0..k {
        let b = r.body(30);
        let mut p = Plan::simple(RespSpec::ok(&b));
        p.delay = *r.pick(&[0, 0, 2]);
        if i == n {
            p.resp.script = script.clone();
            if let Some(d) = decl {
                p.resp.headers.push(("content-length".into(), d.to_string().into_bytes()));
            }
        }
        plans.push(p);
    }
    let mut run = Run::new(&mut r, cfg, reqs, methods, plans, data.len() + 500);
    if run.send == Send::Lockstep {
        run.send = Send::Pieces;
    }
    run.eof = if run.cfg.half_close && r.pct(30) { Eof::AfterSend } else { Eof::Never };
    run.until = 500_000_000;
    let desc = format!("server response body {:?} after {} of {} bytes, hint {:?} declared {:?}, {} before, {} after; {:?} {:?}", fail, before, data.len(), script.hint, decl, n, after, run.cfg, run.send);
    let mut ex = Exec::new(&sim);
    let mut started = run.start(&mut ex);
    if fail == Fail::Kill {
        started.until = 1_000_000;
        started.run(&mut ex);
        ex.kill("server");
        started.until = 500_000_000;
    }
    let ran = started.finish(&mut ex);
    if ran.judge_end(&mut out) {
        let (resp, err) = ran.responses();
        let may_be_complete = sized && before >= total;
        if let Some(e) = &err {
            if !e.starts_with("incomplete head") {
                out.viol(format!("unparsable output: {e}"));
            }
        }
        if let Some(m) = resp.get(n) {
            out.count("failed_responses", 1);
            out.nontrivial = true;
            if m.complete && !may_be_complete {
                out.viol(format!("the peer received a complete response ({} bytes, {:?}) although its producer had stopped after {} of {}", m.body.len(), m.framing, before, total));
            }
            if !data.starts_with(&m.body) {
                out.viol(format!("bytes in the failed response that its body never produced: {}", diff(&data, &m.body)));
            }
            if fail == Fail::Long && (!m.complete || m.body.len() != total || err.is_some()) {
                out.viol(format!("a body of {before} bytes declared to have {total}: complete {}, {} bytes on the wire, then {err:?}", m.complete, m.body.len()));
            }
            if !m.complete && resp.len() > n + 1 {
                out.viol("a response follows an incomplete one".to_string());
            }
            if !m.complete && fail != Fail::Kill && !ran.end.done {
                out.viol(format!("connection not ended after a failed response body ({:?})", ran.pending));
            }
            if !m.complete && !(ran.rx.eof || ran.rx.err.is_some()) {
                out.viol("transport not closed after a failed response body".to_string());
            }
        }
        if fail == Fail::Error && !may_be_complete && ran.end.done && ran.end.ok && resp.len() == n + 1 && !resp[n].complete && sized {
            // the connection future of a server reports the failure
            out.count("ended_ok", 1);
        }
    }
    out.sig = mix(mix(sim.st(|s| s.hash), fnv(&ran.rx.data)), 32 + fail as u64);
    out.desc = Some(desc);
    out.trace = sim.take_log();
    out
}

fn client_fail(ctx: &Ctx) -> CaseOut {
    let mut out = CaseOut::default();
    let mut r = Rng::new(ctx.seed);
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let mut cfg = CliCfg::gen(&mut r);
    cfg.h09 = false;
    let fail = *r.pick(&[Fail::Error, Fail::Error, Fail::Short, Fail::Kill, Fail::Long]);
    let maxb = *r.pick(&[20usize, 3000, 60_000]);
    let (mut script, before, decl) = failing(&mut r, fail, maxb);
    if script.eager_eos && script.steps.is_empty() {
        script.eager_eos = false;
    }
    let total = decl.unwrap_or(script.len());
    let sized = decl.is_some() || script.hint == Hint::Exact;
    let data = script.data();
    let mut spec = ReqSpec::get("/x");
    spec.method = "POST".into();
    spec.script = script.clone();
    if let Some(d) = decl {
        spec.headers.push(("content-length".into(), d.to_string().into_bytes()));
    }
    // the server answers early in some cases
    let early = r.pct(25);
    let mut ioa = IoCfg::gen(&mut r);
    let mut iob = IoCfg::gen(&mut r);
    tame(&mut r, &mut ioa, &mut iob, data.len() + 3000);
    let desc = format!("client request body {:?} after {} of {} bytes, hint {:?} declared {:?}, early {}; {:?}", fail, before, data.len(), script.hint, decl, early, cfg);
    let (client_io, server_io, wire) = pipe(&sim, ioa, iob);
    let mut ex = Exec::new(&sim);
    ex.spurious = *r.pick(&[0, 0, 0, 10]);
    let (mut tx, end) = connect_h1(&mut ex, &cfg, client_io);
    let peer = Peer::new(server_io);
    let rx: RecvRef = Default::default();
    let heads = Count::default();
    {
        let (p, rx, heads) = (peer.clone(), rx.clone(), heads.clone());
        ex.spawn("raw-read", async move {
            read_all(p, rx, 1 << 16, |rv| {
                if let refh1::P::Ok(_) = refh1::request(&rv.data, 0) {
                    heads.set(1)
                }
            })
            .await
        });
    }
    if early {
        let (p, heads) = (peer.clone(), heads.clone());
        ex.spawn("raw-write", async move {
            heads.at_least(1).await;
            let _ = p.send(b"HTTP/1.1 200 OK\r\ncontent-length: 3\r\n\r\nabc").await;
        });
    }
    let x: ExRef = Arc::new(Mutex::new(Exchange::default()));
    let x2: ExRef = Arc::new(Mutex::new(Exchange::default()));
    {
        let (sim2, x, x2) = (sim.clone(), x.clone(), x2.clone());
        let use_try = r.pct(50);
        ex.spawn("caller", async move {
            exchange(&sim2, &mut tx, &spec, &x, CRead::All, 0, use_try).await;
            // another request must not end up inside the failed one
            if tx.ready().await.is_ok() {
                exchange(&sim2, &mut tx, &ReqSpec::get("/next"), &x2, CRead::All, 0, use_try).await;
            }
        });
    }
    if fail == Fail::Kill {
        ex.until = Some(1_000_000);
        ex.run();
        ex.kill("client");
    }
    ex.until = Some(500_000_000);
    let e = at_rest(ex.run());
    let end = end.lock().unwrap().clone();
    match &e {
        End::Quiescent => {}
        End::Spin(t) => out.viol(format!("task {t} spins without progress")),
        x => out.inconclusive = Some(format!("{x:?}")),
    }
    if e == End::Quiescent {
        let rv = rx.lock().unwrap();
        let may_be_complete = sized && before >= total;
        match refh1::request(&rv.data, 0) {
            refh1::P::Ok(m) => {
                out.count("failed_requests", 1);
                out.nontrivial = true;
                if m.complete && !may_be_complete {
                    out.viol(format!("the server received a complete request ({} bytes, {:?}) although its producer had stopped after {} of {}", m.body.len(), m.framing, before, total));
                }
                if !data.starts_with(&m.body) {
                    out.viol(format!("bytes in the failed request that its body never produced: {}", diff(&data, &m.body)));
                }
                // (what follows can only be the next request)
                let spill = !rv.data[m.end..].starts_with(b"GET /next ") && m.end != rv.data.len();
                if fail == Fail::Long && (!m.complete || m.body.len() != total || spill) {
                    out.viol(format!("a body of {before} bytes declared to have {total}: complete {}, {} bytes, {} more on the wire", m.complete, m.body.len(), rv.data.len() - m.end));
                }
                // (a body shorter than the caller's own declaration leaves the request waiting)
                if !m.complete && fail != Fail::Short && !(rv.eof || rv.err.is_some()) {
                    out.viol("transport not closed after a failed request body".to_string());
                }
            }
            refh1::P::Incomplete => {}
            refh1::P::Err(e) => out.viol(format!("unparsable request: {e}")),
        }
        let x = x.lock().unwrap();
        if x.submitted && x.resolved != 1 {
            let complete = matches!(refh1::request(&rv.data, 0), refh1::P::Ok(m) if m.complete);
            // a completely sent request may wait for its answer
            if !complete && fail != Fail::Short {
                out.viol(format!("request with a failed body resolved {} times (connection {:?})", x.resolved, end));
            }
        }
        if !early && x.status.is_some() {
            out.viol("a response appeared from nowhere".to_string());
        }
    }
    out.sig = mix(mix(sim.st(|s| s.hash), fnv(&wire.sent_by_a())), 64 + fail as u64);
    out.desc = Some(desc);
    out.trace = sim.take_log();
    out
}

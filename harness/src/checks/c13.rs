//! C13: 100 Continue.
use crate::body::*;
use crate::peer::*;
use crate::refh1;
use crate::report::*;
use crate::rng::Rng;
use crate::rng::mix;
use crate::run::tame;
use crate::sim::*;
use crate::srv::*;
use crate::util::*;
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub const CHECK: Check = Check {
    id: "C13",
    level: "exploration",
    rule: "a case is one server connection with 1-4 requests, with and without Expect, whose bodies the client sends at once, after a pause, on 100/final, or never, and whose service polls the body before, during, after or never relative to its response; the interim responses on the wire are compared with the virtual times of first poll and response; distinct = distinct (schedule, bytes) with at least one request judged",
    quick: 60_000,
    thorough: 3_000_000,
    run: case,
    assumptions: &["when the first body poll and the response fall into the same virtual instant either outcome is accepted"],
};
#[derive(Clone, Copy, PartialEq, Debug)]
enum Body {
    Now,
    Pause(u64),
    Wait,
    WaitOr(u64),
    Never,
}
struct Q {
    head: Vec<u8>,
    body: Vec<u8>,
    wire_body: Vec<u8>,
    eligible: bool,
    method: String,
    mode: Body,
    /// send the body although the final response came without a 100
    anyway: bool,
}
fn case(ctx: &Ctx) -> CaseOut {
    let mut out = CaseOut::default();
    let mut r = Rng::new(ctx.seed);
    let sim = Sim::new(r.next());
    if ctx.trace {
        sim.enable_log();
    }
    let mut cfg = SrvCfg::gen(&mut r);
    cfg.pipeline_flush = false; // delays what these checks time
    cfg.max_headers = None;
    cfg.header_timeout = Some(None);
    let n = r.range(1, 4);
    let mut qs = vec![];
    let mut plans = vec![];
    let mut bytes = 0;
    let mut opens = vec![];
    for i in 0..n {
        let method = *r.pick(&["POST", "PUT", "GET", "PATCH", "POST"]);
        let minor = if r.pct(12) { 0 } else { 1 };
        let expect = r.pct(80);
        let kind = r.below(10); // 0: none, 1: CL 0, 2..: CL, else chunked
        let body = match kind {
            0 | 1 => vec![],
            // a body that looks like a request
            2 | 3 => format!("GET /smuggled{i} HTTP/1.1\r\nHost: evil\r\n\r\n").into_bytes(),
            _ => {
                let k = *r.pick(&[1usize, 5, 100, 5000, 20_000]);
                r.body(k)
            }
        };
        let chunked = minor == 1 && kind > 1 && r.pct(40);
        let mut h = format!("{method} /{i} HTTP/1.{minor}\r\nHost: a\r\n");
        let mut lines = vec![];
        if expect {
            lines.push(format!("{}: {}\r\n", *r.pick(&["Expect", "expect", "EXPECT"]), *r.pick(&["100-continue", "100-Continue", "100-CONTINUE"])));
        } else if r.pct(20) {
            lines.push("Expect: 200-ok\r\n".into());
        }
        if chunked {
            lines.push("Transfer-Encoding: chunked\r\n".into());
        } else if kind > 0 {
            lines.push(format!("Content-Length: {}\r\n", body.len()));
        }
        if minor == 0 && r.pct(70) {
            lines.push("Connection: keep-alive\r\n".into());
        } else if r.pct(6) {
            lines.push("Connection: upgrade\r\nUpgrade: foo\r\n".into());
        }
        r.shuffle(&mut lines);
        h.push_str(&lines.concat());
        h.push_str("\r\n");
        let mut wire_body = vec![];
        if chunked {
            let mut off = 0;
            while off < body.len() {
                let k = r.range(1, body.len() - off);
                wire_body.extend_from_slice(format!("{k:x}\r\n").as_bytes());
                wire_body.extend_from_slice(&body[off..off + k]);
                wire_body.extend_from_slice(b"\r\n");
                off += k;
            }
            wire_body.extend_from_slice(b"0\r\n\r\n");
        } else {
            wire_body = body.clone();
        }
        bytes += h.len() + wire_body.len();
        let t = r.range(1, 40) as u64 * 10;
        qs.push(Q {
            head: h.into_bytes(),
            eligible: expect && minor == 1 && (chunked || !body.is_empty()),
            body,
            wire_body,
            method: method.into(),
            mode: *r.pick(&[Body::Now, Body::Now, Body::Pause(t), Body::Wait, Body::Wait, Body::WaitOr(t), Body::Never]),
            anyway: r.pct(50),
        });
        let mut p = Plan::simple(RespSpec::ok(b""));
        p.resp.status = *r.pick(&[200, 200, 413, 204, 417, 401]);
        if p.resp.status != 204 {
            let mut steps = vec![];
            for _ in 0..r.range(0, 3) {
                if r.pct(30) {
                    steps.push(Step::Sleep(r.range(1, 50) as u64 * 10));
                }
                let k = *r.pick(&[1usize, 30, 3000]);
                bytes += k;
                steps.push(Step::Data(r.body(k)));
            }
            p.resp.script = Script { steps, hint: *r.pick(&[Hint::Exact, Hint::Unknown]), eager_eos: r.pct(50) };
        }
        p.delay = *r.pick(&[0usize, 0, 1, 3]);
        p.sleep_ns = if r.pct(60) { r.range(1, 50) as u64 * 10 } else { 0 };
        let gate = Gate::default();
        p.read = match r.below(9) {
            0 => ReadPlan::Never,
            1 => ReadPlan::Hold,
            2 => ReadPlan::AfterRespond,
            3 | 4 => ReadPlan::Concurrent,
            5 => ReadPlan::Touch,
            6 => ReadPlan::Later(gate.clone()),
            7 => ReadPlan::Partial(r.below(3)),
            _ => ReadPlan::All,
        };
        if let ReadPlan::Later(g) = &p.read {
            opens.push((g.clone(), r.range(1, 60) as u64 * 10));
        }
        p.pace = *r.pick(&[0, 0, 40]);
        plans.push(p);
    }
    let methods: Vec<String> = qs.iter().map(|q| q.method.clone()).collect();
    let (mut ioa, mut iob) = (IoCfg::gen(&mut r), IoCfg::gen(&mut r));
    tame(&mut r, &mut ioa, &mut iob, bytes);
    let (server_io, client_io, wire) = pipe(&sim, ioa, iob);
    wire.a.lock().unwrap().wlog = Some(vec![]);
    let mut ex = Exec::new(&sim);
    ex.spurious = *r.pick(&[0, 0, 10]);
    for (g, t) in opens {
        let s = sim.clone();
        ex.spawn("opener", async move {
            s.sleep(Duration::from_nanos(t)).await;
            g.open();
        });
    }
    let desc = format!(
        "{:?}; {cfg:?}",
        qs.iter().zip(&plans).map(|(q, p)| format!("{} eligible={} body={} mode={:?} read={:?} sleep={} status={}", q.method, q.eligible, q.body.len(), q.mode, p.read, p.sleep_ns, p.resp.status)).collect::<Vec<_>>()
    );
    let svc = Svc::new(&ex, plans.clone());
    let st = svc.st.clone();
    let end = serve_h1(&mut ex, &cfg, server_io, svc, Gate::default());
    let peer = Peer::new(client_io);
    let rx = RecvRef::default();
    // per request: heads seen (100 or final); finals complete
    let (signals, finals): (Vec<Count>, Count) = ((0..n).map(|_| Count::default()).collect(), Count::default());
    {
        let (p, rx, ms, signals, finals) = (peer.clone(), rx.clone(), methods.clone(), signals.clone(), finals.clone());
        ex.spawn("client-read", async move {
            read_all(p, rx, 1 << 16, |rv| {
                let (mut pos, mut i) = (0, 0);
                while i < ms.len() {
                    match refh1::response(&rv.data, pos, &ms[i], rv.eof) {
                        refh1::P::Ok(m) => {
                            signals[i].set(signals[i].get().max(1));
                            if m.status() >= 200 {
                                // a final head: no need to wait for 100 any more
                                signals[i].set(2);
                            }
                            if !m.complete {
                                break;
                            }
                            if m.status() >= 200 {
                                i += 1;
                            }
                            pos = m.end;
                        }
                        _ => break,
                    }
                }
                finals.set(i);
                if rv.eof || rv.err.is_some() {
                    signals.iter().for_each(|s| s.set(3));
                    finals.set(ms.len());
                }
            })
            .await
        });
    }
    // body fully sent?
    let sent: Arc<Mutex<Vec<bool>>> = Arc::new(Mutex::new(vec![false; n]));
    let lock = r.pct(50);
    let half = cfg.half_close;
    let eof_end = r.pct(50);
    {
        let (p, s, sent) = (peer.clone(), sim.clone(), sent.clone());
        let qs: Vec<(Vec<u8>, Vec<u8>, Body, bool, bool)> = qs.iter().map(|q| (q.head.clone(), q.wire_body.clone(), q.mode, q.anyway, q.eligible)).collect();
        let (signals, finals) = (signals.clone(), finals.clone());
        ex.spawn("client-write", async move {
            for (i, (head, body, mode, anyway, eligible)) in qs.iter().enumerate() {
                if lock {
                    finals.at_least(i).await;
                }
                let mode = if *eligible { *mode } else { Body::Now };
                if mode == Body::Now {
                    let mut all = head.clone();
                    all.extend_from_slice(body);
                    if p.send(&all).await.is_err() {
                        return;
                    }
                    sent.lock().unwrap()[i] = true;
                    continue;
                }
                if p.send(head).await.is_err() {
                    return;
                }
                match mode {
                    Body::Pause(t) => s.sleep(Duration::from_nanos(t)).await,
                    Body::Wait => signals[i].at_least(1).await,
                    Body::WaitOr(t) => {
                        let mut a = Box::pin(signals[i].at_least(1));
                        let mut b = Box::pin(s.sleep(Duration::from_nanos(t)));
                        std::future::poll_fn(|cx| {
                            if std::future::Future::poll(a.as_mut(), cx).is_ready() {
                                return std::task::Poll::Ready(());
                            }
                            std::future::Future::poll(b.as_mut(), cx)
                        })
                        .await
                    }
                    _ => {
                        finals.at_least(i + 1).await;
                        let _ = p.close_write().await;
                        return;
                    }
                }
                if mode == Body::Wait && signals[i].get() >= 2 && !anyway {
                    // refused: a client that does not send the body has to give up the connection
                    finals.at_least(i + 1).await;
                    let _ = p.close_write().await;
                    return;
                }
                if p.send(body).await.is_err() {
                    return;
                }
                sent.lock().unwrap()[i] = true;
            }
            if eof_end {
                if !half {
                    finals.at_least(qs.len()).await;
                }
                let _ = p.close_write().await;
            }
        });
    }
    ex.until = Some(1_000_000_000);
    let e = at_rest(ex.run());
    let end = end.lock().unwrap().clone();
    match &e {
        End::Quiescent => {}
        End::Spin(t) => out.viol(format!("task {t} spins without progress")),
        x => out.inconclusive = Some(format!("{x:?}")),
    }
    if e == End::Quiescent {
        let st = st.lock().unwrap();
        let rx = rx.lock().unwrap();
        let wlog = wire.a.lock().unwrap().wlog.clone().unwrap();
        let (resp, err) = refh1::responses(&rx.data, &methods, rx.eof);
        if let Some(e) = err {
            out.viol(format!("output does not parse: {e}"));
        }
        // group: interims in front of the i-th final
        let mut groups: Vec<(Vec<&refh1::Msg>, Option<&refh1::Msg>)> = vec![];
        let mut cur = vec![];
        for m in &resp {
            if m.status() < 200 {
                cur.push(m);
            } else {
                groups.push((std::mem::take(&mut cur), Some(m)));
            }
        }
        if !cur.is_empty() {
            groups.push((cur, None));
        }
        if st.seen.len() > n {
            out.viol(format!("{} service calls for {n} requests", st.seen.len()));
        }
        let sent = sent.lock().unwrap();
        for (i, q) in qs.iter().enumerate() {
            let Some(s) = st.seen.get(i) else { break };
            if s.uri != format!("/{i}") || s.method != q.method {
                out.viol(format!("service call {i} is {} {}", s.method, s.uri));
                break;
            }
            let g = s.got.lock().unwrap();
            let (interims, fin) = match groups.get(i) {
                Some((a, b)) => (a.clone(), *b),
                None => (vec![], None),
            };
            for m in &interims {
                if m.status() != 100 || !m.headers.is_empty() {
                    out.viol(format!("request {i}: interim response {} with {:?}", m.status(), m.headers));
                }
            }
            let k = interims.len();
            let responded = s.responded_ns;
            let (lo, hi, why) = match (q.eligible, g.polled_ns, responded) {
                (false, _, _) => (0, 0, "the request does not expect it or has no body"),
                (_, None, _) => (0, 0, "the body was never polled"),
                (_, Some(p), Some(t)) if p > t => (0, 0, "the body was polled only after the response had begun"),
                (_, Some(p), Some(t)) if p == t => (0, 1, "polled at the same time as the response"),
                _ => (1, 1, "the body was polled before the response"),
            };
            if k < lo || k > hi {
                // a truncated transport may hide it
                out.viol(format!("request {i} (eligible {}, polled {:?}, responded {responded:?}): {k} interim responses, want {lo}..={hi}: {why}; connection {end:?}", q.eligible, g.polled_ns));
                break;
            }
            if lo == 1 {
                let at = wlog.iter().find(|(_, t)| *t >= interims[0].end as u64).map(|x| x.0);
                if at != g.polled_ns {
                    out.viol(format!("request {i}: body polled at {:?}, but 100 Continue written at {at:?}", g.polled_ns));
                }
                out.count("asked", 1);
            } else if q.eligible {
                out.count("not_asked", 1);
            }
            out.count("judged", 1);
            // the exchange itself must not suffer: final response complete
            match fin {
                Some(m) if m.complete && m.status() == plans[i].resp.status && m.body == plans[i].resp.script.data() => {}
                m => {
                    // a held request body keeps the connection, and so a close-delimited response, open
                    let held = matches!(plans[i].read, ReadPlan::Hold) && m.map(|m| m.framing == refh1::Framing::Close).unwrap_or(false);
                    let stuck_client = held || q.mode == Body::Never || (g.polled_ns.is_some() && !sent[i]);
                    if !stuck_client {
                        out.viol(format!("request {i}: response missing or incomplete: {:?}; connection {end:?}", m.map(|m| (m.status(), m.body.len(), m.complete))));
                    }
                    break;
                }
            }
            // content
            if !q.body.starts_with(&g.data) || (g.clean() && g.data != q.body) {
                out.viol(format!("request {i}: body read {}", diff(&g.data, &q.body)));
            }
            if matches!(plans[i].read, ReadPlan::All) && sent[i] && !g.clean() {
                out.viol(format!("request {i}: body sent but read fails: {:?} at {}", g.err, g.data.len()));
            }
            if !sent[i] && st.seen.len() > i + 1 {
                out.viol(format!("request {i}'s body was never sent, yet another request was served"));
            }
        }
        if let Some(x) = resp.iter().filter(|m| m.status() >= 200).nth(st.seen.len()) {
            out.viol(format!("more responses than service calls ({}), next is {}", st.seen.len(), x.status()));
        }
        out.nontrivial = !st.seen.is_empty();
    }
    out.count("events", sim.st(|s| s.events));
    out.sig = mix(sim.st(|s| s.hash), fnv(&wire.sent_by_a()));
    out.desc = Some(desc);
    out.trace = sim.take_log();
    out
}
